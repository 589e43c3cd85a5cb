// The web server: requests, replies, templates, files, and clients of any kind
#include "vf.h"

#include <dirent.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "eckit/config/ResourceMgr.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/net/SocketOptions.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPSocket.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/thread/ThreadControler.h"
#include "eckit/value/Value.h"
#include "eckit/web/Html.h"
#include "eckit/web/HtmlResource.h"
#include "eckit/web/HttpResource.h"
#include "eckit/web/HttpService.h"
#include "eckit/web/HttpStream.h"
#include "eckit/web/JSONResource.h"
#include "eckit/web/Url.h"

using namespace eckit;
using namespace vf;

namespace {

// nothing goes to the terminal
struct Silent {
    NullBuf none;
    std::streambuf* old;
    Silent() : old(std::cout.rdbuf(&none)) {}
};
Silent silent;

//---------------------------------------------------------------------------------------------------------------------
// a request, and the text of it

struct Request {
    std::string method;
    std::vector<std::string> path;
    std::map<std::string, std::string> query;
    std::vector<std::pair<std::string, std::string>> headers;  // different names
    std::string content;
    std::string text;
    std::string absent;  // no parameter
};

// text percent-encoded: what must be, and anything else that one likes, in either case
std::string encoded(Rng& r, const std::string& s, const std::string& plain) {
    std::ostringstream o;
    double often = r.pick(std::vector<double>{0, 0.1, 1});
    for (unsigned char ch : s) {
        if (ch == ' ' && r.chance(0.5)) {
            o << '+';
        }
        else if ((std::isalnum(ch) || (ch && ch < 128 && plain.find(ch) != std::string::npos)) && !r.chance(often)) {
            o << ch;
        }
        else {
            o << '%' << std::hex << (r.chance(0.5) ? std::uppercase : std::nouppercase) << std::setw(2) << std::setfill('0') << int(ch) << std::dec;
        }
    }
    return o.str();
}

std::string anyText(Rng& r, size_t n) {
    if (r.chance(0.06)) return r.pick(std::vector<std::string>{".", "..", "...", "~", "%", "*"});
    switch (r.below(4)) {
        case 0: return r.word(n);
        case 1: return r.word(n, "ab/=&?+% .:;#<>\"'");
        case 2: return r.bytes(1 + r.below(n));
        default: return r.word(n, "aZ09 +%25%2f");
    }
}

std::string queryText(Rng& r, const std::map<std::string, std::string>& m) {
    std::string s, sep;
    for (auto& [k, v] : m) {
        s += sep + encoded(r, k, "-_.~/?:@") + "=" + encoded(r, v, "-_.~/?:@=,");
        sep = "&";
    }
    return s;
}

Request request(Rng& r) {
    Request q;
    q.method = r.pick(std::vector<std::string>{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "BREW"});
    for (int i = 0, n = r.below(5); i < n; ++i) q.path.push_back(anyText(r, 12));
    for (int i = 0, n = r.below(5); i < n; ++i) q.query[anyText(r, 8)] = r.chance(0.1) ? "" : anyText(r, 20);
    std::string url;
    for (auto& p : q.path) url += (r.chance(0.1) ? "//" : "/") + encoded(r, p, "-_.~:@=,&");
    if (q.path.empty() || r.chance(0.1)) url += "/";
    bool form = r.chance(0.2), body = form || r.chance(0.3);
    if (!q.query.empty() && !form) url += "?" + queryText(r, q.query);
    std::set<std::string> names;
    for (int i = 0, n = r.below(6); i < n; ++i) {
        auto name = "X-" + r.word(10);
        if (!names.insert(name).second) continue;
        q.headers.emplace_back(name, r.chance(0.2) ? "" : r.chance(0.02) ? std::string(20000, 'l') : r.chance(0.3) ? r.word(30, "ab:;, =") + "." : "v" + r.word(20));
        auto& v = q.headers.back().second;
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    }
    if (body) {
        if (form) {
            q.content = queryText(r, q.query);
            if (q.content.empty()) q.content = "=";
            q.headers.emplace_back("Content-Type", "application/x-www-form-urlencoded");
        }
        else {
            q.content = r.bytes(1 + r.below(r.chance(0.1) ? 30000 : 200));
            // (which looks like parameters, and is not)
            if (r.chance(0.3)) {
                q.absent  = "not-" + r.word(8);
                q.content = q.absent + "=" + r.word(5) + "&x=1";
            }
            q.headers.emplace_back("Content-Type", r.pick(std::vector<std::string>{"text/plain", "text/x-form", "multipart/form-data; boundary=x", "application/json", "application/x-www"}));
        }
        q.headers.emplace_back("Content-Length", std::to_string(q.content.size()));
    }
    r.shuffle(q.headers);
    q.text = q.method + " " + url + " HTTP/1.0\r\n";
    for (auto& [k, v] : q.headers) {
        auto name = k;
        if (r.chance(0.3))
            for (auto& ch : name) ch = r.chance(0.5) ? std::toupper(ch) : std::tolower(ch);
        q.text += name + ":" + std::string(r.below(3), ' ') + v + "\r\n";
    }
    q.text += "\r\n" + q.content;
    return q;
}

void compare(Case& c, const Request& q, Url& url) {
    VF_EQ(url.method(), q.method, "web-request", "method");
    VF_EQ(url.size(), int(q.path.size()), "web-request", "elements of the path of " + repr(q.text));
    std::string name;
    for (size_t i = 0; i < q.path.size(); ++i) {
        VF_EQ(repr(url[int(i)]), repr(q.path[i]), "web-request", "element of the path of " + repr(q.text));
        name += "/" + q.path[i];
    }
    VF_EQ(repr(url.name()), repr(name), "web-request", "name");
    for (auto& [k, v] : q.query) VF_EQ(repr(url.get(k)), repr(v), "web-request", "parameter " + repr(k) + " of " + repr(q.text));
    if (!q.absent.empty()) VF_EQ(repr(url.get(q.absent)), repr(""), "web-request", "parameter " + repr(q.absent) + " of " + repr(q.text));
    for (auto& [k, v] : q.headers) VF_EQ(url.headerIn().getHeader(k), v, "web-request", "header " + k + " of " + repr(q.text));
    VF_EQ(repr(url.headerIn().content()), repr(q.content), "web-request", "content");
    VF_EQ(url.headerIn().contentLength(), long(q.content.size()), "web-request", "length");
}

//---------------------------------------------------------------------------------------------------------------------
// a reply, taken to pieces: a status line, headers, an empty line, as many bytes as it says

struct Reply {
    long status = 0;
    std::string message, content, problem;
    std::map<std::string, std::string> headers;

    explicit Reply(const std::string& text) {
        size_t at = 0;
        auto line = [&](std::string& l) {
            size_t end = text.find("\r\n", at);
            if (end == std::string::npos) return false;
            l  = text.substr(at, end - at);
            at = end + 2;
            return true;
        };
        std::string l;
        if (!line(l) || l.compare(0, 9, "HTTP/1.0 ") || l.size() < 13 || l[12] != ' ') {
            problem = "no status line";
            return;
        }
        status  = std::atol(l.c_str() + 9);
        message = l.substr(13);
        if (l.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) problem = "control characters in the status";
        for (;;) {
            if (!line(l)) {
                problem = "no end of the header";
                return;
            }
            if (l.empty()) break;
            auto colon = l.find(": ");
            if (colon == std::string::npos || l.find('\n') != std::string::npos || !headers.emplace(l.substr(0, colon), l.substr(colon + 2)).second) {
                problem = "header " + repr(l);
                return;
            }
        }
        content = text.substr(at);
        if (!headers.count("Content-Length")) problem = "no length";
        else if (headers["Content-Length"] != std::to_string(content.size())) problem = headers["Content-Length"] + " bytes announced, " + std::to_string(content.size()) + " sent";
    }
};

std::string html(const std::string& s) {
    std::string t;
    for (char ch : s) {
        switch (ch) {
            case '<': t += "&lt;"; break;
            case '>': t += "&gt;"; break;
            case '&': t += "&amp;"; break;
            case '\n': t += "<BR>\n"; break;
            default: t += ch;
        }
    }
    return t;
}

struct Body : DataHandle {
    std::string text;
    void print(std::ostream& s) const override { s << "Body"; }
    Length openForRead() override { NOTIMP; }
    void openForWrite(const Length&) override {}
    void openForAppend(const Length&) override {}
    long read(void*, long) override { NOTIMP; }
    long write(const void* p, long n) override {
        text.append(static_cast<const char*>(p), n);
        return n;
    }
    void close() override {}
};

std::string replyOf(HttpStream& http, Url& url) {
    std::ostringstream out;
    Body body;
    http.write(out, url, body);
    return out.str() + body.text;
}

//---------------------------------------------------------------------------------------------------------------------
// resources of every kind

struct Echo : HtmlResource {
    using HtmlResource::HtmlResource;
    std::string kind;
    bool closed = false;
    Echo(const std::string& where, const std::string& k = "", bool c = false) : HtmlResource(where), kind(k), closed(c) {}
    bool restricted() override { return closed; }
    void answer(std::ostream& out, Url& url, const char* method) {
        // nothing of what is written by one that fails is sent
        if ((kind == "http" || kind == "user" || kind == "eckit" || kind == "std") && url.get("x").size() % 2) {
            out << "half of " << "an answer";
            if (url.get("x").size() % 3) out << std::flush;
        }
        if (kind == "http") throw HttpError(413, "much\r\nSet-Cookie: <" + url.get("x") + ">\r\n\r\nmore");
        if (kind == "user") throw UserError("user " + url.get("x"));
        if (kind == "eckit") throw SeriousBug("bug " + url.get("x"));
        if (kind == "std") {
            throw std::runtime_error("standard " + url.get("x"));
        }
        if (kind == "stream") {
            auto text = url.get("x") + std::string(std::strtol(url.get("n").c_str(), nullptr, 10), 's');
            auto* h   = new MemoryHandle(std::max<size_t>(text.size(), 1), true);
            h->openForWrite(0);
            h->write(text.data(), text.size());
            h->close();
            url.streamFrom(h, "application/x-vf");
            if (url.get("n") == "13") throw UserError("unlucky " + url.get("x"));
            if (url.get("n") == "17") throw std::runtime_error("unlucky " + url.get("x"));
            return;
        }
        if (kind == "type") {
            url.type("text/" + url.get("x"));
            url.location(url.get("y"));
            url.headerOut().setHeader("X-" + url.get("z"), url.get("x"));
            url.status(201, url.get("x"));
        }
        out << method << ' ' << resourceUrl() << ' ';
        for (auto& s : url.remaining()) out << '[' << s << ']';
        out << '{' << url.get("x") << '}' << url.headerIn().content();
    }
    void GET(std::ostream& s, Url& u) override { answer(s, u, "GET"); }
    void POST(std::ostream& s, Url& u) override { answer(s, u, "POST"); }
    void PUT(std::ostream& s, Url& u) override { answer(s, u, "PUT"); }
    void DELETE(std::ostream& s, Url& u) override { answer(s, u, "DELETE"); }
    void HEAD(std::ostream& s, Url& u) override { answer(s, u, "HEAD"); }
    void OPTIONS(std::ostream& s, Url& u) override { answer(s, u, "OPTIONS"); }
    void PATCH(std::ostream& s, Url& u) override { answer(s, u, "PATCH"); }
    void TRACE(std::ostream& s, Url& u) override { answer(s, u, "TRACE"); }
    void CONNECT(std::ostream& s, Url& u) override { answer(s, u, "CONNECT"); }
};

struct Plain : HtmlResource {  // what is not said to be done is not
    using HtmlResource::HtmlResource;
    void html(std::ostream& s, Url&) override { s << "plain"; }
};

struct Json : JSONResource {
    using JSONResource::JSONResource;
    void json(JSON& j, const Value& v) override { j.startObject(); j << "given" << v << "text" << std::string("<a>&\n\"") ; j.endObject(); }
};

struct Resources {
    Echo echo{"/vf"}, nested{"/vf/a/b"}, shadowed{"/deep/a"}, http{"/http", "http"}, user{"/user", "user"}, other{"/eckit", "eckit"}, standard{"/std", "std"},
        stream{"/stream", "stream"}, type{"/type", "type"}, closed{"/closed", "", true};
    Plain plain{"/plain"};
    Json json{"/json"};
    static Resources& instance() {
        static Resources r;
        return r;
    }
};

struct Expected {
    long status = 200;
    std::string content, contains, type = "text/html";
    bool exact = true;
    Value json;
    bool isJson = false;
};

// what the reply has to be, from the definition of the resources above
Expected expected(Request& q) {
    Expected e;
    static const std::set<std::string> methods{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT"};
    static const std::set<std::string> known{"/vf", "/vf/a/b", "/deep/a", "/http", "/user", "/eckit", "/std", "/stream", "/type", "/closed", "/plain", "/json"};
    std::string at;
    size_t i = 0;
    for (; i < q.path.size(); ++i) {
        at += "/" + q.path[i];
        if (known.count(at)) break;
    }
    auto x = q.query.count("x") ? q.query["x"] : std::string();
    if (i == q.path.size()) {
        e.status   = 404;
        e.exact    = false;
        e.contains = html("Url not found: ");
        return e;
    }
    if (at == "/closed") {
        e.status = 401;
        return e;
    }
    auto error = [&](long status, const std::string& text) {
        e.status   = status;
        e.exact    = false;
        e.contains = text;
    };
    bool ok = methods.count(q.method);
    if (at == "/json") {
        if (q.method == "GET" || q.method == "POST") {
            if (!q.content.empty() && q.content[0] != '{') {
                error(500, "error");
                e.status = -1;
                return e;
            }
            e.type   = "application/json";
            e.isJson = true;
            return e;
        }
        error(q.method == "HEAD" ? 400 : 501, "error");
        return e;
    }
    if (!ok) {
        error(501, "Unsupported HTTP method");
        return e;
    }
    if (at == "/plain") {
        if (q.method == "GET" || q.method == "POST") e.content = "plain";
        else error(q.method == "HEAD" ? 400 : 501, "error");
        return e;
    }
    if (at == "/http") error(413, "much");
    else if (at == "/user") error(400, "user ");
    else if (at == "/eckit") error(500, "bug ");
    else if (at == "/std") error(500, "standard ");
    else if (at == "/stream" && (q.query["n"] == "13" || q.query["n"] == "17")) error(q.query["n"] == "13" ? 400 : 500, "unlucky ");
    else if (at == "/stream") {
        e.content = x + std::string(std::strtol(q.query["n"].c_str(), nullptr, 10), 's');
        e.type    = "application/x-vf";
    }
    else {
        std::string t = q.method + " " + at + " ";
        for (++i; i < q.path.size(); ++i) t += "[" + q.path[i] + "]";
        t += "{" + x + "}" + q.content;
        e.content = html(t);
        if (at == "/type") {
            e.status = 201;
            e.type   = "";
        }
    }
    return e;
}

std::string check(const Request& q, const Expected& e, const std::string& text) {
    Reply reply(text);
    if (!reply.problem.empty()) return reply.problem + " in the reply " + repr(text.substr(0, 300)) + " to " + repr(q.text.substr(0, 300));
    if (e.status > 0 && reply.status != e.status) return "status " + std::to_string(reply.status) + " instead of " + std::to_string(e.status) + " to " + repr(q.text.substr(0, 300));
    if (e.status < 0 && reply.status < 400) return "no error";
    if (!e.type.empty() && e.exact && reply.headers["Content-Type"] != e.type) return "type " + reply.headers["Content-Type"];
    if (reply.headers.count("Set-Cookie")) return "a part of a request became a header";
    if (e.isJson) {
        try {
            Value v = JSONParser::decodeString(reply.content);
            if (std::string(v["text"]) != "<a>&\n\"") return "JSON " + repr(reply.content);
            if (q.content.empty())
                for (auto& [k, w] : q.query)
                    if (std::string(v["given"][k]) != w) return "parameter " + repr(k) + " in the JSON " + repr(reply.content);
        }
        catch (std::exception& x) {
            return "what is sent is not JSON: " + repr(reply.content) + ": " + x.what();
        }
        return "";
    }
    if (e.exact && reply.content != e.content) return "content " + repr(reply.content.substr(0, 300)) + " instead of " + repr(e.content.substr(0, 300)) + " for " + repr(q.text.substr(0, 300));
    if (!e.exact && reply.content.find("half of") != std::string::npos) return "half of an answer is sent: " + repr(reply.content.substr(0, 300));
    if (!e.exact && reply.content.find(e.contains) == std::string::npos) return "content " + repr(reply.content.substr(0, 300)) + " without " + e.contains;
    return "";
}

// a request for one of the resources
Request call(Rng& r) {
    static const std::vector<std::vector<std::string>> where{{"vf"}, {"vf", "a", "b"}, {"vf", "a"}, {"deep", "a"}, {"deep"}, {"http"}, {"user"}, {"eckit"}, {"std"}, {"stream"}, {"type"}, {"closed"}, {"plain"}, {"json"}, {"none"}, {}};
    auto q    = request(r);
    auto path = r.pick(where);
    for (int i = 0, n = r.below(3); i < n; ++i) path.push_back(r.chance(0.5) ? r.word(5) : anyText(r, 6));
    q.path = path;
    std::map<std::string, std::string> query{{"x", anyText(r, 20)}};
    if (r.chance(0.5)) query["n"] = std::to_string(r.chance(0.1) ? r.below(300000) : r.chance(0.3) ? r.pick(std::vector<int>{13, 17}) : int(r.below(100)));
    if (path.size() && path[0] == "type") query = {{"x", anyText(r, 20) + "\r\nSet-Cookie: a\r\n"}, {"y", "/b\nSet-Cookie: b\n\n"}, {"z", r.word(5) + "\r\nSet-Cookie: c\r\n\r\nhello"}};
    if (path.size() && path[0] == "json") {
        query = {{r.word(4), r.word(8, "abc<>&\"\\ ")}, {"x", r.word(9)}};
        if (r.chance(0.3)) q.content = "{\"a\": 1}"; else q.content.clear();
    }
    q.query = query;
    bool isForm = false;
    for (auto h = q.headers.begin(); h != q.headers.end();) {
        if (h->first == "Content-Type" || h->first == "Content-Length" || h->first == "Authorization") h = q.headers.erase(h);
        else ++h;
    }
    (void)isForm;
    std::string url;
    for (auto& p : q.path) url += "/" + encoded(r, p, "-_.~:@=,");
    if (url.empty()) url = "/";
    q.text = q.method + " " + url + "?" + queryText(r, q.query) + " HTTP/1.0\r\n";
    if (!q.content.empty()) {
        q.headers.emplace_back("Content-Type", q.content[0] == '{' ? "application/json" : "text/plain");
        q.headers.emplace_back("Content-Length", std::to_string(q.content.size()));
    }
    for (auto& [k, v] : q.headers) q.text += k + ": " + v + "\r\n";
    q.text += "\r\n" + q.content;
    return q;
}

}  // namespace

//---------------------------------------------------------------------------------------------------------------------
// Requests are taken to pieces

VF_WORKLOAD(requests, 400, 12000) {
    auto& r = c.rng;
    for (int k = 0; k < 5; ++k) {
        auto q = request(r);
        {
            std::istringstream in(q.text + "the next");
            Url url(in);
            compare(c, q, url);
            std::string rest((std::istreambuf_iterator<char>(in)), {});
            VF_EQ(rest, std::string("the next"), "web-request", "what is left after the request");
        }
        c.count("requests");
        if (!q.content.empty()) c.count("requests with content");
        c.distinct(q.text);
        // cut anywhere
        for (int i = 0; i < 6; ++i) {
            size_t n = r.below(q.text.size());
            std::istringstream in(q.text.substr(0, n));
            bool cutInHeader = q.text.find("\r\n\r\n") + 4 > n;
            try {
                Url url(in);
                // what is there was in the request
                VF_CHECK(cutInHeader || q.content.empty(), "web-cut", "a request without all of its content is taken: " + repr(q.text.substr(0, n)));
                for (auto& [k2, v] : q.headers) {
                    auto h = url.headerIn().getHeader(k2);
                    VF_CHECK(h.empty() || h == v || (k2 == "Content-Type" && h == "text/html"), "web-cut", "header " + k2 + " has the value " + repr(h) + " in the request " + repr(q.text.substr(0, n)));
                }
            }
            catch (std::exception&) {
                c.count("requests refused");
            }
            c.count("requests cut");
        }
        // damaged: anything may come of it, but an end
        for (int i = 0; i < 4; ++i) {
            auto t = q.text;
            for (int j = 0, m = 1 + r.below(4); j < m; ++j) {
                size_t at = r.below(t.size());
                switch (r.below(4)) {
                    case 0: t.erase(at, 1 + r.below(5)); break;
                    case 1: t.insert(at, r.pick(std::vector<std::string>{"%", ":", "\r\n", "\r", "\n", "=", "&", "?", "Content-Length: 99999999999\r\n", "Content-Length: -1\r\n", "Content-Length: x\r\n"})); break;
                    case 2: t[at] = char(r.u64()); break;
                    default: t = t.substr(0, at); break;
                }
                if (t.empty()) break;
            }
            std::istringstream in(t);
            refuses([&] {
                Url url(in);
                url.str();
                url.json();
            });
            c.count("requests damaged");
        }
        c.eval(11);
    }
    // one that says that it has a lot of content, or less than none
    for (const char* n : {"-5", "123456789012345", "9223372036854775807"}) {
        std::istringstream in(std::string("POST /a HTTP/1.0\r\nContent-Length: ") + n + "\r\n\r\nabc");
        VF_CHECK(refuses([&] { Url url(in); }), "web-content", std::string("a request with 3 bytes that says to have ") + n + " is taken");
    }
    c.eval(3);
}

VF_WORKLOAD(codes, 100, 4000) {
    auto& r = c.rng;
    for (int k = 0; k < 50; ++k) {
        auto s = anyText(r, 40);
        s.erase(std::remove(s.begin(), s.end(), '+'), s.end());
        auto e = Html::addHex(s);
        for (unsigned char ch : e) VF_CHECK(std::isalnum(ch) || std::strchr("+&/=?%", ch), "web-code", "what is encoded has the character " + std::to_string(ch));
        VF_EQ(repr(Html::removeHex(e)), repr(s), "web-code", "decoded from " + e);
        auto any = anyText(r, 40);
        VF_EQ(repr(Html::removeHex(encoded(r, any, ""))), repr(any), "web-code", "decoded");
        // the text of it may be anything, also one that ends with a part of a code
        auto bad = r.word(6, "a%4G");
        std::string out(Html::removeHex(std::string(bad.c_str())));
        VF_CHECK(out.size() <= bad.size(), "web-code", "longer");
        if (bad.find('%') == std::string::npos) VF_EQ(out, bad, "web-code", "text without codes");
        c.distinct(any);
    }
    c.count("texts coded", 150);
    c.eval(150);
    // a URL made by a program
    std::string text = "/";
    std::map<std::string, std::string> m;
    for (int i = 0, n = r.below(5); i < n; ++i) m[r.word(5)] = anyText(r, 10);
    text += r.word(5) + "?" + queryText(r, m);
    Url url(text);
    VF_EQ(url.method(), std::string("GET"), "web-url", "method");
    for (auto& [k, v] : m) VF_EQ(repr(std::string(url[k])), repr(v), "web-url", "parameter");
    long n     = r.in(-1000000, 1000000);
    url["num"] = n;
    VF_EQ(long(url["num"]), n, "web-url", "number");
    url["num"] = std::string("text");
    VF_EQ(std::string(url["num"]), std::string("text"), "web-url", "text");
    url.erase("num");
    VF_EQ(url.get("num"), std::string(), "web-url", "erased");
    std::string params = "x=1";
    std::ostringstream o;
    Url two("/a?p=1&q=2");
    two.cgiParam(o, ';');
    VF_EQ(o.str(), std::string(" p=1;q=2"), "web-url", "parameters");
    c.eval(5);
}

//---------------------------------------------------------------------------------------------------------------------
// Pages: what is written is what is sent, encoded or not

VF_WORKLOAD(pages, 200, 6000) {
    auto& r = c.rng;
    for (int k = 0; k < 4; ++k) {
        HttpStream http;
        Url url("/page");
        std::string model;
        bool encode = true;
        for (int i = 0, n = r.below(30); i < n; ++i) {
            switch (r.below(9)) {
                case 0: {
                    http << (encode ? HttpStream::dontEncode : HttpStream::doEncode);
                    encode = !encode;
                    break;
                }
                case 1: {
                    auto s = r.bytes(r.chance(0.1) ? r.below(20000) : r.below(100));
                    http.std::ostream::write(s.data(), s.size());
                    model += encode ? html(s) : s;
                    break;
                }
                case 2: {
                    http << std::endl;
                    model += encode ? "<BR>\n" : "\n";
                    break;
                }
                case 3: http << std::flush; break;
                case 4:
                    if (encode) {
                        auto name = r.word(6);
                        http << Html::Link(name) << name << Html::Link();
                        model += "<A HREF=\"" + name + "\">" + name + "</A>";
                    }
                    break;
                case 5:
                    if (encode) {
                        http << Html::BeginTable() << Html::Line() << Html::EndTable();
                        model += "<TABLE BORDER><HR></TABLE>";
                    }
                    break;
                case 6: {
                    long v = r.in(-1000, 1000);
                    http << v;
                    model += std::to_string(v);
                    break;
                }
                case 7: {
                    // right at the end of the buffer
                    size_t n = 4096 - r.below(3);
                    std::string s(n, '&');
                    http << s;
                    model += encode ? html(s) : s;
                    break;
                }
                default:
                    if (r.chance(0.1)) {
                        http.reset();
                        model.clear();
                    }
            }
        }
        long status      = 200;
        std::string text = "OK";
        if (r.chance(0.5)) {
            status = 200 + r.below(400);
            text   = r.word(20) + (r.chance(0.5) ? r.pick(std::vector<std::string>{"\r\nX: y", "\n", "\r\n\r\n<html>", "\r"}) : std::string());
            url.status(status, text);
        }
        Reply reply(replyOf(http, url));
        VF_EQ(reply.problem, std::string(), "web-page", "reply");
        VF_EQ(reply.status, status, "web-page", "status");
        if (text.find_first_of("\r\n") == std::string::npos) VF_EQ(reply.message, text, "web-page", "message");
        VF_CHECK(reply.content == model, "web-page", "the page sent, " + repr(reply.content.substr(0, 200)) + ", is not what was written, " + repr(model.substr(0, 200)));
        c.distinct(model);
        c.count("pages");
        c.count("bytes of pages", model.size());
        c.eval();
    }
}

VF_WORKLOAD(replies, 200, 6000) {
    auto& r = c.rng;
    Resources::instance();
    MemoryStream none("", 0);
    std::istringstream in2;
    for (int k = 0; k < 8; ++k) {
        auto q = call(r);
        auto e = expected(q);
        std::istringstream in(q.text);
        Url url(in);
        HttpStream http;
        try {
            HttpResource::dispatch(none, in2, http, url);
        }
        catch (std::exception& x) {
            VF_CHECK(e.status == 500 && (q.path[0] == "std" || q.query["n"] == "17"), "web-reply", std::string("exception ") + x.what());
            continue;
        }
        auto p = check(q, e, replyOf(http, url));
        VF_CHECK(p.empty(), "web-reply", p);
        c.count("replies");
        if (e.status >= 400 || e.status < 0) c.count("replies with an error");
        if (e.isJson) c.count("replies in JSON");
        c.distinct(q.text);
        c.eval();
    }
}

//---------------------------------------------------------------------------------------------------------------------
// Templates and files

VF_WORKLOAD(templates, 60, 2000) {
    auto& r = c.rng;
    PathName home("~");
    // everything that is served is below these, one thing is not
    PathName("~/html/sub").mkdir();
    PathName("~/html/image").mkdir();
    PathName("~/http/files/sub").mkdir();
    {
        std::ofstream((home + "/secret").localPath()) << "this is a secret\n";
        std::ofstream((home + "/http/secret").localPath()) << "this is a secret\n";
        std::ofstream((home + "/html/secret.").localPath()) << "nothing\n";
    }
    for (int k = 0; k < 6; ++k) {
        // a template
        Html::Substitute values;
        std::map<std::string, std::string> m;
        for (int i = 0, n = r.below(4); i < n; ++i) {
            auto name    = r.word(3);
            auto v       = r.word(10, "ab<>&x");
            values[name] = m[name] = v;
        }
        std::string file, model;
        for (int i = 0, n = r.below(10); i < n; ++i) {
            if (r.chance(0.5)) {
                auto s = r.word(20, "ab<>&\n x\"");
                file += s;
                model += s;
            }
            else {
                auto name = !m.empty() && r.chance(0.7) ? std::next(m.begin(), r.below(m.size()))->first : r.word(4);
                file += "%" + name + "%";
                model += m.count(name) ? html(m[name]) : "%" + name + "%";
            }
        }
        auto name = "t" + std::to_string(r.below(3));
        std::ofstream((home + "/html/sub/" + name).localPath()) << file;
        {
            HttpStream http;
            Url url("/page");
            http << Html::Include("sub/" + name, values);
            Reply reply(replyOf(http, url));
            VF_EQ(reply.problem, std::string(), "web-template", "reply");
            VF_CHECK(reply.content == model, "web-template", "the page made of " + repr(file) + " is " + repr(reply.content) + ", not " + repr(model));
        }
        c.count("templates");
        c.distinct(file);
        // a page, an image, a file
        auto text = r.bytes(r.below(3000));
        std::string lines = r.word(2000, "abc\n<&x");
        std::ofstream((home + "/html/image/" + name).localPath()) << text;
        std::ofstream((home + "/http/files/sub/" + name).localPath()) << lines;
        MemoryStream none("", 0);
        std::istringstream in2;
        auto get = [&](const std::string& where) {
            Url url(where);
            HttpStream http;
            HttpResource::dispatch(none, in2, http, url);
            return Reply(replyOf(http, url));
        };
        {
            Reply p = get("/html/sub/" + name), i = get("/image/" + name), f = get("/files/sub/" + name);
            std::string raw;
            VF_CHECK(p.problem.empty() && i.problem.empty() && f.problem.empty(), "web-file", p.problem + i.problem + f.problem);
            VF_CHECK(p.content == file, "web-file", "the page " + repr(file) + " is given as " + repr(p.content));
            VF_CHECK(i.content == text, "web-file", "the image is not the one in the file");
            VF_CHECK(f.content == lines, "web-file", "the file " + repr(lines) + " is given as " + repr(f.content));
            VF_EQ(i.headers["Content-Type"], std::string("image/gif"), "web-file", "type of an image");
            VF_EQ(get("/image/none").status, 404L, "web-file", "status of an image that does not exist");
            c.count("files served", 3);
        }
        // whatever is asked, only these
        for (int i = 0; i < 8; ++i) {
            std::string where = r.pick(std::vector<std::string>{"/html", "/image", "/files"});
            for (int j = 0, n = 1 + r.below(5); j < n; ++j) {
                auto up = r.pick(std::vector<std::string>{"..", "sub", "../..", ".", "../../..", "", "sub/.."});
                where += (r.chance(0.5) ? "/" : "%2F") + encoded(r, up, "./");
            }
            if (r.chance(0.5)) {
                int up = r.below(5);
                where  = r.pick(std::vector<std::string>{"/html", "/image", "/files", "/files/sub"});
                for (int j = 0; j < up; ++j) where += r.pick(std::vector<std::string>{"/..", "/%2e%2e", "%2F..", "/sub%2F..%2F..", "/.%2E"});
            }
            auto reply = get(where + "/secret");
            VF_CHECK(reply.content.find("this is a secret") == std::string::npos, "web-escape", where + "/secret gives a file outside of the folders that are served");
            c.count("paths that lead elsewhere");
        }
        c.eval(12);
    }
}

//---------------------------------------------------------------------------------------------------------------------
// A server, and clients of every kind

namespace {

class Server : public HttpService {
    long timeout() const override { return 1; }

public:
    Server() : HttpService(0, false) {}
};

int sockets() {
    int n  = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (auto* e = ::readdir(d)) {
        char b[200];
        ssize_t l = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof(b));
        n += l > 7 && !std::strncmp(b, "socket:", 7);
    }
    ::closedir(d);
    return n;
}

std::string exchange(Rng& r, int port, const std::string& text, bool finish, size_t piece) {
    net::TCPClient client;
    client.connect("127.0.0.1", port, 3, 0);
    struct timeval limit{30, 0};
    ::setsockopt(client.socket(), SOL_SOCKET, SO_RCVTIMEO, &limit, sizeof limit);
    for (size_t at = 0; at < text.size();) {
        size_t n = std::min(text.size() - at, 1 + r.below(piece));
        if (::send(client.socket(), text.data() + at, n, MSG_NOSIGNAL) != ssize_t(n)) break;
        at += n;
        if (r.chance(0.1)) ::usleep(r.below(500));
    }
    if (finish) ::shutdown(client.socket(), SHUT_WR);
    std::string got;
    char b[5000];
    for (;;) {
        ssize_t n = ::recv(client.socket(), b, sizeof b, 0);
        if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) return "no reply for 30 seconds";
        if (n <= 0) break;
        got.append(b, n);
    }
    return got;
}

}  // namespace

VF_WORKLOAD(server, 16, 300) {
    auto& r = c.rng;
    Resources::instance();
    int before = sockets();
    std::mutex m;
    std::vector<std::string> problems;
    std::atomic<long> good{0}, bad{0}, away{0};
    {
        auto* server = new Server;
        int port     = server->port();
        ThreadControler controller(server, false);
        controller.start();
        std::vector<std::thread> clients;
        for (int k = 0, n = 2 + r.below(7); k < n; ++k) {
            Rng mine(r.u64());
            clients.emplace_back([&, mine, port]() mutable {
                auto& r      = mine;
                auto problem = [&](const std::string& p) {
                    std::lock_guard<std::mutex> lock(m);
                    problems.push_back(p);
                };
                try {
                    for (int i = 0; i < 12; ++i) {
                        auto q       = call(r);
                        size_t piece = r.pick(std::vector<size_t>{1, 10, 100000});
                        if (q.text.size() > 3000) piece = 100000;
                        switch (r.below(6)) {
                            case 0: {  // goes away in the middle
                                auto got = exchange(r, port, q.text.substr(0, r.below(q.text.size())), true, piece);
                                if (got == "no reply for 30 seconds") problem("the server waits for the rest of a request of a client that has left");
                                ++away;
                                break;
                            }
                            case 1: {  // nonsense
                                auto t = q.text;
                                for (int j = 0; j < 5; ++j) t[r.below(t.size())] = char(r.u64());
                                auto got = exchange(r, port, t, true, piece);
                                if (got == "no reply for 30 seconds") problem("the server never ends " + repr(t));
                                ++bad;
                                break;
                            }
                            default: {
                                auto e   = expected(q);
                                auto got = exchange(r, port, q.text, r.chance(0.3), piece);
                                auto p   = got == "no reply for 30 seconds" ? got : check(q, e, got);
                                if (!p.empty()) problem(p);
                                ++good;
                            }
                        }
                    }
                }
                catch (std::exception& x) {
                    problem(std::string("exception ") + x.what());
                }
            });
        }
        for (auto& t : clients) t.join();
        controller.stop();
        controller.wait();
    }
    for (int k = 0; k < 2000 && sockets() > before; ++k) ::usleep(5000);
    VF_CHECK(problems.empty(), "web-server", problems[0] + " (" + std::to_string(problems.size()) + " problems)");
    VF_EQ(sockets(), before, "web-server", "sockets open after all clients went away");
    c.count("replies of the server", good);
    c.count("nonsense sent to the server", bad);
    c.count("clients that went away", away);
    c.eval(good + bad + away);
    c.distinct(r.u64());
}
