// Channels, targets and what is printed: every byte written to a channel reaches every target once, whole and in order
#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/log/BigNum.h"
#include "eckit/log/Bytes.h"
#include "eckit/log/CallbackTarget.h"
#include "eckit/log/Channel.h"
#include "eckit/log/Colour.h"
#include "eckit/log/ColouringTarget.h"
#include "eckit/log/ETA.h"
#include "eckit/log/FileTarget.h"
#include "eckit/log/IndentTarget.h"
#include "eckit/log/Log.h"
#include "eckit/log/LogTarget.h"
#include "eckit/log/Number.h"
#include "eckit/log/OStreamTarget.h"
#include "eckit/log/Plural.h"
#include "eckit/log/PrefixTarget.h"
#include "eckit/log/RotationTarget.h"
#include "eckit/log/Seconds.h"
#include "eckit/log/Statistics.h"
#include "eckit/log/SysLog.h"
#include "eckit/log/TeeTarget.h"
#include "eckit/log/TimeStamp.h"
#include "eckit/log/TimeStampTarget.h"
#include "eckit/log/UserChannel.h"
#include "eckit/log/WrapperTarget.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"

#include "children.h"

#include <unistd.h>

#include <fstream>
#include <iomanip>
#include <regex>
#include <thread>

#include <dlfcn.h>
#include <sys/syscall.h>
#include <ctime>

using namespace eckit;
using vf::Rng;

// the day may be any
static std::atomic<long> frozen{0};

extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
    if (id == CLOCK_REALTIME && frozen) {
        t->tv_sec  = frozen;
        t->tv_nsec = 0;
        return 0;
    }
    return int(::syscall(SYS_clock_gettime, id, t));
}

extern "C" time_t time(time_t* t) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    if (t) *t = now.tv_sec;
    return now.tv_sec;
}

namespace {

std::string word(Rng& r, int min, int max) {
    std::string s;
    for (long n = r.in(min, max); n > 0; --n) s += char('a' + r.below(26));
    return s;
}

std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
}

//---------------------------------------------------------------------------------------------------------------------
// what targets are supposed to do

struct Model {
    virtual ~Model() = default;
    virtual void write(const std::string&) = 0;
};
using ModelPtr = std::shared_ptr<Model>;

struct MSink : Model {
    std::string text;
    void write(const std::string& s) override { text += s; }
};

struct MTee : Model {
    ModelPtr a, b;
    MTee(ModelPtr x, ModelPtr y) : a(x), b(y) {}
    void write(const std::string& s) override {
        if (a) a->write(s);
        if (b) b->write(s);
    }
};

/// lines that are not empty start with a prefix, every line ends with a suffix
struct MWrap : Model {
    std::string prefix, suffix;
    ModelPtr to;
    bool start = true;
    MWrap(std::string p, std::string s, ModelPtr t) : prefix(p), suffix(s), to(t) {}
    void write(const std::string& s) override {
        std::string out;
        for (char ch : s) {
            if (ch == '\n') {
                out += suffix + "\n";
                start = true;
                continue;
            }
            if (start) out += prefix;
            start = false;
            out += ch;
        }
        to->write(out);
    }
};

struct MIndent : MWrap {
    using MWrap::MWrap;
};

//---------------------------------------------------------------------------------------------------------------------
// targets under observation

struct Seen {
    std::string text;
    long flushes = 0;
    bool gone    = false;
};

struct Recording : LogTarget {
    std::shared_ptr<Seen> seen;
    explicit Recording(std::shared_ptr<Seen> s) : seen(s) {}
    ~Recording() override { seen->gone = true; }
    void write(const char* a, const char* b) override {
        if (a < b) seen->text.append(a, b);
    }
    void flush() override { ++seen->flushes; }
    void print(std::ostream& s) const override { s << "Recording"; }
};

/// a wrapper by the user
struct Brackets : WrapperTarget {
    explicit Brackets(LogTarget* t) : WrapperTarget(t) {}
    void writePrefix() override {
        const char* p = "<<";
        target_->write(p, p + 2);
    }
    void writeSuffix() override {
        const char* p = ">>";
        target_->write(p, p + 2);
    }
    void print(std::ostream& s) const override { s << "Brackets"; }
};

std::ostream& plus(std::ostream& o) { return o << "{+"; }
std::ostream& minus(std::ostream& o) { return o << "-}"; }

struct Syncs : std::stringbuf {
    long n = 0;
    int sync() override {
        ++n;
        return std::stringbuf::sync();
    }
};

void callback(void* p, const char* line) {
    static_cast<std::string*>(p)->append(line).append("\n");
}

struct Sink {
    std::string kind;
    std::shared_ptr<MSink> model = std::make_shared<MSink>();
    std::shared_ptr<Seen> seen;          // Recording
    std::shared_ptr<Syncs> buf;          // OStreamTarget
    std::shared_ptr<std::ostream> out;
    std::string path;                    // FileTarget
    std::shared_ptr<std::string> lines;  // CallbackTarget

    std::string got() const {
        if (seen) return seen->text;
        if (buf) return buf->str();
        if (lines) return *lines;
        return slurp(path);
    }
    std::string want() const {
        if (!lines) return model->text;
        auto e = model->text.rfind('\n');
        return e == std::string::npos ? "" : model->text.substr(0, e + 1);
    }
};

std::string diff(const std::string& got, const std::string& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    return "at " + std::to_string(i) + ": got " + vf::repr(got.substr(i > 20 ? i - 20 : 0, 60)) + " (" + std::to_string(got.size()) + " bytes), written " +
           vf::repr(want.substr(i > 20 ? i - 20 : 0, 60)) + " (" + std::to_string(want.size()) + ")";
}

std::string text(Rng& r, bool longLines) {
    std::string s;
    int n = int(r.in(0, 5));
    for (int i = 0; i < n; ++i) {
        size_t len = r.chance(.15) ? 0 : r.chance(.8) ? r.below(60) : longLines ? r.pick(std::vector<size_t>{1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 9000}) : r.below(1020);
        char base  = char('a' + r.below(26));
        for (size_t k = 0; k < len; ++k) s += char(r.chance(.1) ? r.in(33, 126) : base + 0);
        if (i + 1 < n || r.chance(.7)) s += '\n';
    }
    return s;
}

struct Chan {
    std::unique_ptr<Channel> real;
    ModelPtr model;
    std::string pending;

    void deliver() {
        if (model && !pending.empty()) model->write(pending);
        pending.clear();
    }
};

}  // namespace

VF_WORKLOAD(channels, 2500, 100000) {
    auto& r = c.rng;
    std::vector<Sink> sinks;
    std::vector<Chan> chans(1 + r.below(2));
    for (auto& ch : chans) ch.real.reset(new Channel());

    // a new target and its model
    std::function<std::pair<LogTarget*, ModelPtr>(int)> make = [&](int depth) -> std::pair<LogTarget*, ModelPtr> {
        int k = int(r.below(depth ? 8 : 4));
        if (k >= 4) {
            auto in = make(depth - 1);
            switch (k) {
                case 4: {
                    std::string p = word(r, 1, 8), sp = r.pick(std::vector<std::string>{" ", "", ": "});
                    // the space is kept as a pointer
                    static std::set<std::string> keep;
                    const char* s = keep.insert(sp).first->c_str();
                    c.trace() << " prefix";
                    return {new PrefixTarget(p, in.first, s), std::make_shared<MWrap>(p + sp, "", in.second)};
                }
                case 5:
                    c.trace() << " colour";
                    return {new ColouringTarget(in.first, plus, minus), std::make_shared<MWrap>("{+", "-}", in.second)};
                case 6:
                    c.trace() << " brackets";
                    return {new Brackets(in.first), std::make_shared<MWrap>("<<", ">>", in.second)};
                default: {
                    auto other = make(depth - 1);
                    c.trace() << " tee";
                    return {new TeeTarget(in.first, other.first), std::make_shared<MTee>(in.second, other.second)};
                }
            }
        }
        Sink s;
        LogTarget* t;
        if (k == 0) {
            s.kind = "recording";
            s.seen = std::make_shared<Seen>();
            t      = new Recording(s.seen);
        }
        else if (k == 1) {
            s.kind = "stream";
            s.buf  = std::make_shared<Syncs>();
            s.out  = std::make_shared<std::ostream>(s.buf.get());
            t      = new OStreamTarget(*s.out);
        }
        else if (k == 2) {
            s.kind  = "callback";
            s.lines = std::make_shared<std::string>();
            t       = new CallbackTarget(callback, s.lines.get());
        }
        else {
            s.kind = "file";
            s.path = c.scratch + "/f" + std::to_string(sinks.size());
            if (r.chance(.3)) {
                std::ofstream f(s.path);
                f << "before\n";
                s.model->text = "before\n";
            }
            t = new FileTarget(s.path, r.pick(std::vector<size_t>{4096, 0, 1, 100, 65536}));
        }
        c.trace() << " " << s.kind;
        c.count(s.kind + " targets", 1);
        sinks.push_back(s);
        return {t, s.model};
    };

    auto flushOthers = [&](Chan& me) {
        for (auto& ch : chans)
            if (&ch != &me && !ch.pending.empty()) {
                ch.real->flush();
                ch.deliver();
            }
    };

    auto check = [&](const char* when) {
        for (auto& ch : chans) {
            ch.real->flush();
            ch.deliver();
        }
        for (auto& s : sinks) {
            std::string g = s.got(), w = s.want();
            c.eval(1);
            c.count("texts compared", 1);
            c.count("bytes compared", w.size());
            if (g != w) c.fail("log-" + s.kind, std::string(when) + ", a target that is a " + s.kind + " was not given what was written, " + diff(g, w));
        }
    };

    int ops = int(r.in(5, 40));
    for (int i = 0; i < ops; ++i) {
        Chan& ch = chans[r.below(chans.size())];
        flushOthers(ch);
        Channel& x = *ch.real;
        int op     = int(r.below(20));
        c.trace() << "; " << (&ch - &chans[0]) << ":";
        if (op < 10) {
            std::string t = text(r, true);
            c.trace() << "write " << t.size();
            if (r.chance(.5)) {
                x << t;
            }
            else if (r.chance(.7)) {
                for (size_t p = 0; p < t.size();) {
                    size_t n = 1 + r.below(r.pick(std::vector<size_t>{10, 700, 3000}));
                    n        = std::min(n, t.size() - p);
                    if (r.chance(.5))
                        x.write(t.data() + p, std::streamsize(n));
                    else
                        x << t.substr(p, n);
                    p += n;
                }
            }
            else {
                for (char b : t) x.put(b);
            }
            ch.pending += t;
            if (r.chance(.3)) {
                x << std::endl;
                ch.pending += '\n';
                ch.deliver();
            }
            if (r.chance(.2)) {
                x.flush();
                ch.deliver();
            }
            VF_CHECK(!x.fail() && !x.bad(), "log-state", "the stream of a channel failed after a write");
        }
        else if (op == 10 || op == 11) {
            c.trace() << "set";
            ch.deliver();
            auto t = make(2);
            x.setTarget(t.first);
            ch.model = t.second;
        }
        else if (op == 12 || op == 13) {
            c.trace() << "add";
            auto t = make(2);
            ch.deliver();
            x.addTarget(t.first);
            ch.model = ch.model ? ModelPtr(std::make_shared<MTee>(ch.model, t.second)) : t.second;
        }
        else if (op == 14) {
            Sink s;
            bool add = r.chance(.5);
            int k    = int(r.below(3));
            ch.deliver();
            c.trace() << (add ? "add" : "set") << k;
            if (k == 0) {
                s.kind = "stream";
                s.buf  = std::make_shared<Syncs>();
                s.out  = std::make_shared<std::ostream>(s.buf.get());
                add ? x.addStream(*s.out) : x.setStream(*s.out);
            }
            else if (k == 1) {
                s.kind  = "callback";
                s.lines = std::make_shared<std::string>();
                add ? x.addCallback(callback, s.lines.get()) : x.setCallback(callback, s.lines.get());
            }
            else {
                s.kind = "file";
                s.path = c.scratch + "/f" + std::to_string(sinks.size());
                add ? x.addFile(s.path) : x.setFile(s.path);
            }
            c.count(s.kind + " targets", 1);
            sinks.push_back(s);
            ch.model = add && ch.model ? ModelPtr(std::make_shared<MTee>(ch.model, s.model)) : ModelPtr(s.model);
        }
        else if (op == 15 && ch.model) {
            static const std::vector<std::string> spaces = {"", "   ", "\t", "* "};
            const std::string& sp                        = r.pick(spaces);
            c.trace() << "indent";
            // how much an indentation is depends on the text given: seen once
            static std::map<std::string, std::string> seen;
            if (!seen.count(sp)) {
                auto rec = std::make_shared<Seen>();
                Channel probe(new Recording(rec));
                probe.indent(sp.c_str());
                probe << "x" << std::endl;
                VF_CHECK(rec->text.size() >= 2 && rec->text.substr(rec->text.size() - 2) == "x\n" && rec->text.find(sp) != std::string::npos && rec->text.size() > 2, "log-indent",
                         "a line indented by " + vf::repr(sp) + " is " + vf::repr(rec->text));
                seen[sp] = rec->text.substr(0, rec->text.size() - 2);
            }
            ch.deliver();
            x.indent(sp.c_str());
            ch.model = std::make_shared<MIndent>(seen[sp], "", ch.model);
            c.count("indentations", 1);
        }
        else if (op == 16 && ch.model) {
            auto top = std::dynamic_pointer_cast<MIndent>(ch.model);
            c.trace() << "unindent";
            ch.deliver();
            bool refused = vf::refuses([&] { x.unindent(); });
            VF_CHECK(refused == !top, "log-unindent", std::string("unindent() of a channel that is ") + (top ? "" : "not ") + "indented was " + (refused ? "refused" : "accepted"));
            if (top) {
                ch.model = top->to;
                c.count("indentations undone", 1);
            }
        }
        else if (op == 17) {
            c.trace() << "reset";
            ch.deliver();
            x.reset();
            ch.model.reset();
            VF_CHECK(!bool(x) && !x, "log-active", "a channel that was reset says that it is active");
        }
        else if (op == 18) {
            std::vector<long> before;
            for (auto& s : sinks) before.push_back(s.seen ? s.seen->flushes : 0);
            x.flush();
            ch.deliver();
        }
        else {
            check("during");
            VF_CHECK(bool(x) == bool(ch.model), "log-active", "a channel with a target says that it has none, or the contrary");
        }
    }
    check("at the end");
    // a flush goes to the stream, what is given away is destroyed
    for (auto& s : sinks)
        if (s.buf && s.model->text.size() && s.got().size()) VF_CHECK(s.buf->n > 0, "log-flush", "flushing a channel did not flush the stream it writes to");
    for (auto& ch : chans) {
        std::string t = text(r, true);
        *ch.real << t;
        ch.pending += t;
        ch.deliver();
        ch.real.reset();
    }
    for (auto& s : sinks) {
        VF_CHECK(!s.seen || s.seen->gone, "log-target-kept", "a target is not destroyed when nothing uses it");
        std::string g = s.got(), w = s.want();
        if (g != w) c.fail("log-" + s.kind, "after its channel was destroyed, a target that is a " + s.kind + " was not given what was written, " + diff(g, w));
    }
    c.distinct(uint64_t(sinks.size() * 1000 + ops));
}

// targets used by themselves: no flush before they go
VF_WORKLOAD(alone, 300, 10000) {
    auto& r          = c.rng;
    std::string path = c.scratch + "/f", want, lines;
    size_t size      = r.pick(std::vector<size_t>{4096, 0, 1, 64, 65536});
    bool call        = r.chance(.5);
    auto got         = std::make_shared<std::string>();
    LogTarget* t     = call ? static_cast<LogTarget*>(new CallbackTarget(callback, got.get())) : new FileTarget(path, size);
    if (r.chance(.3)) {
        t = new PrefixTarget("", t, "");
    }
    t->attach();
    for (int i = 0, n = int(r.in(1, 12)); i < n; ++i) {
        std::string s = text(r, true);
        if (r.chance(.2)) s = std::string(r.below(20000), 'z') + (r.chance(.5) ? "\n" : "");
        t->write(s.data(), s.data() + s.size());
        want += s;
        if (r.chance(.1)) t->flush();
    }
    t->detach();
    std::string g = call ? *got : slurp(path);
    if (call) want = want.rfind('\n') == std::string::npos ? "" : want.substr(0, want.rfind('\n') + 1);
    c.eval(1);
    c.count("targets used alone", 1);
    c.count("bytes compared", want.size());
    if (g != want) c.fail(call ? "log-callback" : "log-file", std::string("a ") + (call ? "callback" : "file") + " target was not given what was written, " + diff(g, want));
}

namespace {
struct Messages : UserMsg {
    std::vector<std::pair<char, std::string>> got;
    void infoMsg(const std::string& s) override { got.push_back({'I', s}); }
    void warningMsg(const std::string& s) override { got.push_back({'W', s}); }
    void errorMsg(const std::string& s) override { got.push_back({'E', s}); }
    void notifyClient(const std::string& s) override { got.push_back({'N', s}); }
};
}  // namespace

VF_WORKLOAD(user, 500, 20000) {
    auto& r = c.rng;
    Messages m;
    std::vector<std::pair<char, std::string>> want;
    bool global = r.chance(.5);
    {
        std::unique_ptr<UserChannel> own;
        if (!global) own.reset(new UserChannel());
        UserChannel& u = global ? Log::user() : *own;
        u.userMsg(&m);
        VF_CHECK(u.userMsg() == &m, "log-user", "userMsg()");
        for (int i = 0, n = int(r.in(1, 20)); i < n; ++i) {
            if (r.chance(.1) && global) {
                std::string s = word(r, 1, 30);
                Log::notifyClient(s);
                want.push_back({'N', s});
                continue;
            }
            char type       = r.pick(std::vector<char>{'I', 'W', 'E'});
            std::ostream* o = &u;
            if (global)
                o = type == 'I' ? &Log::userInfo() : type == 'W' ? &Log::userWarning() : &Log::userError();
            else
                u.msgType(type == 'I' ? UserChannel::INFO : type == 'W' ? UserChannel::WARN : UserChannel::ERROR);
            std::string all;
            int lines = r.chance(.7) ? 1 : int(r.in(0, 4));
            for (int k = 0; k < lines; ++k) {
                std::string s = std::string(r.below(r.chance(.1) ? 250 : 40), char('a' + r.below(26)));
                if (k + 1 == lines && s.empty()) s = "x";
                *o << s;
                want.push_back({type, s});
                if (k + 1 < lines) *o << "\n";
            }
            if (r.chance(.6) && lines)
                *o << std::endl;
            else
                o->flush();
            if (r.chance(.2)) o->flush();
        }
        c.eval(1);
        VF_EQ(m.got.size(), want.size(), "log-user-count", "messages given to the user");
        // nothing more when it goes
    }
    if (global) {
        Log::user().flush();
        Log::user().userMsg(nullptr);
    }
    for (size_t i = 0; i < std::min(want.size(), m.got.size()); ++i) {
        VF_CHECK(m.got[i] == want[i], "log-user", "message " + std::to_string(i) + " to the user is " + vf::repr(m.got[i].second) + " (" + m.got[i].first + "), " + vf::repr(want[i].second) + " (" +
                                                      want[i].first + ") was written");
    }
    VF_EQ(m.got.size(), want.size(), "log-user-count", "messages given to the user, in the end");
    c.count("messages to the user", want.size());
    c.distinct(uint64_t(want.size()));
}

namespace {

/// lines are "t<thread> <number> <length> xxx."
std::string record(int t, int i, size_t len) {
    return "t" + std::to_string(t) + " " + std::to_string(i) + " " + std::to_string(len) + " " + std::string(len, char('a' + (t * 7 + i) % 26)) + ".";
}

void checkRecords(vf::Case& c, const std::string& text, const std::vector<std::vector<size_t>>& lens, const std::string& what, std::function<bool(std::string&)> strip = nullptr) {
    std::vector<size_t> next(lens.size(), 0);
    std::istringstream in(text);
    std::string line;
    long switches = 0, last = -1;
    while (std::getline(in, line)) {
        if (strip && !strip(line)) {
            c.fail("log-shared", what + ": a line is not as it should be: " + vf::repr(line.substr(0, 100)));
            return;
        }
        int t = -1, i = -1;
        size_t l = 0;
        if (sscanf(line.c_str(), "t%d %d %zu", &t, &i, &l) != 3 || t < 0 || size_t(t) >= lens.size() || line != record(t, i, l)) {
            c.fail("log-shared", what + ": a line was broken: " + vf::repr(line.substr(0, 100)));
            return;
        }
        if (size_t(i) != next[t] || size_t(i) >= lens[t].size() || lens[t][i] != l) {
            c.fail("log-shared", what + ": line " + std::to_string(i) + " of " + std::to_string(t) + " instead of line " + std::to_string(next[t]));
            return;
        }
        ++next[t];
        if (t != last) ++switches;
        last = t;
        c.eval(1);
    }
    for (size_t t = 0; t < lens.size(); ++t) VF_CHECK(next[t] == lens[t].size(), "log-shared", what + ": " + std::to_string(next[t]) + " of the " + std::to_string(lens[t].size()) + " lines of " + std::to_string(t));
    c.count("lines of many writers", text.empty() ? 0 : std::count(text.begin(), text.end(), '\n'));
    c.count("changes of writer seen", switches);
    c.distinct(vf::mix(uint64_t(switches)) ^ lens.size());
}

}  // namespace

VF_WORKLOAD(rotating, 60, 2000) {
    auto& r = c.rng;
    static std::atomic<int> unique{0};
    static const std::string dir = PathName("~/log").asString();
    struct Freeze {
        ~Freeze() { frozen = 0; }
    } freeze;
    const long day   = 86400;
    std::string name = "rot" + std::to_string(::getpid()) + "-" + std::to_string(unique++);
    frozen           = r.in(1, 30000) * day + r.in(0, day - 1);
    // what was in the files before, and each thread wrote, by day
    std::map<std::string, std::string> before;
    std::map<std::string, std::vector<std::string>> lines;
    auto file = [&] {
        time_t t = frozen;
        struct tm g;
        char b[40];
        ::strftime(b, sizeof b, "%Y-%m-%d", ::gmtime_r(&t, &g));
        return dir + "/" + b + "/out/" + name;
    };
    int n = int(r.in(2, 8)), seq = 0;
    bool single = true;
    for (int k = 0; k < n; ++k) {
        auto path = file();
        if (!lines.count(path) && r.chance(.4)) {
            PathName(PathName(path).dirName()).mkdir();
            std::ofstream(path) << (before[path] = "someone else wrote this\n");
        }
        auto& l    = lines[path];
        int others = r.chance(.3) ? int(r.in(2, 3)) : 1;
        if (others > 1) single = false;
        std::vector<std::thread> threads;
        for (int t = 0; t < others; ++t) {
            std::vector<std::string> mine;
            for (int i = 0, m = int(r.below(r.chance(.1) ? 100 : 6)); i < m; ++i) mine.push_back(std::to_string(++seq) + " " + std::string(r.below(r.chance(.1) ? (others > 1 ? 900 : 6000) : 60), 'x') + ".");
            l.insert(l.end(), mine.begin(), mine.end());
            auto write = [mine, name] {
                Channel x(new RotationTarget(name));
                for (auto& m : mine) x << m << std::endl;
            };
            if (others == 1) write();
            else threads.emplace_back(write);
        }
        for (auto& t : threads) t.join();
        switch (r.below(6)) {
            case 0: break;
            case 1: frozen = (frozen / day + 1) * day - 1; break;
            case 2: frozen = (frozen / day + 1) * day; break;
            case 3: frozen += r.in(1, day); break;
            case 4: frozen += day; break;
            default: frozen += r.in(1, 100) * day;
        }
    }
    for (auto& [path, l] : lines) {
        auto text = slurp(path), want = before[path];
        if (single) {
            for (auto& x : l) want += x + "\n";
            VF_CHECK(text == want, "log-rotate", path + " holds " + vf::repr(text.substr(0, 200)) + ", not the lines of that day, " + vf::repr(want.substr(0, 200)));
        }
        else {
            VF_CHECK(text.compare(0, want.size(), want) == 0, "log-rotate", path + " does not begin with what was in it");
            std::vector<std::string> got;
            std::istringstream in(text.substr(want.size()));
            for (std::string x; std::getline(in, x);) got.push_back(x);
            std::sort(got.begin(), got.end());
            std::sort(l.begin(), l.end());
            VF_CHECK(got == l, "log-rotate", path + " holds " + std::to_string(got.size()) + " lines, not the " + std::to_string(l.size()) + " of that day");
        }
        c.eval();
    }
    c.count("days of rotating logs", lines.size());
    c.distinct(vf::mix(uint64_t(seq)) ^ lines.size());
}

VF_WORKLOAD(shared, 80, 3000) {
    auto& r     = c.rng;
    int writers = int(r.in(2, 6));
    int mode    = int(r.below(4));
    std::vector<std::vector<size_t>> lens(writers);
    for (auto& l : lens) {
        l.resize(size_t(r.in(1, 120)));
        for (auto& x : l) x = r.chance(.8) ? r.below(80) : r.below(mode == 1 ? 900 : 3000);
    }
    c.trace() << "mode " << mode << " writers " << writers;
    static std::atomic<int> unique{0};
    if (mode == 0) {
        // processes appending to one file
        std::string path = c.scratch + "/log";
        std::vector<std::function<void(vf::Child&)>> bodies;
        for (int t = 0; t < writers; ++t)
            bodies.push_back([&, t](vf::Child&) {
                Channel x;
                x.setFile(path);
                for (size_t i = 0; i < lens[t].size(); ++i) x << record(t, int(i), lens[t][i]) << std::endl;
            });
        vf::children(c, bodies, 60);
        checkRecords(c, slurp(path), lens, "processes writing to one file");
        c.count("files shared by processes", 1);
        return;
    }
    std::vector<std::thread> threads;
    if (mode == 1) {
        // threads over rotating logs
        static const std::string dir = PathName("~/log").asString();  // where the logs are when nothing is configured
        std::string name = "log" + std::to_string(unique++);
        for (int t = 0; t < writers; ++t)
            threads.emplace_back([&, t] {
                Channel x(new RotationTarget(name));
                for (size_t i = 0; i < lens[t].size(); ++i) x << record(t, int(i), lens[t][i]) << std::endl;
            });
        for (auto& t : threads) t.join();
        // one directory for each day (two if the day changes during the test)
        std::string all;
        for (int day = 1; day >= 0; --day) all += slurp(std::string(TimeStamp(::time(nullptr) - day * 86400, dir + "/%Y-%m-%d/out")) + "/" + name);
        checkRecords(c, all, lens, "threads writing to a rotating log");
        c.count("rotating logs", 1);
    }
    else if (mode == 2) {
        // threads appending to one file, through targets of their own
        std::string path = c.scratch + "/log";
        bool prefix      = r.chance(.5);
        for (int t = 0; t < writers; ++t)
            threads.emplace_back([&, t] {
                LogTarget* f = new FileTarget(path);
                Channel x(prefix ? new PrefixTarget("PRE", f) : f);
                for (size_t i = 0; i < lens[t].size(); ++i) x << record(t, int(i), lens[t][i]) << std::endl;
            });
        for (auto& t : threads) t.join();
        checkRecords(c, slurp(path), lens, "threads writing to one file", [&](std::string& l) {
            if (!prefix) return true;
            if (l.compare(0, 4, "PRE ") != 0) return false;
            l = l.substr(4);
            return true;
        });
        c.count("files shared by threads", 1);
    }
    else {
        // the channels of the log belong to each thread
        std::vector<std::string> got(writers);
        bool file = r.chance(.4);
        for (int t = 0; t < writers; ++t)
            threads.emplace_back([&, t] {
                std::string path = c.scratch + "/log" + std::to_string(t);
                if (file)
                    Log::setFile(path);
                else
                    Log::setCallback(callback, &got[t]);
                for (size_t i = 0; i < lens[t].size(); ++i) {
                    std::ostream& o = i % 3 == 0 ? Log::info() : i % 3 == 1 ? Log::warning() : Log::error();
                    o << record(t, int(i), lens[t][i]) << std::endl;
                }
                Log::flush();
                Log::reset();
                // nothing any more
                Log::info() << "lost" << std::endl;
                if (file) got[t] = slurp(path);
            });
        for (auto& t : threads) t.join();
        for (int t = 0; t < writers; ++t) {
            auto only = lens;
            for (int k = 0; k < writers; ++k)
                if (k != t) only[k].clear();
            checkRecords(c, got[t], only, "a thread with logs of its own");
        }
        c.count("threads with logs of their own", writers);
    }
}

//---------------------------------------------------------------------------------------------------------------------

namespace {

std::string grouped(long long v) {
    std::string d = std::to_string(v), s;
    bool neg = d[0] == '-';
    if (neg) d = d.substr(1);
    for (size_t i = 0; i < d.size(); ++i) {
        if (i && (d.size() - i) % 3 == 0) s += ',';
        s += d[i];
    }
    return (neg ? "-" : "") + s;
}

double magnitude(const std::string& u) {
    static const std::string m = "KMGTPEZY";
    if (u.empty()) return 1;
    auto p = m.find(u[0]);
    return p == std::string::npos ? NAN : std::pow(1024., double(p + 1));
}

long long edgyLong(Rng& r) {
    if (r.chance(.3)) return r.in(-2000, 2000);
    if (r.chance(.3)) {
        long long p = 1;
        for (int i = int(r.below(19)); i > 0; --i) p *= 10;
        return (p + r.in(-1, 1)) * (r.chance(.3) ? -1 : 1);
    }
    long long v = (long long)(r.u64() >> r.below(64));
    return v == LLONG_MIN ? 0 : v;
}

/// year, month, ... of a time, by counting days
std::string civil(long long t, const char* fmt) {
    long long days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
    long long s    = t - days * 86400;
    long long y    = 1970;
    auto leap      = [](long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    while (days < 0) days += leap(--y) ? 366 : 365;
    while (days >= (leap(y) ? 366 : 365)) days -= leap(y++) ? 366 : 365;
    int lens[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, m = 0;
    while (days >= lens[m]) days -= lens[m++];
    char b[100];
    snprintf(b, sizeof b, fmt, y, m + 1, int(days + 1), int(s / 3600), int(s / 60 % 60), int(s % 60));
    return b;
}

}  // namespace

VF_WORKLOAD(formats, 3000, 150000) {
    auto& r = c.rng;
    {
        long long v = edgyLong(r);
        std::ostringstream os;
        os << BigNum(v) << '|' << std::setw(5) << 7;
        std::string want = grouped(v) + "|    7";
        VF_EQ(os.str(), want, "format-bignum", "BigNum(" + std::to_string(v) + ") and what follows");
        int n = int(r.chance(.5) ? r.in(0, 3) : r.in(0, 2000000000));
        std::ostringstream op;
        op << Plural(n, "file");
        VF_EQ(op.str(), grouped(n) + (n > 1 ? " files" : " file"), "format-plural", "Plural");
        unsigned long long w = r.u64() >> r.below(64);
        std::string bin, hex;
        for (unsigned long long k = w; k; k >>= 1) bin.insert(bin.begin(), char('0' + (k & 1)));
        for (unsigned long long k = w; k; k >>= 4) hex.insert(hex.begin(), "0123456789abcdef"[k & 15]);
        if (w) VF_EQ(log::Number::printBinary(w), bin, "format-binary", "binary of " + std::to_string(w));
        VF_EQ(log::Number::printHexadecimal(w), hex.empty() ? "0" : hex, "format-hexadecimal", "hexadecimal of " + std::to_string(w));
    }
    {
        double b = r.chance(.3) ? double(r.in(0, 5000)) : r.chance(.4) ? std::ldexp(r.real(0.5, 2), int(r.below(95))) : std::pow(1024., double(r.below(9))) * r.pick(std::vector<double>{1, 99, 100, 101, 1023, 1023.99, .999, 9.94, 9.96, 99.4, 99.6});
        if (r.chance(.2)) b = -b;
        if (r.chance(.5)) b = std::rint(b);
        bool rate = r.chance(.3);
        double dt = r.real(0.001, 100);
        Bytes x   = rate ? Bytes(b * dt, dt) : Bytes(b);
        double v  = rate ? b * dt / dt : b;
        VF_EQ(x.value(), v, "format-bytes", "value()");
        std::string s = x;
        double num;
        char unit[20] = "";
        VF_CHECK(sscanf(s.c_str(), "%lf %15s", &num, unit) == 2, "format-bytes", "text of Bytes " + vf::repr(s));
        std::string u = unit;
        std::string tail = rate ? " per second" : "";
        bool plural      = std::abs(num) != 1;
        // the singular goes with exactly one
        std::string m = u.substr(0, u.find("byte"));
        std::string head = s.substr(0, s.find(' '));
        double scaled = v / magnitude(m);
        VF_CHECK(s == head + " " + m + (std::abs(scaled) == 1 ? "byte" : "bytes") + tail, "format-bytes", "text of Bytes(" + std::to_string(v) + ") is " + vf::repr(s));
        VF_CHECK(std::abs(num - scaled) <= 1e-5 * std::abs(scaled) * 1.001, "format-bytes", "Bytes(" + std::to_string(v) + ") is " + vf::repr(s));
        VF_CHECK((std::abs(scaled) < 1024 || m == "Y") && (std::abs(scaled) >= 1 || m.empty()), "format-bytes", "unit of Bytes(" + std::to_string(v) + ") is " + vf::repr(s));
        (void)plural;
        std::pair<double, char> p{NAN, ' '};
        std::string sh = x.shorten();
        VF_CHECK(sh.size() >= 2 && sscanf(sh.c_str(), "%lf", &p.first) == 1 && sh.size() <= 5, "format-bytes-short", "short text of Bytes " + vf::repr(sh));
        p.second = sh.back();
        double g = magnitude(p.second == ' ' ? "" : std::string(1, p.second));
        if (std::abs(v) <= std::pow(1024., 8)) {
            VF_CHECK(std::abs(p.first) <= 100, "format-bytes-short", "Bytes(" + std::to_string(v) + ").shorten() is " + vf::repr(x.shorten()));
            double off = std::abs(p.first * g - v), ulp = std::abs(p.first) >= 10 ? .5 : .05;
            VF_CHECK(off <= ulp * g * 1.0001, "format-bytes-short", "Bytes(" + std::to_string(v) + ").shorten() is " + vf::repr(x.shorten()));
        }
        else {
            VF_EQ(x.shorten(), std::string(v < 0 ? "-99Y" : "99Y"), "format-bytes-short", "more than can be said");
        }
    }
    {
        double t     = r.chance(.3) ? r.real(0, 2) : r.chance(.5) ? r.real(0, 200000) : double(r.pick(std::vector<long>{59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 604799, 604800, 604801, 1}));
        bool compact = r.chance(.5);
        Seconds sec(t, compact);
        if (r.chance(.2)) {
            timeval tv{time_t(t), suseconds_t((t - std::floor(t)) * 1e6)};
            t   = double(tv.tv_sec) + tv.tv_usec / 1e6;
            sec = Seconds(tv, compact);
        }
        std::string s = sec;
        long n        = std::lround(t);
        if (n == 0) {
            std::ostringstream os;
            os << t << (compact ? "s" : " second");
            VF_EQ(s, os.str(), "format-seconds", "Seconds(" + std::to_string(t) + ")");
        }
        else {
            // what it says adds up
            static const std::map<std::string, long> units = {{"week", 604800}, {"day", 86400}, {"hour", 3600}, {"minute", 60}, {"second", 1}, {"w", 604800}, {"d", 86400}, {"h", 3600}, {"m", 60}, {"s", 1}};
            long sum = 0, last = LONG_MAX;
            bool ok = true;
            const char* q = s.c_str();
            int parts     = 0;
            while (*q && ok) {
                char* e;
                long k = strtol(q, &e, 10);
                ok     = e != q && k >= 0;
                q      = e;
                if (!compact) ok = ok && *q++ == ' ';
                std::string w;
                while (isalpha(*q)) w += *q++;
                if (!compact && k > 1) {
                    ok = ok && !w.empty() && w.back() == 's';
                    if (ok) w.pop_back();
                }
                auto it = units.find(w);
                ok      = ok && it != units.end() && it->second < last && (k * it->second < last) && w.size() == (compact ? 1 : w.size());
                if (!ok) break;
                sum += k * it->second;
                last = it->second;
                ++parts;
                if (!compact && *q) ok = *q++ == ' ';
            }
            VF_CHECK(ok && sum == n && parts > 0, "format-seconds", "Seconds(" + std::to_string(t) + ") is " + vf::repr(s));
        }
        std::ostringstream oe;
        oe << ETA(t);
        char b[60];
        long k = long(t);
        snprintf(b, sizeof b, "%ld:%02ld:%02ld", k / 3600, k / 60 % 60, k % 60);
        VF_EQ(oe.str(), std::string(b), "format-eta", "ETA(" + std::to_string(t) + ")");
    }
    {
        long long t = r.chance(.3) ? r.in(0, 4102444800LL) : r.chance(.5) ? r.in(-2000000000LL, 8000000000LL) : 86400 * r.in(-20000, 40000) + r.in(-1, 1);
        std::ostringstream os;
        os << TimeStamp(time_t(t)) << '|' << std::setw(3) << 12;
        VF_EQ(os.str(), civil(t, "%04lld-%02d-%02d %02d:%02d:%02d") + "| 12", "format-timestamp", "TimeStamp(" + std::to_string(t) + ")");
        std::string pre = r.chance(.4) ? std::string(r.below(400), 'p') : word(r, 0, 10);
        std::string got = TimeStamp(time_t(t), pre + "%Y%m%d");
        VF_EQ(got, pre + civil(t, "%04lld%02d%02d"), "format-timestamp", "TimeStamp with a format of " + std::to_string(pre.size() + 6) + " characters");
        std::string none = TimeStamp(time_t(t), "");
        VF_EQ(none, std::string(), "format-timestamp", "TimeStamp with an empty format");
        std::ostringstream oh;
        oh << TimeStamp(time_t(t), "hex") << '|' << std::setw(4) << 16;
        char b[40];
        snprintf(b, sizeof b, "%016llx|  16", (unsigned long long)t);
        VF_EQ(oh.str(), std::string(b), "format-timestamp-hex", "TimeStamp hex and what follows");
    }
    {
        Timing a(r.real(0, 10), r.real(0, 10), size_t(r.below(100))), b(r.real(0, 10), r.real(0, 10), size_t(r.below(100)));
        Timing sum = a;
        sum += b;
        VF_CHECK(sum.elapsed_ == a.elapsed_ + b.elapsed_ && sum.cpu_ == a.cpu_ + b.cpu_ && sum.updates_ == a.updates_ + b.updates_, "format-timing", "Timing +=");
        Timing d = a;
        d -= b;
        VF_CHECK(d.elapsed_ == a.elapsed_ - b.elapsed_ && d.cpu_ == a.cpu_ - b.cpu_ && d.updates_ == a.updates_, "format-timing", "Timing -=");
        char buf[1000];
        MemoryStream o(buf, sizeof buf);
        o << a;
        MemoryStream in(buf, sizeof buf);
        Timing back;
        in >> back;
        VF_CHECK(back.elapsed_ == a.elapsed_ && back.cpu_ == a.cpu_ && back.updates_ == a.updates_, "format-timing", "Timing through a stream");
        size_t v = r.chance(.2) ? 0 : size_t(r.u64() >> r.in(2, 63));
        std::string title = word(r, 1, 33), ind = r.pick(std::vector<std::string>{"", "  "});
        std::ostringstream rc, rb;
        Statistics::reportCount(rc, title.c_str(), v, ind.c_str(), false);
        std::string pad(title.size() < 34 - 3 ? 34 - title.size() - 3 : 0, ' ');
        std::string line = ind + title + pad + " : " + grouped((long long)v) + "\n";
        VF_EQ(rc.str(), v ? line : std::string(), "format-statistics", "reportCount");
        Statistics::reportBytes(rb, title.c_str(), v, ind.c_str(), true);
        VF_EQ(rb.str(), ind + title + pad + " : " + grouped((long long)v) + " (" + std::string(Bytes(double(v))) + ")\n", "format-statistics", "reportBytes");
    }
    {
        std::string msg = word(r, 0, 40), app = word(r, 1, 12);
        int id     = int(r.in(0, 100000));
        auto fac   = SysLog::Facility(r.below(24));
        auto sev   = SysLog::Severity(r.below(8));
        SysLog log(msg, id, fac, sev);
        if (r.chance(.5)) log.appName(app);
        else app = log.appName();
        if (r.chance(.3)) log.message(msg = word(r, 0, 30));
        if (r.chance(.3)) log.msgid(id = int(r.below(1000)));
        std::string soft, ver, ent;
        if (r.chance(.4)) log.software(soft = word(r, 1, 8));
        if (r.chance(.4)) log.swVersion(ver = word(r, 1, 8));
        if (r.chance(.4)) log.enterpriseId(ent = word(r, 1, 8));
        std::string s = log;
        std::ostringstream head;
        head << "<" << int(fac) * 8 + int(sev) << ">1 " << log.timestamp() << " " << Main::hostname() << " " << app << " " << getpid() << " " << id << " ";
        VF_CHECK(s.compare(0, head.str().size(), head.str()) == 0, "format-syslog", "header of a message is " + vf::repr(s) + " instead of " + vf::repr(head.str()));
        static const std::regex ts("[0-9]{4}-[01][0-9]-[0-3][0-9]T[0-2][0-9]:[0-5][0-9]:[0-6][0-9]Z");
        VF_CHECK(std::regex_match(log.timestamp(), ts), "format-syslog", "time of a message is " + vf::repr(log.timestamp()));
        std::string data = s.substr(head.str().size());
        if (soft.empty() && ver.empty() && ent.empty()) {
            VF_EQ(data, "- " + msg, "format-syslog", "message without data");
        }
        else {
            VF_CHECK(data.compare(0, 8, "[origin ") == 0 && data.find(" ip=\"") == 7 && data.size() > msg.size() && data.substr(data.size() - msg.size() - 2) == "] " + msg, "format-syslog", "message with data " + vf::repr(data));
            auto has = [&](const std::string& k, const std::string& v) { return data.find(" " + k + "=\"" + v + "\"") != std::string::npos; };
            VF_CHECK((ent.empty() || has("enterpriseId", ent)) && (soft.empty() || has("software", soft)) && (soft.empty() || ver.empty() || has("swVersion", ver)), "format-syslog", "data of a message " + vf::repr(data));
        }
    }
    c.eval(15);
    c.count("values printed", 20);
    c.distinct(r.u64());
}
