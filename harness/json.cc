// JSON, YAML and CSV: text generated from a model parses to the model, written text is valid and means the model, broken text is refused
#include <fstream>
#include "value_gen.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/CSVParser.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/parser/YAMLParser.h"

using namespace eckit;

namespace {

/// an independent strict parser (RFC 8259), to a Ref; numbers with a fraction or exponent are doubles
struct Strict {
    const std::string& s;
    size_t p = 0;
    bool rawControls = false;  ///< control characters inside strings were seen (eckit takes them)
    int depth        = 0;
    explicit Strict(const std::string& t) : s(t) {}
    struct Bad {};
    int at() const { return p < s.size() ? (unsigned char)s[p] : -1; }
    void ws() {
        while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) {
            ++p;
        }
    }
    void lit(const char* l) {
        size_t n = strlen(l);
        if (s.compare(p, n, l)) {
            throw Bad();
        }
        p += n;
    }
    static void utf8(std::string& o, uint32_t c) {
        if (c < 0x80) {
            o += char(c);
        }
        else if (c < 0x800) {
            o += char(0xc0 | c >> 6);
            o += char(0x80 | (c & 63));
        }
        else if (c < 0x10000) {
            o += char(0xe0 | c >> 12);
            o += char(0x80 | (c >> 6 & 63));
            o += char(0x80 | (c & 63));
        }
        else {
            o += char(0xf0 | c >> 18);
            o += char(0x80 | (c >> 12 & 63));
            o += char(0x80 | (c >> 6 & 63));
            o += char(0x80 | (c & 63));
        }
    }
    uint32_t hex4() {
        uint32_t v = 0;
        for (int i = 0; i < 4; ++i, ++p) {
            int c = at();
            if (c < 0 || !isxdigit(c)) {
                throw Bad();
            }
            v = v * 16 + (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10);
        }
        return v;
    }
    std::string str() {
        lit("\"");
        std::string o;
        for (;;) {
            int c = at();
            if (c < 0) {
                throw Bad();
            }
            ++p;
            if (c == '"') {
                return o;
            }
            if (c != '\\') {
                if (c < 32) {
                    rawControls = true;
                }
                o += char(c);
                continue;
            }
            c = at();
            ++p;
            switch (c) {
                case '"':
                case '\\':
                case '/': o += char(c); break;
                case 'b': o += '\b'; break;
                case 'f': o += '\f'; break;
                case 'n': o += '\n'; break;
                case 'r': o += '\r'; break;
                case 't': o += '\t'; break;
                case 'u': {
                    uint32_t u = hex4();
                    if (u >= 0xd800 && u < 0xe000) {
                        if (u >= 0xdc00) {
                            throw Bad();
                        }
                        lit("\\u");
                        uint32_t w = hex4();
                        if (w < 0xdc00 || w >= 0xe000) {
                            throw Bad();
                        }
                        u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
                    }
                    utf8(o, u);
                    break;
                }
                default: throw Bad();
            }
        }
    }
    Ref num() {
        size_t b    = p;
        bool real   = false;
        auto digits = [&] {
            if (at() < 0 || !isdigit(at())) {
                throw Bad();
            }
            while (at() >= 0 && isdigit(at())) {
                ++p;
            }
        };
        if (at() == '-') {
            ++p;
        }
        if (at() == '0') {
            ++p;
        }
        else {
            digits();
        }
        if (at() == '.') {
            real = true;
            ++p;
            digits();
        }
        if (at() == 'e' || at() == 'E') {
            real = true;
            ++p;
            if (at() == '+' || at() == '-') {
                ++p;
            }
            digits();
        }
        std::string n = s.substr(b, p - b);
        Ref r;
        if (real) {
            r.t = Ref::DBL;
            errno = 0;
            r.d = strtod(n.c_str(), nullptr);
            extreme = extreme || errno == ERANGE;
        }
        else {
            r.t   = Ref::INT;
            errno = 0;
            r.i   = strtoll(n.c_str(), nullptr, 10);
            extreme = extreme || errno;
        }
        return r;
    }
    bool extreme = false;  ///< a number out of range: eckit may refuse or clamp
    Ref value() {
        if (++depth > 200) {
            throw Bad();
        }
        ws();
        Ref r;
        switch (at()) {
            case 't': lit("true"); r.t = Ref::BOOL; r.b = true; break;
            case 'f': lit("false"); r.t = Ref::BOOL; r.b = false; break;
            case 'n': lit("null"); break;
            case '"': r.t = Ref::STR; r.s = str(); break;
            case '[':
                r.t = Ref::LIST;
                ++p;
                ws();
                if (at() == ']') {
                    ++p;
                    break;
                }
                for (;;) {
                    r.l.push_back(value());
                    ws();
                    if (at() == ']') {
                        ++p;
                        break;
                    }
                    lit(",");
                }
                break;
            case '{':
                r.t = Ref::OMAP;
                ++p;
                ws();
                if (at() == '}') {
                    ++p;
                    break;
                }
                for (;;) {
                    ws();
                    std::string k = str();
                    ws();
                    lit(":");
                    Ref v  = value();
                    auto f = std::find(r.k.begin(), r.k.end(), k);
                    if (f == r.k.end()) {
                        r.k.push_back(k);
                        r.l.push_back(v);
                    }
                    else {
                        r.l[f - r.k.begin()] = v;  // the last one counts
                    }
                    ws();
                    if (at() == '}') {
                        ++p;
                        break;
                    }
                    lit(",");
                }
                break;
            default: r = num();
        }
        --depth;
        return r;
    }
    Ref all() {
        Ref r = value();
        ws();
        if (p != s.size()) {
            throw Bad();
        }
        return r;
    }
};

std::string fmt(double d, vf::Rng& r) {
    char b[64];
    static const char* f[] = {"%.17g", "%.17e", "%.17E", "%.25g"};
    snprintf(b, sizeof b, f[r.below(4)], d);
    std::string s = b;
    if (s.find_first_of(".eE") == std::string::npos) {
        s += r.chance(0.5) ? ".0" : "e0";
    }
    return s;
}

struct Writer {
    vf::Rng& r;
    double again = 0;  // how often a key is given twice: the last value is the one, at the place of the first
    long twice   = 0;
    std::string ws() {
        static const char* w[] = {"", "", "", " ", "\n", "\t", "\r\n", "   "};
        std::string s;
        while (r.chance(0.4)) {
            s += w[r.below(8)];
        }
        return s;
    }
    std::string str(const std::string& s) {
        std::string o = "\"";
        for (size_t i = 0; i < s.size();) {
            unsigned char ch = s[i];
            // decode one code point when it is valid utf-8, to escape it sometimes
            uint32_t cp = ch;
            size_t n    = 1;
            if (ch >= 0xf0 && i + 3 < s.size()) {
                cp = (ch & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
                n  = 4;
            }
            else if (ch >= 0xe0 && i + 2 < s.size()) {
                cp = (ch & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
                n  = 3;
            }
            else if (ch >= 0xc0 && i + 1 < s.size()) {
                cp = (ch & 31) << 6 | (s[i + 1] & 63);
                n  = 2;
            }
            static const char* esc = "\"\\/\b\f\n\r\t";
            static const char* let = "\"\\/bfnrt";
            const char* e          = ch ? strchr(esc, ch) : nullptr;
            bool must              = ch < 32 || ch == '"' || ch == '\\';
            if (e && (must || r.chance(0.5)) && r.chance(0.7)) {
                o += '\\';
                o += let[e - esc];
            }
            else if (must || (r.chance(0.3) && (ch < 128 || n > 1))) {
                char b[16];
                if (cp >= 0x10000) {
                    snprintf(b, sizeof b, r.chance(0.5) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
                }
                else {
                    snprintf(b, sizeof b, r.chance(0.5) ? "\\u%04x" : "\\u%04X", cp);
                }
                o += b;
            }
            else {
                o += s.substr(i, n);
            }
            i += n;
        }
        return o + "\"";
    }
    std::string text(const Ref& v) {
        std::string o = ws();
        switch (v.t) {
            case Ref::NIL: o += "null"; break;
            case Ref::BOOL: o += v.b ? "true" : "false"; break;
            case Ref::INT: o += std::to_string(v.i); break;
            case Ref::DBL: o += fmt(v.d, r); break;
            case Ref::STR: o += str(v.s); break;
            case Ref::LIST:
                o += "[" + ws();
                for (size_t i = 0; i < v.l.size(); ++i) {
                    o += (i ? "," : "") + text(v.l[i]);
                }
                o += "]";
                break;
            default:
                o += "{" + ws();
                std::vector<size_t> late;
                auto entry = [&](size_t i, const Ref& x) { o += ws() + str(v.k[i]) + ws() + ":" + text(x); };
                for (size_t i = 0; i < v.l.size() || !late.empty();) {
                    if (i || !late.empty()) o += ",";
                    if (!late.empty() && (i == v.l.size() || r.chance(0.4))) {
                        entry(late.back(), v.l[late.back()]);
                        late.pop_back();
                        continue;
                    }
                    if (again > 0 && r.chance(again)) {
                        Ref other;
                        other.t = Ref::STR;
                        other.s = "other";
                        entry(i, r.chance(0.5) ? other : v.l[r.below(v.l.size())]);
                        late.push_back(i);
                        ++twice;
                    }
                    else {
                        entry(i, v.l[i]);
                    }
                    ++i;
                }
                o += "}";
        }
        return o + ws();
    }
};

/// compare two references (the writer's text read by the strict parser)
std::string refDiff(const Ref& a, const Ref& b, double tol, const std::string& path = "$") {
    auto bad = [&] { return path + ": " + a.str().substr(0, 200) + " / " + b.str().substr(0, 200); };
    bool an  = a.t == Ref::INT || a.t == Ref::DBL;
    if (an) {
        if (b.t == Ref::INT && a.t == Ref::INT) {
            return a.i == b.i ? "" : bad();
        }
        if (b.t != Ref::INT && b.t != Ref::DBL) {
            return bad();
        }
        double x = a.t == Ref::INT ? double(a.i) : a.d, y = b.t == Ref::INT ? double(b.i) : b.d;
        return x == y || std::fabs(x - y) <= tol * std::fabs(x) ? "" : bad();
    }
    if ((a.t == Ref::MAP ? Ref::OMAP : a.t) != b.t) {
        return bad();
    }
    switch (a.t) {
        case Ref::BOOL: return a.b == b.b ? "" : bad();
        case Ref::STR: return a.s == b.s ? "" : bad();
        case Ref::LIST:
        case Ref::MAP:
        case Ref::OMAP: {
            if (a.l.size() != b.l.size()) {
                return bad();
            }
            for (size_t i = 0; i < a.l.size(); ++i) {
                size_t j = i;
                if (a.t != Ref::LIST) {
                    if (a.t == Ref::OMAP && a.k[i] != b.k[i]) {
                        return bad();
                    }
                    j = std::find(b.k.begin(), b.k.end(), a.k[i]) - b.k.begin();
                    if (j == b.k.size()) {
                        return bad();
                    }
                }
                std::string e = refDiff(a.l[i], b.l[j], tol, path + "/" + std::to_string(i));
                if (!e.empty()) {
                    return e;
                }
            }
            return "";
        }
        default: return "";
    }
}

bool parses(const std::string& t, Value& v, std::string& why) {
    try {
        v = JSONParser::decodeString(t);
        return true;
    }
    catch (std::exception& e) {
        why = e.what();
        return false;
    }
}

/// lists and maps within each other, with something before and after at each level
void deep(vf::Rng& r, Ref& ref) {
    for (long n = r.in(8, 40); n > 0; --n) {
        Ref outer, one;
        one.t   = Ref::INT;
        one.i   = n;
        outer.t = r.chance(0.5) ? Ref::LIST : Ref::MAP;
        if (r.chance(0.5)) outer.l.push_back(one);
        outer.l.push_back(ref);
        if (r.chance(0.7)) outer.l.push_back(one);
        if (outer.t == Ref::MAP)
            for (size_t i = 0; i < outer.l.size(); ++i) outer.k.push_back(std::string(1, "abc"[i]));
        ref = outer;
    }
}

void emit(JSON& j, const Ref& v) {
    switch (v.t) {
        case Ref::NIL: j.null(); break;
        case Ref::BOOL: j << v.b; break;
        case Ref::INT: j << v.i; break;
        case Ref::DBL: j << v.d; break;
        case Ref::STR: j << v.s; break;
        case Ref::LIST:
            j.startList();
            for (auto& x : v.l) {
                emit(j, x);
            }
            j.endList();
            break;
        default:
            j.startObject();
            for (size_t i = 0; i < v.k.size(); ++i) {
                j << v.k[i];
                emit(j, v.l[i]);
            }
            j.endObject();
    }
}

}  // namespace

VF_WORKLOAD(json_read, 3000, 60000) {
    RefGen g{c.rng};
    Ref ref = g.make(c.rng.in(0, 5));
    Writer w{c.rng};
    if (c.rng.chance(0.3)) w.again = 0.2;
    std::string text = w.text(ref);
    c.trace() << vf::repr(text);
    Value v;
    std::string why;
    VF_CHECK(parses(text, v, why), "json-refused", "valid text refused: " << why);
    std::string d = ref.diff(v);
    VF_CHECK(d.empty(), "json-value", d);
    c.eval();
    if (ref.nodes() > 1) {
        c.distinct(text);
        c.count("json_docs");
    }
    c.count("json_keys_twice", w.twice);
    // a truncated list, map or string is never accepted
    if (ref.t >= Ref::STR && !text.empty()) {
        size_t last = text.find_last_not_of(" \t\r\n");
        for (int i = 0; i < 5; ++i) {
            size_t n = c.rng.below(last + 1);
            VF_CHECK(!parses(text.substr(0, n), v, why), "json-truncated", "text cut after " << n << " characters accepted as " << v);
            c.count("json_cuts");
            c.eval();
        }
    }
}

VF_WORKLOAD(json_write, 6000, 50000) {
    RefGen g{c.rng};
    g.plainMaps = true;
    Ref ref     = g.make(c.rng.in(0, 5));
    if (c.rng.chance(0.05)) {
        deep(c.rng, ref);
        c.count("json_deep");
    }
    c.trace() << ref.str();
    static const int flags[] = {JSON::Formatting::COMPACT, JSON::Formatting::INDENT_DICT, JSON::Formatting::INDENT_LIST, JSON::Formatting::INDENT_ALL};
    std::ostringstream out;
    int how = c.rng.below(3);
    {
        JSON j(out, JSON::Formatting(flags[c.rng.below(4)], c.rng.in(0, 5)));
        j.precision(17);
        if (how == 0) {
            emit(j, ref);
        }
        else {
            j << ref.value();
        }
    }
    std::string text = out.str();
    c.trace() << " -> " << vf::repr(text);
    Strict st(text);
    Ref back;
    try {
        back = st.all();
    }
    catch (Strict::Bad&) {
        c.fail("json-write-invalid", "written text is not JSON at " + std::to_string(st.p) + ": " + vf::repr(text));
    }
    VF_CHECK(!st.rawControls, "json-write-controls", "written text has unescaped control characters");
    std::string d = refDiff(ref, back, 1e-15);
    VF_CHECK(d.empty(), "json-write-value", d << " in " << vf::repr(text));
    Value v;
    std::string why;
    VF_CHECK(parses(text, v, why), "json-write-read", "text written is refused: " << why);
    d = back.diff(v);
    VF_CHECK(d.empty(), "json-write-read", d);
    c.eval();
    if (ref.nodes() > 1) {
        c.distinct(text);
        c.count("json_written");
    }
}

/// containers and scalars of C++ types
VF_WORKLOAD(json_types, 400, 5000) {
    auto& r = c.rng;
    RefGen g{r};
    Ref want;
    want.t = Ref::LIST;
    std::ostringstream out;
    {
        JSON j(out);
        j.precision(17);
        j.startList();
        for (size_t n = r.below(8); n > 0; --n) {
            Ref e;
            switch (r.below(10)) {
                case 0: {
                    e.t = Ref::STR;
                    e.s = std::string(1, char(r.in(1, 127)));
                    j << e.s[0];
                    break;
                }
                case 1: e.t = Ref::INT; e.i = int(r.u64()); j << int(e.i); break;
                case 2: e.t = Ref::INT; e.i = (unsigned int)(r.u64()); j << (unsigned int)(e.i); break;
                case 3: e.t = Ref::INT; e.i = long(r.u64()); j << long(e.i); break;
                case 4: e.t = Ref::INT; e.i = long(r.u64() >> 1); j << (unsigned long)(e.i); break;
                case 5: {
                    std::vector<std::string> v;
                    e.t = Ref::LIST;
                    for (size_t k = r.below(4); k > 0; --k) {
                        v.push_back(g.string());
                        Ref x;
                        x.t = Ref::STR;
                        x.s = v.back();
                        e.l.push_back(x);
                    }
                    j << v;
                    break;
                }
                case 6: {
                    std::set<long> s;
                    e.t = Ref::LIST;
                    for (size_t k = r.below(4); k > 0; --k) {
                        s.insert(r.in(-5, 5));
                    }
                    for (long x : s) {
                        Ref y;
                        y.t = Ref::INT;
                        y.i = x;
                        e.l.push_back(y);
                    }
                    j << s;
                    break;
                }
                case 7: {
                    std::map<std::string, std::vector<int>> m;
                    e.t = Ref::MAP;
                    for (size_t k = r.below(4); k > 0; --k) {
                        m[r.word(3)].push_back(int(k));
                    }
                    for (auto& kv : m) {
                        e.k.push_back(kv.first);
                        Ref y;
                        y.t = Ref::LIST;
                        for (int q : kv.second) {
                            Ref z;
                            z.t = Ref::INT;
                            z.i = q;
                            y.l.push_back(z);
                        }
                        e.l.push_back(y);
                    }
                    j << m;
                    break;
                }
                case 8: {
                    e.t = Ref::STR;
                    e.s = r.word(5);
                    j << e.s.c_str();
                    break;
                }
                default: {
                    e.t     = Ref::DBL;
                    float f = float(r.real(-1000, 1000));
                    e.d     = f;
                    j << f;
                }
            }
            want.l.push_back(e);
        }
        j.endList();
    }
    std::string text = out.str();
    c.trace() << vf::repr(text);
    Strict st(text);
    Ref back;
    try {
        back = st.all();
    }
    catch (Strict::Bad&) {
        c.fail("json-types-invalid", "written text is not JSON: " + vf::repr(text));
    }
    std::string d = refDiff(want, back, 1e-15);
    VF_CHECK(d.empty(), "json-types-value", d);
    c.eval();
    c.distinct(text);
}

/// text with an edit: accepted and given the same meaning as by the strict parser, or refused
VF_WORKLOAD(json_broken, 4000, 100000) {
    auto& r = c.rng;
    RefGen g{r};
    Writer w{r};
    std::string text = w.text(g.make(r.in(1, 3)));
    for (size_t n = r.in(1, 3); n > 0 && !text.empty(); --n) {
        size_t at = r.below(text.size());
        static const std::string chars = "{}[],:\"\\truefalsn0123456789.-+eE u/*#'\n";
        switch (r.below(4)) {
            case 0: text.erase(at, 1 + r.below(3)); break;
            case 1: text.insert(at, 1, chars[r.below(chars.size())]); break;
            case 2: text[at] = r.chance(0.7) ? chars[r.below(chars.size())] : char(r.in(1, 255)); break;
            default: text.insert(at, text.substr(r.below(text.size()), r.below(6)));
        }
    }
    c.trace() << vf::repr(text);
    Strict st(text);
    Ref ref;
    bool ok = true;
    try {
        ref = st.all();
    }
    catch (Strict::Bad&) {
        ok = false;
    }
    Value v;
    std::string why;
    bool got = parses(text, v, why);
    c.eval();
    c.distinct(text);
    if (st.extreme) {
        return;
    }
    if (ok) {
        if (st.rawControls) {
            return;  // raw control characters in strings: taken leniently
        }
        VF_CHECK(got, "json-edit-refused", "valid text refused: " << why);
        std::string d = ref.diff(v);
        VF_CHECK(d.empty(), "json-edit-value", d);
        c.count("edited_valid");
    }
    else {
        // lenient: \v and \f as spaces, and bytes after a null character
        VF_CHECK(!got || text.find_first_of("\v\f") != std::string::npos, "json-edit-accepted", "text that is not JSON accepted as " << v);
        c.count("edited_refused");
    }
}

namespace {

/// plain text that is nearly something else
const std::vector<std::string>& lookalikes() {
    static const std::vector<std::string> v{"12abc", "1.2.3", "2020-01-01", "10:20:30", "1-2", "-foo", "-x0x12", "0-0x1f", "0x", "0xg1", "-0x10", "+0x", "0o", "0o8", "0o1x", "-_", "+_", "_", "._", "+", "1e", "e5", "1e+", "..1", ".a",
                                            ".infinity", "-.Nan", "nulls", "nul", "truth", "True1", "yesterday", "yes no", "on and off", "Yes1", "falsehood", "nono", "offset", "a:b", "http://host:80/path", "a - b", "a-b", "x]", "x}", "a, b", "a&b", "a*b",
                                            "a|b", "a>b", "it's", "say \"yes\"", "!x", "%x", "0x1 0x2", "1 2", "1_000 m", "--", "-1-", "0 0", "3rd", "+a", "~a", "?x", "=", "<<<", "a: b:c"};
    return v;
}

struct Yaml {
    vf::Rng& r;
    std::string out;
    size_t aliases = 0, merged = 0, texts = 0, serial = 0, folded = 0;
    bool text = false;  // a block of text was last: empty lines would belong to it
    std::vector<std::pair<std::string, Ref>> anchors;

    static bool equal(const Ref& a, const Ref& b) {
        return a.t == b.t && a.b == b.b && a.i == b.i && (a.t != Ref::DBL || a.d == b.d) && a.s == b.s && a.k == b.k && a.l.size() == b.l.size() && std::equal(a.l.begin(), a.l.end(), b.l.begin(), equal);
    }
    static bool hasText(const Ref& v) {
        return (v.t == Ref::STR && v.s.find('\n') != std::string::npos) || std::any_of(v.l.begin(), v.l.end(), hasText);
    }

    /// lines of text, which are kept or folded
    bool lines(const std::string& s, size_t indent) {
        std::string pad(indent, ' ');
        bool folded = false;
        for (char ch : s) folded = folded || ch == ' ';
        size_t inner = s.find('\n');
        if (inner + 1 != s.size()) folded = false;
        if (s.find("  ") != std::string::npos) folded = false;
        if (folded && r.chance(0.6)) {
            out += " >\n" + pad;
            for (char ch : s.substr(0, inner)) {
                if (ch == ' ' && r.chance(0.5)) out += "\n" + pad;
                else out += ch;
            }
            out += "\n";
        }
        else {
            out += " |\n" + pad;
            for (size_t i = 0; i < s.size(); ++i) {
                out += s[i];
                if (s[i] == '\n' && i + 1 < s.size() && s[i + 1] != '\n') out += pad;
            }
        }
        return text = true;
    }

    std::string comment() { return r.chance(0.15) ? " # " + r.word(5) + " : - {" : std::string(); }

    std::string plain(std::string s) { return s; }

    /// a quoted or plain scalar which reads back as v
    std::string scalar(const Ref& v, bool key = false) {
        switch (v.t) {
            case Ref::NIL: return r.chance(0.5) ? "null" : "~";
            case Ref::BOOL: {
                static const char* t[] = {"true", "True", "TRUE", "yes", "on"};
                static const char* f[] = {"false", "False", "FALSE", "no", "off"};
                return v.b ? t[r.below(5)] : f[r.below(5)];
            }
            case Ref::INT: {
                if (v.i >= 0 && v.i < (1LL << 60) && r.chance(0.1)) {
                    char b[40];
                    snprintf(b, sizeof b, "0x%llx", v.i);
                    return b;
                }
                std::string s = std::to_string(v.i);
                if (v.i >= 0 && v.i < (1LL << 60) && r.chance(0.05)) {
                    char b[40];
                    snprintf(b, sizeof b, "0o%llo", v.i);
                    s = b;
                }
                if (r.chance(0.1)) {  // (between the digits)
                    size_t at = r.in(s[0] == '-' ? 2 : 1, s.size());
                    if (at < s.size() && s[at] != 'o' && s[at - 1] != 'o') s.insert(at, r.chance(0.7) ? "_" : "__");
                }
                if (s[0] != '-' && s.compare(0, 2, "0o") && r.chance(0.05)) s = r.chance(0.5) ? "+" + s : "00" + s;
                return s;
            }
            case Ref::DBL: {
                std::string s = fmt(v.d, r);
                size_t p      = s.find('.');
                if (p != std::string::npos && p + 1 < s.size() && isdigit((unsigned char)s[p + 1]) && r.chance(0.1)) s.insert(p + 2, "_");
                if (s.compare(0, 2, "0.") == 0 && r.chance(0.3)) s.erase(0, 1);
                if (s.size() > 2 && s.compare(s.size() - 2, 2, ".0") == 0 && r.chance(0.3)) s.erase(s.size() - 1);
                if (s[0] != '-' && r.chance(0.1)) s = "+" + s;
                return s;
            }
            default: {
                static const std::set<std::string> alike(lookalikes().begin(), lookalikes().end());
                if (!key && alike.count(v.s) && v.s != "a: b:c" && r.chance(0.7)) return v.s;
                bool word = !v.s.empty() && v.s.find_first_not_of("abcdefghijklmpqrstuvwxz") == std::string::npos && v.s.find_first_of("ntfyo") == std::string::npos;
                if (word && r.chance(0.7)) {
                    return v.s;
                }
                if (r.chance(0.5)) {
                    std::string o = "'";
                    for (char ch : v.s) {
                        if (ch == '\\') {
                            return Writer{r}.str(v.s);
                        }
                        o += ch;
                        if (ch == '\'') {
                            o += ch;
                        }
                    }
                    return o + "'";
                }
                return Writer{r}.str(v.s);
            }
        }
    }

    std::string flow(const Ref& v) {
        if (v.t == Ref::LIST || v.t == Ref::OMAP) {
            std::string o = v.t == Ref::LIST ? "[" : "{";
            for (size_t i = 0; i < v.l.size(); ++i) {
                o += i ? "," : "";
                o += r.chance(0.5) ? " " : "";
                if (v.t == Ref::OMAP) {
                    o += Writer{r}.str(v.k[i]) + ": ";
                }
                o += flow(v.l[i]);
            }
            return o + (v.t == Ref::LIST ? "]" : "}");
        }
        if (v.t == Ref::STR) {
            return Writer{r}.str(v.s);
        }
        if (v.t == Ref::BOOL) {
            return v.b ? "true" : "false";
        }
        return v.t == Ref::NIL ? "null" : scalar(v);
    }

    void block(const Ref& v, size_t indent) {
        std::string pad(indent, ' ');
        bool container = (v.t == Ref::LIST || v.t == Ref::OMAP) && !v.l.empty();
        if (!container) {
            out += pad + (v.t == Ref::LIST ? "[]" : v.t == Ref::OMAP ? "{}" : scalar(v)) + comment() + "\n";
            return;
        }
        for (size_t i = 0; i < v.l.size(); ++i) {
            if (!text && r.chance(0.1)) {
                out += r.chance(0.5) ? "\n" : pad + "# comment: [\n";
            }
            text         = false;
            const Ref& e = v.l[i];
            if (v.t == Ref::OMAP && i == 0 && r.chance(0.7)) {  // entries that come from another
                auto a = std::find_if(anchors.begin(), anchors.end(), [&](auto& a) {
                    return a.second.t == Ref::OMAP && !a.second.k.empty() && a.second.k.size() < v.k.size() && std::equal(a.second.k.begin(), a.second.k.end(), v.k.begin()) &&
                           std::equal(a.second.l.begin(), a.second.l.end(), v.l.begin(), equal);
                });
                if (a != anchors.end()) {
                    out += pad + "<<: *" + a->first + "\n";
                    i += a->second.k.size() - 1;
                    ++merged;
                    continue;
                }
            }
            if (v.t == Ref::LIST) {
                out += pad + "-";
            }
            else {
                Ref k;
                k.t = Ref::STR;
                k.s = v.k[i];
                out += pad + scalar(k, true) + ":";
            }
            bool sub = (e.t == Ref::LIST || e.t == Ref::OMAP) && !e.l.empty();
            auto known = std::find_if(anchors.begin(), anchors.end(), [&](auto& a) { return equal(a.second, e); });
            if (known != anchors.end() && r.chance(0.7)) {
                out += " *" + known->first + (r.chance(0.1) ? "  # again" : "") + "\n";
                ++aliases;
                continue;
            }
            if (r.chance(e.t == Ref::OMAP ? 0.6 : 0.3) && !(e.t == Ref::STR && hasText(e))) {
                std::string name = r.word(3, "abcXYZ") + std::to_string(serial++);
                out += " &" + name;
                anchors.emplace_back(name, e);  // (what it has inside comes before)
                if (sub) {
                    std::string after;
                    auto keep = std::move(anchors.back());
                    anchors.pop_back();
                    if (r.chance(0.5) || hasText(e)) out += "\n", block(e, indent + 1 + r.in(1, 4));
                    else out += " " + flow(e) + comment() + "\n";
                    anchors.push_back(std::move(keep));
                    continue;
                }
                out += " " + (e.t == Ref::LIST ? std::string("[]") : e.t == Ref::OMAP ? std::string("{}") : scalar(e)) + comment() + "\n";
                continue;
            }
            if (e.t == Ref::NIL && r.chance(0.3)) {
                out += comment() + "\n";
                continue;
            }
            if (e.t == Ref::STR && !e.s.empty() && e.s[0] == 'q' && e.s.find(' ') != std::string::npos && e.s.find_first_not_of("qabcdeghijkl ") == std::string::npos &&
                e.s.find("  ") == std::string::npos && e.s.back() != ' ' && r.chance(0.8)) {
                // words over several lines
                std::string more(indent + 1 + r.in(1, 4), ' ');
                out += ' ';
                for (char ch : e.s) {
                    if (ch == ' ' && r.chance(0.4)) {
                        out += "\n" + more;
                        ++folded;
                    }
                    else {
                        out += ch;
                    }
                }
                out += "\n";
                continue;
            }
            if (e.t == Ref::STR && !e.s.empty() && e.s.back() == '\n') {
                if (r.chance(0.8) ? lines(e.s, indent + 1 + r.in(1, 4)) : (out += " " + Writer{r}.str(e.s) + "\n", true)) {
                    ++texts;
                    continue;
                }
            }
            if (sub && hasText(e)) {
                out += comment() + "\n";
                block(e, indent + 1 + r.in(1, 4));
                continue;
            }
            if (sub && r.chance(0.7)) {
                out += comment() + "\n";
                block(e, indent + 1 + r.in(1, 4));
            }
            else if (sub) {
                out += " " + flow(e) + comment() + "\n";
            }
            else {
                out += " " + (e.t == Ref::LIST ? std::string("[]") : e.t == Ref::OMAP ? std::string("{}") : scalar(e)) + comment() + "\n";
            }
        }
    }
};

void noRawNewlines(Ref& v) {
    auto fix = [](std::string& s) {
        for (char& ch : s) {
            if (ch == '\r' || ch == '\n' || ch == 0) {
                ch = '_';
            }
        }
    };
    fix(v.s);
    for (auto& k : v.k) {
        fix(k);
        if (k == "<<") {
            k = "<";
        }
    }
    std::vector<std::string> seen;
    for (size_t i = 0; i < v.k.size();) {
        if (std::find(v.k.begin(), v.k.begin() + i, v.k[i]) != v.k.begin() + i) {
            v.k.erase(v.k.begin() + i);
            v.l.erase(v.l.begin() + i);
        }
        else {
            ++i;
        }
    }
    for (auto& x : v.l) {
        noRawNewlines(x);
    }
}

/// text, what looks like something else, and the same values again
void yamlSpecial(vf::Rng& r, Ref& v, std::vector<Ref>& seen) {
    if (v.t == Ref::STR && r.chance(0.3)) v.s = r.pick(lookalikes());
    else if (v.t == Ref::STR && r.chance(0.15)) {
        v.s.clear();
        for (long n = r.in(2, r.chance(0.3) ? 30 : 6); n > 0; --n) v.s += (v.s.empty() ? "q" : " q") + r.word(8, "abcdeghijkl");
    }
    else if (v.t == Ref::STR && r.chance(0.3)) {
        std::string s;
        bool first = true;
        for (long n = r.in(1, 5); n > 0; --n) {
            if (!first && r.chance(0.2)) s += "\n";
            if (!first && r.chance(0.2)) s += std::string(r.in(1, 3), ' ');
            std::string w = r.word(12, "abcXY019 :,-[]{}\"'*&|>?!%@.~");
            while (!w.empty() && isspace((unsigned char)w.back())) w.pop_back();
            while (!w.empty() && isspace((unsigned char)w.front())) w.erase(0, 1);
            s += (w.empty() ? "x" : w) + "\n";
            first = false;
        }
        v.s = s;
    }
    for (size_t i = 0; i < v.l.size(); ++i) {
        auto& e = v.l[i];
        if (!seen.empty() && r.chance(0.15)) e = r.pick(seen);
        else if (e.t == Ref::OMAP && !seen.empty() && r.chance(0.4)) {
            Ref m = r.pick(seen);
            for (int n = 0; n < 5 && m.t != Ref::OMAP; ++n) m = r.pick(seen);
            if (m.t == Ref::OMAP) {
                Ref n = m;
                for (size_t j = 0; j < e.k.size(); ++j)
                    if (std::find(n.k.begin(), n.k.end(), e.k[j]) == n.k.end()) n.k.push_back(e.k[j]), n.l.push_back(e.l[j]);
                e = n;
            }
        }
        else yamlSpecial(r, e, seen);
        if (e.nodes() < 20) seen.push_back(e);
    }
}

}  // namespace

VF_WORKLOAD(yaml_read, 10000, 60000) {
    RefGen g{c.rng};
    g.nul   = false;
    Ref ref = g.make(c.rng.in(1, 4));
    noRawNewlines(ref);
    if (c.rng.chance(0.5) && (ref.t == Ref::LIST || ref.t == Ref::OMAP)) {
        std::vector<Ref> seen;
        yamlSpecial(c.rng, ref, seen);
    }
    Yaml y{c.rng};
    bool doc = c.rng.chance(0.2);
    if (doc) {
        y.out = "---\n";
    }
    y.block(ref, 0);
    c.trace() << vf::repr(y.out);
    Value v;
    try {
        v = YAMLParser::decodeString(y.out);
    }
    catch (std::exception& e) {
        c.fail("yaml-refused", std::string("valid text refused: ") + e.what() + "\n" + y.out);
    }
    std::string d = ref.diff(v);
    VF_CHECK(d.empty(), "yaml-value", d << "\n" << y.out);
    c.eval();
    if (ref.nodes() > 1) {
        c.distinct(y.out);
        c.count("yaml_docs");
        c.count("yaml_aliases", y.aliases);
        c.count("yaml_merged", y.merged);
        c.count("yaml_folded", y.folded);
        c.count("yaml_texts", y.texts);
    }
}

/// JSON is read by the YAML parser to the same value (strings in double quotes)
VF_WORKLOAD(yaml_json, 800, 10000) {
    RefGen g{c.rng};
    g.nul   = false;
    Ref ref = g.make(c.rng.in(1, 3));
    if (ref.t != Ref::LIST && ref.t != Ref::OMAP) {
        return;
    }
    std::ostringstream o;
    {
        JSON j(o);
        j.precision(17);
        j << ref.value();
    }
    std::string text = o.str();
    c.trace() << vf::repr(text);
    Value v = YAMLParser::decodeString(text), u = JSONParser::decodeString(text);
    VF_CHECK(v == u, "yaml-json", "the same text read as YAML: " << v << " and as JSON: " << u);
    c.eval();
    c.distinct(text);
}

/// edited text: no undefined behaviour, no endless loop
VF_WORKLOAD(yaml_broken, 2500, 60000) {
    auto& r = c.rng;
    RefGen g{r};
    Ref ref = g.make(3);
    noRawNewlines(ref);
    Yaml y{r};
    y.block(ref, 0);
    std::string text = y.out;
    if (r.chance(0.3)) {
        text = "a: &x {\"p\": 1}\nb: *x\nc:\n  <<: *x\n  q: |\n    line\n     more\n  z: >\n    folded\n    text\n" + text;
    }
    for (size_t n = r.in(1, 4); n > 0 && !text.empty(); --n) {
        size_t at = r.below(text.size());
        static const std::string chars = "{}[],:\"\\'-- \n\n#&*|>~.!?%@";
        switch (r.below(4)) {
            case 0: text.erase(at, 1 + r.below(4)); break;
            case 1: text.insert(at, 1, chars[r.below(chars.size())]); break;
            case 2: text[at] = r.chance(0.7) ? chars[r.below(chars.size())] : char(r.u64()); break;
            default: text.insert(at, text.substr(r.below(text.size()), r.below(12)));
        }
    }
    c.trace() << vf::repr(text);
    try {
        Value v = YAMLParser::decodeString(text);
        std::ostringstream o;
        o << v;
        c.count("yaml_edited_accepted");
    }
    catch (std::exception& e) {
        c.count("yaml_edited_refused");
    }
    c.eval();
    c.distinct(text);
}

namespace {
template <class F>
bool refuses(F f) {
    try {
        f();
    }
    catch (std::exception&) {
        return true;
    }
    return false;
}
}  // namespace

VF_WORKLOAD(parse_files, 20, 100) {
    auto& r = c.rng;
    RefGen g{r};
    Writer w{r};
    Ref ref = g.make(3);
    std::string text = w.text(ref), path = c.scratch + "/text.json";
    {
        std::ofstream out(path);
        out << text;
    }
    std::string d = ref.diff(JSONParser::decodeFile(path));
    VF_CHECK(d.empty(), "json-file", "value read from a file: " << d);
    VF_CHECK(refuses([&] { JSONParser::decodeFile(c.scratch + "/nothing"); }), "json-missing-file", "something read from: missing-file");
    VF_CHECK(refuses([&] { YAMLParser::decodeFile(c.scratch + "/nothing"); }), "json-missing-file", "something read from: missing-file");
    VF_CHECK(refuses([&] { YAMLParser::decodeFile(c.scratch); }), "json-directory", "something read from: directory");
    VF_CHECK(refuses([&] { JSONParser::decodeFile(c.scratch); }), "json-directory", "something read from: directory");
    c.eval(5);
    c.distinct(text);
}

VF_WORKLOAD(csv_read, 500, 5000) {
    auto& r = c.rng;
    size_t cols = r.in(1, 6), rows = r.in(0, 8);
    bool header = r.chance(0.5);
    static const std::string alpha = "abc XYZ019.-_;\"'{}";
    std::vector<std::vector<std::string>> t;
    std::string text;
    std::set<std::string> names;
    for (size_t i = 0; i <= rows; ++i) {
        t.emplace_back();
        for (size_t k = 0; k < cols; ++k) {
            std::string s = r.word(6, alpha);
            while (i == 0 && !names.insert(s).second) {
                s = r.word(9, alpha);
            }
            if (i && k && r.chance(0.1)) {
                s = "";
            }
            t.back().push_back(s);
            text += (k ? "," : "") + s;
        }
        if (i < rows || r.chance(0.5)) {
            text += r.chance(0.2) ? "\r\n" : "\n";
        }
    }
    // an empty last item of the last line without a line end is not written
    c.trace() << vf::repr(text);
    Value v = CSVParser::decodeString(text, header);
    VF_EQ(size_t(v.size()), rows + (header ? 0 : 1), "csv-rows", "number of rows of " << vf::repr(text));
    for (size_t i = header ? 1 : 0; i <= rows; ++i) {
        Value line = v[int(i - (header ? 1 : 0))];
        VF_EQ(size_t(header ? line.keys().size() : line.size()), cols, "csv-cols", "number of columns of row " << i << " of " << vf::repr(text));
        for (size_t k = 0; k < cols; ++k) {
            std::string got = header ? std::string(line[t[0][k]]) : std::string(line[int(k)]);
            VF_EQ(got, t[i][k], "csv-item", "row " << i << " column " << k);
            c.eval();
        }
    }
    c.distinct(text);
}
