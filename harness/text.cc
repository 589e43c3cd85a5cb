// C11: text utilities (tokens, substitutions, trims, conversions, patterns), integer casts, byte order, and codings
// (hashes, Base64, bits, run lengths, hypercubes, rendezvous hashing).
// Oracles: straightforward reference implementations written here, OpenSSL, round trips.
#include "vf.h"

#include <openssl/evp.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>

#include "eckit/codec/detail/Base64.h"
#include "eckit/io/Base64.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/Log.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/utils/ByteSwap.h"
#include "eckit/utils/Compressor.h"
#include "eckit/utils/Hash.h"
#include "eckit/utils/HyperCube.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/RLE.h"
#include "eckit/utils/Regex.h"
#include "eckit/utils/RendezvousHash.h"
#include "eckit/utils/SafeCasts.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"

using namespace eckit;
using vf::refuses;

namespace {

std::string from(vf::Rng& r, const std::string& alphabet, size_t n) {
    std::string s;
    while (s.size() < n) s += alphabet[r.below(alphabet.size())];
    return s;
}
using Words = std::vector<std::string>;

uint64_t edge(vf::Rng& r) {
    switch (r.below(4)) {
        case 0:
            return r.below(300);
        case 1:
            return 0 - r.below(300);
        case 2:
            return (uint64_t(1) << r.below(64)) - r.below(2);
        default:
            return r.u64();
    }
}

std::string show(const Words& w) {
    std::string s;
    for (auto& x : w) s += "<" + x + ">";
    return s;
}

// -- tokens, trims, substitutions

Words refTokens(const std::string& s, const std::string& seps, bool keep) {
    Words out;
    size_t b = 0;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || seps.find(s[i]) != std::string::npos) {
            if (i > b || keep) out.push_back(s.substr(b, i - b));
            b = i + 1;
        }
    }
    return out;
}

std::string refTrim(std::string s, const std::string& chars, bool front, bool back) {
    while (front && !s.empty() && chars.find(s.front()) != std::string::npos) s.erase(0, 1);
    while (back && !s.empty() && chars.find(s.back()) != std::string::npos) s.pop_back();
    return s;
}

}  // namespace

VF_WORKLOAD(strings, 1200, 20000) {
    vf::Rng& r = c.rng;
    c.eval();
    std::string s = from(r, r.chance(0.3) ? std::string("ab,; \t\n\0\xff{}\"'", 14) : std::string("ab,;/"), r.below(r.chance(0.1) ? 300 : 16));
    std::string seps = from(r, ",;/ ", r.in(1, 3));
    c.trace() << "s=" + vf::repr(s) + " seps=" + vf::repr(seps) << "\n";

    bool keep = r.chance(0.5);
    Words got, want = refTokens(s, seps, keep);
    Tokenizer(seps, keep)(s, got);
    VF_EQ(show(got), show(want), "tokens", "Tokenizer");
    Words one;
    Tokenizer(seps[0], keep)(s, one);
    VF_EQ(show(one), show(refTokens(s, seps.substr(0, 1), keep)), "tokens", "Tokenizer of one character");
    std::set<std::string> set;
    Tokenizer(seps, keep)(s, set);
    VF_CHECK(set == std::set<std::string>(want.begin(), want.end()), "tokens", "Tokenizer into a set");
    if (s.find('\xff') == std::string::npos) {
        std::istringstream in(s);
        Words w;
        Tokenizer(seps, keep)(in, w);
        VF_EQ(show(w), show(refTokens(s.substr(0, s.find('\n')), seps, keep)), "tokens", "Tokenizer of a line of a stream");
    }
    VF_EQ(show(StringTools::split(seps, s)), show(refTokens(s, seps, false)), "split", "StringTools::split");
    if (keep) {
        VF_EQ(StringTools::join(seps.substr(0, 1), refTokens(s, seps.substr(0, 1), true)), s, "join", "join of the tokens");
    }
    {
        Words v = Tokenizer::split_at(s, seps[0]);
        size_t p = s.find(seps[0]);
        Words w  = p == std::string::npos ? Words{s} : Words{s.substr(0, p), s.substr(p + 1)};
        VF_EQ(show(v), show(w), "split_at", "Tokenizer::split_at");
    }
    c.count("tokenized");

    std::string chars = from(r, "ab ,", r.in(1, 3));
    VF_EQ(StringTools::trim(s, chars), refTrim(s, chars, true, true), "trim", "trim");
    VF_EQ(StringTools::front_trim(s, chars), refTrim(s, chars, true, false), "trim", "front_trim");
    VF_EQ(StringTools::back_trim(s, chars), refTrim(s, chars, false, true), "trim", "back_trim");
    VF_EQ(StringTools::trim(s), refTrim(s, " \t\n", true, true), "trim", "trim of white space");

    std::string up = StringTools::upper(s), lo = StringTools::lower(s);
    VF_CHECK(up.size() == s.size() && lo.size() == s.size(), "case", "length");
    for (size_t i = 0; i < s.size(); ++i) {
        char ch = s[i];
        VF_CHECK(up[i] == (ch >= 'a' && ch <= 'z' ? ch - 32 : ch), "case", "upper");
        VF_CHECK(lo[i] == (ch >= 'A' && ch <= 'Z' ? ch + 32 : ch), "case", "lower");
    }
    VF_EQ(StringTools::lower(up), lo, "case", "lower of upper");

    std::string part = s.substr(0, r.below(s.size() + 1));
    if (r.chance(0.3) && !part.empty()) part[r.below(part.size())] ^= 1;
    if (!part.empty()) {
        VF_EQ(StringTools::startsWith(s, part), s.compare(0, part.size(), part) == 0, "starts", "startsWith");
        VF_EQ(StringTools::beginsWith(s, part), s.compare(0, part.size(), part) == 0, "starts", "beginsWith");
        VF_EQ(StringTools::startsWith(part, s), part == s, "starts", "startsWith something longer");
    }
    std::string tail = s.substr(r.below(s.size() + 1));
    if (r.chance(0.3) && !tail.empty()) tail[r.below(tail.size())] ^= 1;
    if (!tail.empty()) {
        VF_EQ(StringTools::endsWith(s, tail), s.compare(s.size() - tail.size(), tail.size(), tail) == 0, "ends", "endsWith");
        VF_EQ(StringTools::endsWith(tail, s), tail == s, "ends", "endsWith something longer");
    }

    for (std::string q : {"\"", "'"}) {
        VF_CHECK(StringTools::isQuoted(q + s + q), "quotes", "isQuoted");
        VF_EQ(StringTools::unQuote(q + s + q), s, "quotes", "unQuote");
    }
    if (s.empty() || (s[0] != '"' && s[0] != '\'')) {
        VF_CHECK(!StringTools::isQuoted(s), "quotes", "not quoted");
        VF_EQ(StringTools::unQuote(s), s, "quotes", "unQuote of an unquoted");
    }

    // substitutions
    std::map<std::string, std::string> vars;
    Words names;
    std::string text, expect;
    bool missing = false;
    for (int n = r.in(0, 5); n > 0; --n) {
        std::string lit = from(r, "ab $%.", r.below(4));
        text += lit;
        expect += lit;
        std::string name = from(r, "xyz", r.below(3));
        names.push_back(name);
        text += "{" + name + "}";
        if (!vars.count(name)) {
            if (r.chance(0.1)) {
                missing = true;
            }
            else {
                vars[name] = r.chance(0.2) ? "{x}" : from(r, "mno", r.below(4));
            }
        }
        if (vars.count(name)) expect += vars[name];
    }
    missing = false;
    for (auto& n : names) missing = missing || !vars.count(n);
    VF_EQ(show(StringTools::listVariables(text)), show(names), "listVariables", "variables");
    if (missing) {
        VF_CHECK(refuses([&] { StringTools::substitute(text, vars); }), "substitute", "a missing variable was accepted: " + text);
    }
    else if (names.size()) {
        // recompute: a variable defined late is also used for earlier names
        expect.clear();
        size_t i = 0, k = 0;
        while (i < text.size()) {
            if (text[i] == '{') {
                expect += vars[names[k]];
                i += names[k].size() + 2;
                ++k;
            }
            else {
                expect += text[i++];
            }
        }
        VF_EQ(StringTools::substitute(text, vars), expect, "substitute", "substitute in " + text);
        c.count("substitutions");
        std::string bad = text;
        if (r.chance(0.5)) {
            bad.erase(bad.find(r.chance(0.5) ? '{' : '}'), 1);
        }
        else {
            bad.insert(r.below(bad.size() + 1), 1, r.chance(0.5) ? '{' : '}');
        }
        // an unbalanced brace is always refused
        VF_CHECK(refuses([&] { StringTools::substitute(bad, vars); }), "substitute", "unbalanced accepted: " + bad);
        VF_CHECK(refuses([&] { StringTools::listVariables(bad); }), "substitute", "unbalanced listed: " + bad);
    }
    c.distinct(vf::hashStr(s + "|" + seps + "|" + text));
}

// -- conversions

namespace {
template <class T>
void number(vf::Case& c, T x) {
    std::string t = std::to_string(x);
    VF_EQ((Translator<T, std::string>()(x)), t, "to-text", "number to text");
    VF_EQ((Translator<std::string, T>()(t)), x, "from-text", "text to number");
    c.count("numbers");
}
}  // namespace

VF_WORKLOAD(conversions, 500, 10000) {
    vf::Rng& r = c.rng;
    c.eval();
    uint64_t e = edge(r);
    c.distinct(e);
    number<int>(c, int(e));
    number<unsigned>(c, unsigned(e));
    number<long>(c, long(e));
    number<unsigned long>(c, e);
    number<long long>(c, (long long)e);
    number<unsigned long long>(c, e);
    number<short>(c, short(e));
    bool b = e & 1;
    VF_EQ((Translator<std::string, bool>()(Translator<bool, std::string>()(b))), b, "bool", "bool round trip");
    {
        double d = r.chance(0.5) ? r.real(-1e6, 1e6) : std::ldexp(r.unit(), int(r.in(-900, 900)));
        char t[64];
        snprintf(t, sizeof t, "%.17g", d);
        if (std::abs(d) > 1e-300 || d == 0) {
            VF_EQ((Translator<std::string, double>()(t)), d, "from-text", std::string("text to double ") + t);
            std::string bad = t;
            bad += std::string("xqz %;").substr(r.below(6), 1);
            VF_CHECK(refuses([&] { (void)Translator<std::string, double>()(bad); }), "from-text", "double from " + bad);
        }
        float f = float(r.real(-1e6, 1e6));
        snprintf(t, sizeof t, "%.9g", double(f));
        VF_EQ((Translator<std::string, float>()(t)), f, "from-text", std::string("text to float ") + t);
        VF_CHECK(refuses([&] { (void)Translator<std::string, double>()(""); }), "from-text", "double from nothing");
    }
    std::vector<long> longs;
    for (int n = r.in(0, 6); n > 0; --n) longs.push_back(long(edge(r)));
    VF_CHECK((Translator<std::string, std::vector<long>>()(Translator<std::vector<long>, std::string>()(longs))) == longs, "vector", "vector of longs");
    Words words;
    for (int n = r.in(0, 6); n > 0; --n) words.push_back(from(r, "abc-/.", r.in(1, 5)));
    VF_EQ(show(Translator<std::string, Words>()(Translator<Words, std::string>()(words))), show(words), "vector", "vector of strings");
    std::set<std::string> set(words.begin(), words.end());
    VF_CHECK((Translator<std::string, std::set<std::string>>()(Translator<std::set<std::string>, std::string>()(set))) == set, "vector", "set of strings");

    // sizes with units
    static const struct {
        const char* suffix;
        unsigned long long f;
    } units[] = {{"", 1},          {"kB", 1ULL << 10}, {"KiB", 1ULL << 10}, {"MB", 1ULL << 20}, {"mib", 1ULL << 20}, {"gb", 1ULL << 30},
                 {"GiB", 1ULL << 30}, {"TB", 1ULL << 40}, {"tib", 1ULL << 40}, {"PB", 1ULL << 50}, {"EiB", 1ULL << 60}};
    auto& u = units[r.below(11)];
    long long k = r.in(0, 7);
    std::string t = std::to_string(k) + (r.chance(0.3) ? " " : "") + u.suffix;
    VF_EQ((Translator<std::string, unsigned long long>()(t)), k * u.f, "units", "size " + t);
    VF_EQ((Translator<std::string, long long>()("-" + t)), -(long long)(k * u.f), "units", "size -" + t);
    VF_EQ((Translator<std::string, unsigned long>()(t)), k * u.f, "units", "size " + t);

    // safe casts
    VF_EQ(refuses([&] { (void)into_unsigned(long(e)); }), long(e) < 0, "cast", "into_unsigned");
    if (long(e) >= 0) VF_EQ(into_unsigned(long(e)), e, "cast", "into_unsigned value");
    VF_EQ(refuses([&] { (void)into_signed(e); }), e > uint64_t(std::numeric_limits<long>::max()), "cast", "into_signed");
    if (long(e) >= 0) VF_EQ(into_signed(e), long(e), "cast", "into_signed value");
    VF_EQ(refuses([&] { (void)into_signed(uint16_t(e)); }), uint16_t(e) > 32767, "cast", "into_signed of 16 bits");
    VF_EQ(refuses([&] { (void)into_unsigned((signed char)(e)); }), (signed char)(e) < 0, "cast", "into_unsigned of 8 bits");
    VF_EQ(into_unsigned(e), e, "cast", "into_unsigned of unsigned");

    // byte order
    {
        unsigned char p[8], q[8];
        memcpy(p, &e, 8);
        uint64_t x = e;
        byteswap(x);
        memcpy(q, &x, 8);
        VF_CHECK(std::equal(p, p + 8, std::reverse_iterator<unsigned char*>(q + 8)), "byteswap", "64 bits");
        byteswap(x);
        VF_EQ(x, e, "byteswap", "twice");
        uint32_t y = uint32_t(e);
        byteswap(y);
        VF_EQ(y, __builtin_bswap32(uint32_t(e)), "byteswap", "32 bits");
        uint16_t z = uint16_t(e);
        byteswap(z);
        VF_EQ(z, __builtin_bswap16(uint16_t(e)), "byteswap", "16 bits");
        std::vector<double> v(r.below(9));
        for (auto& d : v) d = r.unit();
        auto w = v;
        if (w.size()) {
            byteswap(w.data(), w.size());
            for (size_t i = 0; i < v.size(); ++i) {
                const unsigned char* a = reinterpret_cast<unsigned char*>(&v[i]);
                const unsigned char* b = reinterpret_cast<unsigned char*>(&w[i]);
                for (int j = 0; j < 8; ++j) VF_CHECK(a[j] == b[7 - j], "byteswap", "array");
            }
        }
    }
}

// -- patterns

namespace {
/// sets between brackets are plain characters and ranges, optionally negated
bool glob(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') {
        for (;; ++s) {
            if (glob(p + 1, s)) return true;
            if (!*s) return false;
        }
    }
    if (!*s) return false;
    if (*p == '?') return glob(p + 1, s + 1);
    if (*p == '[') {
        ++p;
        bool neg = *p == '^', in = false;
        if (neg) ++p;
        while (*p != ']') {
            if (p[1] == '-' && p[2] != ']') {
                in = in || (*s >= p[0] && *s <= p[2]);
                p += 3;
            }
            else {
                in = in || *s == *p;
                ++p;
            }
        }
        return in != neg && glob(p + 1, s + 1);
    }
    return *p == *s && glob(p + 1, s + 1);
}
}  // namespace

VF_WORKLOAD(patterns, 800, 12000) {
    vf::Rng& r = c.rng;
    std::string p, s;
    for (int n = r.in(0, 7); n > 0; --n) {
        switch (r.below(8)) {
            case 0:
                p += '*';
                s += from(r, "ab.-_", r.below(4));
                break;
            case 1:
                p += '?';
                s += from(r, "ab.-_", 1);
                break;
            case 2: {
                std::string in = r.pick(std::vector<std::string>{"ab", "a", "a-c", "^a", "^a-c", ".x", "b-ce"});
                p += "[" + in + "]";
                s += from(r, "abcde.", 1);
                break;
            }
            case 3:
                p += '.';
                s += '.';
                break;
            default: {
                std::string w = from(r, "ab_/ 0", r.in(1, 3));
                p += w;
                s += w;
            }
        }
    }
    for (int n = r.below(2); n > 0 && !s.empty(); --n) s[r.below(s.size())] = "ab.c"[r.below(4)];
    if (r.chance(0.2)) s += "b";
    if (r.chance(0.1)) s = "b" + s;
    c.trace() << "pattern=" + vf::repr(p) + " s=" + vf::repr(s) << "\n";
    c.eval();
    c.distinct(vf::hashStr(p + "|" + s));
    bool want = glob(p.c_str(), s.c_str());
    Regex re(p, true);
    VF_EQ(re.match(s), want, "glob", "shell pattern");
    c.count(want ? "globs_matched" : "globs_unmatched");
    Regex copy(re), other("x");
    other = re;
    VF_CHECK(copy.match(s) == want && other.match(s) == want && copy == re && other == re, "glob", "copies");

    // any text matches exactly itself once escaped
    std::string lit = from(r, "ab.^$*+-?()[]{}\\|", r.in(1, 8));
    Regex exact("^" + Regex::escape(lit) + "$");
    VF_CHECK(exact.match(lit), "escape", "the text itself: " + lit);
    std::string other_text = lit;
    other_text[r.below(lit.size())] = "ab.*(\\"[r.below(6)];
    VF_EQ(exact.match(other_text), other_text == lit, "escape", "another text: " + lit + " vs " + other_text);
    VF_CHECK(!exact.match(lit + "a") && !exact.match("a" + lit), "escape", "longer text");
    // unanchored: found anywhere
    VF_CHECK(Regex(Regex::escape(lit)).match("xx" + lit + "yy"), "escape", "inside");
}

// -- hashes

namespace {
std::string openssl(const EVP_MD* md, const std::string& s) {
    unsigned char d[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    EVP_Digest(s.data(), s.size(), d, &n, md, nullptr);
    std::string out;
    char b[3];
    for (unsigned i = 0; i < n; ++i) {
        snprintf(b, sizeof b, "%02x", d[i]);
        out += b;
    }
    return out;
}
}  // namespace

VF_WORKLOAD(hashes, 300, 5000) {
    vf::Rng& r = c.rng;
    static const std::vector<std::string> kinds{"MD5", "SHA1", "xxh64", "MD4"};
    for (auto& kind : kinds) {
        if (!HashFactory::instance().has(kind)) continue;
        std::unique_ptr<Hash> h(HashFactory::instance().build(kind));
        std::string all;
        std::set<std::string> seen;
        for (int n = r.in(1, 8); n > 0; --n) {
            std::string s = r.bytes(r.chance(0.2) ? r.below(300) : r.below(20));
            switch (r.below(9)) {
                case 0: {
                    long x = long(edge(r));
                    *h << x;
                    all.append(reinterpret_cast<char*>(&x), sizeof x);
                    break;
                }
                case 1: {
                    double x = r.unit();
                    h->add(x);
                    all.append(reinterpret_cast<char*>(&x), sizeof x);
                    break;
                }
                case 2:
                    *h << s;
                    all += s;
                    break;
                case 3:
                    h->add(s.c_str());
                    all += s.c_str();
                    break;
                case 4:
                    h->add(char('x'));
                    h->add(true);
                    h->add(short(7));
                    all += std::string("x\1\7\0", 4);
                    break;
                case 5:
                    (void)h->digest();  // ends a hash, until it is reset
                    h->reset();
                    all.clear();
                    c.count("digests_then_reset");
                    break;
                case 6:
                    if (r.chance(0.3)) {
                        h->reset();
                        all.clear();
                    }
                    break;
                case 7:
                    (void)h->compute(s.data(), long(s.size()));  // stateless
                    break;
                default:
                    h->add(s.data(), long(s.size()));
                    all += s;
            }
        }
        c.eval();
        c.distinct(vf::hashStr(kind + all));
        c.count("hashed_bytes", all.size());
        std::string got = h->digest();
        std::unique_ptr<Hash> h2(HashFactory::instance().build(kind)), h3(HashFactory::instance().build(kind));
        h3->add(all.data(), long(all.size()));
        VF_EQ(got, h2->compute(all.data(), long(all.size())), "hash", kind + ": in pieces and at once");
        VF_EQ(got, h3->digest(), "hash", kind + ": in pieces and in one piece");
        VF_EQ(got, h->digest(), "hash", kind + ": asked twice");
        if (kind == "MD5") VF_EQ(got, openssl(EVP_md5(), all), "hash", "MD5 vs OpenSSL");
        if (kind == "SHA1") VF_EQ(got, openssl(EVP_sha1(), all), "hash", "SHA1 vs OpenSSL");
        if (!all.empty()) {
            std::string other = all;
            other[r.below(other.size())] ^= char(1 << r.below(8));
            VF_CHECK(h2->compute(other.data(), long(other.size())) != got, "hash", kind + ": one bit different, same hash");
        }
    }
}

// -- Base64, bits, run lengths

namespace {
std::string refBase64(const std::string& s, bool url) {
    const char* t = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
                        : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned n = 0;
        size_t k = std::min<size_t>(3, s.size() - i);
        for (size_t j = 0; j < 3; ++j) n = n << 8 | (j < k ? (unsigned char)s[i + j] : 0);
        for (size_t j = 0; j <= k; ++j) o += t[(n >> (18 - 6 * j)) & 63];
    }
    return o;
}
std::string padded(std::string s) {
    while (s.size() % 4) s += '=';
    return s;
}
std::string take(MemoryHandle& h) {
    return std::string(static_cast<const char*>(h.data()), size_t(h.size()));
}
}  // namespace

VF_WORKLOAD(base64, 500, 10000) {
    vf::Rng& r = c.rng;
    std::string s = r.bytes(r.chance(0.1) ? r.below(3000) : r.below(20));
    c.eval();
    c.distinct(vf::hashStr(s));
    for (bool url : {false, true}) {
        Base64 b(url);
        MemoryHandle in(s.data(), s.size()), out;
        b.encode(in, out);
        std::string t = refTrim(take(out), "=", false, true);
        VF_EQ(t, refBase64(s, url), "base64", "encode");
        for (const std::string& text : {t, padded(t)}) {
            if (s.empty()) continue;
            MemoryHandle in2(text.data(), text.size()), out2;
            b.decode(in2, out2);
            std::string back = take(out2);
            // without padding, the bits left over may make one more byte
            VF_CHECK(back == s || (text == t && t.size() % 4 && back.substr(0, s.size()) == s && back.size() == s.size() + 1 && back.back() == 0), "base64",
                     "decode of " + text + " gave " + vf::repr(back) + " for " + vf::repr(s));
        }
        if (!t.empty()) {
            std::string bad = t;
            bad[r.below(bad.size())] = std::string("!@ \n\xff\0~", 7)[r.below(7)];
            MemoryHandle in3(bad.data(), bad.size()), out3;
            VF_CHECK(refuses([&] { b.decode(in3, out3); }), "base64", "a character that is not Base64 was accepted in " + bad);
            c.count("base64_refused");
        }
    }
    // scalars of the codec
    std::string e = codec::Base64::encode(s.data(), s.size());
    VF_EQ(e, padded(refBase64(s, false)), "base64", "codec encode");
    VF_EQ(vf::repr(codec::Base64::decode(e.data(), e.size())), vf::repr(s), "base64", "codec decode");
    if (s.size() % 3) {
        std::string e2 = refBase64(s, false);
        VF_EQ(vf::repr(codec::Base64::decode(e2.data(), e2.size())), vf::repr(s), "base64", "codec decode without padding");
    }
    // truncated text never reads outside: exact buffers under the sanitizer
    for (size_t n = 0; n <= e.size() && n < 40; ++n) {
        std::unique_ptr<char[]> exact(new char[n]);
        memcpy(exact.get(), e.data(), n);
        (void)refuses([&] { (void)codec::Base64::decode(exact.get(), n); });
        if (n / 4 * 3 + 2 < sizeof(double)) {
            VF_CHECK(refuses([&] { (void)codec::Base64::decode<double>(e.substr(0, n)); }), "base64", "half a double");
        }
    }
    double d = r.unit();
    VF_EQ(codec::Base64::decode<double>(codec::Base64::encode(d)), d, "base64", "double");
    c.count("base64");
}

VF_WORKLOAD(bits, 400, 8000) {
    vf::Rng& r = c.rng;
    std::vector<std::pair<size_t, size_t>> items;
    size_t total = 0;
    for (int n = r.in(1, 40); n > 0; --n) {
        size_t w = r.chance(0.3) ? r.in(1, 64) : r.in(1, 13);
        size_t v = w == 64 ? edge(r) : (edge(r) & ((size_t(1) << w) - 1));
        items.push_back({v, w});
        total += w;
    }
    MemoryHandle out;
    {
        BitIO b(out);
        for (auto& i : items) b.write(i.first, i.second);
        VF_EQ(b.bitCount(), total, "bits", "bits written");
        VF_EQ(b.byteCount(), (total + 7) / 8, "bits", "bytes written");
    }
    std::string bytes = take(out);
    c.eval();
    c.distinct(vf::hashStr(bytes));
    std::string want((total + 7) / 8, '\0');
    size_t k = 0;
    for (auto& i : items) {
        for (size_t j = 0; j < i.second; ++j, ++k) {
            if ((i.first >> (i.second - 1 - j)) & 1) want[k / 8] |= char(128 >> (k % 8));
        }
    }
    VF_EQ(vf::repr(bytes), vf::repr(want), "bits", "the bytes");
    MemoryHandle in(bytes.data(), bytes.size());
    BitIO b(in);
    for (auto& i : items) VF_EQ(b.read(i.second), i.first, "bits", "value read back");
    size_t left = bytes.size() * 8 - total;
    if (left) VF_EQ(b.read(left), size_t(0), "bits", "padding");
    VF_CHECK(refuses([&] { b.read(1); }), "bits", "reading past the end");
    MemoryHandle in2(bytes.data(), bytes.size());
    BitIO b2(in2);
    for (auto& i : items) b2.read(i.second);
    if (left) b2.read(left);
    VF_EQ(b2.read(5, 999), size_t(999), "bits", "end marker");
    c.count("bit_items", items.size());
}

VF_WORKLOAD(runs, 250, 4000) {
    vf::Rng& r = c.rng;
    std::vector<long> v;
    size_t n = r.below(r.chance(0.2) ? 200 : 30);
    while (v.size() < n) {
        switch (r.below(3)) {
            case 0:
                v.push_back(long(r.below(4)));
                break;
            case 1: {
                long x = long(r.below(1000)), step = r.chance(0.5) ? 0 : long(r.below(3));
                for (int k = r.in(1, 9); k > 0; --k) v.push_back(x += step);
                break;
            }
            default:
                if (!v.empty()) {
                    size_t len = 1 + r.below(std::min<size_t>(v.size(), 8));
                    std::vector<long> tail(v.end() - len, v.end());
                    for (int k = r.in(1, 4); k > 0; --k) v.insert(v.end(), tail.begin(), tail.end());
                }
        }
    }
    c.eval();
    c.distinct(vf::hashStr(std::string(reinterpret_cast<char*>(v.data()), v.size() * sizeof(long))));
    if (n > 1) c.count("run_inputs");
    long long loop = r.pick(std::vector<long long>{0, 1, 5, 100, 100000});
    for (int mode = 0; mode < 3; ++mode) {
        std::vector<long> enc, dec;
        long long k = mode == 0   ? RLEencode2(v.begin(), v.end(), std::back_inserter(enc), loop)
                      : mode == 1 ? RLEencode2(v.begin(), v.end(), std::back_inserter(enc), loop, std::chrono::microseconds(r.below(60)))
                                  : RLEencode2(v.begin(), v.end(), std::back_inserter(enc), loop, std::chrono::seconds(10), r.below(4));
        VF_EQ(size_t(k), enc.size(), "runs", "the length returned");
        VF_CHECK(enc.size() <= v.size(), "runs", "longer than the input");
        RLEdecode2(enc.begin(), enc.end(), std::back_inserter(dec));
        VF_CHECK(dec == v, "runs", "decoded is not what was encoded, mode " + std::to_string(mode));
        c.count("run_trips");
    }
    std::vector<long> diff, back;
    bool sorted = std::is_sorted(v.begin(), v.end());
    VF_EQ(DIFFencode(v.begin(), v.end(), std::back_inserter(diff)), sorted, "runs", "differences");
    if (sorted) {
        DIFFdecode(diff.begin(), diff.end(), std::back_inserter(back));
        VF_CHECK(back == v, "runs", "differences undone");
    }
    if (r.chance(0.2)) {
        if (r.chance(0.5)) std::sort(v.begin(), v.end());
        Buffer buf(1);
        std::vector<long long> u(v.begin(), v.end()), w;
        {
            ResizableMemoryStream s(buf);
            RLEDIFFwrite(s, u.begin(), u.end(), loop);
            s << std::string("end");
        }
        MemoryStream s(buf);
        RLEDIFFread(s, std::back_inserter(w), static_cast<long long*>(nullptr));
        std::string end;
        s >> end;
        VF_CHECK(w == u && end == "end", "runs", "through a stream");
        c.count("run_streams");
    }
}

// -- hypercubes

VF_WORKLOAD(hypercubes, 300, 5000) {
    vf::Rng& r = c.rng;
    HyperCube::Dimensions d;
    for (int n = r.in(1, 4); n > 0; --n) d.push_back(r.in(1, 5));
    HyperCube cube(d);
    size_t total = 1;
    for (auto x : d) total *= x;
    c.eval();
    c.distinct(vf::hashStr(std::string(reinterpret_cast<char*>(d.data()), d.size() * sizeof(d[0]))));
    VF_EQ(size_t(cube.count()), total, "cube", "count");
    HyperCube::Coordinates x(d.size());
    std::vector<HyperCube::Coordinates> all;
    for (size_t i = 0; i < total; ++i) {
        cube.coordinates(Ordinal(i), x);
        VF_EQ(size_t(cube.index(x)), i, "cube", "index of coordinates");
        if (!all.empty()) VF_CHECK(all.back() < x, "cube", "coordinates are not in order");
        all.push_back(x);
    }
    VF_CHECK(refuses([&] { cube.coordinates(Ordinal(total), x); }), "cube", "an index outside");
    x = all[r.below(total)];
    size_t k = r.below(d.size());
    x[k]     = d[k] + Ordinal(r.below(3));
    VF_CHECK(refuses([&] { cube.index(x); }), "cube", "coordinates outside");

    // adding to a dimension moves each element to the same coordinates, shifted
    HyperCube::Remapping map, first;
    HyperCube cur = cube;
    auto where_is = all;
    for (int step = r.in(1, 3); step > 0; --step) {
        Ordinal which = Ordinal(r.below(d.size())), where = Ordinal(r.below(cur.dimensions(which) + 1)), howMany = Ordinal(r.in(1, 3));
        HyperCube::Remapping m;
        HyperCube next = cur.addToDimension(which, where, howMany, m);
        VF_EQ(m.size(), size_t(cur.count()), "cube", "size of the mapping");
        VF_EQ(size_t(next.dimensions(which)), size_t(cur.dimensions(which) + howMany), "cube", "the new dimension");
        HyperCube::combine(map, m);
        for (auto& y : where_is) {
            if (y[which] >= where) y[which] += howMany;
        }
        cur = next;
    }
    VF_EQ(map.size(), total, "cube", "size of the combined mapping");
    for (size_t i = 0; i < total; ++i) VF_EQ(size_t(map[i]), size_t(cur.index(where_is[i])), "cube", "where an element went");
    c.count("cube_elements", total);
}

// -- rendezvous hashing

VF_WORKLOAD(rendezvous, 150, 2000) {
    vf::Rng& r = c.rng;
    std::set<std::string> nodes;
    while (nodes.size() < size_t(r.in(1, 8))) nodes.insert(from(r, "abcdef:0", r.in(1, 6)));
    Words list(nodes.begin(), nodes.end());
    r.shuffle(list);
    RendezvousHash a(list);
    RendezvousHash b;
    auto other = list;
    r.shuffle(other);
    for (auto& n : other) VF_CHECK(b.addNode(n), "nodes", "a new node");
    VF_CHECK(!b.addNode(other[0]), "nodes", "added twice");
    std::set<std::string> first;
    for (int i = 0; i < 10; ++i) {
        RendezvousHash::Key key{{"class", from(r, "abc", 3)}, {"step", std::to_string(r.below(100000))}};
        Words oa, ob;
        std::vector<size_t> ix;
        a.hashOrder(key, oa);
        b.hashOrder(key, ob);
        a.hashOrder(key, ix);
        c.eval();
        VF_CHECK(std::set<std::string>(oa.begin(), oa.end()) == nodes && oa.size() == nodes.size(), "order", "not a permutation of the nodes");
        VF_EQ(show(oa), show(ob), "order", "depends on the order of the list");
        for (size_t k = 0; k < ix.size(); ++k) VF_EQ(list[ix[k]], oa[k], "order", "indices and nodes");
        // without a node, the order of the others is the same
        const std::string& gone = other[r.below(other.size())];
        VF_CHECK(b.removeNode(gone), "nodes", "removed");
        VF_CHECK(!b.removeNode(gone), "nodes", "removed twice");
        if (nodes.size() > 1) {
            b.hashOrder(key, ob);
            oa.erase(std::find(oa.begin(), oa.end(), gone));
            VF_EQ(show(ob), show(oa), "order", "changed by the removal of a node");
        }
        else {
            VF_CHECK(refuses([&] { b.hashOrder(key, ob); }), "order", "no nodes");
        }
        VF_CHECK(b.addNode(gone), "nodes", "added again");
        c.count("rendezvous");
    }
    c.distinct(vf::hashStr(show(list)));
}

VF_WORKLOAD(compressors, 60, 500) {
    vf::Rng& r = c.rng;
    for (const char* name : {"none", "lz4", "snappy", "bzip2", "aec"}) {
        if (!CompressorFactory::instance().has(name)) continue;
        std::unique_ptr<Compressor> z(CompressorFactory::instance().build(name));
        std::string s = r.chance(0.5) ? r.bytes(r.below(5000)) : from(r, "ab", r.in(1, 5000));
        if (s.empty()) continue;
        Buffer out(r.below(3) ? 1 : 8000), back(r.below(2) ? 1 : 6000);
        size_t n = z->compress(s.data(), s.size(), out);
        VF_CHECK(n <= out.size(), "compress", "length");
        std::string packed(static_cast<const char*>(out.data()), n);
        z->uncompress(packed.data(), packed.size(), back, s.size());
        VF_CHECK(back.size() >= s.size() && memcmp(back.data(), s.data(), s.size()) == 0, "compress", std::string(name) + " round trip");
        c.eval();
        c.distinct(vf::hashStr(s));
        c.count("compressed");
    }
}
