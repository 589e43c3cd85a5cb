// C28 specifications: custom and layered ones, and what is chosen by them
#include "vf.h"

#include <regex>
#include <thread>
#include <variant>

#include "eckit/exception/Exceptions.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/YAMLParser.h"
#include "eckit/spec/Custom.h"
#include "eckit/spec/Generator.h"
#include "eckit/spec/Layered.h"
#include "eckit/value/Value.h"

using namespace eckit;
using spec::Custom;
using spec::Layered;
using spec::Spec;

namespace {

/// a value of a spec, kept apart from the code under test
struct Ref {
    enum K { BOOL, INT, LONG, LONGLONG, SIZE, FLOAT, DOUBLE, STRING, INTS, LONGS, LONGLONGS, SIZES, FLOATS, DOUBLES, STRINGS, NESTED, KINDS } k = INT;
    bool b = false;
    __int128 i = 0;
    double d = 0;
    std::string s;
    std::vector<__int128> li;
    std::vector<double> ld;
    std::vector<std::string> ls;
    std::map<std::string, Ref> sub;

    bool integral() const { return k >= INT && k <= SIZE; }
    bool real() const { return k == FLOAT || k == DOUBLE; }
    bool integrals() const { return k >= INTS && k <= SIZES; }
    bool reals() const { return k == FLOATS || k == DOUBLES; }
};
using Map = std::map<std::string, Ref>;

std::string low(std::string s) {
    for (char& c : s) c = char(std::tolower((unsigned char)c));
    return s;
}

std::string text(const Ref& r) {
    std::ostringstream o;
    o.precision(17);
    o << r.k << ":";
    if (r.k == Ref::BOOL) o << r.b;
    if (r.integral()) o << (long long)r.i;
    if (r.real()) o << r.d;
    if (r.k == Ref::STRING) o << vf::repr(r.s);
    for (auto x : r.li) o << (long long)x << ",";
    for (auto x : r.ld) o << x << ",";
    for (auto& x : r.ls) o << vf::repr(x) << ",";
    for (auto& x : r.sub) o << x.first << "=(" << text(x.second) << ")";
    return o.str();
}

struct Gen {
    vf::Rng& r;
    bool shortNumbers = false;  ///< reals which 15 digits hold, and integers of a long

    std::string name() {
        static const std::vector<std::string> names{"a", "B", "grid", "Area", "n", "N2", "type", "x_y", "north", "lonMin"};
        std::string n = r.pick(names);
        if (r.chance(0.3))
            for (char& c : n) c = char(r.chance(0.5) ? std::toupper(c) : std::tolower(c));
        return n;
    }
    __int128 whole(Ref::K k) {
        if (shortNumbers && k != Ref::INT && k != Ref::INTS && r.chance(0.3)) return (long long)(r.u64() >> r.in(1, 60)) * (k == Ref::SIZE || r.chance(0.5) ? 1 : -1);
        if (shortNumbers) return k == Ref::SIZE ? r.in(0, 100000) : r.in(-100000, 100000);
        __int128 v = r.chance(0.4) ? (__int128)r.in(-5, 5) : r.chance(0.4) ? ((__int128)1 << r.in(7, 64)) + r.in(-2, 1) : (__int128)(long long)(r.u64() >> r.in(0, 60));
        if (r.chance(0.3)) v = -v;
        switch (k) {
            case Ref::INT: return (int)v;
            case Ref::SIZE: return (size_t)v;
            default: return (long long)v;
        }
    }
    double fraction(bool f) {
        if (shortNumbers) return r.in(-1000000, 1000000) / 64.;
        double v = r.chance(0.3) ? double(r.in(-10, 10)) : r.chance(0.5) ? r.real(-1000, 1000) : r.real(-1, 1) * std::pow(10, r.in(-30, 30));
        return f ? double(float(v)) : v;
    }
    std::string word() { return r.chance(0.1) ? std::string() : r.word(8, "abcXYZ019 _-./"); }

    Ref make(int depth) {
        Ref v;
        v.k = Ref::K(r.below(depth > 0 ? Ref::KINDS : Ref::NESTED));
        long n = r.in(1, 4);
        v.b = r.chance(0.5);
        if (v.integral()) v.i = whole(v.k);
        if (v.real()) v.d = fraction(v.k == Ref::FLOAT);
        if (v.k == Ref::STRING) v.s = word();
        for (; v.integrals() && n > 0; --n) v.li.push_back(whole(Ref::K(v.k - Ref::INTS + Ref::INT)));
        for (; v.reals() && n > 0; --n) v.ld.push_back(fraction(v.k == Ref::FLOATS));
        for (; v.k == Ref::STRINGS && n > 0; --n) v.ls.push_back(word());
        for (; v.k == Ref::NESTED && n > 0; --n) v.sub[low(name())] = make(depth - 1);
        return v;
    }
};

template <typename T>
std::vector<T> as(const std::vector<__int128>& l) {
    std::vector<T> o;
    for (auto x : l) o.push_back(T(x));
    return o;
}

void put(Custom& c, const std::string& name, const Ref& v, vf::Rng& r) {
    switch (v.k) {
        case Ref::BOOL: c.set(name, v.b); break;
        case Ref::INT: c.set(name, int(v.i)); break;
        case Ref::LONG: c.set(name, long(v.i)); break;
        case Ref::LONGLONG: c.set(name, (long long)(v.i)); break;
        case Ref::SIZE: c.set(name, size_t(v.i)); break;
        case Ref::FLOAT: c.set(name, float(v.d)); break;
        case Ref::DOUBLE: c.set(name, v.d); break;
        case Ref::STRING:
            if (r.chance(0.5)) c.set(name, v.s);
            else c.set(name, v.s.c_str());
            break;
        case Ref::INTS: c.set(name, as<int>(v.li)); break;
        case Ref::LONGS: c.set(name, as<long>(v.li)); break;
        case Ref::LONGLONGS: c.set(name, as<long long>(v.li)); break;
        case Ref::SIZES: c.set(name, as<size_t>(v.li)); break;
        case Ref::FLOATS: c.set(name, std::vector<float>(v.ld.begin(), v.ld.end())); break;
        case Ref::DOUBLES: c.set(name, v.ld); break;
        case Ref::STRINGS: c.set(name, v.ls); break;
        default: {
            std::unique_ptr<Custom> sub(new Custom);
            for (auto& x : v.sub) put(*sub, x.first, x.second, r);
            if (r.chance(0.5)) c.set(name, static_cast<const Spec&>(*sub));
            else c.set(name, sub.release());
        }
    }
}

Custom::value_type value(const Ref& v, vf::Rng& r) {
    switch (v.k) {
        case Ref::BOOL: return v.b;
        case Ref::INT: return int(v.i);
        case Ref::LONG: return long(v.i);
        case Ref::LONGLONG: return (long long)(v.i);
        case Ref::SIZE: return size_t(v.i);
        case Ref::FLOAT: return float(v.d);
        case Ref::DOUBLE: return v.d;
        case Ref::STRING: return v.s;
        case Ref::INTS: return as<int>(v.li);
        case Ref::LONGS: return as<long>(v.li);
        case Ref::LONGLONGS: return as<long long>(v.li);
        case Ref::SIZES: return as<size_t>(v.li);
        case Ref::FLOATS: return std::vector<float>(v.ld.begin(), v.ld.end());
        case Ref::DOUBLES: return v.ld;
        case Ref::STRINGS: return v.ls;
        default: {
            auto sub = new Custom;
            for (auto& x : v.sub) put(*sub, x.first, x.second, r);
            return Custom::custom_ptr(sub);
        }
    }
}

template <typename T>
bool fits(__int128 v) {
    return v >= (__int128)std::numeric_limits<T>::lowest() && v <= (__int128)std::numeric_limits<T>::max();
}

// what the model says is there as another type
bool want(const Ref& v, bool& o) {
    if (v.k == Ref::BOOL) return o = v.b, true;
    if (v.integral()) return o = v.i != 0, true;
    return false;
}
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
bool want(const Ref& v, T& o) {
    return v.integral() && fits<T>(v.i) ? (o = T(v.i), true) : false;
}
template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
bool want(const Ref& v, T& o) {
    if (v.integral()) return o = v.k == Ref::SIZE ? T(size_t(v.i)) : T((long long)v.i), true;
    if (v.real()) return o = T(v.d), true;
    return false;
}
bool want(const Ref& v, std::string& o) {
    if (v.k == Ref::STRING) return o = v.s, true;
    if (v.integral()) return o = v.k == Ref::SIZE ? std::to_string(size_t(v.i)) : std::to_string((long long)v.i), true;
    if (v.real()) return o = std::to_string(v.d), true;
    return false;
}
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
bool want(const Ref& v, std::vector<T>& o) {
    if (!v.integrals()) return false;
    for (auto x : v.li)
        if (!fits<T>(x)) return false;
    o = as<T>(v.li);
    return true;
}
template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
bool want(const Ref& v, std::vector<T>& o) {
    if (v.integrals()) {
        o.clear();
        for (auto x : v.li) o.push_back(v.k == Ref::SIZES ? T(size_t(x)) : T((long long)x));
        return true;
    }
    if (v.reals()) return o.assign(v.ld.begin(), v.ld.end()), true;
    return false;
}
bool want(const Ref& v, std::vector<std::string>& o) {
    return v.k == Ref::STRINGS ? (o = v.ls, true) : false;
}

template <typename T>
std::string show(const T& v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
template <typename T>
std::string show(const std::vector<T>& v) {
    std::ostringstream o;
    o.precision(17);
    for (auto& x : v) o << x << ",";
    return o.str();
}

/// asks for a name as one type; the layers which have it, in the order they answer
template <typename T>
void ask(vf::Case& c, const Spec& s, const std::string& name, const std::vector<const Ref*>& layers, T init, const char* type) {
    T got = init, expected = init;
    bool there = false;
    for (auto* l : layers)
        if ((there = want(*l, expected))) break;
    bool found = s.get(name, got);
    VF_CHECK(found == there, "spec-found", name << " as " << type << " is " << (found ? "given as " + show(got) : "not given") << ", the spec has " << (layers.empty() ? "nothing" : text(*layers[0])));
    VF_CHECK(found ? show(got) == show(expected) : show(got) == show(init), "spec-value", name << " as " << type << " is " << show(got) << ", expected " << show(expected));
    c.count(found ? "values_given" : "values_refused");
    c.eval();
}

void askAll(vf::Case& c, const Spec& s, const std::string& name, const std::vector<const Ref*>& l) {
    ask(c, s, name, l, c.rng.chance(0.5), "bool");
    ask(c, s, name, l, 17, "int");
    ask(c, s, name, l, 17l, "long");
    ask(c, s, name, l, 17ll, "long long");
    ask(c, s, name, l, size_t(17), "size_t");
    ask(c, s, name, l, 17.f, "float");
    ask(c, s, name, l, 17., "double");
    ask(c, s, name, l, std::string("before"), "string");
    ask(c, s, name, l, std::vector<int>{17}, "ints");
    ask(c, s, name, l, std::vector<long>{17}, "longs");
    ask(c, s, name, l, std::vector<long long>{17}, "long longs");
    ask(c, s, name, l, std::vector<size_t>{17}, "sizes");
    ask(c, s, name, l, std::vector<float>{17}, "floats");
    ask(c, s, name, l, std::vector<double>{17}, "doubles");
    ask(c, s, name, l, std::vector<std::string>{"before"}, "strings");
    // with defaults, and without
    const Ref* first = l.empty() ? nullptr : l[0];
    long x = 0;
    bool isLong = false;
    for (auto* v : l)
        if ((isLong = want(*v, x))) break;
    VF_CHECK(s.get_long(name, 4711) == (isLong ? x : 4711), "spec-default", name << " or 4711 is " << s.get_long(name, 4711));
    VF_CHECK(isLong ? s.get_long(name) == x : vf::refuses([&] { s.get_long(name); }), "spec-default", name << " without a default");
    std::string t;
    bool isText = false;
    for (auto* v : l)
        if ((isText = want(*v, t))) break;
    VF_CHECK(isText ? s.get_string(name) == t && s.get_string(name, "other") == t : s.get_string(name, "other") == "other" && vf::refuses([&] { s.get_string(name); }), "spec-default", name << " as a text");
    VF_CHECK(s.has(name) == (first != nullptr), "spec-has", name << " is " << (first ? "not " : "") << "there");
}

void compare(vf::Case& c, const Custom& s, const Map& m) {
    for (auto& x : m) {
        std::string n = x.first;
        if (c.rng.chance(0.3))
            for (char& ch : n) ch = char(std::toupper((unsigned char)ch));
        askAll(c, s, n, {&x.second});
        VF_CHECK(s.only(n) == (m.size() == 1), "spec-only", n << " alone");
        VF_CHECK(s.has_custom(n) == (x.second.k == Ref::NESTED), "spec-nested", n << " nested");
        if (x.second.k == Ref::NESTED) {
            compare(c, dynamic_cast<const Custom&>(s.spec(n)), x.second.sub);
            VF_CHECK(&s.spec(n) == s.custom(n).get(), "spec-nested", n << " is not the same spec twice");
        }
        else {
            VF_CHECK(vf::refuses([&] { s.custom(n); }) && vf::refuses([&] { s.spec(n); }), "spec-nested", n << " is given as a spec");
        }
    }
    VF_CHECK(s.container().size() == m.size() && s.empty() == m.empty(), "spec-size", "the spec has " << s.container().size() << " names, expected " << m.size());
    Gen g{c.rng};
    std::string n = g.name();
    if (!m.count(low(n))) {
        askAll(c, s, n, {});
        VF_CHECK(vf::refuses([&] { s.spec(n); }) && !s.only(n), "spec-missing", n << " is found");
    }
}

std::unique_ptr<Custom> build(const Map& m, vf::Rng& r) {
    std::unique_ptr<Custom> c;
    if (r.chance(0.5)) {
        c.reset(new Custom);
        for (auto& x : m) put(*c, x.first, x.second, r);
    }
    else {
        Custom::container_type t;
        for (auto& x : m) t[x.first] = value(x.second, r);
        c.reset(r.chance(0.5) ? new Custom(t) : new Custom(std::move(t)));
    }
    return c;
}

/// the values are the same, whatever their types
bool same(const Map& a, const Map& b);
bool same(const Ref& a, const Ref& b) {
    auto num = [](const Ref& v) { return v.integral() || v.real(); };
    auto dbl = [](__int128 i) { return i > (__int128)LLONG_MAX ? double((unsigned long long)i) : double((long long)i); };
    if (a.integral() && b.integral()) return a.i == b.i;
    if (num(a) && num(b)) return (a.integral() ? dbl(a.i) : a.d) == (b.integral() ? dbl(b.i) : b.d);
    if (a.integrals() && b.integrals()) return a.li == b.li;
    if ((a.integrals() || a.reals()) && (b.integrals() || b.reals())) {
        std::vector<double> x = a.ld, y = b.ld;
        for (auto v : a.li) x.push_back(dbl(v));
        for (auto v : b.li) y.push_back(dbl(v));
        return x == y;
    }
    if (a.k != b.k) return false;
    return a.b == b.b && a.s == b.s && a.ls == b.ls && same(a.sub, b.sub);
}
bool same(const Map& a, const Map& b) {
    for (auto& x : a) {
        auto j = b.find(x.first);
        if (j == b.end() || !same(x.second, j->second)) return false;
    }
    return true;
}

/// texts are only compared with texts here (a text equals a number with that text)
bool mixed(const Map& a, const Map& b) {
    for (auto& x : a) {
        auto j = b.find(x.first);
        if (j == b.end()) continue;
        auto num = [](const Ref& v) { return v.integral() || v.real(); };
        if ((x.second.k == Ref::STRING && num(j->second)) || (num(x.second) && j->second.k == Ref::STRING)) return true;
        if (x.second.k == Ref::NESTED && j->second.k == Ref::NESTED && mixed(x.second.sub, j->second.sub)) return true;
    }
    return false;
}

/// changes one thing, or only the type of it
void edit(vf::Rng& r, Map& m, Gen& g, int depth = 2) {
    if (m.empty() || r.chance(0.15)) {
        m[low(g.name())] = g.make(1);
        return;
    }
    auto x = m.begin();
    std::advance(x, r.below(m.size()));
    Ref& v = x->second;
    if (r.chance(0.15)) {
        m.erase(x);
        return;
    }
    bool retype = r.chance(0.5);
    if (v.k == Ref::BOOL) v.b = !v.b;
    else if (v.integral()) {
        if (retype) {
            if (r.chance(0.3)) v.k = Ref::DOUBLE, v.d = double((long long)v.i), v.i = 0;
            else if (v.i >= 0 && r.chance(0.5)) v.k = Ref::SIZE;
            else if (fits<int>(v.i) && r.chance(0.5)) v.k = Ref::INT;
            else if (fits<long long>(v.i)) v.k = r.chance(0.5) ? Ref::LONG : Ref::LONGLONG;
            if (v.k == Ref::DOUBLE && std::fabs(v.d) > 4e18) v.d = 1;
        }
        else {
            __int128 n = r.chance(0.3) && fits<long long>(v.i) ? (__int128)(size_t)(long long)v.i : v.i + (r.chance(0.5) ? 1 : -1);
            v.k = fits<int>(n) ? Ref::INT : fits<long long>(n) ? Ref::LONG : Ref::SIZE;
            v.i = fits<long long>(n) || fits<size_t>(n) ? n : 0;
        }
    }
    else if (v.real()) {
        if (retype && v.k == Ref::FLOAT) v.k = Ref::DOUBLE;
        else if (retype) v.k = Ref::FLOAT, v.d = double(float(v.d));
        else if (v.k == Ref::DOUBLE) v.d = std::nextafter(v.d, r.chance(0.5) ? 1e300 : -1e300);
        else v.d = double(std::nextafterf(float(v.d), 0));
    }
    else if (v.k == Ref::STRING) v.s += r.chance(0.5) ? "x" : " ";
    else if (v.integrals()) {
        if (retype) {
            if (r.chance(0.5)) {
                v.k = Ref::DOUBLES;
                for (auto i : v.li) v.ld.push_back(double((long long)i));
                v.li.clear();
            }
            else {
                bool ok = true;
                for (auto i : v.li) ok = ok && fits<long>(i);
                if (ok) v.k = Ref::LONGS;
            }
        }
        else if (v.li.size() > 1 && r.chance(0.5)) v.li.pop_back();
        else v.li[r.below(v.li.size())] = r.in(0, 100);
    }
    else if (v.reals()) {
        if (retype) v.k = Ref::DOUBLES;
        else if (v.ld.size() > 1 && r.chance(0.5)) v.ld.pop_back();
        else {
            double& d = v.ld[r.below(v.ld.size())];
            d = v.k == Ref::DOUBLES ? std::nextafter(d, 0) : double(std::nextafterf(float(d), 1e30f));
        }
    }
    else if (v.k == Ref::STRINGS) {
        if (r.chance(0.5) && v.ls.size() > 1) std::swap(v.ls[0], v.ls[1]);
        else v.ls.push_back("more");
    }
    else edit(r, v.sub, g, depth - 1);
}

std::string text(const Map& m) {
    std::string s;
    for (auto& x : m) s += x.first + "=" + text(x.second) + " ";
    return s;
}

}  // namespace

/// histories of settings
VF_WORKLOAD(spec_custom, 700, 20000) {
    auto& r = c.rng;
    Gen g{r};
    Custom s;
    Map m;
    for (long n = r.in(1, 14); n > 0; --n) {
        std::string name = g.name();
        switch (r.below(12)) {
            case 0:
                VF_EQ(s.erase(name), m.erase(low(name)), "spec-erase", "erased " << name);
                c.trace() << "erase " << name << "; ";
                break;
            case 1:
                if (r.chance(0.1)) {
                    s.clear();
                    m.clear();
                    c.trace() << "clear; ";
                }
                else {
                    // names which are not there yet come from another
                    Map o;
                    for (long k = r.in(0, 3); k > 0; --k) o[low(g.name())] = g.make(1);
                    auto other = build(o, r);
                    for (auto& x : o)
                        if (m.count(x.first)) other->erase(x.first);
                        else m.insert(x);
                    s.set(*other);
                    c.trace() << "add " << text(o) << "; ";
                }
                break;
            case 2: {
                Map o;
                for (long k = r.in(0, 4); k > 0; --k) o[low(g.name())] = g.make(1);
                Custom::container_type t;
                for (auto& x : o) t[x.first] = value(x.second, r);
                std::string chars = "text of a pointer";
                if (r.chance(0.5)) {
                    t["chars"] = chars.c_str();
                    o["chars"].k = Ref::STRING;
                    o["chars"].s = chars;
                }
                if (r.chance(0.5)) s.set(t);
                else s.set(std::move(t));
                chars.assign(chars.size(), '?');
                m = o;
                c.trace() << "all " << text(o) << "; ";
                break;
            }
            case 3: {
                // a Value
                Gen h{r, true};
                Ref v = h.make(0);
                ValueList l;
                bool ok = true;
                switch (v.k) {
                    case Ref::INT: s.set(name, Value(int(v.i))); v.k = Ref::LONG; break;
                    case Ref::DOUBLE: s.set(name, Value(v.d)); break;
                    case Ref::STRING: s.set(name, Value(v.s)); break;
                    case Ref::LONGS:
                        for (auto x : v.li) l.push_back(Value((long long)x));
                        s.set(name, Value(l));
                        break;
                    case Ref::DOUBLES:
                        for (auto& x : v.ld) {
                            if (r.chance(0.3)) l.push_back(Value((long long)(x = std::round(x))));
                            else l.push_back(Value(x));
                        }
                        {
                            bool whole = std::all_of(l.begin(), l.end(), [](const Value& x) { return x.isNumber(); });
                            if (whole) {
                                v.k = Ref::LONGS;
                                for (auto x : v.ld) v.li.push_back((long long)x);
                                v.ld.clear();
                            }
                        }
                        s.set(name, Value(l));
                        break;
                    case Ref::STRINGS:
                        for (auto& x : v.ls) l.push_back(Value(x));
                        s.set(name, Value(l));
                        break;
                    default: ok = false;
                }
                if (ok) {
                    m[low(name)] = v;
                    c.count("set_from_values");
                    c.trace() << name << ":=" << text(v) << "; ";
                }
                break;
            }
            default: {
                Ref v = g.make(2);
                put(s, name, v, r);
                m[low(name)] = v;
                c.trace() << name << "=" << text(v) << "; ";
            }
        }
    }
    compare(c, s, m);
    VF_CHECK(s == s && !(s != s), "spec-equal-itself", "the spec is not equal to itself: " << s);
    VF_CHECK(static_cast<const Spec&>(s) == static_cast<const Spec&>(s), "spec-equal-itself", "the text of the spec is not equal to itself: " << s);
    std::unique_ptr<Custom> copy(new Custom(s.container()));
    if (!m.empty()) {
        // a copy is its own
        std::string name = m.begin()->first;
        copy->set(name, "changed");
        copy->set("extra", 1);
        compare(c, s, m);
    }
    c.distinct(text(m));
    c.count("specs");
}

/// comparing
VF_WORKLOAD(spec_equal, 3000, 80000) {
    auto& r = c.rng;
    Gen g{r};
    Map a;
    for (long k = r.in(0, 5); k > 0; --k) a[low(g.name())] = g.make(2);
    Map b = a;
    for (long k = r.below(4); k > 0; --k) edit(r, b, g);
    c.trace() << text(a) << " and " << text(b);
    if (mixed(a, b)) return;
    auto sa = build(a, r), sb = build(b, r);
    bool ab = same(a, b), ba = same(b, a);
    VF_CHECK((*sa == *sb) == ab && (*sa != *sb) != ab, "spec-equal", *sa << (ab ? " is not in " : " is in ") << *sb);
    VF_CHECK((*sb == *sa) == ba && (*sb != *sa) != ba, "spec-equal", *sb << (ba ? " is not in " : " is in ") << *sa);
    VF_CHECK(*sa == *build(a, r), "spec-equal-itself", "made in another way: " << *sa);
    c.count(ab && ba ? "specs_equal" : ab || ba ? "specs_contained" : "specs_different");
    c.eval(3);
    c.distinct(c.trace_.str());
}

/// text and back
VF_WORKLOAD(spec_text, 1500, 40000) {
    auto& r = c.rng;
    Gen g{r, true};
    Map a;
    std::function<void(Map&, int)> fill = [&](Map& m, int depth) {
        for (long k = r.in(1, 5); k > 0; --k) {
            std::string n = low(g.name());
            Ref v;
            do v = g.make(0);
            while (v.k == Ref::BOOL);
            if (depth > 0 && r.chance(0.25)) {
                v   = Ref();
                v.k = Ref::NESTED;
                fill(v.sub, depth - 1);
            }
            m[n] = v;
        }
    };
    fill(a, 3);
    auto s        = build(a, r);
    std::string t = s->str();
    c.trace() << t;
    std::unique_ptr<Custom> back(Custom::make_from_value(YAMLParser::decodeString(t)));
    VF_CHECK(*back == *s && *s == *back, "spec-text", "read back as " << *back);
    VF_EQ(back->str(), t, "spec-text", "the text of what was read from it");
    std::ostringstream o;
    o << *s;
    VF_EQ(o.str(), t, "spec-text", "printed");
    for (auto& x : a) {
        VF_CHECK(back->has_custom(x.first) == (x.second.k == Ref::NESTED), "spec-text-nested", x.first);
        double d = 0, e = 0;
        VF_CHECK(s->get(x.first, d) == back->get(x.first, e) && d == e, "spec-text-number", x.first << " is " << e << ", was " << d);
        std::vector<std::string> u, v;
        VF_CHECK(s->get(x.first, u) == back->get(x.first, v) && u == v, "spec-text-strings", x.first);
    }
    // one that is refused
    if (r.chance(0.3)) {
        std::string bad = t.substr(0, t.size() - 1) + std::string(r.pick(std::vector<std::string>{",\"zz\":true}", ",\"zz\":null}", ",\"zz\":[]}", ",\"zz\":[1,\"a\"]}", ",\"zz\":[{}]}", ",\"zz\":{\"y\":null}}"}));
        std::unique_ptr<Custom> no;
        VF_CHECK(vf::refuses([&] { no.reset(Custom::make_from_value(YAMLParser::decodeString(bad))); }), "spec-text-refused", bad << " is read as " << *no);
        c.count("texts_refused");
    }
    std::unique_ptr<Custom> named(Custom::make_from_value(Value(std::string("N32"))));
    VF_EQ(named->str(), std::string("{\"grid\":\"N32\"}"), "spec-name", "a name alone");
    c.count("texts");
    c.eval(4);
    c.distinct(t);
}

/// layers
VF_WORKLOAD(spec_layered, 700, 20000) {
    auto& r = c.rng;
    Gen g{r};
    auto make = [&] {
        Map m;
        for (long k = r.in(0, 5); k > 0; --k) m[low(g.name())] = g.make(1);
        return m;
    };
    Map base = make();
    auto s   = build(base, r);
    Layered l(*s);
    std::deque<Map> order{base};  // as they answer
    std::set<std::string> hidden;
    std::set<std::string> names;
    for (long n = r.in(0, 8); n > 0; --n) {
        if (r.chance(0.4)) {
            Map m = make();
            l.push_front(build(m, r).release());
            order.push_front(m);
            c.trace() << "front " << text(m) << "; ";
        }
        else if (r.chance(0.5)) {
            Map m = make();
            l.push_back(build(m, r).release());
            order.push_back(m);
            c.trace() << "back " << text(m) << "; ";
        }
        else {
            std::string h = low(g.name());
            if (r.chance(0.7)) l.hide(h), hidden.insert(h);
            else l.unhide(h), hidden.erase(h);
            c.trace() << (hidden.count(h) ? "hide " : "unhide ") << h << "; ";
        }
    }
    for (auto& m : order)
        for (auto& x : m) names.insert(x.first);
    names.insert(low(g.name()));
    for (auto& n : names) {
        std::vector<const Ref*> have;
        if (!hidden.count(n))
            for (auto& m : order) {
                auto j = m.find(n);
                if (j != m.end()) have.push_back(&j->second);
            }
        askAll(c, l, n, have);
        const Spec& view = l;
        if (!have.empty() && have[0]->k == Ref::NESTED) {
            bool refused = false;
            std::string got;
            try {
                got = view.spec(n).str();
            }
            catch (std::exception& e) {
                refused = true;
            }
            VF_CHECK(!refused, "layered-spec", n << " is not given as a spec");
            VF_EQ(got, build(have[0]->sub, r)->str(), "layered-spec", "nested spec " << n);
            c.count("nested_found");
        }
        else {
            VF_CHECK(vf::refuses([&] { view.spec(n); }), "layered-spec", n << " is given as a spec");
        }
    }
    c.count("layered");
    c.distinct(c.trace_.str());
}

namespace {

struct Maker : spec::SpecGenerator {
    explicit Maker(Map m, int i, vf::Rng& r) : spec(build(m, r)), id(i) {}
    std::unique_ptr<Custom> spec;
    int id;
    bool match(const Custom& other) const override { return other == *spec; }
};

using Makers = spec::GeneratorT<Maker>;

}  // namespace

/// the one which matches a name, or a spec
VF_WORKLOAD(spec_generators, 500, 10000) {
    auto& r   = c.rng;
    auto& all = Makers::instance();
    Gen g{r, true};
    std::map<std::string, std::pair<int, Map>> model;
    static const std::vector<std::string> keys{"alpha", "beta", "[oO][1-9][0-9]*", "n[0-9]+", "n[1-3]2", "x.*", "Gamma", "al.*a", "al.*", "[no][0-9]*", ""};
    static const std::vector<std::string> names{"alpha", "ALPHA", "beta", "o12", "O012", "n32", "N12", "n1", "xyz", "X", "gamma", "delta", "alpaca", "", "alphab", "n32 "};
    int serial = 0;
    for (long n = r.in(1, 12); n > 0; --n) {
        std::string k = r.pick(keys);
        if (r.chance(0.75)) {
            Map m;
            for (long i = r.in(1, 2); i > 0; --i) {
                m[low(g.name())].i = r.in(0, 2);
            }
            auto* one    = new Maker(m, serial, r);
            bool refused = false;
            try {
                all.regist(k, one);
            }
            catch (Exception&) {
                refused = true;
                delete one;
            }
            VF_CHECK(refused == bool(model.count(k)), "generator-twice", "generator " << k << (refused ? " refused" : " taken twice"));
            if (!refused) model[k] = {serial, m};
            ++serial;
        }
        else {
            bool refused = vf::refuses([&] { all.unregist(k); });
            VF_CHECK(refused == !model.count(k), "generator-removed", "removing generator " << k);
            model.erase(k);
        }
    }
    for (auto& k : keys) {
        VF_CHECK(all.exists(k) == bool(model.count(k)), "generator-exists", k);
        VF_CHECK(model.count(k) ? all.get(k).id == model[k].first : vf::refuses([&] { all.get(k); }), "generator-get", k);
        c.trace() << (model.count(k) ? k + " " + text(model[k].second) : "") << "; ";
    }
    for (auto& n : names) {
        std::vector<int> found;
        for (auto& x : model)
            if (std::regex_match(n, std::regex(x.first, std::regex::icase))) found.push_back(x.second.first);
        VF_CHECK(all.matches(n) == !found.empty(), "generator-matches", n << " matches " << found.size());
        VF_CHECK(found.size() == 1 ? all.match(n).id == found[0] : vf::refuses([&] { all.match(n); }), "generator-match", n << " matches " << found.size());
        c.count(found.empty() ? "names_unknown" : found.size() == 1 ? "names_found" : "names_ambiguous");
        c.eval(2);
    }
    for (int i = 0; i < 6; ++i) {
        Map m;
        if (r.chance(0.7) && !model.empty()) {
            auto x = model.begin();
            std::advance(x, r.below(model.size()));
            m = x->second.second;
            if (r.chance(0.2)) m.begin()->second.i += 1;
        }
        else {
            m[low(g.name())].i = r.in(0, 2);
        }
        auto s = build(m, r);
        std::vector<std::string> found;
        for (auto& x : model)
            if (!x.first.empty() && same(m, x.second.second)) found.push_back(x.first);
        std::string name = "none";
        bool is = false, refused = false;
        try {
            is = all.match(*s, name);
        }
        catch (Exception&) {
            refused = true;
        }
        VF_CHECK(refused == (found.size() > 1) && (refused || is == (found.size() == 1)) && (!is || name == found[0]) && (is || name == "none"), "generator-spec",
                 *s << " is " << name << ", matches " << found.size());
        c.count(refused ? "specs_ambiguous" : is ? "specs_named" : "specs_unnamed");
        c.eval();
    }
    for (auto& x : model) all.unregist(x.first);
    VF_CHECK(all.store().empty(), "generator-removed", "generators remain");
    c.distinct(c.trace_.str());
}

/// threads adding, removing and matching
VF_WORKLOAD(spec_threads, 20, 200) {
    auto& all = Makers::instance();
    std::atomic<long> found{0}, wrong{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < 4; ++t) {
        uint64_t seed = c.rng.u64();
        threads.emplace_back([&, t, seed] {
            vf::Rng r{seed};
            std::string mine = "thread" + std::to_string(t) + "[0-9]", name;
            Map m;
            m["id"].i = t;
            auto s    = build(m, r);
            for (int i = 0; i < 30; ++i) {
                all.regist(mine, new Maker(m, t, r));
                name.clear();
                if (all.match(*s, name) && name == mine && all.match("THREAD" + std::to_string(t) + "7").id == t && all.exists(mine) && all.get(mine).id == t) ++found;
                else ++wrong;
                all.matches("thread19");
                all.unregist(mine);
                if (all.exists(mine) || all.match(*s, name)) ++wrong;
            }
        });
    }
    for (auto& t : threads) t.join();
    VF_CHECK(wrong == 0, "generator-threads", wrong << " answers are wrong");
    c.count("found_by_threads", found);
    c.eval();
    c.distinct(std::to_string(c.index));
}
