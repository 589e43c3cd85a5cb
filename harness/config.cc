// Configurations, resources, tables and command-line options
#include <fstream>
#include <iterator>
#include <thread>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "value_gen.h"

#include "eckit/config/Configurable.h"
#include "eckit/config/EtcTable.h"
#include "eckit/config/LibEcKit.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/Resource.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/log/JSON.h"
#include "eckit/option/CmdArgs.h"
#include "eckit/option/MultiValueOption.h"
#include "eckit/option/Separator.h"
#include "eckit/option/SimpleOption.h"
#include "eckit/option/VectorOption.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/utils/MD5.h"

using namespace eckit;
using vf::refuses;

namespace {

// the arguments of the process are fixed when it starts: let the workloads change them
template <auto Argc, auto Argv>
struct Rob {
    friend void setArgs(Main& m, int argc, char** argv) {
        m.*Argc = argc;
        m.*Argv = argv;
    }
};
void setArgs(Main& m, int argc, char** argv);
template struct Rob<&Main::argc_, &Main::argv_>;

// nothing else makes the manager read its files again
template <auto Reset>
struct RobMgr {
    friend void reset(ResourceMgr& m) { (m.*Reset)(); }
};
void reset(ResourceMgr& m);
template struct RobMgr<&ResourceMgr::reset>;

struct Args {
    std::vector<std::string> words;
    std::vector<char*> ptrs;
    explicit Args(const std::vector<std::string>& w) : words(w) {
        words.insert(words.begin(), "verif");
        for (auto& s : words) ptrs.push_back(&s[0]);
        ptrs.push_back(nullptr);
        setArgs(Main::instance(), int(words.size()), ptrs.data());
    }
    ~Args() {
        static char name[]  = "verif";
        static char* none[] = {name, nullptr};
        setArgs(Main::instance(), 1, none);
    }
};

// -- a model of a configuration: a tree of Ref, with paths

using Path = std::vector<std::string>;

const Ref* find(const Ref& root, const Path& p) {
    const Ref* n = &root;
    for (auto& s : p) {
        if (n->t != Ref::OMAP) return nullptr;
        auto k = std::find(n->k.begin(), n->k.end(), s);
        if (k == n->k.end()) return nullptr;
        n = &n->l[k - n->k.begin()];
    }
    return n;
}
bool put(Ref& root, const Path& p, const Ref& v) {
    Ref* n = &root;
    for (size_t i = 0; i < p.size(); ++i) {
        if (n->t != Ref::OMAP) return false;
        auto k = std::find(n->k.begin(), n->k.end(), p[i]);
        size_t at = k - n->k.begin();
        if (k == n->k.end()) {
            n->k.push_back(p[i]);
            Ref m;
            m.t = Ref::OMAP;
            n->l.push_back(m);
        }
        n = &n->l[at];
    }
    *n = v;
    return true;
}
Ref mk(Ref::T t) {
    Ref r;
    r.t = t;
    return r;
}
std::string join(const Path& p, char sep) {
    std::string s;
    for (auto& x : p) s += (s.empty() ? "" : std::string(1, sep)) + x;
    return s;
}

/// everything that can be asked from a configuration, against the model
void same(vf::Case& c, const Configuration& cfg, const Ref& ref, const std::string& where, bool exact = true) {
    VF_CHECK(ref.t == Ref::OMAP, "config", where << ": the model is not a map");
    auto keys = cfg.keys();
    auto want = ref.k;
    if (!exact) {
        std::sort(keys.begin(), keys.end());
        std::sort(want.begin(), want.end());
    }
    VF_CHECK(keys == want, "config-keys", where << ": keys " << keys.size() << " of " << want.size());
    VF_EQ(cfg.empty(), want.empty(), "config-keys", where + " empty");
    char sep = cfg.separator();
    for (size_t j = 0; j < ref.k.size(); ++j) {
        const std::string& k = ref.k[j];
        const Ref& v         = ref.l[j];
        std::string at       = where + "/" + k;
        VF_CHECK(cfg.has(k), "config-has", at << " is missing");
        VF_CHECK(!cfg.has(k + sep + "nothere"), "config-has", at << " has something below it that it does not");
        VF_EQ(cfg.isBoolean(k), v.t == Ref::BOOL, "config-type", at + " isBoolean");
        if (exact || v.t != Ref::DBL) VF_EQ(cfg.isIntegral(k), v.t == Ref::INT, "config-type", at + " isIntegral");
        if (exact) VF_EQ(cfg.isFloatingPoint(k), v.t == Ref::DBL, "config-type", at + " isFloatingPoint");
        VF_EQ(cfg.isString(k), v.t == Ref::STR, "config-type", at + " isString");
        VF_EQ(cfg.isList(k), v.t == Ref::LIST, "config-type", at + " isList");
        VF_EQ(cfg.isNull(k), v.t == Ref::NIL, "config-type", at + " isNull");
        VF_EQ(cfg.isSubConfiguration(k), v.t == Ref::OMAP, "config-type", at + " isSubConfiguration");
        switch (v.t) {
            case Ref::BOOL: VF_EQ(cfg.getBool(k), v.b, "config-value", at); break;
            case Ref::INT: {
                VF_EQ(cfg.getLong(k), long(v.i), "config-value", at);
                VF_EQ(cfg.getInt64(k), std::int64_t(v.i), "config-value", at);
                VF_EQ(cfg.getDouble(k), double(v.i), "config-value", at);
                if (v.i >= 0) VF_EQ(cfg.getUnsigned(k), size_t(v.i), "config-value", at);
                if (v.i >= INT_MIN && v.i <= INT_MAX) {
                    VF_EQ(cfg.getInt(k), int(v.i), "config-value", at);
                    VF_EQ(cfg.getInt32(k, 12), int(v.i), "config-value", at);
                }
                else {
                    if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getInt(k); }), "config-range", at << " read as an int");
                    if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getInt32(k, 12); }), "config-range", at << " read as an int, with a default");
                }
                break;
            }
            case Ref::DBL:
                VF_EQ(cfg.getDouble(k), v.d, "config-value", at);
                VF_EQ(cfg.getFloat(k), float(v.d), "config-value", at);
                break;
            case Ref::STR: VF_EQ(cfg.getString(k), v.s, "config-value", at); break;
            case Ref::OMAP: {
                LocalConfiguration sub = cfg.getSubConfiguration(k);
                VF_EQ(sub.keys().size(), v.k.size(), "config-keys", at);
                sub = LocalConfiguration();
                VF_CHECK(cfg.get(k, sub), "config-has", at << " get of a sub-configuration");
                same(c, sub, v, at, exact);
                // through a path
                for (size_t i = 0; i < v.k.size(); ++i) {
                    VF_CHECK(cfg.has(k + sep + v.k[i]), "config-path", at << " path to " << v.k[i]);
                    if (v.l[i].t == Ref::STR) VF_EQ(cfg.getString(k + sep + v.k[i]), v.l[i].s, "config-path", at);
                }
                break;
            }
            case Ref::LIST: {
                if (v.l.empty()) {
                    VF_CHECK(cfg.getStringVector(k).empty() && cfg.getLongVector(k).empty() && cfg.getDoubleVector(k).empty(), "config-list", at << " empty list");
                    break;
                }
                bool all[Ref::DATETIME + 1] = {};
                for (int t = 0; t <= Ref::DATETIME; ++t) {
                    all[t] = std::all_of(v.l.begin(), v.l.end(), [&](const Ref& x) { return x.t == t; });
                }
                if (exact || v.l[0].t != Ref::DBL) VF_EQ(cfg.isIntegralList(k), v.l[0].t == Ref::INT, "config-type", at + " isIntegralList");
                VF_EQ(cfg.isStringList(k), v.l[0].t == Ref::STR, "config-type", at + " isStringList");
                VF_EQ(cfg.isBooleanList(k), v.l[0].t == Ref::BOOL, "config-type", at + " isBooleanList");
                if (exact) VF_EQ(cfg.isFloatingPointList(k), v.l[0].t == Ref::DBL, "config-type", at + " isFloatingPointList");
                VF_EQ(cfg.isSubConfigurationList(k), v.l[0].t == Ref::OMAP, "config-type", at + " isSubConfigurationList");
                if (all[Ref::INT]) {
                    auto l   = cfg.getLongVector(k);
                    auto d   = cfg.getDoubleVector(k);
                    auto i64 = cfg.getInt64Vector(k);
                    VF_CHECK(l.size() == v.l.size() && d.size() == l.size() && i64.size() == l.size(), "config-list", at << " size");
                    bool fits = true;
                    for (size_t i = 0; i < l.size(); ++i) {
                        VF_EQ(l[i], long(v.l[i].i), "config-list", at);
                        VF_EQ(i64[i], std::int64_t(v.l[i].i), "config-list", at);
                        VF_EQ(d[i], double(v.l[i].i), "config-list", at);
                        fits = fits && v.l[i].i >= INT_MIN && v.l[i].i <= INT_MAX;
                    }
                    if (fits) {
                        auto n = cfg.getIntVector(k);
                        for (size_t i = 0; i < l.size(); ++i) VF_EQ(n.at(i), int(v.l[i].i), "config-list", at);
                    }
                    else {
                        if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getIntVector(k); }), "config-range", at << " read as ints");
                    }
                }
                if (all[Ref::DBL]) {
                    auto d = cfg.getDoubleVector(k);
                    auto f = cfg.getFloatVector(k);
                    VF_CHECK(d.size() == v.l.size() && f.size() == v.l.size(), "config-list", at << " size");
                    for (size_t i = 0; i < d.size(); ++i) {
                        VF_EQ(d[i], v.l[i].d, "config-list", at);
                        VF_EQ(f[i], float(v.l[i].d), "config-list", at);
                    }
                }
                if (all[Ref::STR]) {
                    auto s = cfg.getStringVector(k);
                    VF_EQ(s.size(), v.l.size(), "config-list", at + " size");
                    for (size_t i = 0; i < s.size(); ++i) VF_EQ(s[i], v.l[i].s, "config-list", at);
                }
                if (all[Ref::OMAP]) {
                    auto s = cfg.getSubConfigurations(k);
                    VF_EQ(s.size(), v.l.size(), "config-list", at + " size");
                    for (size_t i = 0; i < s.size(); ++i) same(c, s[i], v.l[i], at + "[" + std::to_string(i) + "]", exact);
                }
                break;
            }
            default: break;
        }
        if (v.t != Ref::LIST) {
            if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getLongVector(k); }), "config-type", at << " is not a list but was read as one");
        }
    }
    // what is not there
    VF_CHECK(!cfg.has("nothere"), "config-has", where << " has what it does not");
    VF_EQ(cfg.getString("nothere", "dflt"), std::string("dflt"), "config-default", where);
    VF_EQ(cfg.getLong("nothere", 42), 42L, "config-default", where);
    VF_EQ(cfg.getBool("nothere", true), true, "config-default", where);
    VF_EQ(cfg.getDouble("nothere", 0.5), 0.5, "config-default", where);
    VF_CHECK(cfg.getIntVector("nothere", {1, 2}) == std::vector<int>({1, 2}), "config-default", where << " default list");
    if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getString("nothere"); }), "config-default", where << " a missing string is no error");
    if (c.rng.chance(0.06)) VF_CHECK(refuses([&] { cfg.getLong("nothere"); }), "config-default", where << " a missing number is no error");
    std::string v = "before";
    VF_CHECK(!cfg.get("nothere", v) && v == "before", "config-default", where << " get of what is missing");
    VF_CHECK(cfg.getSubConfiguration("nothere").empty(), "config-default", where << " a missing sub-configuration");
    c.eval();
}

std::string jsonOf(const Configuration& cfg) {
    std::ostringstream o;
    JSON j(o);
    j.precision(17);
    j << cfg;
    return o.str();
}
std::string digest(const Configuration& cfg) {
    MD5 h;
    cfg.hash(h);
    return h.digest();
}

struct Var {
    LocalConfiguration cfg;
    Ref ref;
};

std::string name(vf::Rng& r) {
    static const char* n[] = {"a", "b", "c", "key", "long name", "grid-type", "x1", "A", "_", "true", "12"};
    return r.pick(n);
}
Path path(vf::Rng& r) {
    Path p;
    for (int n = int(r.chance(0.4) ? 1 : r.in(1, 4)); n > 0; --n) p.push_back(name(r));
    return p;
}

}  // namespace

VF_WORKLOAD(configurations, 700, 9000) {
    vf::Rng& r = c.rng;
    char sep   = "./|:"[r.below(4)];
    RefGen g{r};
    std::vector<Var> vars;
    vars.push_back({LocalConfiguration(sep), mk(Ref::OMAP)});
    int ops = int(r.in(2, 25));
    for (int op = 0; op < ops; ++op) {
        size_t at = r.below(vars.size());
        Var& v    = vars[at];
        if (v.ref.nodes() > 400) continue;
        Path p    = path(r);
        std::string s = join(p, sep);
        Ref value;
        std::function<void()> set;
        int kind = int(r.below(22));
        c.trace() << op << ": var " << at << " kind " << kind << " path " << s << "\n";
        switch (kind) {
            case 0:
                value = mk(Ref::BOOL), value.b = r.chance(0.5);
                set = [&] { v.cfg.set(s, value.b); };
                break;
            case 1:
                value = mk(Ref::INT), value.i = int(r.u64());
                set = [&] { v.cfg.set(s, int(value.i)); };
                break;
            case 2:
                value = mk(Ref::INT), value.i = long(r.u64() >> r.below(64));
                set = [&] { v.cfg.set(s, long(value.i)); };
                break;
            case 3:
                value = mk(Ref::INT), value.i = (long long)(r.u64() >> (1 + r.below(63)));
                set = [&] { r.chance(0.5) ? v.cfg.set(s, size_t(value.i)) : v.cfg.set(s, (long long)(value.i)); };
                break;
            case 4:
                value = mk(Ref::DBL), value.d = g.dbl();
                set = [&] { v.cfg.set(s, value.d); };
                break;
            case 5:
                value = mk(Ref::DBL), value.d = float(r.real(-10, 10));
                set = [&] { v.cfg.set(s, float(value.d)); };
                break;
            case 6:
            case 7:
                value = mk(Ref::STR), value.s = g.string();
                set = [&] { v.cfg.set(s, value.s); };
                break;
            case 8:
                value = mk(Ref::STR), value.s = r.word(10);
                set = [&] { v.cfg.set(s, value.s.c_str()); };
                break;
            case 9:
            case 10: {
                value    = mk(Ref::LIST);
                bool big = kind == 10;
                for (int n = int(r.below(5)); n > 0; --n) {
                    Ref e = mk(Ref::INT);
                    e.i   = big ? (long long)(r.u64() >> (1 + r.below(63))) : int(r.u64());
                    value.l.push_back(e);
                }
                set = [&v, &value, s, big, &r] {
                    if (!big) {
                        std::vector<int> x;
                        for (auto& e : value.l) x.push_back(int(e.i));
                        v.cfg.set(s, x);
                    }
                    else if (r.chance(0.3)) {
                        std::vector<long> x;
                        for (auto& e : value.l) x.push_back(long(e.i));
                        v.cfg.set(s, x);
                    }
                    else if (r.chance(0.5)) {
                        std::vector<long long> x;
                        for (auto& e : value.l) x.push_back(e.i);
                        v.cfg.set(s, x);
                    }
                    else {
                        std::vector<size_t> x;
                        for (auto& e : value.l) x.push_back(size_t(e.i));
                        v.cfg.set(s, x);
                    }
                };
                break;
            }
            case 11: {
                value      = mk(Ref::LIST);
                bool flt   = r.chance(0.4);
                for (int n = int(r.below(5)); n > 0; --n) {
                    Ref e = mk(Ref::DBL);
                    e.d   = flt ? double(float(r.real(-5, 5))) : g.dbl();
                    value.l.push_back(e);
                }
                set = [&v, &value, s, flt] {
                    if (flt) {
                        std::vector<float> x;
                        for (auto& e : value.l) x.push_back(float(e.d));
                        v.cfg.set(s, x);
                    }
                    else {
                        std::vector<double> x;
                        for (auto& e : value.l) x.push_back(e.d);
                        v.cfg.set(s, x);
                    }
                };
                break;
            }
            case 12: {
                value = mk(Ref::LIST);
                std::vector<std::string> x;
                for (int n = int(r.below(5)); n > 0; --n) {
                    Ref e = mk(Ref::STR);
                    e.s   = g.string();
                    x.push_back(e.s);
                    value.l.push_back(e);
                }
                set = [&v, x, s] { v.cfg.set(s, x); };
                break;
            }
            case 13:
            case 14: {  // another configuration, or the same one, as a part
                size_t from = r.below(vars.size());
                value       = vars[from].ref;
                if (value.nodes() > 300) continue;
                set = [&vars, from, &v, s] { v.cfg.set(s, vars[from].cfg); };
                break;
            }
            case 15: {
                value = mk(Ref::LIST);
                std::vector<LocalConfiguration> x;
                for (int n = int(r.below(3)); n > 0; --n) {
                    size_t from = r.below(vars.size());
                    value.l.push_back(vars[from].ref);
                    x.push_back(vars[from].cfg);
                }
                if (value.nodes() > 300) continue;
                set = [&v, x, s] { v.cfg.set(s, x); };
                break;
            }
            case 16: {  // all of another one
                size_t from = r.below(vars.size());
                Ref other   = vars[from].ref;
                v.cfg.set(vars[from].cfg);
                for (size_t i = 0; i < other.k.size(); ++i) put(v.ref, {other.k[i]}, other.l[i]);
                break;
            }
            case 17: {
                std::string k = p[0];
                v.cfg.remove(k);
                auto i = std::find(v.ref.k.begin(), v.ref.k.end(), k);
                if (i != v.ref.k.end()) {
                    v.ref.l.erase(v.ref.l.begin() + (i - v.ref.k.begin()));
                    v.ref.k.erase(i);
                }
                break;
            }
            case 18:
                if (vars.size() < 5) {
                    Var copy = v;
                    vars.push_back(copy);
                }
                break;
            case 19: vars[r.below(vars.size())] = Var(v); break;
            case 20: {  // a part becomes a variable of its own
                const Ref* f = find(v.ref, p);
                VF_EQ(v.cfg.has(s), f != nullptr, "config-has", "has " + s);
                if (f && f->t == Ref::OMAP) {
                    Var part{LocalConfiguration(v.cfg, s), *f};
                    if (r.chance(0.5)) part.cfg = v.cfg.getSubConfiguration(s);
                    // an unsettled question is what the separator of a part is by default: the same
                    VF_EQ(part.cfg.separator(), sep, "config-separator", "separator of a part");
                    if (vars.size() < 5) vars.push_back(part);
                    c.count("parts");
                }
                else if (!f) {
                    VF_CHECK(refuses([&] { LocalConfiguration x(v.cfg, s); }), "config-has", "a part that is missing");
                }
                break;
            }
            default: {  // no name
                std::string none = r.chance(0.5) ? "" : std::string(1, sep);
                VF_CHECK(refuses([&] { v.cfg.set(none, 1); }), "config-noname", "set a value without a name");
                break;
            }
        }
        if (set) {
            bool possible = true, list = false;
            {  // something that is not a map cannot contain anything
                const Ref* n = &v.ref;
                for (size_t i = 0; i + 1 < p.size() && n; ++i) {
                    const Ref* below = find(*n, {p[i]});
                    if (below && below->t != Ref::OMAP) possible = false;
                    if (below && below->t == Ref::LIST) list = true;
                    n = below;
                }
            }
            if (list) continue;  // may or may not name an element of it
            if (possible) {
                set();
                VF_CHECK(put(v.ref, p, value), "config", "model");
                c.count("sets");
            }
            else {
                VF_CHECK(refuses(set), "config-scalar", "set " << s << " below something that is not a configuration");
                c.count("refused_sets");
            }
        }
        if (r.chance(0.3)) {
            const Var& w = r.pick(vars);
            same(c, w.cfg, w.ref, "history");
        }
    }
    std::string sig;
    for (auto& v : vars) {
        same(c, v.cfg, v.ref, "end");
        sig += v.ref.str();
        // a copy answers the same, has the same hash and text
        LocalConfiguration copy(v.cfg);
        VF_EQ(digest(copy), digest(v.cfg), "config-hash", "hash of a copy");
        std::string text = jsonOf(v.cfg);
        VF_EQ(jsonOf(copy), text, "config-json", "text of a copy");
        // rebuilt in another way: equal
        LocalConfiguration again(sep);
        for (auto& k : v.cfg.keys()) {
            LocalConfiguration one(sep);
            (void)one;
        }
        again.set(v.cfg);
        VF_EQ(digest(again), digest(v.cfg), "config-hash", "hash of the same content");
        // and once read back from its text
        bool plain = std::all_of(text.begin(), text.end(), [](unsigned char ch) { return ch >= 32 && ch < 127; });
        if (plain) {
            YAMLConfiguration y(text, sep);
            same(c, y, v.ref, "read back", false);
            std::istringstream in(text);
            YAMLConfiguration z(in, sep);
            same(c, z, v.ref, "read back from a stream", false);
            c.count("read_back");
        }
    }
    c.distinct(sig);
}

// each thread changes copies of its own of a configuration
VF_WORKLOAD(configuration_threads, 25, 200) {
    vf::Rng& r = c.rng;
    Var base{LocalConfiguration(), mk(Ref::OMAP)};
    for (int i = 0; i < 6; ++i) {
        Path p  = path(r);
        Ref v   = mk(Ref::INT);
        v.i     = i;
        if (put(base.ref, p, v)) {
            base.cfg.set(join(p, '.'), int(i));
        }
        else {
            base.ref = mk(Ref::OMAP);
            base.cfg = LocalConfiguration();
        }
    }
    std::vector<Var> out(size_t(r.in(2, 5)));
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (auto& o : out) {
        seeds.push_back(r.u64());
        o = base;  // shares its content with the others until it changes
    }
    std::atomic<int> failed{0};
    for (size_t i = 0; i < out.size(); ++i) {
        ts.emplace_back([&, i] {
            vf::Rng mine(seeds[i]);
            try {
                for (int k = 0; k < 40; ++k) {
                    Path p = path(mine);
                    Ref v  = mk(Ref::INT);
                    v.i    = int(mine.below(1000));
                    Var t  = out[i];
                    if (mine.chance(0.2)) t = base;
                    bool ok = true;
                    const Ref* n = &t.ref;
                    for (size_t j = 0; j + 1 < p.size() && n; ++j) {
                        n = find(*n, {p[j]});
                        if (n && n->t != Ref::OMAP) ok = false;
                    }
                    if (!ok) continue;
                    t.cfg.set(join(p, '.'), int(v.i));
                    put(t.ref, p, v);
                    out[i] = t;
                }
            }
            catch (std::exception&) {
                failed++;
            }
        });
    }
    for (auto& t : ts) t.join();
    VF_EQ(failed.load(), 0, "config-threads", "threads that failed");
    same(c, base.cfg, base.ref, "shared");
    std::string sig;
    for (auto& o : out) {
        same(c, o.cfg, o.ref, "of a thread");
        sig += o.ref.str();
    }
    c.distinct(sig);
    c.count("threads", out.size());
}

// -- resources

namespace {

struct Table {  // what the configuration files say, by "owner.kind.name"
    std::map<std::string, std::string> m;
    const std::string* find(const std::string& kind, const std::string& owner, const std::string& name) const {
        for (const std::string& k : {kind + "." + owner + "." + name, "." + owner + "." + name, ".." + name}) {
            auto i = m.find(k);
            if (i != m.end()) return &i->second;
        }
        return nullptr;
    }
};

class Owner : public Configurable {
    std::string kind_, name_;
    std::string kind() const override { return kind_; }
    std::string name() const override { return name_; }
    void reconfigure() override { reconfigured++; }

public:

    int reconfigured = 0;
    Resource<long> num;
    Resource<std::string> str;
    Owner(const std::string& k, const std::string& n, const std::string& num, const std::string& str) :
        kind_(k), name_(n), num(this, num, -1), str(this, str, "dflt") {}
};

std::string value(vf::Rng& r, bool num) {
    if (num) return std::to_string(long(r.u64() >> (1 + r.below(63))) * (r.chance(0.3) ? -1 : 1));
    switch (r.below(5)) {
        case 0: return r.word(5) + " " + r.word(5);
        case 1: return r.word(3) + ": " + r.word(3) + "#" + r.word(3) + ".x";
        case 2: return r.chance(0.5) ? std::string() : std::string(r.in(900, 3000), 'v') + r.word(4);
        default: return r.word(12);
    }
}

void writeConfig(vf::Case& c, const std::string& file, Table& t, const std::vector<std::string>& names) {
    vf::Rng& r = c.rng;
    std::ofstream f(file);
    for (int n = int(r.below(8)); n > 0; --n) {
        switch (r.below(6)) {
            case 0: f << "# comment " << r.word(4) << ": 12\n"; break;
            case 1: f << (r.chance(0.5) ? "" : "   \t") << "\n"; break;
            default: {
                std::string name = r.pick(names), owner, kind;
                if (r.chance(0.5)) {
                    owner = r.chance(0.5) ? "o1" : "o2";
                    if (r.chance(0.5)) kind = r.chance(0.5) ? "k1" : "k2";
                }
                std::string v = value(r, name[0] == 'n');
                auto pad      = [&] { return std::string(r.below(3), " \t"[r.below(2)]); };
                f << (r.chance(0.2) ? "  " : "");
                if (!kind.empty()) f << kind << ".";
                if (!owner.empty()) f << owner << ".";
                f << name << pad() << ":" << pad() << v << pad() << "\n";
                t.m[kind + "." + owner + "." + name] = v;
                c.trace() << file.substr(file.rfind('/')) << ": " << kind << "." << owner << "." << name << " = " << v.substr(0, 40) << " (" << v.size() << ")\n";
            }
        }
    }
}

}  // namespace

VF_WORKLOAD(resources, 250, 3000) {
    vf::Rng& r       = c.rng;
    std::string home = c.scratch;
    setenv("HOME", home.c_str(), 1);
    // ~ is the home of Main
    std::string etc = PathName("~/etc/config").asString();
    PathName(etc).mkdir();
    std::vector<std::string> names = {"num", "n2", "str", "s2"};
    Table t;
    for (auto& f : {std::string("general"), std::string("local"), Main::instance().name(), Main::instance().name() + ".local"}) {
        ::unlink((etc + "/" + f).c_str());
        if (r.chance(0.6)) writeConfig(c, etc + "/" + f, t, names);
    }
    reset(ResourceMgr::instance());
    // the command line
    std::vector<std::string> words;
    std::map<std::string, std::string> opts, env;
    for (auto& n : names) {
        if (r.chance(0.25)) {
            std::string v = n[0] == 'n' ? std::to_string(r.below(1000)) : r.word(6);
            bool flag     = n[0] == 's' && r.chance(0.3);
            if (!flag || words.empty() || true) {
                words.push_back("-" + n);
                if (!flag) words.push_back(v);
                opts["-" + n] = flag ? "true" : v;
            }
        }
        std::string e = "VF_RES_" + n;
        unsetenv(e.c_str());
        if (r.chance(0.25)) {
            env[n] = n[0] == 'n' ? std::to_string(r.below(1000)) : r.chance(0.2) ? std::string() : value(r, false);
            setenv(e.c_str(), env[n].c_str(), 1);
        }
    }
    Args args(words);
    auto spec = [&](const std::string& n, int use, std::string& s) {
        std::vector<std::string> parts;
        if (use & 1) parts.push_back(n);
        if (use & 2) parts.push_back("$VF_RES_" + n);
        if (use & 4) parts.push_back("-" + n);
        r.shuffle(parts);
        for (auto& p : parts) s += (s.empty() ? "" : ";") + p;
    };
    auto want = [&](const std::string& n, int use, const std::string& kind, const std::string& owner, const std::string& dflt) {
        if ((use & 4) && opts.count("-" + n)) return opts["-" + n];
        if ((use & 2) && env.count(n)) return env[n];
        if (use & 1) {
            if (const std::string* v = t.find(kind, owner, n)) return *v;
        }
        return dflt;
    };
    std::string sig;
    for (int i = 0; i < 8; ++i) {
        std::string n = r.pick(names), s;
        int use       = int(r.in(1, 7));
        spec(n, use, s);
        std::string w;
        if (n[0] == 'n') {
            Resource<long> x(s, 77);
            w = want(n, use, "", "", "77");
            VF_EQ(long(x), std::stol(w), "resource", s);
            VF_EQ(long(x), std::stol(w), "resource", s + " again");
        }
        else {
            Resource<std::string> x(s, "dflt");
            w = want(n, use, "", "", "dflt");
            VF_EQ(std::string(x), w, "resource", s);
        }
        sig += s + "=" + w + ";";
        c.eval();
        c.count(w == "77" || w == "dflt" ? "defaults" : "found");
    }
    // resources of a configurable
    for (int i = 0; i < 4; ++i) {
        std::string kind = r.chance(0.5) ? "k1" : "k2", owner = r.chance(0.5) ? "o1" : "o2", sn, ss;
        int un = int(r.in(1, 7)), us = int(r.in(1, 7));
        std::string nn = r.chance(0.5) ? "num" : "n2", ns = r.chance(0.5) ? "str" : "s2";
        spec(nn, un, sn);
        spec(ns, us, ss);
        Owner o(kind, owner, sn, ss);
        VF_EQ(long(o.num), std::stol(want(nn, un, kind, owner, "-1")), "resource-owner", kind + "." + owner + "." + sn);
        VF_EQ(std::string(o.str), want(ns, us, kind, owner, "dflt"), "resource-owner", kind + "." + owner + "." + ss);
        c.eval(2);
    }
    c.distinct(sig);
}

// a resource is worked out once, however many threads want it first
VF_WORKLOAD(resource_threads, 60, 500) {
    vf::Rng& r       = c.rng;
    std::string etc  = PathName("~/etc/config").asString();
    PathName(etc).mkdir();
    std::string v = r.word(40) + std::string(40, 'x');
    {
        std::ofstream f(etc + "/general");
        f << "shared: " << v << "\nnum: 42\n";
    }
    for (auto& f : {std::string("local"), Main::instance().name(), Main::instance().name() + ".local"}) ::unlink((etc + "/" + f).c_str());
    reset(ResourceMgr::instance());
    Resource<std::string> s("shared", std::string(60, 'd'));
    Resource<long> n("num", 1);
    Resource<std::vector<std::string>> l("shared", {});
    std::atomic<int> wrong{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    int nt = int(r.in(2, 6));
    for (int i = 0; i < nt; ++i) {
        ts.emplace_back([&] {
            while (!go) {}
            for (int k = 0; k < 5; ++k) {
                std::string x = s;
                if (x != v) wrong++;
                if (long(n) != 42) wrong++;
                std::vector<std::string> y = l;
                if (y.size() != 1 || y[0] != v) wrong++;
            }
        });
    }
    go = true;
    for (auto& t : ts) t.join();
    VF_EQ(wrong.load(), 0, "resource-threads", "wrong values seen by threads");
    c.eval();
    c.distinct(v);
    c.count("threads", size_t(nt));
}

VF_WORKLOAD(tables, 120, 1500) {
    vf::Rng& r      = c.rng;
    std::string dir = PathName("~/etc").asString(), file = dir + "/table";
    PathName(dir).mkdir();
    std::vector<std::vector<std::string>> want;
    bool start = r.chance(0.5);
    std::unique_ptr<EtcTable> t;
    if (start) t.reset(new EtcStartWithTable("table"));
    else t.reset(new EtcKeyTable("table"));
    ::unlink(file.c_str());
    VF_CHECK(!t->exists(), "table", "exists before it was written");
    time_t when = 1000000000;
    for (int round = int(r.in(1, 3)); round > 0; --round) {
        want.clear();
        {
            std::ofstream f(file);
            for (int n = int(r.below(10)); n > 0; --n) {
                std::vector<std::string> words;
                for (int k = int(r.in(1, 4)); k > 0; --k) words.push_back(k == 1 && r.chance(0.1) ? std::string(r.in(1000, 2500), 'w') : r.word(4, "ab/"));
                if (r.chance(0.2)) f << "# " << words[0] << "\n";
                if (r.chance(0.2)) f << "\n";
                f << std::string(r.chance(0.2) ? 2 : 0, ' ');
                for (auto& w : words) f << w << std::string(r.in(1, 2), ' ');
                f << "\n";
                want.push_back(words);
            }
        }
        struct timespec ts[2] = {{when, 0}, {when, 0}};
        ::utimensat(AT_FDCWD, file.c_str(), ts, 0);
        when += 100;
        if (when > 1000000100 || r.chance(0.5)) VF_CHECK(t->reload(), "table", "a newer file was not read again");
        VF_CHECK(t->exists(), "table", "exists");
        VF_CHECK(t->lines() == want, "table", "lines: " << t->lines().size() << " of " << want.size());
        VF_CHECK(!t->reload(), "table", "read again although nothing changed");
        std::vector<std::string> keys;
        for (auto& w : want) keys.push_back(w[0]);
        VF_CHECK(t->keys() == keys, "table", "keys");
        for (int i = 0; i < 10; ++i) {
            std::string q = !want.empty() && r.chance(0.5) ? r.pick(want)[0] + (r.chance(0.3) ? "a" : "") : r.word(4, "ab/");
            std::vector<std::string> expect;
            for (auto& w : want) {
                if (start ? q.compare(0, w[0].size(), w[0]) == 0 : q == w[0]) {
                    expect = w;
                    break;
                }
            }
            VF_CHECK(t->lookUp(q) == expect, "table", "lookup of " << q.substr(0, 50));
            c.eval();
            c.count(expect.empty() ? "misses" : "hits");
        }
        if (t->lines().size()) c.distinct(vf::hashStr(file) + want.size() * 31 + vf::hashStr(want[0][0]));
    }
    ::unlink(file.c_str());
}

// -- options of the command line

namespace {
void noUsage(const std::string&) {}
}  // namespace

VF_WORKLOAD(options, 800, 9000) {
    using namespace eckit::option;
    vf::Rng& r = c.rng;
    enum K { FLAG, LONG, STR, DBL, PATH, VLONG, VSTR, MULTI };
    struct Opt {
        K k;
        std::string name;
        size_t size = 0, optional = 0;
        bool dflt = false;
    };
    std::vector<Opt> os;
    std::vector<Option*> options;
    Ref want = mk(Ref::OMAP);
    auto str = [](const std::string& s) {
        Ref v = mk(Ref::STR);
        v.s   = s;
        return v;
    };
    auto num = [](long i) {
        Ref v = mk(Ref::INT);
        v.i   = i;
        return v;
    };
    auto list = [&](const std::vector<std::string>& w, bool n) {
        Ref v = mk(Ref::LIST);
        for (auto& s : w) v.l.push_back(n ? num(std::stol(s)) : str(s));
        return v;
    };
    int no = int(r.below(7));
    for (int i = 0; i < no; ++i) {
        Opt o;
        o.k    = K(r.below(8));
        o.name = "opt" + std::string(1, char('a' + i)) + (r.chance(0.3) ? "-x_y" : "") + (r.chance(0.15) ? ".sub" : "");
        o.dflt = r.chance(0.4);
        Path p;
        std::string d = "d" + r.word(4);
        auto at       = o.name.find('.');
        p.push_back(o.name.substr(0, at));
        if (at != std::string::npos) p.push_back(o.name.substr(at + 1));
        switch (o.k) {
            case FLAG: {
                bool b = r.chance(0.5);
                options.push_back(o.dflt ? new SimpleOption<bool>(o.name, "d", b) : new SimpleOption<bool>(o.name, "d"));
                Ref v = mk(Ref::BOOL);
                v.b   = b;
                if (o.dflt) put(want, p, v);
                break;
            }
            case LONG: {
                long n = long(r.u64() >> 1);
                options.push_back(o.dflt ? new SimpleOption<long>(o.name, "d", n) : new SimpleOption<long>(o.name, "d"));
                if (o.dflt) put(want, p, num(n));
                break;
            }
            case STR:
                options.push_back(o.dflt ? new SimpleOption<std::string>(o.name, "d", d) : new SimpleOption<std::string>(o.name, "d"));
                if (o.dflt) put(want, p, str(d));
                break;
            case PATH:
                options.push_back(o.dflt ? new SimpleOption<PathName>(o.name, "d", d) : new SimpleOption<PathName>(o.name, "d"));
                if (o.dflt) put(want, p, str(d));
                break;
            case DBL: {
                Ref v = mk(Ref::DBL);
                v.d   = r.in(-100, 100) / 4.0;
                options.push_back(o.dflt ? new SimpleOption<double>(o.name, "d", v.d) : new SimpleOption<double>(o.name, "d"));
                if (o.dflt) put(want, p, v);
                break;
            }
            case VLONG:
            case VSTR: {
                o.size = r.below(4);
                std::vector<std::string> w;
                std::vector<long> n;
                for (size_t k = o.size ? o.size : 2; k > 0; --k) {
                    n.push_back(long(r.below(100)));
                    w.push_back(o.k == VLONG ? std::to_string(n.back()) : r.word(3));
                }
                if (o.k == VLONG) options.push_back(o.dflt ? new VectorOption<long>(o.name, "d", o.size, n) : new VectorOption<long>(o.name, "d", o.size));
                else options.push_back(o.dflt ? new VectorOption<std::string>(o.name, "d", o.size, w) : new VectorOption<std::string>(o.name, "d", o.size));
                if (o.dflt) put(want, p, list(w, o.k == VLONG));
                break;
            }
            case MULTI: {
                o.size     = r.in(1, r.chance(0.3) ? 9 : 3);
                o.optional = r.below(3);
                std::vector<std::string> w;
                for (size_t k = 0; k < o.size; ++k) w.push_back(r.word(3));
                options.push_back(o.dflt ? new MultiValueOption(o.name, "d", o.size, o.optional, w) : new MultiValueOption(o.name, "d", o.size, o.optional));
                if (o.dflt) put(want, p, list(w, false));
                break;
            }
        }
        os.push_back(o);
        if (r.chance(0.2)) options.push_back(new Separator("more"));
    }
    // the command line
    std::vector<std::string> words, positional;
    bool error = false;
    int n      = int(r.below(9));
    for (int i = 0; i < n; ++i) {
        if (os.empty() || r.chance(0.3)) {
            static const char* w[] = {"file", "-x", "a=b", "/p/q", "", "12", "-"};
            positional.push_back(r.pick(w));
            words.push_back(positional.back());
            continue;
        }
        if (r.chance(0.04)) {
            words.push_back(std::string("--unknown") + (r.chance(0.5) ? "=3" : ""));
            error = true;
            continue;
        }
        const Opt& o = r.pick(os);
        auto at      = o.name.find('.');
        Path p;
        p.push_back(o.name.substr(0, at));
        if (at != std::string::npos) p.push_back(o.name.substr(at + 1));
        std::string arg = "--" + o.name;
        auto text       = [&] {
            static const char* w[] = {"value", "a=b", "=", "x=y=z", "with space", "-5", "a/b", "1e3", "no"};
            return std::string(r.pick(w));
        };
        bool eq = r.chance(0.6);
        auto give = [&](const std::string& v) {
            if (eq) words.push_back(arg + "=" + v);
            else {
                words.push_back(arg);
                words.push_back(v);
            }
        };
        switch (o.k) {
            case FLAG: {
                Ref v = mk(Ref::BOOL);
                v.b   = true;
                if (eq) {
                    static const char* w[] = {"yes", "no", "on", "off", "true", "false", "1", "0", "TRUE", "No"};
                    int k                  = int(r.below(10));
                    v.b                    = k % 2 == 0;
                    if (k == 8) v.b = true;
                    if (k == 9) v.b = false;
                    words.push_back(arg + "=" + w[k]);
                }
                else words.push_back(arg);
                put(want, p, v);
                break;
            }
            case LONG: {
                long v = long(r.u64() >> (1 + r.below(63))) * (r.chance(0.3) ? -1 : 1);
                give(std::to_string(v));
                put(want, p, num(v));
                break;
            }
            case DBL: {
                Ref v = mk(Ref::DBL);
                v.d   = r.in(-100, 100) / 4.0;
                std::ostringstream s;
                s << v.d;
                give(s.str());
                put(want, p, v);
                break;
            }
            case STR: {
                std::string v = text();
                give(v);
                put(want, p, str(v));
                break;
            }
            case PATH: {
                static const char* w[] = {"/x/y", "rel/z", "a=b"};
                std::string v          = r.pick(w);
                give(v);
                put(want, p, str(v));
                break;
            }
            case VLONG:
            case VSTR: {
                std::vector<std::string> w;
                size_t k = o.size ? o.size : r.in(1, 4);
                bool bad = o.size && r.chance(0.1);
                if (bad) k++;
                std::string v;
                for (; k > 0; --k) {
                    w.push_back(o.k == VLONG ? std::to_string(r.in(-50, 50)) : r.word(3));
                    v += (v.empty() ? "" : "/") + w.back();
                }
                give(v);
                error = error || bad;
                if (!bad) put(want, p, list(w, o.k == VLONG));
                else i = n;  // what an option takes when it is wrong is not said
                break;
            }
            case MULTI: {
                std::vector<std::string> w;
                for (size_t k = 0; k < o.size; ++k) w.push_back(r.word(4));
                size_t more = r.below(o.optional + 1);
                for (size_t k = 0; k < more; ++k) w.push_back(r.word(4));
                size_t first = 0;
                if (eq) {
                    words.push_back(arg + "=" + w[0]);
                    first = 1;
                }
                else words.push_back(arg);
                words.insert(words.end(), w.begin() + first, w.end());
                put(want, p, list(w, false));
                if (more < o.optional) {  // the next word must not look like a value of it
                    const Opt* flag = nullptr;
                    for (auto& x : os) {
                        if (x.k == FLAG) flag = &x;
                    }
                    if (!flag) i = n;
                    else {
                        words.push_back("--" + flag->name + "=on");
                        Path fp;
                        auto fat = flag->name.find('.');
                        fp.push_back(flag->name.substr(0, fat));
                        if (fat != std::string::npos) fp.push_back(flag->name.substr(fat + 1));
                        Ref v = mk(Ref::BOOL);
                        v.b   = true;
                        put(want, fp, v);
                    }
                }
                break;
            }
        }
    }
    if (r.chance(0.05) && !error) {
        for (auto& o : os) {
            if (o.k == LONG || o.k == MULTI) {  // a value is missing
                words.push_back("--" + o.name);
                error = true;
                break;
            }
        }
    }
    int count = -1, minimum = -1;
    if (r.chance(0.3)) {
        count = int(positional.size()) + (r.chance(0.3) ? int(r.in(-1, 1)) : 0);
        if (count >= 0 && size_t(count) != positional.size()) error = true;
    }
    if (r.chance(0.3)) {
        minimum = int(positional.size()) - int(r.below(3)) + (r.chance(0.2) ? 1 : 0);
        if (minimum >= 0 && positional.size() < size_t(minimum)) error = true;
    }
    for (auto& w : words) c.trace() << "'" << w << "' ";
    c.trace() << "count " << count << " minimum " << minimum;
    Args args(words);
    int used = 0;
    std::unique_ptr<CmdArgs> cmd;
    bool thrown = false;
    try {
        cmd.reset(new CmdArgs([&](const std::string& tool) { used += tool == "verif"; }, options, count, minimum, true));
    }
    catch (UserError&) {
        thrown = true;
    }
    VF_EQ(thrown, error, "options-error", "whether the command line was refused");
    VF_EQ(used, error ? 1 : 0, "options-usage", "how often the usage was shown");
    c.eval();
    c.count(error ? "refused" : "accepted");
    if (error) return;
    VF_EQ(cmd->count(), positional.size(), "options-args", "number of arguments");
    for (size_t i = 0; i < positional.size(); ++i) VF_EQ((*cmd)(i), positional[i], "options-args", "argument");
    VF_CHECK(refuses([&] { (*cmd)(positional.size()); }), "options-args", "an argument too many");
    same(c, *cmd, want, "options", false);
    LocalConfiguration out;
    cmd->configure(out);
    same(c, out, want, "configure", false);
    c.distinct(c.trace_.str());
}
