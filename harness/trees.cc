// C12: k-d trees in memory and in mapped files. Oracle: brute force over a plain list of points.
#include "vf.h"

#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>

#include "eckit/container/KDTree.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geometry/KPoint.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"

using namespace eckit;
using vf::refuses;

namespace {

template <class P>
struct Traits_ {
    using Point   = P;
    using Payload = long;
};

template <class P>
P make(vf::Rng& r, int style) {
    double v[4];
    for (auto& x : v) {
        switch (style) {
            case 0:
                x = r.real(-10, 10);
                break;
            case 1:
                x = double(r.in(-3, 3));  // many equal coordinates
                break;
            case 2:
                x = r.chance(0.5) ? 0. : r.real(-1, 1);
                break;
            case 3:
                x = double(r.in(0, 30)) / 10.;
                break;
            default:
                x = std::ldexp(r.real(-1, 1), int(r.in(-40, 40)));
        }
    }
    P p;
    std::copy(v, v + P::DIMS, p.data());
    return p;
}

template <class P>
double dist(const P& a, const P& b) {
    return P::distance(a, b);
}

template <class P>
bool same(const P& a, const P& b) {
    for (size_t i = 0; i < P::DIMS; ++i) {
        if (a.x(i) != b.x(i)) return false;
    }
    return true;
}

struct Depth {
    vf::Case& c;
    size_t nodes = 0;
    long level   = 0;
    template <class P>
    void enter(const P&, bool, int depth) {
        ++nodes;
        VF_EQ(long(depth), level, "visit", "depth");
        ++level;
    }
    template <class P>
    void leave(const P&, bool, int depth) {
        --level;
        VF_EQ(long(depth), level, "visit", "depth when leaving");
    }
};

/// what a tree must contain
template <class P>
struct Model {
    std::vector<std::pair<P, long>> all;

    template <class List>
    void distances(vf::Case& c, const List& got, const P& p, const std::vector<double>& want, const char* key) const {
        VF_EQ(got.size(), want.size(), key, "number of points found among " + std::to_string(all.size()));
        std::set<long> ids;
        for (size_t i = 0; i < got.size(); ++i) {
            long id = got[i].payload();
            VF_CHECK(id >= 0 && size_t(id) < all.size() && ids.insert(id).second, key, "an unknown point, or twice the same");
            VF_CHECK(same(got[i].point(), all[id].first), key, "the payload of another point");
            VF_EQ(got[i].distance(), dist(p, all[id].first), key, "its distance");
            VF_EQ(got[i].distance(), want[i], key, "distance of number " + std::to_string(i));
        }
    }

    template <class Tree>
    void check(vf::Case& c, Tree& t, int style, int queries, bool sizeKnown = true) const {
        vf::Rng& r = c.rng;
        if (sizeKnown) {
            VF_EQ(t.size(), all.size(), "size", "size");
            VF_EQ(t.empty(), all.empty(), "size", "empty");
        }
        if (all.empty()) return;
        for (int q = 0; q < queries; ++q) {
            P p = r.chance(0.3) ? all[r.below(all.size())].first : make<P>(r, style);
            std::vector<double> d;
            for (auto& x : all) d.push_back(dist(p, x.first));
            std::sort(d.begin(), d.end());

            auto n = t.nearestNeighbour(p);
            distances(c, std::vector<decltype(n)>{n}, p, {d[0]}, "nearest");
            VF_EQ(t.nearestNeighbourBruteForce(p).distance(), d[0], "nearest", "brute force");

            size_t k = r.chance(0.2) ? all.size() + r.below(3) : 1 + r.below(r.chance(0.5) ? 4 : all.size());
            std::vector<double> dk(d.begin(), d.begin() + std::min(k, d.size()));
            distances(c, t.kNearestNeighbours(p, k), p, dk, "k-nearest");
            distances(c, t.kNearestNeighboursBruteForce(p, k), p, dk, "k-nearest-brute");
            VF_CHECK(t.kNearestNeighbours(p, 0).empty(), "k-nearest", "none asked");

            double radius = r.chance(0.4) ? d[r.below(d.size())] : r.unit() * (d.back() + 1);
            std::vector<double> ds(d.begin(), std::upper_bound(d.begin(), d.end(), radius));
            distances(c, t.findInSphere(p, radius), p, ds, "sphere");
            distances(c, t.findInSphereBruteForce(p, radius), p, ds, "sphere-brute");
            c.count("queries");
            c.eval();
        }
        Depth v{c};
        t.visit(v);
        VF_EQ(v.nodes, all.size(), "visit", "nodes visited");
        if (sizeKnown) iterate(c, t);
    }

    template <class Tree>
    void iterate(vf::Case& c, Tree& t) const {
        std::set<long> ids;
        for (auto i = t.begin(); i != t.end(); ++i) {
            long id = i->payload();
            VF_CHECK(id >= 0 && size_t(id) < all.size() && ids.insert(id).second, "iterate", "an unknown point, or twice the same");
            VF_CHECK(same(i->point(), all[id].first), "iterate", "the payload of another point");
        }
        VF_EQ(ids.size(), all.size(), "iterate", "points iterated on");
        c.count("iterated", ids.size());
    }
};

template <class P>
void memory(vf::Case& c) {
    vf::Rng& r = c.rng;
    using Tree  = KDTreeMemory<Traits_<P>>;
    using Value = typename Tree::Value;
    Tree t;
    Model<P> m;
    int style = int(r.below(5));
    size_t n  = r.chance(0.1) ? 1 : r.below(r.chance(0.2) ? 300 : 40);
    std::vector<Value> values;
    uint64_t h = 0;
    for (size_t i = 0; i < n; ++i) {
        P p = !m.all.empty() && r.chance(0.1) ? m.all[r.below(m.all.size())].first : make<P>(r, style);
        m.all.push_back({p, long(i)});
        values.emplace_back(p, long(i));
        h = vf::hashBytes(&p, sizeof p, h);
    }
    c.distinct(h);
    if (n && r.chance(0.7)) {
        t.build(values);
    }
    else {
        for (auto& v : values) t.insert(v);
    }
    m.check(c, t, style, 4);
    for (int more = r.below(30); more > 0; --more) {
        P p = make<P>(r, style);
        t.insert(Value(p, long(m.all.size())));
        m.all.push_back({p, long(m.all.size())});
        if (r.chance(0.2)) m.check(c, t, style, 1);
        c.count("inserted");
    }
    m.check(c, t, style, 3);
}

template <class P>
void mapped(vf::Case& c) {
    vf::Rng& r = c.rng;
    using Tree  = KDTreeMapped<Traits_<P>>;
    using Value = typename Tree::Value;
    PathName path(c.scratch + "/tree");
    if (path.exists()) path.unlink();
    Model<P> m;
    int style   = int(r.below(5));
    size_t n    = 1 + r.below(60);
    size_t meta = 0;
    std::vector<Value> values;
    for (size_t i = 0; i < n; ++i) {
        P p = make<P>(r, style);
        m.all.push_back({p, long(i)});
        values.emplace_back(p, long(i));
    }
    size_t room = n + (r.chance(0.5) ? r.below(5) : 0);
    P offset = make<P>(r, 0), scale = make<P>(r, 0);
    bool withMeta = r.chance(0.5);
    if (withMeta) meta = sizeof(typename Tree::KDTree::Metadata);
    {
        Tree t(path, room, meta);
        if (withMeta) t.setMetadata(offset, scale);
        if (r.chance(0.6)) {
            t.build(values);
        }
        else {
            for (auto& v : values) t.insert(v);
        }
        m.check(c, t, style, 3);
        for (size_t i = n; i < room; ++i) {
            P p = make<P>(r, style);
            t.insert(Value(p, long(i)));
            m.all.push_back({p, long(i)});
        }
        VF_CHECK(refuses([&] { t.insert(Value(offset, -1)); }), "mapped", "more points than there is room for");
        m.check(c, t, style, 1);
    }
    {
        Tree t(path, 0, meta);
        m.check(c, t, style, 4);
        if (withMeta) {
            P o, s;
            t.getMetadata(o, s);
            VF_CHECK(same(o, offset) && same(s, scale), "mapped", "metadata");
        }
        VF_CHECK(refuses([&] { t.insert(Value(offset, -1)); }), "mapped", "inserting in a tree open for reading");
        m.check(c, t, style, 1);
    }
    c.count("mapped_trees");
    c.distinct(vf::hashBytes(&m.all[0], sizeof(m.all[0])));
}

}  // namespace

VF_WORKLOAD(memory2, 200, 5000) {
    memory<geometry::Point2>(c);
}
VF_WORKLOAD(memory3, 150, 4000) {
    memory<geometry::Point3>(c);
}
VF_WORKLOAD(memory1, 60, 1000) {
    memory<geometry::KPoint<1>>(c);
}
VF_WORKLOAD(memory4, 60, 1000) {
    memory<geometry::KPoint<4>>(c);
}
VF_WORKLOAD(mapped2, 80, 1500) {
    mapped<geometry::Point2>(c);
}
VF_WORKLOAD(mapped3, 80, 1500) {
    mapped<geometry::Point3>(c);
}
