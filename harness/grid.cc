// Grids: where their points are, in which order, how many, how they are walked, described, cropped and renumbered.
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <map>
#include <memory>
#include <set>

#include "sphere.h"
#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Grid.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/grid/Unstructured.h"
#include "eckit/geo/grid/reduced/HEALPix.h"
#include "eckit/geo/grid/reduced/ReducedGaussian.h"
#include "eckit/geo/grid/reduced/ReducedLonLat.h"
#include "eckit/geo/grid/regular/RegularGaussian.h"
#include "eckit/geo/grid/regular/RegularLL.h"
#include "eckit/geo/order/HEALPix.h"
#include "eckit/geo/util.h"
#include "eckit/spec/Custom.h"

using namespace eckit;
using vf::refuses;
using vg::LL;
using vg::ld;
using geo::Grid;
using geo::PointLonLat;
using geo::area::BoundingBox;

namespace {

std::string str(const LL& p) { return "(" + vg::repr(p.lon) + ", " + vg::repr(p.lat) + ")"; }

LL at(const geo::Point& p) {
    auto& q = std::get<PointLonLat>(p);
    return {q.lon(), q.lat()};
}

bool same(const LL& a, const LL& b, double tol = 1e-9) { return std::abs(std::remainder(a.lon - b.lon, 360.)) <= tol && std::abs(a.lat - b.lat) <= tol; }

void checkPoints(vf::Case& c, const Grid& g, const std::vector<LL>& want, const std::string& what, double tol = 1e-9) {
    auto& r = c.rng;
    VF_EQ(g.size(), want.size(), "grid-size", what << ": size");
    VF_EQ(g.empty(), want.empty(), "grid-size", what << ": empty");
    size_t product = 1;
    for (auto n : g.shape()) product *= n;
    VF_EQ(product, want.size(), "grid-shape", what << ": product of the shape");
    c.eval(3);
    if (g.size() != want.size() || want.empty()) return;

    auto pts = g.to_points();
    auto ll  = g.to_latlons();
    VF_CHECK(pts.size() == want.size() && ll.first.size() == want.size() && ll.second.size() == want.size(), "grid-points", what << ": to_points gives " << pts.size() << ", to_latlons " << ll.first.size() << ", size is " << want.size());
    if (pts.size() != want.size() || ll.first.size() != want.size() || ll.second.size() != want.size()) return;
    for (size_t i = 0; i < want.size(); ++i) {
        if (!same(at(pts[i]), want[i], tol) || !same(LL{ll.second[i], ll.first[i]}, want[i], tol)) {
            VF_CHECK(false, "grid-points", what << ": point " << i << " is " << str(at(pts[i])) << " in to_points and " << str(LL{ll.second[i], ll.first[i]}) << " in to_latlons, not " << str(want[i]));
            return;
        }
    }
    c.eval(2);
    c.count("points", want.size());

    // walked
    size_t n = 0;
    for (auto it = g.begin(), end = g.end(); it != end; ++it, ++n) {
        if (n >= want.size() || it.index() != n || !it || !same(at(*it), want[n], tol)) {
            VF_CHECK(false, "grid-walk", what << ": step " << n << " has index " << it.index() << " of " << want.size());
            break;
        }
    }
    VF_EQ(n, want.size(), "grid-walk", what << ": steps from begin to end");
    VF_CHECK(same(at(g.first_point()), want.front(), tol), "grid-first", what << ": the first point is " << str(at(g.first_point())) << ", not " << str(want.front()));
    VF_CHECK(same(at(g.last_point()), want.back(), tol), "grid-last", what << ": the last point is " << str(at(g.last_point())) << ", not " << str(want.back()));
    c.eval(4);

    // jumped
    auto it = r.chance(.5) ? g.cbegin() : g.cend();
    auto pos = long(it.index()), size = long(want.size());
    for (int k = 0; k < 20; ++k) {
        long to = long(r.below(want.size()));
        int how = int(r.below(6));
        bool ok;
        if (how == 0) ok = ++it, to = pos + 1;
        else if (how == 1 && pos > 0) ok = --it, to = pos - 1;
        else if (how == 2) ok = it -= pos - to;
        else if (how == 3) {
            auto copy = it;
            ok        = copy += to - pos;
            VF_EQ(long(it.index()), pos, "grid-jump", what << ": index after a copy of the iterator moved");
            it = copy;
        }
        else ok = it += to - pos;
        if (to >= size) {
            VF_CHECK(!ok && !it && it == g.cend(), "grid-jump", what << ": an iterator moved from " << pos << " to " << to << " is at " << it.index() << ", not at the end");
            pos = size;
        }
        else {
            VF_CHECK(ok && it && long(it.index()) == to && it != g.cend(), "grid-jump", what << ": an iterator moved from " << pos << " to " << to << " is at " << it.index());
            VF_CHECK(same(at(*it), want[size_t(to)], tol), "grid-jump", what << ": an iterator moved from " << pos << " to " << to << " gives " << str(at(*it)) << ", not " << str(want[size_t(to)]));
            pos = to;
        }
    }
    c.eval(20);

    // the box around
    auto& box = g.boundingBox();
    for (auto& p : want) {
        bool in = box.contains(PointLonLat{p.lon, p.lat}) || box.contains(PointLonLat{p.lon + 1e-8, p.lat}) || box.contains(PointLonLat{p.lon - 1e-8, p.lat});
        if (!in) {
            VF_CHECK(false, "grid-box", what << ": the bounding box " << box.north() << "/" << box.west() << "/" << box.south() << "/" << box.east() << " does not contain " << str(p));
            break;
        }
    }
    c.eval();
}

void checkAgain(vf::Case& c, const Grid& g, const std::vector<LL>& want, const std::string& what, double tol = 1e-9) {
    auto spec = g.spec_str();
    c.trace() << what << " is described as " << spec << "\n";
    VF_CHECK(Grid::is_uid(g.uid()) && g.uid() == g.calculate_uid(), "grid-uid", what << ": uid " << g.uid());
    std::unique_ptr<const Grid> h(c.rng.chance(.5) ? geo::GridFactory::make_from_string(spec) : geo::GridFactory::build(g.spec()));
    VF_EQ(h->size(), g.size(), "grid-again", what << ": size when built from " << spec);
    if (auto west = g.boundingBox().west(); west < -180 || west >= 180) {  // (only of grids not made from a description)
        spec = h->spec_str();
        h.reset(geo::GridFactory::make_from_string(spec));
        VF_EQ(h->spec_str(), spec, "grid-again", what << ": description when built again from its description");
        c.count("turned");
    }
    else {
    VF_EQ(h->spec_str(), spec, "grid-again", what << ": description when built from its description");
    VF_EQ(h->uid(), g.uid(), "grid-again", what << ": uid when built from its description");
    VF_CHECK(*h == g && h->type() == g.type() && (g.type() != "HEALPix" || h->order() == g.order()), "grid-again", what << ": not equal when built from its description");
    }
    c.eval(5);
    if (h->size() != want.size()) return;
    size_t i = 0;
    for (auto& p : h->to_points()) {
        if (!same(at(p), want[i], tol)) {
            VF_CHECK(false, "grid-again", what << ": built again from " << spec << ", point " << i << " is " << str(at(p)) << ", not " << str(want[i]));
            break;
        }
        ++i;
    }
    c.count("again");
}

// --- latitudes of Gauss: the roots of the Legendre polynomial of degree 2N, in long double, decreasing

const std::vector<ld>& gauss(size_t N) {
    static std::map<size_t, std::vector<ld>> all;
    auto& v = all[N];
    if (v.empty()) {
        size_t n = 2 * N;
        v.resize(n);
        for (size_t i = 0; i < N; ++i) {
            ld x = std::cos(M_PIl * (ld(i) + .75L) / (ld(n) + .5L));
            for (int k = 0; k < 50; ++k) {
                ld p0 = 1, p1 = x;
                for (size_t j = 2; j <= n; ++j) {
                    ld p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j;
                    p0 = p1, p1 = p2;
                }
                ld d  = n * (x * p1 - p0) / (x * x - 1);
                ld dx = p1 / d;
                x -= dx;
                if (std::abs(dx) < 1e-19L) break;
            }
            v[i]         = std::asin(x) * 180 / M_PIl;
            v[n - 1 - i] = -v[i];
        }
    }
    return v;
}

/// all in thousandths of a degree, so that sums are exact
struct Area {
    long n = 90000, w = 0, s = -90000, width = 360000;
    bool global() const { return n == 90000 && s == -90000 && width == 360000; }
    double N() const { return double(n) / 1000; }
    double W() const { return double(w) / 1000; }
    double S() const { return double(s) / 1000; }
    double E() const { return double(w + width) / 1000; }
    std::vector<double> list() const { return {N(), W(), S(), E()}; }
};

std::string str(const Area& a) { return vg::repr(a.N()) + "/" + vg::repr(a.W()) + "/" + vg::repr(a.S()) + "/" + vg::repr(a.E()); }

Area area(vf::Rng& r, long step) {
    Area a;
    if (r.chance(.25)) return a;
    if (!r.chance(.3)) {
        a.n = r.chance(.2) ? 90000 : 90000 - step * long(r.below(uint64_t(90000 / step)));
        a.s = r.chance(.2) ? -90000 : a.n - step * long(1 + r.below(uint64_t(100000 / step)));
        a.s = std::max(a.s, -90000L);
        if (a.s >= a.n) a.s = std::max(-90000L, a.n - step);
        if (a.s >= a.n) a.n = a.s + step;
    }
    a.w     = -180000 + step * long(r.below(uint64_t(540000 / step)));
    a.width = r.chance(.3) ? 360000 : std::min(355000L, step * long(1 + r.below(uint64_t(360000 / step))));
    return a;
}

double turn360(double x) {
    double t = std::fmod(x, 360.);
    if (t < 0) t += 360;
    return t > 360 - 1e-7 ? 0 : t;
}

// where grids that have to be known by other processes are written (looked up once)
struct Cache {
    std::string dir;
    Cache() {
        const char* base = getenv("VF_WORK") ? getenv("VF_WORK") : "/tmp";
        dir              = std::string(base) + "/vf-geo-XXXXXX";
        if (!mkdtemp(&dir[0])) abort();
        setenv("ECKIT_GEO_CACHE_PATH", dir.c_str(), 1);
    }
    ~Cache() {
        std::error_code e;
        std::filesystem::remove_all(dir, e);
    }
} cache_;

long mod(long a, long b) { return ((a % b) + b) % b; }

}  // namespace

VF_WORKLOAD(regular_ll, 900, 30000) {
    auto& r = c.rng;
    long dlon = 1000 * r.pick(std::vector<long>{1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 40, 45, 60, 72, 90, 120}) / r.pick(std::vector<long>{1, 1, 1, 2, 4});
    long dlat = 1000 * r.pick(std::vector<long>{1, 2, 3, 5, 6, 9, 10, 15, 18, 30, 45, 90, 7, 11}) / r.pick(std::vector<long>{1, 1, 2, 4});
    if (r.chance(.8)) dlon = std::max(dlon, 4000L), dlat = std::max(dlat, 3000L);
    if (360000 % dlon) dlon = 5000;
    Area a = area(r, r.pick(std::vector<long>{1000, 250, 500, 5000, dlat, 100}));
    bool whole = a.global() && a.w == 0;
    bool byArea = !whole || r.chance(.2);
    std::string order = r.pick(std::vector<std::string>{"i+j-", "i+j-", "i+j+", "i-j+", "i-j-"});
    bool ipos = order[1] == '+', jpos = order[3] == '+';
    // the reference
    long rx = 0, ry = 0;
    bool ref = r.chance(.3);
    if (ref) rx = 250 * long(r.below(40)), ry = 250 * long(r.below(40));
    else if (byArea) rx = a.w, ry = a.s;

    spec::Custom spec;
    bool named = !byArea && !ref && order == "i+j-" && r.chance(.5);
    if (named) {
        std::ostringstream o;
        o << double(dlon) / 1000 << "/" << double(dlat) / 1000;
        spec.set("grid", o.str());
    }
    else {
        spec.set("grid", std::vector<double>{double(dlon) / 1000, double(dlat) / 1000});
        if (r.chance(.3)) spec.set("type", "regular_ll");
        if (byArea) spec.set("area", a.list());
        if (ref) spec.set("reference", std::vector<double>{double(rx) / 1000, double(ry) / 1000});
        if (order != "i+j-" || r.chance(.1)) spec.set("order", order);
    }
    std::string what = spec.str();
    c.trace() << what << "\n";

    std::vector<long> lats, lons;
    for (long y = a.s + mod(ry - a.s, dlat); y <= a.n; y += dlat) lats.push_back(y);
    for (long x = a.w + mod(rx - a.w, dlon); x <= a.w + a.width; x += dlon) lons.push_back(x);
    // around the Earth, or close to it: the last point is the first one again
    if (!lons.empty() && lons.back() - lons.front() == 360000) ipos ? lons.pop_back() : (void)lons.erase(lons.begin());
    if (lats.empty() || lons.empty()) {  // nothing inside
        c.count("empty");
        return;
    }
    if (!jpos) std::reverse(lats.begin(), lats.end());
    if (!ipos) std::reverse(lons.begin(), lons.end());
    std::vector<LL> want;
    for (auto y : lats)
        for (auto x : lons) want.push_back({double(x) / 1000, double(y) / 1000});
    c.distinct(what);

    std::unique_ptr<const Grid> g(geo::GridFactory::build(spec));
    VF_EQ(g->type(), std::string("regular_ll"), "grid-type", what);
    auto& reg = dynamic_cast<const geo::grid::regular::RegularLL&>(*g);
    VF_CHECK(reg.nlon() == lons.size() && reg.nlat() == lats.size(), "regular_ll-shape", what << " has " << reg.nlon() << " x " << reg.nlat() << " points, not " << lons.size() << " x " << lats.size());
    checkPoints(c, *g, want, what);
    checkAgain(c, *g, want, what);
    auto dl = g->distinct_latitudes(), dn = g->distinct_longitudes();
    VF_CHECK(dl.size() == lats.size() && dn.size() == lons.size(), "regular_ll-distinct", what << ": " << dl.size() << " distinct latitudes and " << dn.size() << " longitudes");
    c.eval(3);
    c.count("regular_ll");

    // cropped: the points of the grid in the area
    if (r.chance(.5)) {
        Area b = area(r, 1000);
        if (b.width < 360000 && r.chance(.5)) b.w = a.w + 1000 * long(r.below(uint64_t(1 + a.width / 1000)));
        BoundingBox crop(b.N(), b.W(), b.S(), b.E());
        BoundingBox box(g->boundingBox());
        std::vector<LL> kept;
        std::vector<long> los;
        // the order starts at the west (or east) edge of the area
        bool meet = crop.intersects(box);
        if (!meet) {
            if (r.chance(.2)) {
                VF_CHECK(refuses([&] { std::unique_ptr<Grid> x(g->make_grid_cropped(crop)); }), "crop-refuses", what << " cropped to " << str(b) << ", where nothing is");
                c.eval();
            }
            return;
        }
        long w = std::lround(box.west() * 1000), e = std::lround(box.east() * 1000), n = std::lround(box.north() * 1000), s = std::lround(box.south() * 1000);
        std::set<long> inGrid;
        for (auto x : lons) inGrid.insert(mod(x, 360000));
        for (long x = w; x <= e; ++x) {
            if (mod(x - lons[0], dlon)) { x += dlon - 1 - mod(x - lons[0], dlon); continue; }
            if (inGrid.count(mod(x, 360000))) los.push_back(x);
        }
        if (los.size() > 1 && los.back() - los.front() == 360000) ipos ? los.pop_back() : (void)los.erase(los.begin());
        if (!ipos) std::reverse(los.begin(), los.end());
        for (auto y : lats)
            if (s <= y && y <= n)
                for (auto x : los) kept.push_back({double(x) / 1000, double(y) / 1000});
        if (kept.empty()) return;
        std::unique_ptr<Grid> cr(g->make_grid_cropped(crop));
        checkPoints(c, *cr, kept, what + " cropped to " + str(b));
        checkAgain(c, *cr, kept, what + " cropped to " + str(b));
        c.count("cropped");
    }
}

namespace {

/// longitudes of n points around from 0, from west over width; empty if any is too close to an edge to tell
bool around(long n, const Area& a, std::vector<double>& out) {
    out.clear();
    ld step = 360.L / ld(n);
    ld w = a.W(), e = a.E();
    for (long k = long(std::floor((w - 1) / step)) - 1; k * step <= e + step; ++k) {
        ld x = k * step;
        if (a.width != 360000 && ((std::abs(x - w) < 1e-6L && x != w) || (std::abs(x - e) < 1e-6L && x != e))) return false;
        if (a.width == 360000 ? w - 1e-9L <= x && x < e - 1e-9L : w <= x && x <= e) out.push_back(double(x));
    }
    return true;
}

bool latsIn(size_t N, const Area& a, std::vector<double>& out) {  // decreasing
    out.clear();
    for (auto y : gauss(N)) {
        if (std::abs(y - a.N()) < 1e-6L || std::abs(y - a.S()) < 1e-6L) return false;
        if (a.S() <= y && y <= a.N()) out.push_back(double(y));
    }
    return true;
}

}  // namespace

VF_WORKLOAD(regular_gg, 350, 12000) {
    auto& r  = c.rng;
    size_t N = r.chance(.7) ? 1 + r.below(24) : 1 + r.below(48);
    Area a   = area(r, r.pick(std::vector<long>{1000, 5000, 500}));
    std::string order = r.pick(std::vector<std::string>{"i+j-", "i+j-", "i+j+", "i-j+", "i-j-"});
    bool ipos = order[1] == '+', jpos = order[3] == '+';
    std::vector<double> lats, lons;
    if (!latsIn(N, a, lats) || lats.empty() || !around(long(4 * N), a, lons) || lons.empty()) return;
    spec::Custom spec;
    if (r.chance(.5)) spec.set("grid", (r.chance(.5) ? "F" : "f") + std::to_string(N));
    else spec.set("type", "regular_gg"), spec.set("N", N);
    if (!a.global() || a.w) spec.set("area", a.list());
    if (order != "i+j-") spec.set("order", order);
    std::string what = spec.str();
    c.trace() << what << "\n";
    c.distinct(what);
    if (a.width == 360000 && !ipos) {  // from the east edge
        std::vector<double> l;
        for (auto x : lons) l.push_back(x);
        if (std::abs(std::remainder(lons.front() - a.W(), 360.)) < 1e-9) l.erase(l.begin()), l.push_back(lons.front() + 360);
        lons = l;
    }
    if (jpos) std::reverse(lats.begin(), lats.end());
    if (!ipos) std::reverse(lons.begin(), lons.end());
    std::vector<LL> want;
    for (auto y : lats)
        for (auto x : lons) want.push_back({x, y});
    std::unique_ptr<const Grid> g(geo::GridFactory::build(spec));
    VF_EQ(g->type(), std::string("regular_gg"), "grid-type", what);
    checkPoints(c, *g, want, what);
    checkAgain(c, *g, want, what);
    c.count("regular_gg");
    if (r.chance(.3)) {
        Area b = area(r, 1000);
        BoundingBox crop(b.N(), b.W(), b.S(), b.E()), box(g->boundingBox());
        if (crop.intersects(box)) {
            std::set<long> have;
            for (auto& p : want) {
                bool in = crop.contains(PointLonLat{p.lon, p.lat}), close = false;
                for (double d : {-1e-6, 1e-6}) close |= crop.contains(PointLonLat{p.lon + d, p.lat}) != in || crop.contains(PointLonLat{p.lon, std::max(-90., std::min(90., p.lat + d))}) != in;
                if (close) return;
                if (in) have.insert(std::lround(turn360(p.lon) * 1e6) * 1000000000L + std::lround(p.lat * 1e6));
            }
            if (have.empty()) return;
            // (two pieces: only one is kept)
            if (a.width != 360000 && b.width != 360000 && a.width + b.width >= 360000) return;
            std::unique_ptr<Grid> cr(g->make_grid_cropped(crop));
            std::set<long> got;
            std::vector<LL> pts;
            for (auto& p : cr->to_points()) got.insert(std::lround(turn360(at(p).lon) * 1e6) * 1000000000L + std::lround(at(p).lat * 1e6)), pts.push_back(at(p));
            VF_CHECK(got == have && pts.size() == have.size(), "crop-points", what << " cropped to " << str(b) << " has " << pts.size() << " points, not " << have.size());
            checkPoints(c, *cr, pts, what + " cropped to " + str(b));
            checkAgain(c, *cr, pts, what + " cropped to " + str(b));
            c.count("cropped");
        }
    }
}

VF_WORKLOAD(reduced_gg, 350, 12000) {
    auto& r = c.rng;
    size_t N;
    std::vector<long> pl;
    spec::Custom spec;
    int kind = int(r.below(4));
    if (kind == 0) {  // octahedral
        N = r.chance(.8) ? 1 + r.below(16) : 1 + r.below(40);
        for (size_t j = 0; j < N; ++j) pl.push_back(20 + 4 * long(j));
        for (size_t j = N; j > 0; --j) pl.push_back(pl[j - 1]);
        if (r.chance(.5)) spec.set("grid", (r.chance(.5) ? "O" : "o") + std::to_string(N));
        else spec.set("type", "reduced_gg"), spec.set("pl", pl);
    }
    else if (kind == 1) {  // classical
        N  = r.pick(std::vector<size_t>{16, 24, 32, 48});
        pl = geo::util::reduced_classical_pl(N);
        VF_EQ(pl.size(), 2 * N, "classical", "N" << N << ": rows");
        VF_CHECK(std::equal(pl.begin(), pl.end(), pl.rbegin()) && std::is_sorted(pl.begin(), pl.begin() + long(N)) && pl[N - 1] == long(4 * N) && pl[0] >= 4, "classical", "N" << N << ": not symmetric and growing to the equator");
        spec.set("grid", "N" + std::to_string(N));
    }
    else if (r.chance(.3)) {  // nearly one of the known ones
        N  = r.pick(std::vector<size_t>{16, 24, 32, 48});
        if (r.chance(.5)) pl = geo::util::reduced_classical_pl(N);
        else {
            for (size_t j = 0; j < N; ++j) pl.push_back(20 + 4 * long(j));
            for (size_t j = N; j > 0; --j) pl.push_back(pl[j - 1]);
        }
        auto j = r.below(pl.size());
        pl[j] += r.chance(.5) ? 1 : -1;
        if (r.chance(.3)) pl[pl.size() - 1 - j] = pl[j];
        spec.set("type", "reduced_gg"), spec.set("pl", pl);
        c.count("nearly-known");
    }
    else {  // any
        N = 1 + r.below(12);
        for (size_t j = 0; j < 2 * N; ++j) pl.push_back(long(2 + r.below(40)));
        spec.set("type", "reduced_gg"), spec.set("pl", pl);
    }
    Area a = area(r, r.pick(std::vector<long>{1000, 5000, 500}));
    if (!a.global() || a.w) spec.set("area", a.list());
    std::string what = spec.str();
    std::vector<LL> want;
    auto& lats = gauss(N);
    size_t rows = 0;
    for (size_t j = 0; j < 2 * N; ++j) {
        if (std::abs(lats[j] - a.N()) < 1e-6L || std::abs(lats[j] - a.S()) < 1e-6L) return;
        if (lats[j] > a.N() || lats[j] < a.S()) continue;
        std::vector<double> lons;
        if (!around(pl[j], a, lons)) return;
        if (lons.empty()) c.count("empty-rows");
        for (auto x : lons) want.push_back({x, double(lats[j])});
        rows += !lons.empty();
    }
    if (want.empty()) return;
    if (rows < 2 * N) c.count("cut");
    c.trace() << what << "\n";
    c.distinct(what);
    std::unique_ptr<const Grid> g(geo::GridFactory::build(spec));
    VF_EQ(g->type(), std::string("reduced_gg"), "grid-type", what);
    checkPoints(c, *g, want, what);
    checkAgain(c, *g, want, what);
    c.count("reduced_gg");
}

VF_WORKLOAD(reduced_ll, 250, 10000) {
    auto& r = c.rng;
    size_t n = 2 + r.below(20);
    std::vector<long> pl;
    for (size_t j = 0; j < n; ++j) pl.push_back(long(2 + r.below(40)));
    Area a = area(r, 1000);
    long most = *std::max_element(pl.begin(), pl.end());
    // far from all around, or all around
    if (a.width != 360000 && a.width + 360000 / (most - 1) >= 359000) return;
    spec::Custom spec;
    spec.set("type", "reduced_ll"), spec.set("pl", pl);
    if (!a.global() || a.w) spec.set("area", a.list());
    std::string what = spec.str();
    c.trace() << what << "\n";
    c.distinct(what);
    std::vector<LL> want;
    for (size_t j = 0; j < n; ++j) {
        ld lat = a.N() + (ld(a.S()) - a.N()) * ld(j) / ld(n - 1), w = ld(a.width) / 1000;
        for (long i = 0; i < pl[j]; ++i) want.push_back({double(a.W() + w * ld(i) / ld(a.width == 360000 ? pl[j] : pl[j] - 1)), double(lat)});
    }
    std::unique_ptr<const Grid> g(geo::GridFactory::build(spec));
    VF_EQ(g->type(), std::string("reduced_ll"), "grid-type", what);
    checkPoints(c, *g, want, what);
    checkAgain(c, *g, want, what);
    c.count("reduced_ll");
}

VF_WORKLOAD(healpix, 120, 3000) {
    auto& r   = c.rng;
    bool pow2 = r.chance(.7);
    size_t N  = pow2 ? size_t(1) << r.below(r.chance(.9) ? 5 : 7) : 1 + r.below(20);
    if (!pow2 && r.chance(.1)) N += 64;
    pow2      = (N & (N - 1)) == 0;
    bool nested = pow2 && r.chance(.5);
    // by definition
    static const int jrll[] = {2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4}, jpll[] = {1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7};
    struct Pix { LL p; size_t ring; };
    std::vector<Pix> nest;
    for (size_t f = 0; f < 12; ++f)
        for (size_t k = 0; k < N * N; ++k) {
            size_t x = 0, y = 0;
            if (pow2) {
                for (size_t b = 0; b < 16; ++b) x |= ((k >> (2 * b)) & 1) << b, y |= ((k >> (2 * b + 1)) & 1) << b;
            }
            else x = k % N, y = k / N;
            size_t ring = size_t(jrll[f]) * N - x - y - 1;  // from 1
            ld nr = ring < N ? ring : ring > 3 * N ? 4 * N - ring : N;
            ld z  = ring < N ? 1 - nr * nr / (3 * ld(N) * ld(N)) : ring > 3 * N ? nr * nr / (3 * ld(N) * ld(N)) - 1 : (2 * ld(N) - ld(ring)) * 2 / (3 * ld(N));
            ld phi = 45 * (jpll[f] * nr + (ld(x) - ld(y))) / nr;
            if (phi < -1e-9L) phi += 360;
            nest.push_back({{double(phi), double(std::asin(z) * 180 / M_PIl)}, ring});
        }
    std::vector<size_t> ringOf(nest.size());  // ring order -> nested index
    for (size_t i = 0; i < nest.size(); ++i) ringOf[i] = i;
    std::sort(ringOf.begin(), ringOf.end(), [&](size_t a, size_t b) { return nest[a].ring != nest[b].ring ? nest[a].ring < nest[b].ring : nest[a].p.lon < nest[b].p.lon; });
    std::vector<LL> ring, want;
    for (auto i : ringOf) ring.push_back(nest[i].p);
    if (nested)
        for (auto& p : nest) want.push_back(p.p);
    else want = ring;

    spec::Custom spec;
    int how = int(r.below(3));
    if (how == 0) spec.set("grid", (r.chance(.5) ? "H" : "h") + std::to_string(N)), spec.set("order", nested ? "nested" : "ring");
    else if (how == 1) spec.set("grid", (r.chance(.5) ? "H" : "h") + std::string(nested ? "n" : r.chance(.5) ? "r" : "") + std::to_string(N));
    else spec.set("type", r.chance(.5) ? "HEALPix" : "healpix"), spec.set("Nside", N), spec.set("order", nested ? "nested" : "ring");
    std::string what = spec.str();
    c.trace() << what << "\n";
    c.distinct(what + std::to_string(r.below(1000)));
    std::unique_ptr<const Grid> g(geo::GridFactory::build(spec));
    VF_EQ(g->type(), std::string("HEALPix"), "grid-type", what);
    VF_EQ(g->order(), std::string(nested ? "nested" : "ring"), "healpix-order", what);
    auto dl = g->distinct_latitudes();
    VF_EQ(dl.size(), 4 * N - 1, "healpix-distinct", what << ": distinct latitudes");
    checkPoints(c, *g, want, what, 2e-7);  // acos next to the poles
    checkAgain(c, *g, want, what, 2e-7);
    c.eval(3);

    if (pow2) {
        geo::order::HEALPix fromRing("ring"), fromNest("nested");
        auto rn = fromRing.reorder("nested", N), nr = fromNest.reorder("ring", N);
        bool good = rn.size() == nest.size() && nr.size() == nest.size();
        for (size_t i = 0; good && i < rn.size(); ++i) good = rn[i] == ringOf[i] && nr[ringOf[i]] == i;
        VF_CHECK(good, "healpix-reorder", "Nside " << N << ": renumbering from ring to nested or back is wrong");
        auto id = fromRing.reorder("ring", N);
        for (size_t i = 0; i < id.size(); ++i) VF_CHECK(id[i] == i, "healpix-reorder", "Nside " << N << ": ring to ring");
        std::unique_ptr<Grid> o(g->make_grid_reordered(nested ? "ring" : "nested"));
        auto ren = g->reorder(o->order());
        auto p = g->to_points(), q = o->to_points();
        for (size_t i = 0; i < p.size(); ++i) {
            if (!same(at(q[ren[i]]), at(p[i]), 2e-7)) {
                VF_CHECK(false, "healpix-reorder", what << " reordered: point " << i << " is not point " << ren[i]);
                break;
            }
        }
        c.count("reordered");
        c.eval(3);
    }
    else if (r.chance(.3)) {
        VF_CHECK(refuses([&] { geo::order::HEALPix("ring").reorder("nested", N); }), "healpix-reorder", "Nside " << N << " is not a power of 2, but can be nested");
        c.eval();
    }
    c.count("healpix");
}

VF_WORKLOAD(unstructured, 120, 3000) {
    auto& r  = c.rng;
    size_t n = 1 + r.below(r.chance(.8) ? 40 : 400);
    std::vector<double> lats, lons;
    std::vector<LL> want;
    for (size_t i = 0; i < n; ++i) {
        LL p = vg::point(r);
        lats.push_back(p.lat), lons.push_back(p.lon), want.push_back(p);
    }
    std::unique_ptr<const Grid> g;
    if (r.chance(.5)) {
        spec::Custom spec;
        spec.set("latitudes", lats), spec.set("longitudes", lons);
        g.reset(geo::GridFactory::build(spec));
    }
    else g.reset(new geo::grid::Unstructured(lons, lats));
    VF_EQ(g->type(), std::string("unstructured_ll"), "grid-type", "of latitudes and longitudes");
    std::string what = std::to_string(n) + " points with uid " + g->uid();
    c.trace() << what << "\n";
    c.distinct(g->uid());
    checkPoints(c, *g, want, what, 0);
    checkAgain(c, *g, want, what, 0);
    // known by its uid
    spec::Custom byUid;
    byUid.set(r.chance(.5) ? "uid" : "grid", g->uid());
    std::unique_ptr<const Grid> h(geo::GridFactory::build(byUid));
    VF_CHECK(h->uid() == g->uid() && h->to_latlons() == g->to_latlons(), "unstructured-uid", what << ": other points when built from the uid");
    // other points, other uid
    size_t k = r.below(n);
    auto others = lats;
    others[k] = others[k] > 0 ? others[k] - .5 : others[k] + .5;
    geo::grid::Unstructured o(lons, others);
    VF_CHECK(o.uid() != g->uid() && o != *g, "unstructured-uid", what << ": same uid with other points");
    if (r.chance(.1)) {
        others.pop_back();
        VF_CHECK(refuses([&] { geo::grid::Unstructured x(lons, others); }), "unstructured-refuses", "more longitudes than latitudes");
        c.eval();
    }
    c.eval(4);
    c.count("unstructured");
}

VF_WORKLOAD(utilities, 1500, 50000) {
    auto& r = c.rng;
    {
        size_t N = r.chance(.8) ? 1 + r.below(64) : 1 + r.below(160);
        auto& want = gauss(N);
        auto &down = geo::util::gaussian_latitudes(N, false), &up = geo::util::gaussian_latitudes(N, true);
        bool good = down.size() == 2 * N && up.size() == 2 * N;
        for (size_t i = 0; good && i < 2 * N; ++i) good = std::abs(down[i] - want[i]) < 1e-11L && std::abs(up[i] + want[i]) < 1e-11L;
        VF_CHECK(good, "gaussian-latitudes", "the Gaussian latitudes of N=" << N << " are not the roots of the Legendre polynomial");
        if (N > 1) {
            auto& w = geo::util::gaussian_quadrature_weights(N);
            // they integrate polynomials exactly: compare with 2 / ((1 - x^2) P'(x)^2), up to normalisation
            ld sum = 0;
            for (auto v : w) sum += v;
            good = w.size() == 2 * N && sum > 0;
            for (size_t i = 0; good && i < 2 * N; ++i) {
                ld x = std::sin(want[i] * M_PIl / 180), p0 = 1, p1 = x;
                size_t n = 2 * N;
                for (size_t j = 2; j <= n; ++j) {
                    ld p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j;
                    p0 = p1, p1 = p2;
                }
                ld d = n * (x * p1 - p0) / (x * x - 1), v = 2 / ((1 - x * x) * d * d);
                good = std::abs(w[i] / sum - v / 2) < 1e-11L;
            }
            VF_CHECK(good, "gaussian-weights", "the Gaussian quadrature weights of N=" << N);
        }
        c.distinct("gauss" + std::to_string(N));
        c.eval(2);
    }
    {
        double a = r.real(-400, 400), b = r.real(-400, 400);
        size_t n = r.below(50);
        auto& l = geo::util::linspace(a, b, n);
        bool good = l.size() == n;
        for (size_t i = 0; good && i < n; ++i) good = std::abs(l[i] - (n == 1 ? a : a + (b - a) * double(i) / double(n - 1))) < 1e-10;
        VF_CHECK(good, "linspace", "linspace(" << vg::repr(a) << ", " << vg::repr(b) << ", " << n << ")");
        c.eval();
    }
    {
        std::vector<double> v;
        size_t n = r.below(12);
        double x = double(r.below(10));
        for (size_t i = 0; i < n; ++i) v.push_back(x), x += double(1 + r.below(3));
        if (r.chance(.5)) std::reverse(v.begin(), v.end());
        double lo = double(r.below(30)) / 2 - 1, hi = lo + double(r.below(30)) / 2 - 1;
        auto [f, t] = geo::util::monotonic_crop(v, lo, hi);
        std::vector<double> want, got;
        for (auto y : v)
            if (lo <= y && y <= hi) want.push_back(y);
        bool good = 0 <= f && f <= t && t <= long(n);
        if (good) got.assign(v.begin() + f, v.begin() + t);
        std::ostringstream o;
        for (auto y : v) o << y << " ";
        VF_CHECK(good && got == want, "monotonic-crop", "cropping " << o.str() << "to " << lo << ".." << hi << " gives " << f << " to " << t);
        auto back = geo::util::reverse(v);
        auto rev  = v;
        std::reverse(rev.begin(), rev.end());
        VF_CHECK(back == rev, "reverse", "reverse of " << o.str());
        c.eval(2);
    }
}
