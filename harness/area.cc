// Bounding boxes and polygons on longitudes and latitudes, against interval arithmetic and ray casting in long double.
#include <cmath>
#include <memory>

#include "sphere.h"
#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Area.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointXY.h"
#include "eckit/geo/Projection.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/area/BoundingBoxXY.h"
#include "eckit/geo/area/Polygon.h"
#include "eckit/geo/polygon/Polygon.h"
#include "eckit/geo/polygon/PolygonXY.h"
#include "eckit/geo/projection/Mercator.h"
#include "eckit/geo/projection/Rotation.h"
#include "eckit/spec/Custom.h"

using namespace eckit;
using vf::refuses;
using vg::ld;
using geo::PointLonLat;
using geo::PointXY;
using geo::area::BoundingBox;

namespace {

std::string str(const BoundingBox& b) { return "[" + vg::repr(b.north()) + "/" + vg::repr(b.west()) + "/" + vg::repr(b.south()) + "/" + vg::repr(b.east()) + "]"; }
std::string str(const PointLonLat& p) { return "(" + vg::repr(p.lon()) + ", " + vg::repr(p.lat()) + ")"; }

/// longitudes from west, eastwards, over width; latitudes
struct Box {
    double n, w, s, width;
    double e() const { return w + width; }
};

double turn(double a) {  // into [0, 360), exact for the multiples of 1/8 used here
    double t = std::fmod(a, 360.);
    return t < 0 ? t + 360 : t;
}

bool lonIn(const Box& b, double lon) { return turn(lon - b.w) <= b.width; }

bool in(const Box& b, double lon, double lat) {
    if (lat == 90) return b.n == 90;
    if (lat == -90) return b.s == -90;
    return b.s <= lat && lat <= b.n && lonIn(b, lon);
}

/// multiples of 1/8 degree, so that all sums are exact
Box box(vf::Rng& r) {
    auto lat = [&] { return r.chance(.15) ? 90. : r.chance(.15) ? -90. : r.chance(.2) ? 0. : (double(r.below(1439)) - 719) / 8; };
    Box b;
    b.n = lat(), b.s = lat();
    if (b.n < b.s) std::swap(b.n, b.s);
    if (r.chance(.05)) b.s = b.n;
    b.w     = r.chance(.3) ? r.pick(std::vector<double>{-180, 0, 180, -90, 350, -360}) : (double(r.below(8 * 1080)) - 8 * 540) / 8;
    b.width = r.chance(.2) ? 360 : r.chance(.05) ? 0 : r.chance(.3) ? 360 - double(r.below(160)) / 8 : double(r.below(2880)) / 8;
    return b;
}

Box related(vf::Rng& r, const Box& o) {
    Box b = box(r);
    if (r.chance(.6)) {  // some edges in common, or inside
        if (r.chance(.5)) b.w = o.w + 360 * (double(r.below(3)) - 1);
        else if (r.chance(.3)) b.w = o.e();
        else b.w = o.w + double(r.below(1 + uint64_t(o.width * 8))) / 8;
        if (r.chance(.6)) b.width = double(r.below(1 + uint64_t(o.width * 8))) / 8;
        else if (r.chance(.5)) b.width = o.width;
        if (r.chance(.5)) b.n = o.n;
        if (r.chance(.5)) b.s = o.s;
        if (b.n < b.s) std::swap(b.n, b.s);
    }
    return b;
}

bool contained(const Box& a, const Box& b) {  // b in a
    if (b.s < a.s || b.n > a.n) return false;
    if (a.width == 360) return true;
    return turn(b.w - a.w) + b.width <= a.width;
}

}  // namespace

VF_WORKLOAD(boxes, 6000, 200000) {
    auto& r = c.rng;
    for (int k = 0; k < 6; ++k) {
        Box a = box(r), b = related(r, a);
        BoundingBox A(a.n, a.w, a.s, a.e()), B(b.n, b.w, b.s, b.e());
        c.distinct(str(A) + str(B));
        c.trace() << "A " << str(A) << " B " << str(B) << "\n";
        VF_CHECK(A.north() == a.n && A.south() == a.s && A.west() == a.w && A.east() == a.e(), "box-corners", "box " << a.n << "/" << a.w << "/" << a.s << "/" << a.e() << " is " << str(A));
        VF_EQ(A.periodic(), a.width == 360, "periodic", str(A) << " periodic");
        VF_EQ(A.global(), a.width == 360 && a.n == 90 && a.s == -90, "global", str(A) << " global");
        VF_EQ(A.empty(), a.width == 0 || a.n == a.s, "empty", str(A) << " empty");
        c.eval(4);

        // points
        for (int i = 0; i < 8; ++i) {
            double lon = r.chance(.3) ? a.w : r.chance(.3) ? a.e() : a.w + double(r.below(2880)) / 8;
            if (r.chance(.2)) lon += r.chance(.5) ? .125 : -.125;
            lon += 360 * (double(r.below(5)) - 2);
            double lat = r.chance(.3) ? a.n : r.chance(.3) ? a.s : r.chance(.1) ? 90 : r.chance(.1) ? -90 : (double(r.below(1441)) - 720) / 8;
            if (r.chance(.2)) lat = std::max(-90., std::min(90., lat + (r.chance(.5) ? .125 : -.125)));
            PointLonLat p{lon, lat};
            bool want = in(a, lon, lat);
            VF_EQ(A.contains(p), want, "box-contains", str(A) << " contains " << str(p));
            const geo::Area& area = A;
            VF_EQ(area.contains(geo::Point{p}), want, "box-contains", str(A) << " (as an area) contains " << str(p));
            c.eval(2);
            c.count(want ? "points-in" : "points-out");
        }

        // boxes
        VF_EQ(A.contains(B), contained(a, b), "box-contains-box", str(A) << " contains " << str(B));
        c.count(contained(a, b) ? "boxes-in" : "boxes-out");

        // the same box, written on other turns
        {
            double k360 = 360 * (double(r.below(3)) - 1);
            BoundingBox T(a.n, a.w + k360, a.s, a.e() + k360);
            VF_CHECK(A == T, "box-equal", str(A) << " is not " << str(T));
            if (a.width == 360) {
                auto P = BoundingBox::make_from_area(a.n, a.w, a.s, a.w + 360);
                VF_CHECK(*P == A, "box-equal", str(A) << " is not " << str(*P));
            }
            bool same = a.n == b.n && a.s == b.s && a.width == b.width && turn(a.w) == turn(b.w);
            VF_EQ(A == B, same, "box-equal", str(A) << " == " << str(B));
            auto M = BoundingBox::make_from_area(a.n, a.w, a.s, a.e());
            VF_CHECK(*M == A && M->north() == a.n && M->south() == a.s && turn(M->west()) == turn(a.w) && M->east() - M->west() == a.width && -180 <= M->west() && M->west() < 180, "make-from-area",
                     "make_from_area of " << str(A) << " is " << str(*M));
            c.eval(4);
        }

        // boxes with edges that are not exact, on other turns
        {
            double w = r.real(-180, 180), width = r.real(1e-3, 359.9), w2 = r.chance(.4) ? w : w + r.unit() * width;
            double e = w + width, e2 = r.chance(.4) ? e : w2 + r.unit() * (e - w2);
            double k = 360 * (double(r.below(5)) - 2);
            if (w2 < e2) {
                BoundingBox O(a.n, w, a.s, e), I(a.n, w2 + k, a.s, e2 + k);
                VF_CHECK(O.contains(I), "box-contains-box", str(O) << " does not contain " << str(I));
                if (w2 > w + 1e-6) VF_CHECK(!I.contains(O), "box-contains-box", str(I) << " contains " << str(O));
                c.count("inexact-boxes");
                c.eval(2);
            }
        }

        // intersection
        {
            bool latMeet = std::max(a.s, b.s) <= std::min(a.n, b.n);
            // pieces, as intervals from a.w
            std::vector<std::pair<double, double>> pieces;
            double start = turn(b.w - a.w);
            if (a.width == 360 || b.width == 360) {
                pieces.push_back({0, a.width == 360 ? b.width : a.width});
            }
            else {
                if (start <= a.width) pieces.push_back({start, std::min(a.width, start + b.width)});
                if (start + b.width >= 360) pieces.push_back({0, std::min(a.width, start + b.width - 360)});
                if (pieces.size() == 2 && pieces[0] == pieces[1]) pieces.pop_back();
            }
            BoundingBox X(B);
            bool got = A.intersects(X);
            c.trace() << "intersection " << got << " " << str(X) << "\n";
            VF_EQ(got, latMeet && !pieces.empty(), "box-intersects", str(A) << " intersects " << str(B));
            if (got) {
                Box x{X.north(), X.west(), X.south(), X.east() - X.west()};
                VF_CHECK(contained(a, x) && contained(b, x), "intersection-inside", "the intersection of " << str(A) << " and " << str(B) << " is " << str(X));
                VF_CHECK(x.n == std::min(a.n, b.n) && x.s == std::max(a.s, b.s), "intersection-whole", "the intersection of " << str(A) << " and " << str(B) << " is " << str(X));
                bool whole = false;
                for (auto& p : pieces) whole |= x.width == p.second - p.first;
                VF_CHECK(whole, "intersection-whole", "the intersection of " << str(A) << " and " << str(B) << " is " << str(X));
                c.count(pieces.size() == 1 ? "intersections" : "double-intersections");
            }
            else c.count("apart");
            c.eval(2);
        }

        // descriptions
        {
            spec::Custom s;
            int how = int(r.below(4));
            if (how == 0) s.set("area", std::vector<double>{a.n, a.w, a.s, a.e()});
            else if (how == 1) {
                std::ostringstream o;
                o.precision(17);
                o << a.n << "/" << a.w << "/" << a.s << "/" << a.e();
                s.set("area", o.str());
            }
            else if (how == 2) s.set("north", a.n), s.set("west", a.w), s.set("south", a.s), s.set("east", a.e());
            else A.fill_spec(s);
            BoundingBox D(s);
            VF_CHECK(D == A, "box-spec", str(A) << " described in way " << how << " is " << str(D));
            std::unique_ptr<const geo::Area> f;
            if (r.chance(.2) && (how == 0 || how == 3)) {
                s.set("type", "bounding_box");
                f.reset(geo::AreaFactory::build(s));
                VF_CHECK(f && f->type() == "bounding_box", "box-spec", "area factory builds " << (f ? f->type() : "nothing"));
                double lon = r.real(-360, 360), lat = r.real(-90, 90);
                VF_EQ(f->contains(PointLonLat{lon, lat}), A.contains(PointLonLat{lon, lat}), "box-spec", str(A) << " contains " << lon << " " << lat);
            }
            c.eval();
            c.count("described");
        }

        // with only some of the edges
        if (r.chance(.1)) {
            spec::Custom s;
            bool n = r.chance(.5), w = r.chance(.5), so = r.chance(.5), e = r.chance(.5);
            if (n) s.set("north", 60.);
            if (so) s.set("south", -30.);
            if (w) s.set("west", -20.);
            if (e) s.set("east", 50.);
            BoundingBox D(s);
            BoundingBox want(n ? 60. : 90., w ? -20. : e ? -310. : 0., so ? -30. : -90., e ? 50. : w ? 340. : 360.);
            VF_CHECK(D == want, "box-spec-partial", "north " << n << " west " << w << " south " << so << " east " << e << " is " << str(D) << ", not " << str(want));
            c.eval();
        }

        // cartesian
        {
            double x0 = a.w, x1 = a.e(), y0 = a.s, y1 = a.n;
            geo::area::BoundingBoxXY G(x0, y0, x1, y1), H(b.w, b.s, b.e(), b.n);
            for (int i = 0; i < 3; ++i) {
                double x = r.chance(.3) ? x0 : r.chance(.3) ? x1 : x0 + double(r.below(4000)) / 8 - 60, y = r.chance(.3) ? y0 : r.chance(.3) ? y1 : (double(r.below(1600)) - 800) / 8;
                VF_EQ(G.contains(geo::Point{PointXY{x, y}}), x0 <= x && x <= x1 && y0 <= y && y <= y1, "xy-contains", "[" << x0 << "," << y0 << "," << x1 << "," << y1 << "] contains " << x << " " << y);
            }
            VF_EQ(G.contains(H), x0 <= b.w && b.e() <= x1 && y0 <= b.s && b.n <= y1, "xy-contains-box", "[" << x0 << "," << y0 << "," << x1 << "," << y1 << "] contains " << str(B));
            VF_EQ(G.empty(), x0 == x1 || y0 == y1, "xy-empty", "empty");
            spec::Custom s;
            G.fill_spec(s);
            geo::area::BoundingBoxXY D(s);
            VF_CHECK(D.min_x == x0 && D.max_x == x1 && D.min_y == y0 && D.max_y == y1, "xy-spec", "[" << x0 << "," << y0 << "," << x1 << "," << y1 << "] described");
            c.eval(6);
        }
        if (r.chance(.02)) {
            VF_CHECK(refuses([&] { BoundingBox x(a.s - 1, 0, a.n, 10); }), "box-refuses", "a box with the north below the south is accepted");
            spec::Custom s;
            s.set("area", std::vector<double>{1, 2, 3});
            VF_CHECK(refuses([&] { BoundingBox x(s); }), "box-refuses", "an area of three numbers is accepted");
            c.eval(2);
        }
    }
}

namespace {

using Poly = std::vector<std::pair<double, double>>;

/// star-shaped around a centre, counter-clockwise
Poly star(vf::Rng& r, double cx, double cy, double size) {
    size_t n = 3 + r.below(12);
    std::vector<double> t;
    double at = r.real(0, 6.28);
    for (size_t i = 0; i < n; ++i) t.push_back(r.real(.5, 1.5));
    double sum = 0;
    for (auto d : t) sum += d;
    Poly p;
    for (size_t i = 0; i < n; ++i) {
        double d = r.real(.2, 1) * size;
        p.push_back({cx + d * std::cos(at), cy + d * std::sin(at)});
        at += t[i] / sum * 2 * M_PI;
    }
    return p;
}

Poly convex(vf::Rng& r, double cx, double cy, double size) {
    size_t n = 3 + r.below(8);
    double at = r.real(0, 6.28), a = r.real(.3, 1) * size, b = r.real(.3, 1) * size, tilt = r.real(0, 3.14);
    Poly p;
    for (size_t i = 0; i < n; ++i) {
        double t = at + 2 * M_PI * (double(i) + r.real(-.3, .3)) / double(n), x = a * std::cos(t), y = b * std::sin(t);
        p.push_back({cx + x * std::cos(tilt) - y * std::sin(tilt), cy + x * std::sin(tilt) + y * std::cos(tilt)});
    }
    return p;
}

/// on a lattice, so that vertices and points share latitudes; a staircase, a comb, a spiral or a diamond
Poly lattice(vf::Rng& r, double cx, double cy) {
    Poly p;
    int kind = int(r.below(5));
    double k = double(1 + r.below(4));
    if (kind == 0) p = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    else if (kind == 1) p = {{0, 0}, {4, 0}, {4, 4}, {3, 4}, {3, 1}, {2, 1}, {2, 4}, {1, 4}, {1, 1}, {0, 1}};
    else if (kind == 2) p = {{0, 0}, {6, 0}, {6, 6}, {1, 6}, {1, 3}, {4, 3}, {4, 4}, {2, 4}, {2, 5}, {5, 5}, {5, 1}, {0, 1}};
    else if (kind == 3) p = {{0, 0}, {2, 1}, {4, 0}, {3, 2}, {4, 4}, {2, 3}, {0, 4}, {1, 2}};
    else p = {{0, 0}, {1, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 2}, {3, 3}, {0, 3}};
    for (auto& q : p) q = {cx + k * q.first, cy + k * q.second};
    std::rotate(p.begin(), p.begin() + long(r.below(p.size())), p.end());
    return p;
}

ld cross(const std::pair<double, double>& a, const std::pair<double, double>& b, ld x, ld y) { return (ld(b.first) - a.first) * (y - a.second) - (x - a.first) * (ld(b.second) - a.second); }

/// 1 inside, 0 outside, 2 on the edge, -1 too close to tell
int where(const Poly& p, double x, double y) {
    ld turns = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        auto &a = p[i], &b = p[(i + 1) % p.size()];
        ld k    = cross(a, b, x, y);
        ld dx = ld(b.first) - a.first, dy = ld(b.second) - a.second, len = std::hypot(dx, dy);
        if (len == 0) continue;
        ld along = ((ld(x) - a.first) * dx + (ld(y) - a.second) * dy) / len;
        if (k == 0 && std::min(a.first, b.first) <= x && x <= std::max(a.first, b.first) && std::min(a.second, b.second) <= y && y <= std::max(a.second, b.second)) return 2;
        if (std::abs(k) / std::min(len, 1.L) < 1e-6L && -1e-6L < along && along < len + 1e-6L) return -1;
        turns += std::atan2(k, (a.first - ld(x)) * (b.first - ld(x)) + (a.second - ld(y)) * (b.second - ld(y)));
    }
    return std::abs(turns) > 3 ? 1 : 0;
}

ld areaOf(const Poly& p) {
    ld s = 0;
    for (size_t i = 0; i < p.size(); ++i) s += cross(p[0], p[i], p[(i + 1) % p.size()].first, p[(i + 1) % p.size()].second);
    return s / 2;
}

/// clip convex by convex, by half-planes, in long double
std::vector<std::pair<ld, ld>> clip(const Poly& s, const Poly& by) {
    std::vector<std::pair<ld, ld>> p(s.begin(), s.end());
    for (size_t i = 0; i < by.size(); ++i) {
        auto &a = by[i], &b = by[(i + 1) % by.size()];
        std::vector<std::pair<ld, ld>> q;
        for (size_t j = 0; j < p.size(); ++j) {
            auto &u = p[j], &v = p[(j + 1) % p.size()];
            ld ku = cross(a, b, u.first, u.second), kv = cross(a, b, v.first, v.second);
            if (ku >= 0) q.push_back(u);
            if ((ku > 0 && kv < 0) || (ku < 0 && kv > 0)) {
                ld t = ku / (ku - kv);
                q.push_back({u.first + t * (v.first - u.first), u.second + t * (v.second - u.second)});
            }
        }
        p = q;
    }
    return p;
}

std::string str(const Poly& p) {
    std::string s;
    for (auto& q : p) s += "(" + vg::repr(q.first) + ", " + vg::repr(q.second) + ") ";
    return s;
}

geo::polygon::Polygon lonlat(const Poly& p) {
    geo::polygon::Polygon q;
    for (auto& v : p) q.push_back(PointLonLat{v.first, v.second});
    return q;
}
geo::polygon::PolygonXY xy(const Poly& p) {
    geo::polygon::PolygonXY q;
    for (auto& v : p) q.push_back(PointXY{v.first, v.second});
    return q;
}

}  // namespace

VF_WORKLOAD(polygons, 5000, 150000) {
    auto& r   = c.rng;
    double cx = r.chance(.3) ? r.pick(std::vector<double>{0, 180, 360, -180}) : double(int(r.below(540)) - 270), cy = double(int(r.below(90)) - 45);
    bool grid = r.chance(.5);
    Poly p    = grid ? lattice(r, cx, cy) : r.chance(.5) ? star(r, cx, cy, r.real(1, 40)) : convex(r, cx, cy, r.real(1, 40));
    bool wide = !grid && r.chance(.1);
    if (wide)
        for (auto& q : p) q.first = cx + (q.first - cx) * 8;  // wider than a turn: several copies of a point may be inside
    if (r.chance(.5)) std::reverse(p.begin(), p.end());
    c.distinct(str(p));
    c.trace() << str(p) << "\n";
    auto P = lonlat(p);
    auto X = xy(p);
    double minLon = 1e9, maxLon = -1e9;
    for (auto& q : p) minLon = std::min(minLon, q.first), maxLon = std::max(maxLon, q.first);

    for (int i = 0; i < 12; ++i) {
        double x = grid ? cx + double(int(r.below(40)) - 12) * (r.chance(.5) ? .5 : 1) : r.chance(.2) ? r.pick(p).first : r.real(minLon - 5, maxLon + 5);
        double y = grid ? cy + double(int(r.below(40)) - 12) * (r.chance(.5) ? .5 : 1) : r.chance(.3) ? r.pick(p).second : cy + r.real(-45, 45);
        if (y < -90 || y > 90) continue;
        // on any turn
        int want = 0;
        {
            double q = x;
            while (q >= minLon) q -= 360;
            for (; q <= maxLon + 1; q += 360) {
                int w = where(p, q, y);
                if (w == -1) want = -1;
                else if (w == 2 && !grid) want = -1;  // rounded on the other turns
                else if (want != -1 && w) want = 1;
            }
        }
        double turned = x + 360 * (double(r.below(3)) - 1);
        if (want >= 0) {
            VF_EQ(P.contains(PointLonLat{turned, y}), want == 1, "polygon-contains", "polygon " << str(p) << " contains " << vg::repr(turned) << ", " << vg::repr(y));
            c.eval();
            c.count(want ? "polygon-in" : "polygon-out");
        }
        int flat = where(p, x, y);
        if (flat >= 0) {
            VF_EQ(X.contains(PointXY{x, y}), flat != 0, "polygonxy-contains", "cartesian polygon " << str(p) << " contains " << vg::repr(x) << ", " << vg::repr(y));
            c.eval();
            if (flat == 2) c.count("on-edge");
        }
    }

    // several rings: in when in an odd number of them
    if (r.chance(.3)) {
        Poly hole = r.chance(.5) ? star(r, cx, cy, r.real(1, 10)) : lattice(r, cx, cy);
        geo::area::Polygon A(std::vector<geo::polygon::Polygon>{P, lonlat(hole)});
        for (int i = 0; i < 4; ++i) {
            PointLonLat q{r.real(minLon - 5, maxLon + 5), cy + r.real(-20, 20)};
            bool want = P.contains(q) != lonlat(hole).contains(q);
            VF_EQ(A.contains(geo::Point{q}), want, "rings", "rings " << str(p) << " and " << str(hole) << " contain " << str(q));
            c.eval();
        }
        c.count("rings");
    }

    // area, equality, simplification
    ld want = std::abs(areaOf(p));
    VF_CHECK(std::abs(ld(P.area()) - want) <= 1e-9L * (1 + want), "polygon-area", "area of " << str(p) << " is " << vg::repr(P.area()) << ", not " << double(want));
    auto turnedPoly = p;
    std::rotate(turnedPoly.begin(), turnedPoly.begin() + long(r.below(p.size())), turnedPoly.end());
    VF_CHECK(P == lonlat(turnedPoly) && X == xy(turnedPoly), "polygon-equal", "polygon " << str(p) << " is not " << str(turnedPoly));
    auto other = p;
    other[r.below(p.size())].second += .25;
    VF_CHECK(P != lonlat(other) && X != xy(other), "polygon-equal", "polygon " << str(p) << " is " << str(other));
    {
        Poly more;
        for (size_t i = 0; i < p.size(); ++i) {
            auto &a = p[i], &b = p[(i + 1) % p.size()];
            for (size_t k = r.chance(.3) ? 1 + r.below(2) : 0, j = 0; j <= k; ++j) more.push_back(a);
            if (grid && r.chance(.3)) more.push_back({(a.first + b.first) / 2, (a.second + b.second) / 2});
        }
        auto S = lonlat(more);
        S.simplify();
        auto T = xy(more);
        T.simplify();
        VF_CHECK(S == P, "polygon-simplify", "polygon " << str(more) << " simplified is " << [&] { std::ostringstream o; o << S; return o.str(); }());
        VF_CHECK(T == X, "polygon-simplify", "cartesian polygon " << str(more) << " simplified is " << [&] { std::ostringstream o; o << T; return o.str(); }());
    }
    c.eval(4);

    // clipping of convex ones
    {
        double x0 = double(int(r.below(200)) - 100), y0 = double(int(r.below(40)) - 20);
        Poly s = convex(r, x0, y0, r.real(5, 40)), by = convex(r, x0 + r.real(-40, 40), y0 + r.real(-30, 30), r.real(5, 40));
        auto w = clip(s, by);
        ld area = 0;
        for (size_t i = 0; i < w.size(); ++i) {
            auto &a = w[i], &b = w[(i + 1) % w.size()];
            area += ((a.first - w[0].first) * (b.second - w[0].second) - (b.first - w[0].first) * (a.second - w[0].second)) / 2;
        }
        auto C = lonlat(s);
        C.clip(lonlat(by));
        c.trace() << "clip " << str(s) << " by " << str(by) << "\n";
        VF_CHECK(std::abs(ld(C.area()) - area) <= 1e-6L + 1e-9L * area, "polygon-clip", str(s) << " clipped by " << str(by) << " has area " << vg::repr(C.area()) << ", not " << vg::repr(double(area)));
        for (auto& v : C) {
            int a = where(s, v.lon(), v.lat()), b = where(by, v.lon(), v.lat());
            VF_CHECK(a && b, "polygon-clip", str(s) << " clipped by " << str(by) << " has a corner at " << str(v));
        }
        if (area > 1e-3) {
            c.count("clipped");
            auto m  = C.centroid();
            VF_CHECK(where(s, m.lon(), m.lat()) && where(by, m.lon(), m.lat()), "polygon-centroid", "the centroid of " << str(s) << " clipped by " << str(by) << " is " << str(m));
            ld mx = 0, my = 0;
            for (size_t i = 0; i < w.size(); ++i) {
                auto &a = w[i], &b = w[(i + 1) % w.size()];
                ld k = a.first * b.second - b.first * a.second;
                mx += k * (a.first + b.first), my += k * (a.second + b.second);
            }
            mx /= 6 * area, my /= 6 * area;
            ld slack = 1e-6L * (1 + 1 / area);
            VF_CHECK(std::abs(mx - m.lon()) < slack && std::abs(my - m.lat()) < slack, "polygon-centroid", "the centroid is " << str(m) << ", not " << double(mx) << ", " << double(my));
        }
        c.eval(2);
    }
}

VF_WORKLOAD(projected, 1000, 20000) {
    // the box around a rotated box, and around a rectangle projected, contains all its points and is not larger than needed
    auto& r = c.rng;
    // (larger boxes may have several extrema along an edge, of which only one is looked for: see DESIGN.md)
    double s = r.real(-35, 30), n = r.real(s + .5, 35), width = r.real(.5, 60), w = r.real(-40, 40 - width), e = w + width;
    double angle = r.chance(.5) ? 0 : r.real(-180, 180);
    geo::projection::Rotation rot(PointLonLat{r.real(-180, 180), r.chance(.1) ? 0 : r.real(-89, 89)}, angle);
    c.trace() << "box " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << "\n";
    auto B = BoundingBox::make_from_projection(PointLonLat{w, s}, PointLonLat{e, n}, rot);
    c.trace() << "around " << str(*B) << "\n";
    // with a pole in it, all longitudes are
    for (double pole : {90., -90.}) {
        auto at = std::get<PointLonLat>(rot.inv(geo::Point{PointLonLat{0, pole}}));
        double x = std::remainder(at.lon() - (w + width / 2), 360.), margin = std::min({width / 2 - std::abs(x), n - at.lat(), at.lat() - s});
        if (margin > .01) {
            VF_CHECK((pole > 0 ? B->north() : B->south()) == pole && B->periodic(), "projected-pole", "the box " << str(*B) << " around the rotated " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << " does not reach the pole at " << pole << ", which is within it, at " << str(at));
            c.count("poles-in");
        }
        else if (margin < -.5) {
            VF_CHECK((pole > 0 ? B->north() < pole : B->south() > pole), "projected-pole", "the box " << str(*B) << " around the rotated " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << " reaches the pole at " << pole << ", which is not within it, at " << str(at));
            c.count("poles-out");
        }
    }
    bool poles = B->north() > 75 || B->south() < -75;
    if (poles) c.count("poles");
    // close to a pole that is not in the box, longitudes turn around within the box
    if (!B->periodic() && (B->north() > 80 || B->south() < -80)) {
        c.count("close to poles");
        return;
    }
    double top = -90, bottom = 90, wide = 0;
    auto middle = std::get<PointLonLat>(rot.fwd(geo::Point{PointLonLat{w + width / 2, (s + n) / 2}}));
    for (int i = 0; i <= 40; ++i)
        for (int j = 0; j <= 40; ++j) {
            if (0 < i && i < 40 && 0 < j && j < 40 && !r.chance(.2)) continue;
            PointLonLat p{w + width * i / 40, s + (n - s) * j / 40};
            auto q = std::get<PointLonLat>(rot.fwd(geo::Point{p}));
            top = std::max(top, q.lat()), bottom = std::min(bottom, q.lat());
            wide = std::max(wide, std::abs(std::remainder(q.lon() - middle.lon(), 360.)));
            bool in = B->contains(q);
            if (!in) {  // within rounding
                for (double d : {-2e-6, 2e-6})
                    in |= B->contains(PointLonLat{q.lon() + d / std::max(.01, std::cos(q.lat() * M_PI / 180)), q.lat()}) || B->contains(PointLonLat{q.lon(), std::max(-90., std::min(90., q.lat() + d))});
            }
            VF_CHECK(in, "projected-contains", "the box " << str(*B) << " around the rotated " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << " does not contain " << str(p) << " rotated to " << str(q));
            c.count("projected-points");
        }
    VF_CHECK(poles || (B->north() < top + 1 && B->south() > bottom - 1 && B->east() - B->west() < 2 * wide + 4), "projected-tight",
             "the box " << str(*B) << " around the rotated " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << " reaches latitudes " << bottom << " to " << top << " and longitudes within " << wide << " of " << middle.lon());
    c.eval(2);
    c.distinct(str(*B));
}
