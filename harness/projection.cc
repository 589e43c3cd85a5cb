// Projections against their definitions, forwards, backwards, composed and built from their descriptions.
#include <cmath>
#include <functional>
#include <memory>

#include "sphere.h"
#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Figure.h"
#include "eckit/geo/Point.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointXY.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/geo/Projection.h"
#include "eckit/geo/figure/Earth.h"
#include "eckit/geo/figure/OblateSpheroid.h"
#include "eckit/geo/figure/Sphere.h"
#include "eckit/geo/projection/AlbersEqualArea.h"
#include "eckit/geo/projection/Composer.h"
#include "eckit/geo/projection/EquidistantCylindrical.h"
#include "eckit/geo/projection/LambertAzimuthalEqualArea.h"
#include "eckit/geo/projection/LambertConformalConic.h"
#include "eckit/geo/projection/LonLatToXYZ.h"
#include "eckit/geo/projection/Mercator.h"
#include "eckit/geo/projection/None.h"
#include "eckit/geo/projection/PolarStereographic.h"
#include "eckit/geo/projection/Reverse.h"
#include "eckit/geo/projection/Rotation.h"
#include "eckit/geo/projection/Stretch.h"
#include "eckit/spec/Custom.h"

using namespace eckit;
using vf::refuses;
using vg::ld;
using vg::LL;
using vg::rad;
using vg::Vec;

namespace {

using XY = std::array<ld, 2>;

std::string str(const LL& p) { return "(" + vg::repr(p.lon) + ", " + vg::repr(p.lat) + ")"; }

std::string str(const geo::Point& p) {
    std::ostringstream os;
    os.precision(17);
    if (auto* a = std::get_if<geo::PointLonLat>(&p)) os << *a;
    if (auto* a = std::get_if<geo::PointXY>(&p)) os << *a;
    if (auto* a = std::get_if<geo::PointXYZ>(&p)) os << *a;
    return os.str();
}

constexpr double EARTH = 6371229;

struct Proj {
    std::string what;
    std::shared_ptr<geo::Projection> p;
    std::function<bool(const LL&)> good;                     // away from where the projection is singular
    std::function<XY(const LL&)> xy;                         // by definition
    std::function<Vec(const LL&)> vec;                       // the direction, for those that give points on the sphere again
    ld scale = 1;                                            // of coordinates
    ld tol   = 1e-10L;
    bool described = true;                                   // can be built from its own description
    std::map<std::string, double> values;                    // of the description
    double pole = 0;                                         // that it takes to a point, and back
};

double lon(vf::Rng& r) { return r.chance(.4) ? r.pick(std::vector<double>{0, 180, -180, 90, -96, 265, 10, 359}) : r.real(-360, 360); }
double lat(vf::Rng& r, double m) { return r.chance(.3) ? double(int(r.real(-m, m) / 5)) * 5 : r.real(-m, m); }

bool near(const LL& p, const LL& q, ld radians) { return vg::angle(vg::dir(p), vg::dir(q)) < radians; }

ld dlon(double a, double b) { return std::remainder(ld(a) - ld(b), 360.L) * M_PIl / 180; }

struct Size {
    double a, b;
    geo::Figure* figure() const { return a == b ? static_cast<geo::Figure*>(new geo::figure::Sphere(a)) : new geo::figure::OblateSpheroid(a, b); }
};

Size sphere(vf::Rng& r) {
    double R = r.chance(.4) ? EARTH : r.chance(.5) ? 1. : std::exp(r.real(-3, 18));
    return {R, R};
}

Proj make(vf::Rng& r) {
    Proj P;
    P.good = [](const LL&) { return true; };
    switch (r.below(9)) {
        case 0: {
            double ts = r.chance(.3) ? 0 : lat(r, 80), l0 = r.chance(.5) ? 0 : lat(r, 60);
            P.what = "eqc " + vg::repr(ts) + " " + vg::repr(l0);
            P.p    = std::make_shared<geo::projection::EquidistantCylindrical>(ts, l0);
            P.xy   = [=](const LL& p) -> XY { return {p.lon * std::cos(rad(ts)), ld(p.lat) - l0}; };
            P.scale     = 360;
            P.described = std::abs(ts) > 1e-8 || std::abs(l0) > 1e-8;  // nothing is said about the default
            break;
        }
        case 1: {
            Size s   = sphere(r);
            bool ell = r.chance(.5);
            if (ell) s = r.chance(.5) ? Size{6378137., 6356752.314140} : Size{s.a, s.a * r.real(.9, .999)};
            double l0 = lon(r), ts = lat(r, 70);
            LL first{lon(r), lat(r, 80)};
            if (r.chance(.4)) first = {0, 0};
            P.described = first.lon == 0 && first.lat == 0;  // it is not part of the description, as tests expect
            P.what = "mercator " + vg::repr(l0) + " " + vg::repr(ts) + " first " + str(first) + " on " + vg::repr(s.a) + ", " + vg::repr(s.b);
            P.p    = std::make_shared<geo::projection::Mercator>(geo::PointLonLat(l0, ts), geo::PointLonLat(first.lon, first.lat), s.figure());
            if (!ell && r.chance(.2)) {
                spec::Custom spec;
                spec.set("type", "mercator");
                spec.set("lon_0", l0), spec.set("lat_ts", ts), spec.set("first_lon", first.lon), spec.set("first_lat", first.lat), spec.set("r", s.a);
                P.p.reset(const_cast<geo::Projection*>(geo::ProjectionFactory::build(spec)));
            }
            ld e   = std::sqrt(1 - ld(s.b) * s.b / (ld(s.a) * s.a));
            ld m   = s.a * std::cos(rad(ts)) / std::sqrt(1 - e * e * std::sin(rad(ts)) * std::sin(rad(ts)));
            auto y = [=](double lat) { return m * (std::asinh(std::tan(rad(lat))) - e * std::atanh(e * std::sin(rad(lat)))); };
            P.xy   = [=](const LL& p) -> XY { return {m * (ld(p.lon) - first.lon) * M_PIl / 180, y(p.lat) - y(first.lat)}; };
            P.good = [](const LL& p) { return std::abs(p.lat) < 89; };
            P.scale     = s.a * 20;
            P.tol       = 4e-10L;
            break;
        }
        case 2: {
            Size s    = sphere(r);
            double l1 = lat(r, 85), l2 = r.chance(.3) ? l1 : lat(r, 85);
            while (std::abs(l1 + l2) < 3 || std::abs(l1) < 1e-9 || std::abs(l2) < 1e-9) {
                l1 = r.real(5, 80);
                l2 = r.chance(.3) ? l1 : r.real(5, 80);
                if (r.chance(.4)) l1 = -l1, l2 = -l2;
            }
            if (std::abs(l1 - l2) > 1e-13 && std::abs(l1 - l2) < 1e-3) l2 = l1;
            double l0 = lon(r), o = lat(r, 80);
            P.what = "lcc " + vg::repr(l0) + " " + vg::repr(o) + " " + vg::repr(l1) + " " + vg::repr(l2) + " on " + vg::repr(s.a);
            P.p    = std::make_shared<geo::projection::LambertConformalConic>(l1, l0, o, l2, s.figure());
            auto t = [](double lat) { return std::tan(M_PIl / 4 + rad(lat) / 2); };
            ld n   = l1 == l2 ? std::sin(rad(l1)) : std::log(std::cos(rad(l1)) / std::cos(rad(l2))) / std::log(t(l2) / t(l1));
            ld F   = s.a * std::cos(rad(l1)) * std::pow(t(l1), n) / n;
            ld rho0 = F * std::pow(t(o), -n);
            P.pole  = n > 0 ? 90 : -90;
            P.xy    = [=](const LL& p) -> XY {
                ld rho = F * std::pow(t(p.lat), -n), th = n * dlon(p.lon, l0);
                return {rho * std::sin(th), rho0 - rho * std::cos(th)};
            };
            // the other pole is infinitely far away, and the opposite meridian is where it is cut
            P.good  = [=](const LL& p) { return p.lat * (n > 0 ? 1 : -1) > -60 && std::abs(p.lat) < 89.999 && std::abs(std::abs(dlon(p.lon, l0)) - M_PIl) > 1e-6; };
            P.scale = std::abs(rho0) + std::abs(F) * std::max(std::pow(t(-60), -std::abs(n)), 1.L) + s.a;
            P.tol   = 1e-9L;
            break;
        }
        case 3: {
            Size s    = sphere(r);
            double l1 = r.real(-80, 80), l2 = r.chance(.3) ? l1 : r.real(-80, 80);
            while (std::abs(std::sin(rad(l1)) + std::sin(rad(l2))) < .1) l1 = r.real(-80, 80);
            double l0 = lon(r), o = lat(r, 80);
            P.what = "aea " + vg::repr(l0) + " " + vg::repr(o) + " " + vg::repr(l1) + " " + vg::repr(l2) + " on " + vg::repr(s.a);
            P.p    = std::make_shared<geo::projection::AlbersEqualArea>(l0, o, l1, l2, s.figure());
            ld n   = (std::sin(rad(l1)) + std::sin(rad(l2))) / 2, C = std::cos(rad(l1)) * std::cos(rad(l1)) + 2 * n * std::sin(rad(l1));
            auto rho = [=](double lat) { return s.a / n * std::sqrt(std::max(0.L, C - 2 * n * std::sin(rad(lat)))); };
            XY off{0, 0};
            if (r.chance(.3)) {
                off = {s.a * std::round(r.real(-9, 9)), s.a * std::round(r.real(-9, 9))};
                P.p->falseXY({double(off[0]), double(off[1])});
            }
            P.xy = [=](const LL& p) -> XY {
                ld th = n * dlon(p.lon, l0);
                return {rho(p.lat) * std::sin(th) + off[0], rho(o) - rho(p.lat) * std::cos(th) + off[1]};
            };
            P.good  = [=](const LL& p) { return std::abs(p.lat) < 90 - 1e-8 && std::abs(std::abs(dlon(p.lon, l0)) - M_PIl) > 1e-6; };
            P.scale = s.a * (20 + std::abs(1 / n));
            P.tol   = 1e-9L;
            break;
        }
        case 4: {
            Size s = sphere(r);
            LL c   = vg::point(r);
            c.lat  = r.chance(.3) ? c.lat : lat(r, 80);
            LL f   = vg::point(r);
            P.what = "laea " + str(c) + " on " + vg::repr(s.a);
            P.p    = std::make_shared<geo::projection::LambertAzimuthalEqualArea>(geo::PointLonLat(c.lon, c.lat), geo::PointLonLat(f.lon, f.lat), s.figure());
            Vec z = vg::dir(c), e = vg::east(c), n = vg::north(c);
            P.xy  = [=](const LL& p) -> XY {
                Vec v = vg::dir(p);
                ld k  = std::sqrt(2 / (1 + vg::dot(v, z)));
                return {s.a * k * vg::dot(v, e), s.a * k * vg::dot(v, n)};
            };
            P.good      = [=](const LL& p) { return !near(p, {c.lon + 180, -c.lat}, .05); };
            P.scale     = 2 * s.a;
            P.tol       = 4e-8L;
            break;
        }
        case 5: {
            Size s = {EARTH, EARTH};
            LL c{lon(r), r.chance(.5) ? 90. : r.chance(.5) ? -90. : (r.chance(.5) ? 1 : -1) * r.real(30, 89)};
            LL f{lon(r), c.lat > 0 ? r.real(-40, 90) : r.real(-90, 40)};
            P.what = "polar stereographic " + str(c) + " first " + str(f);
            if (r.chance(.3)) {
                spec::Custom spec;
                spec.set("centre", std::vector<double>{c.lon, c.lat});
                spec.set("first", std::vector<double>{f.lon, f.lat});
                P.p = std::make_shared<geo::projection::PolarStereographic>(spec);
            }
            else P.p = std::make_shared<geo::projection::PolarStereographic>(geo::PointLonLat(c.lon, c.lat), geo::PointLonLat(f.lon, f.lat), s.figure());
            P.values = {{"lon_0", c.lon}, {"lat_0", c.lat}, {"lon_first", f.lon}, {"lat_first", f.lat}};
            int S  = c.lat < 0 ? -1 : 1;
            ld k   = std::abs(c.lat) == 90 ? 2 : std::cos(rad(c.lat)) / std::tan(M_PIl / 4 - S * rad(c.lat) / 2);  // true at that latitude
            auto at = [=](const LL& p) -> XY {
                ld h = s.a * k * std::tan(M_PIl / 4 - S * rad(p.lat) / 2);
                return {h * std::sin(dlon(p.lon, c.lon)), -S * h * std::cos(dlon(p.lon, c.lon))};
            };
            P.xy        = [=](const LL& p) -> XY { return {at(p)[0] - at(f)[0], at(p)[1] - at(f)[1]}; };
            P.good      = [=](const LL& p) { return p.lat * S > -70; };
            P.scale     = 30 * s.a;
            P.tol       = 1e-9L;
            P.described = false;
            break;
        }
        case 6: {
            LL sp    = r.chance(.3) ? LL{lon(r), -90} : r.chance(.1) ? LL{lon(r), 90} : LL{lon(r), r.real(-90, 90)};
            double a = r.chance(.5) ? 0 : lon(r);
            P.what   = "rotation " + str(sp) + " by " + vg::repr(a);
            P.p      = std::make_shared<geo::projection::Rotation>(geo::PointLonLat(sp.lon, sp.lat), a);
            // first by the angle around the axis, then the axis is tilted along the meridian of Greenwich, then turned
            P.vec = [=](const LL& p) -> Vec {
                Vec v = vg::dir({p.lon, p.lat});
                auto turn = [](Vec v, double deg) -> Vec { return {v[0] * vg::cosd(deg) - v[1] * vg::sind(deg), v[0] * vg::sind(deg) + v[1] * vg::cosd(deg), v[2]}; };
                ld ct = vg::cosd(ld(sp.lat) + 90), st = -vg::sind(ld(sp.lat) + 90);
                v     = turn(v, -a);
                v     = {ct * v[0] + st * v[2], v[1], -st * v[0] + ct * v[2]};
                return turn(v, sp.lon);
            };
            P.tol       = 1e-7L;
            break;
        }
        case 7: {
            double f = r.chance(.3) ? 1 : std::exp(r.real(-2, 2));
            P.what   = "stretch " + vg::repr(f);
            P.p      = std::make_shared<geo::projection::Stretch>(f);
            P.vec    = [=](const LL& p) -> Vec {
                ld t   = std::tan((M_PIl / 2 - rad(p.lat)) / 2) / f;
                ld lat = M_PIl / 2 - 2 * std::atan(t);
                return {std::cos(lat) * vg::cosd(p.lon), std::cos(lat) * vg::sind(p.lon), std::sin(lat)};
            };
            P.tol = 3e-7L;
            break;
        }
        default: {
            Size s = sphere(r);
            P.what = "ll-to-xyz " + vg::repr(s.a);
            P.p    = std::make_shared<geo::projection::LonLatToXYZ>(s.figure());
            P.vec  = [](const LL& p) { return vg::dir(p); };
            P.scale = s.a;
            P.tol   = 1e-7L;
            break;
        }
    }
    return P;
}

Vec toVec(const geo::Point& p) {
    if (auto* q = std::get_if<geo::PointLonLat>(&p)) return vg::dir({q->lon(), q->lat()});
    auto& x = std::get<geo::PointXYZ>(p);
    return {x[0], x[1], x[2]};
}

}  // namespace

VF_WORKLOAD(define, 60000, 1000000) {
    auto& r = c.rng;
    Proj P  = make(r);
    c.trace() << P.what << "\n";
    c.distinct(vf::hashStr(P.what));
    for (auto& [name, value] : P.values) VF_EQ(P.p->spec().get_double(name), value, "description", P.what + ": " + name);
    std::unique_ptr<const geo::Projection> again;
    if (P.described && r.chance(.3)) {
        std::string spec = P.p->spec_str();
        c.trace() << "described as " << spec << "\n";
        bool none = spec == "{}";
        if (!none) {
            again.reset(r.chance(.5) ? geo::ProjectionFactory::make_from_string(spec) : geo::ProjectionFactory::build(P.p->spec()));
            VF_CHECK(*again == *P.p && again->spec_str() == spec, "description", P.what << " is described as " << spec << ", from which comes " << again->spec_str());
            VF_EQ(again->type(), P.p->type(), "description", P.what);
            c.count("described");
        }
    }
    if (P.pole != 0 && r.chance(.3)) {
        double at = r.real(-180, 180);
        auto q    = P.p->fwd(geo::Point{geo::PointLonLat(at, P.pole)});
        auto back = std::get<geo::PointLonLat>(P.p->inv(q));
        VF_CHECK(std::abs(back.lat() - P.pole) < 1e-5, "pole", P.what << ": the pole at " << P.pole << " is " << str(q) << ", from which comes " << str(geo::Point(back)));
        c.count("poles");
    }
    for (int i = 0; i < 8; ++i) {
        LL p = vg::point(r);
        for (int k = 0; !P.good(p) && k < 100; ++k) p = r.chance(.5) ? vg::point(r) : LL{r.real(-360, 360), r.real(-90, 90)};
        if (!P.good(p)) continue;
        c.trace() << str(p) << "\n";
        c.eval();
        c.count("points");
        geo::Point point = geo::PointLonLat(p.lon, p.lat);
        auto q           = P.p->fwd(point);
        if (P.xy) {
            XY want = P.xy(p);
            auto& g = std::get<geo::PointXY>(q);
            ld off  = std::hypot(g.X() - want[0], g.Y() - want[1]);
            VF_CHECK(off <= P.tol * P.scale, "forward", P.what << " of " << str(p) << " is " << str(q) << " instead of (" << vg::repr(double(want[0])) << ", " << vg::repr(double(want[1])) << ")");
        }
        else {
            Vec want = vg::mul(P.vec(p), P.scale);
            VF_CHECK(vg::dist(toVec(q), want) <= P.tol * P.scale, "forward", P.what << " of " << str(p) << " is " << str(q) << " instead of " << str(vg::lonlat(want)));
        }
        auto back = P.p->inv(q);
        auto& b   = std::get<geo::PointLonLat>(back);
        VF_CHECK(vg::dist(vg::dir({b.lon(), b.lat()}), vg::dir(p)) <= P.tol * 40 + (std::abs(p.lat) > 89.9 ? 3e-7L : 0), "inverse", P.what << " of " << str(p) << " is " << str(q) << ", which comes from " << str(back));
        if (again) {
            auto q2 = again->fwd(point);
            if (P.xy) {
                auto &x = std::get<geo::PointXY>(q), &y = std::get<geo::PointXY>(q2);
                VF_CHECK(std::hypot(x.X() - y.X(), x.Y() - y.Y()) <= 1e-9L * P.scale, "description", P.what << " of " << str(p) << " is " << str(q) << ", when built from its description " << str(q2));
            }
            else {
                VF_CHECK(vg::dist(toVec(q), toVec(q2)) <= 1e-9L * P.scale + P.tol, "description", P.what << " of " << str(p) << " is " << str(q) << ", when built from its description " << str(q2));
            }
        }
    }
    c.count(P.p->type());
}

VF_WORKLOAD(compose, 12000, 200000) {
    auto& r = c.rng;
    // rotations, stretching and such one after the other, at the end perhaps onto a plane
    std::vector<Proj> parts;
    for (int n = int(r.below(4)); n > 0;) {
        Proj P = make(r);
        if (!P.vec || P.p->type() == "ll-to-xyz") continue;
        parts.push_back(P);
        --n;
    }
    if (parts.empty() || r.chance(.6)) {
        Proj P = make(r);
        while (P.vec && P.p->type() != "ll-to-xyz") P = make(r);
        parts.push_back(P);
    }
    geo::projection::Composer all;
    struct Shared : geo::Projection {
        explicit Shared(std::shared_ptr<geo::Projection> p) : p_(std::move(p)) {}
        geo::Point fwd(const geo::Point& p) const override { return p_->fwd(p); }
        geo::Point inv(const geo::Point& p) const override { return p_->inv(p); }
        const std::string& type() const override { return p_->type(); }
        void fill_spec(spec::Custom&) const override {}
        std::shared_ptr<geo::Projection> p_;
    };
    for (auto& P : parts) {
        c.trace() << P.what << "\n";
        all.emplace_back(new Shared(P.p));
    }
    VF_EQ(all.size(), parts.size(), "compose", "size");
    for (int i = 0; i < 4; ++i) {
        LL p             = vg::point(r);
        geo::Point start = geo::PointLonLat(p.lon, p.lat), q = start;
        std::vector<geo::Point> steps;
        bool ok = true;
        for (auto& P : parts) {
            auto* ll = std::get_if<geo::PointLonLat>(&q);
            ok       = ok && ll && P.good({ll->lon(), ll->lat()}) && std::abs(ll->lat()) < 89;
            if (!ok) break;
            q = P.p->fwd(q);
            steps.push_back(q);
        }
        if (!ok) continue;
        c.eval();
        c.count("composed");
        auto same = [](const geo::Point& a, const geo::Point& b) { return str(a) == str(b); };
        VF_CHECK(same(all.fwd(start), q), "compose", "gives " << str(all.fwd(start)) << " instead of " << str(q));
        auto pts = all.fwd_points(start);
        VF_EQ(pts.size(), steps.size(), "compose", "steps");
        for (size_t k = 0; k < pts.size(); ++k) VF_CHECK(same(pts[k], steps[k]), "compose", "step " << k << " is " << str(pts[k]) << " instead of " << str(steps[k]));
        auto back = std::get<geo::PointLonLat>(all.inv(q));
        VF_CHECK(vg::dist(vg::dir({back.lon(), back.lat()}), vg::dir(p)) <= 3e-4L, "compose", "of " << str(p) << " comes from " << str(geo::Point(back)));
        auto ipts = all.inv_points(q);
        VF_CHECK(ipts.size() == steps.size() && same(ipts.back(), geo::Point(back)), "compose", "inverse steps");
    }
    // the other way round
    double sp = r.real(-80, 80), lo = r.real(-180, 180);
    geo::projection::Rotation rot(geo::PointLonLat(lo, sp));
    geo::projection::Reverse<geo::projection::Rotation> rev(geo::PointLonLat(lo, sp));
    geo::Point p = geo::PointLonLat(r.real(-180, 180), r.real(-89, 89));
    VF_CHECK(str(rev.fwd(p)) == str(static_cast<geo::Projection&>(rot).inv(p)) && str(rev.inv(p)) == str(static_cast<geo::Projection&>(rot).fwd(p)), "reverse", "rotation of " << str(p));
    geo::projection::None none;
    VF_CHECK(str(none.fwd(p)) == str(p) && str(none.inv(p)) == str(p), "none", str(p));
    if (r.chance(.01)) {
        VF_CHECK(refuses([&] { geo::projection::Stretch(0); }) && refuses([&] { geo::projection::LambertConformalConic(lo / 4, 0, 0, -lo / 4); }) &&
                     refuses([&] { geo::projection::Mercator(geo::PointLonLat(0, 0), geo::PointLonLat(0, 90)); }) && refuses([&] { geo::projection::EquidistantCylindrical(90); }),
                 "refused", "impossible projections");
        c.count("refused");
    }
}
