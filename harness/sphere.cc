// Points, angles, circles and areas on spheres and spheroids, against vectors in long double.
#include <array>
#include <cmath>
#include <memory>

#include "sphere.h"
#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Figure.h"
#include "eckit/geo/GreatCircle.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointLonLatR.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/figure/Earth.h"
#include "eckit/geo/figure/OblateSpheroid.h"
#include "eckit/geo/figure/Sphere.h"
#include "eckit/geo/figure/UnitSphere.h"
#include "eckit/geometry/CoordinateHelpers.h"
#include "eckit/geometry/EllipsoidOfRevolution.h"
#include "eckit/geometry/GreatCircle.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"
#include "eckit/geometry/Sphere.h"
#include "eckit/spec/Custom.h"

using namespace eckit;
using vf::refuses;
using vg::LL;
using vg::ld;
using vg::Vec;
namespace g2 = eckit::geometry;

namespace {

std::string str(const LL& p) { return "(" + vg::repr(p.lon) + ", " + vg::repr(p.lat) + ")"; }

/// how far two positions on the unit sphere may be apart when one went through trigonometry in double:
/// the cosine of a latitude near a pole is computed as sqrt(1 - sin^2)
ld loss(const Vec& v) {
    ld c = std::hypot(v[0], v[1]), x = std::abs(v[0]) / std::max(c, 1e-30L);  // likewise the cosine of a longitude next to 90
    return 1e-14L + std::min(3e-16L / std::max(c, 1e-30L), 4e-8L) + std::min(3e-16L / std::max(x, 1e-30L), 4e-8L);
}

ld tolerance(const LL& p) {  // the angle itself is rounded when it is large
    return loss(vg::dir(p)) + 8e-18L * (std::abs(p.lon) + std::abs(p.lat)) + 4e-11L /* poles are snapped to within 1e-9 degrees */;
}

}  // namespace

VF_WORKLOAD(normalise, 8000, 200000) {
    auto& r = c.rng;
    // angles
    for (int i = 0; i < 20; ++i) {
        double min = r.chance(.5) ? r.pick(std::vector<double>{0., -180., -90., -360., 180., 90., 270.}) : r.real(-720, 720);
        double a   = vg::angle(r, min);
        c.trace() << "angle " << vg::repr(a) << " from " << vg::repr(min) << "\n";
        ld slack = 2e-16L * (std::abs(ld(a)) + std::abs(ld(min)) + 720);
        {
            double n = g2::normalise_angle(a, min);
            VF_CHECK(min <= n && n < min + 360., "normalise-range", "normalise_angle(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
            VF_CHECK(std::abs(std::remainder(ld(n) - ld(a), 360.L)) <= slack, "normalise-value", "normalise_angle(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
        }
        {
            double n = geo::PointLonLat::normalise_angle_to_minimum(a, min);
            VF_CHECK(min <= n && n - min < 360., "normalise-range", "normalise_angle_to_minimum(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
            VF_CHECK(std::abs(std::remainder(ld(n) - ld(a), 360.L)) <= slack, "normalise-value", "normalise_angle_to_minimum(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
            n = geo::PointLonLat::normalise_angle_to_maximum(a, min);
            VF_CHECK(-360. < n - min && n <= min, "normalise-range", "normalise_angle_to_maximum(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
            VF_CHECK(std::abs(std::remainder(ld(n) - ld(a), 360.L)) <= slack, "normalise-value", "normalise_angle_to_maximum(" << vg::repr(a) << ", " << vg::repr(min) << ") is " << vg::repr(n));
        }
        {
            double ar = a * M_PI / 180, minr = min * M_PI / 180;
            double n  = geo::PointLonLatR::normalise_angle_to_minimum(ar, minr);
            VF_CHECK(minr <= n && n - minr < 2 * M_PI, "normalise-range", "radians: normalise_angle_to_minimum(" << vg::repr(ar) << ", " << vg::repr(minr) << ") is " << vg::repr(n));
            VF_CHECK(std::abs(std::remainder(ld(n) - ld(ar), 2 * ld(M_PI))) <= slack / 50 + 4e-15, "normalise-value", "radians: " << vg::repr(ar) << " is " << vg::repr(n));
            n = geo::PointLonLatR::normalise_angle_to_maximum(ar, minr);
            VF_CHECK(-2 * M_PI < n - minr && n <= minr, "normalise-range", "radians: normalise_angle_to_maximum(" << vg::repr(ar) << ", " << vg::repr(minr) << ") is " << vg::repr(n));
            VF_CHECK(std::abs(std::remainder(ld(n) - ld(ar), 2 * ld(M_PI))) <= slack / 50 + 4e-15, "normalise-value", "radians: " << vg::repr(ar) << " is " << vg::repr(n));
        }
        c.count("angles");
        c.eval();
    }
    // points
    for (int i = 0; i < 10; ++i) {
        double min = r.pick(std::vector<double>{0., -180., -90., r.real(-360, 360)});
        LL p       = vg::anywhere(r);
        c.trace() << "point " << str(p) << " from " << vg::repr(min) << "\n";
        c.distinct(vf::hashStr(str(p)));
        Vec v = vg::dir(p);
        {
            auto q = g2::canonicaliseOnSphere(g2::Point2(p.lon, p.lat), min);
            VF_CHECK(min <= q[0] && q[0] < min + 360 && -90 <= q[1] && q[1] <= 90, "canonical-range", str(p) << " became (" << vg::repr(q[0]) << ", " << vg::repr(q[1]) << ")");
            VF_CHECK(vg::dist(vg::dir({q[0], q[1]}), v) <= tolerance(p), "canonical-value", str(p) << " became (" << vg::repr(q[0]) << ", " << vg::repr(q[1]) << ")");
        }
        auto q  = geo::PointLonLat::make(p.lon, p.lat, min);
        LL ql   = {q.lon(), q.lat()};
        bool pl = std::abs(q.lat()) == 90;
        VF_CHECK((pl ? q.lon() == 0 : min <= q.lon() && q.lon() - min < 360) && -90 <= q.lat() && q.lat() <= 90, "canonical-range", str(p) << " became " << str(ql) << " from " << vg::repr(min));
        VF_CHECK(vg::dist(vg::dir(ql), v) <= tolerance(p), "canonical-value", str(p) << " became " << str(ql));
        auto qq = geo::PointLonLat::make(q.lon(), q.lat(), min);
        VF_CHECK(qq.lon() == q.lon() && qq.lat() == q.lat(), "canonical-again", str(p) << " became " << str(ql) << ", then (" << vg::repr(qq.lon()) << ", " << vg::repr(qq.lat()) << ")");
        // other names of the same point
        geo::PointLonLat P(p.lon, p.lat);
        double turns = 360. * int(r.below(5)) - 720;
        geo::PointLonLat Q = r.chance(.5) ? geo::PointLonLat(p.lon + turns, p.lat) : geo::PointLonLat(p.lon + 180 + turns, 180 - p.lat);
        if (std::abs(p.lon) < 1e5) {
            VF_CHECK(points_equal(P, Q) && points_equal(Q, P) && points_equal(P, P) && points_equal(P, q), "equal", str(p) << " is different from (" << vg::repr(Q.lon()) << ", " << vg::repr(Q.lat()) << ") or " << str(ql));
            geo::PointLonLat far(q.lon() + 1e-6, q.lat());
            VF_CHECK(std::abs(q.lat()) > 89.9 || (!points_equal(P, far) && !points_equal(far, P)), "different", str(p) << " equals (" << vg::repr(far.lon()) << ", " << vg::repr(far.lat()) << ")");
            auto R1 = geo::PointLonLatR(p.lon * M_PI / 180, p.lat * M_PI / 180);
            auto R2 = geo::PointLonLatR(Q.lon() * M_PI / 180, Q.lat() * M_PI / 180);
            VF_CHECK(points_equal(R1, R2) && points_equal(R2, R1), "equal", "radians: " << str(p) << " is different from (" << vg::repr(Q.lon()) << ", " << vg::repr(Q.lat()) << ")");
        }
        auto a = P.antipode();
        VF_CHECK(vg::dist(vg::dir({a.lon(), a.lat()}), vg::mul(v, -1)) <= tolerance(p) * 2, "antipode", "the antipode of " << str(p) << " is (" << vg::repr(a.lon()) << ", " << vg::repr(a.lat()) << ")");
        bool north = vg::dist(v, {0, 0, 1}) < 1e-12L, south = vg::dist(v, {0, 0, -1}) < 1e-12L;
        bool away  = std::hypot(v[0], v[1]) > 1e-9L;
        if (north || south || away) {
            VF_CHECK(P.north_pole() == north && P.south_pole() == south && P.pole() == (north || south), "pole", str(p) << " is " << (P.pole() ? "a" : "no") << " pole");
        }
        // in radians
        auto pr = geo::PointLonLatR::make_from_lonlat(p.lon, p.lat, min * M_PI / 180);
        LL prl  = {double(pr.lonr() * 180 / ld(M_PIl)), double(pr.latr() * 180 / ld(M_PIl))};
        VF_CHECK(vg::dist(vg::dir(prl), v) <= tolerance(p) * 2 + 2e-10L + 1e-15L * std::abs(p.lon), "canonical-value", str(p) << " in radians became (" << vg::repr(pr.lonr()) << ", " << vg::repr(pr.latr()) << ")");
        auto back = geo::PointLonLat::make_from_lonlatr(pr.lonr(), pr.latr(), min);
        VF_CHECK(vg::dist(vg::dir({back.lon(), back.lat()}), v) <= tolerance(p) * 2 + 3e-10L + 1e-15L * std::abs(p.lon), "canonical-value", str(p) << " through radians became (" << vg::repr(back.lon()) << ", " << vg::repr(back.lat()) << ")");
        c.count("points");
        c.eval();
    }
}

VF_WORKLOAD(cartesian, 10000, 200000) {
    auto& r = c.rng;
    for (int i = 0; i < 10; ++i) {
        LL p     = vg::anywhere(r, r.chance(.3) ? 720 : 360);
        double R = r.chance(.3) ? 1. : r.chance(.5) ? 6371229. : std::exp(r.real(-5, 20));
        double h = r.chance(.7) ? 0. : r.real(-.5, 2) * R;
        double a = R, b = r.chance(.1) ? R : R * r.real(.3, 1.);
        c.trace() << "radius " << vg::repr(R) << ", " << vg::repr(b) << " height " << vg::repr(h) << " point " << str(p) << "\n";
        c.distinct(vf::hashStr(str(p)));
        bool inRange = std::abs(p.lat) <= 90;
        Vec want     = vg::mul(vg::dir(p), ld(R) + h);
        ld tol       = tolerance(p) * (std::abs(R) + std::abs(h));
        {
            g2::Point3 x;
            bool normalise = r.chance(.5);
            if (!normalise && !inRange) {
                VF_CHECK(refuses([&] { g2::Sphere::convertSphericalToCartesian(R, {p.lon, p.lat}, x, h); }), "latitude", "latitude " << p.lat << " was accepted");
                c.count("refused");
            }
            else {
                g2::Sphere::convertSphericalToCartesian(R, {p.lon, p.lat}, x, h, normalise);
                VF_CHECK(vg::dist(Vec{x[0], x[1], x[2]}, want) <= tol, "to-cartesian", str(p) << " is at (" << vg::repr(x[0]) << ", " << vg::repr(x[1]) << ", " << vg::repr(x[2]) << ")");
                if (h == 0) {
                    g2::Point2 q;
                    g2::Sphere::convertCartesianToSpherical(R, x, q);
                    VF_CHECK(vg::dist(vg::dir({q[0], q[1]}), vg::dir(p)) <= tol / R + 4e-8L, "to-spherical", str(p) << " came back as (" << vg::repr(q[0]) << ", " << vg::repr(q[1]) << ")");
                    VF_CHECK(-180 <= q[0] && q[0] <= 180 && -90 <= q[1] && q[1] <= 90, "to-spherical", str(p) << " came back as (" << vg::repr(q[0]) << ", " << vg::repr(q[1]) << ")");
                }
                g2::Point3 y;
                g2::EllipsoidOfRevolution::convertSphericalToCartesian(R, R, {p.lon, p.lat}, y, h, normalise);
                VF_CHECK(vg::dist(Vec{y[0], y[1], y[2]}, want) <= tol, "to-cartesian", str(p) << " on a spheroid is at (" << vg::repr(y[0]) << ", " << vg::repr(y[1]) << ", " << vg::repr(y[2]) << ")");
            }
        }
        if (r.chance(.1)) {  // a pole that rounding put above the surface
            double z = (r.chance(.5) ? 1 : -1) * std::nextafter(R, 2 * R), s = r.chance(.5) ? 0. : R * 1e-12;
            g2::Point2 q;
            g2::Sphere::convertCartesianToSpherical(R, {s, 0., z}, q);
            VF_CHECK(q[1] == (z > 0 ? 90. : -90.), "to-spherical", "latitude of z = " << vg::repr(z) << " on a sphere of " << vg::repr(R) << " is " << vg::repr(q[1]));
            auto g = geo::figure::Sphere::convertCartesianToSpherical(R, {s, 0., z});
            VF_CHECK(std::abs(g.lat() - (z > 0 ? 90. : -90.)) < 1e-6, "to-spherical", "latitude of z = " << vg::repr(z) << " on a geo sphere of " << vg::repr(R) << " is " << vg::repr(g.lat()));
            c.count("above_poles");
        }
        auto x = geo::figure::Sphere::convertSphericalToCartesian(R, {p.lon, p.lat}, h);
        VF_CHECK(vg::dist(Vec{x[0], x[1], x[2]}, want) <= tol, "to-cartesian", str(p) << " is at (" << vg::repr(x[0]) << ", " << vg::repr(x[1]) << ", " << vg::repr(x[2]) << ")");
        if (h == 0) {
            auto q = geo::figure::Sphere::convertCartesianToSpherical(R, x);
            VF_CHECK(vg::dist(vg::dir({q.lon(), q.lat()}), vg::dir(p)) <= tol / R + 4e-8L, "to-spherical", str(p) << " came back as (" << vg::repr(q.lon()) << ", " << vg::repr(q.lat()) << ")");
        }
        // on a spheroid: the normal at the point, times height, above the surface
        Vec n    = vg::dir(p);
        ld N     = ld(a) * a / std::sqrt(ld(a) * a * (n[0] * n[0] + n[1] * n[1]) + ld(b) * b * n[2] * n[2]);
        Vec on   = {(N + h) * n[0], (N + h) * n[1], (N * b * b / (ld(a) * a) + h) * n[2]};
        auto e   = geo::figure::OblateSpheroid::convertSphericalToCartesian(a, b, {p.lon, p.lat}, h);
        ld etol  = tolerance(p) * (N + std::abs(h)) * 4;
        VF_CHECK(vg::dist(Vec{e[0], e[1], e[2]}, on) <= etol, "spheroid", str(p) << " is at (" << vg::repr(e[0]) << ", " << vg::repr(e[1]) << ", " << vg::repr(e[2]) << ")");
        g2::Point3 e2;
        g2::EllipsoidOfRevolution::convertSphericalToCartesian(a, b, {p.lon, p.lat}, e2, h, true);
        VF_CHECK(vg::dist(Vec{e2[0], e2[1], e2[2]}, on) <= etol, "spheroid", str(p) << " is at (" << vg::repr(e2[0]) << ", " << vg::repr(e2[1]) << ", " << vg::repr(e2[2]) << ")");
        if (h == 0) {
            ld s = (ld(e[0]) * e[0] + ld(e[1]) * e[1]) / (ld(a) * a) + ld(e[2]) * e[2] / (ld(b) * b);
            VF_CHECK(std::abs(s - 1) <= 1e-13L + 8 * tolerance(p), "spheroid", str(p) << " is not on the spheroid");
        }
        c.count("positions");
        c.eval();
    }
}

VF_WORKLOAD(angles, 10000, 200000) {
    auto& r = c.rng;
    for (int i = 0; i < 10; ++i) {
        LL p = vg::point(r), q = vg::other(r, p), s = vg::other(r, q);
        double R = r.chance(.3) ? 1. : r.chance(.5) ? 6371229. : std::exp(r.real(-5, 20));
        c.trace() << "radius " << vg::repr(R) << " points " << str(p) << " " << str(q) << " " << str(s) << "\n";
        c.distinct(vf::hashStr(str(p) + str(q)));
        Vec v = vg::dir(p), w = vg::dir(q);
        ld want = vg::angle(v, w), tol = 2 * (tolerance(p) + tolerance(q));
        g2::Point2 P(p.lon, p.lat), Q(q.lon, q.lat), S(s.lon, s.lat);
        double a = g2::Sphere::centralAngle(P, Q), b = g2::Sphere::centralAngle(Q, P);
        VF_CHECK(std::abs(a - want) <= tol && std::abs(b - want) <= tol, "central-angle", "between " << str(p) << " and " << str(q) << ": " << vg::repr(a) << " or " << vg::repr(b) << " instead of " << vg::repr(double(want)));
        VF_CHECK(std::abs(g2::Sphere::distance(R, P, Q) - want * R) <= tol * R, "distance", "between " << str(p) << " and " << str(q));
        VF_CHECK(a <= g2::Sphere::centralAngle(P, S) + g2::Sphere::centralAngle(S, Q) + 4 * tol + tolerance(s) * 4, "triangle", str(p) << str(q) << str(s));
        double ga = geo::figure::Sphere::centralAngle(geo::PointLonLat(p.lon, p.lat), geo::PointLonLat(q.lon, q.lat));
        VF_CHECK(std::abs(ga - want) <= tol, "central-angle", "between " << str(p) << " and " << str(q) << ": " << vg::repr(ga) << " instead of " << vg::repr(double(want)));
        VF_CHECK(std::abs(geo::figure::Sphere::distance(R, geo::PointLonLat(p.lon, p.lat), geo::PointLonLat(q.lon, q.lat)) - want * R) <= tol * R, "distance", "between " << str(p) << " and " << str(q));
        VF_CHECK(std::abs(geo::figure::Earth::distance(geo::PointLonLat(p.lon, p.lat), geo::PointLonLat(q.lon, q.lat)) - want * 6371229.) <= tol * 6371229., "distance", "on Earth between " << str(p) << " and " << str(q));
        // through the chord: towards antipodes the angle is not well determined
        Vec x = vg::mul(v, R), y = vg::mul(w, R);
        g2::Point3 X(x[0], x[1], x[2]), Y(y[0], y[1], y[2]);
        ld ctol  = 1e-7L + 1e-14L / std::max(1e-30L, std::abs(ld(M_PIl) - want));
        if (std::abs(ld(M_PIl) - want) > 1e-6) ctol = 1e-14L / std::sqrt(std::max(1e-30L, 2 * (1 - std::sin(want / 2)))) + 4e-8L / R / std::max(want, ld(1e-8)) * (want < 1e-7L ? 1 : 0) + 1e-14L;
        ctol += want * R < 3e-8L ? want : 0;  // very small distances count as nothing
        double ca = g2::Sphere::centralAngle(R, X, Y);
        VF_CHECK(std::abs(ca - want) <= ctol, "chord", "between " << str(p) << " and " << str(q) << " of radius " << vg::repr(R) << ": " << vg::repr(ca) << " instead of " << vg::repr(double(want)));
        double cga = geo::figure::Sphere::centralAngle(R, geo::PointXYZ(x[0], x[1], x[2]), geo::PointXYZ(y[0], y[1], y[2]));
        VF_CHECK(std::abs(cga - want) <= ctol, "chord", "between " << str(p) << " and " << str(q) << " of radius " << vg::repr(R) << ": " << vg::repr(cga) << " instead of " << vg::repr(double(want)));
        VF_CHECK(std::abs(g2::Sphere::distance(R, X, Y) - R * ca) <= 1e-15 * R * 4, "distance", "of vectors");
        c.count("distances");
        c.eval();
        if (want > 3.1415926) c.count("antipodes");
        if (want < 1e-6) c.count("close");
    }
}

namespace {

template <class Point, class Circle>
void circle(vf::Case& c, LL p, LL q, const char* which) {
    auto& r = c.rng;
    Vec v = vg::dir(p), w = vg::dir(q), n = vg::cross(v, w);
    ld s = vg::norm(n);
    std::unique_ptr<Circle> gc;
    try {
        gc = std::make_unique<Circle>(Point(p.lon, p.lat), Point(q.lon, q.lat));
    }
    catch (const eckit::Exception&) {
        VF_CHECK(s < 1e-10L, "circle-refused", which << " through " << str(p) << " and " << str(q) << " was refused");
        c.count("no_circle");
        return;
    }
    if (std::fmod(p.lon, 45.) == 0 && std::fmod(q.lon, 45.) == 0 && std::remainder(p.lon - q.lon, 180.) == 0) {
        // exactly on one meridian, or on opposite ones
        bool one = std::remainder(p.lon - q.lon, 360.) == 0;
        VF_CHECK(gc->crossesPoles(), "circle-meridian", which << " through " << str(p) << " and " << str(q) << " does not cross the poles");
        VF_CHECK(p.lat != (one ? q.lat : -q.lat), "circle-accepted", which << " through " << str(p) << " and " << str(q) << " was accepted");
        c.count("exact_meridians");
    }
    ld dlon  = std::abs(std::remainder(ld(p.lon) - ld(q.lon), 180.L)) * M_PIl / 180;  // distance to a common meridian
    ld cc    = std::max(1e-30L, std::hypot(v[0], v[1]) * std::hypot(w[0], w[1]));
    ld tol   = 3e-14L / std::max(1e-30L, std::min({s, gc->crossesPoles() ? 1 : dlon}) * (gc->crossesPoles() ? 1 : cc));
    if (gc->crossesPoles()) tol += 3e-11L / s;
    if (!(tol < 1e-4)) {
        c.count("ill_conditioned");
        return;
    }
    Vec m = vg::mul(n, 1 / s);
    VF_CHECK(gc->crossesPoles() == (std::abs(m[2]) < 1e-14L) || (std::abs(m[2]) < 1e-9L + 1e-13L / s), "circle-meridian", which << " through " << str(p) << " and " << str(q) << (gc->crossesPoles() ? " crosses" : " does not cross") << " the poles");
    for (int i = 0; i < 3; ++i) {
        double lon = r.chance(.3) ? vg::point(r).lon : r.real(-360, 360);
        auto lats  = gc->latitude(lon);
        VF_CHECK(lats.size() == (gc->crossesPoles() ? 0 : 1), "circle-latitude", which << " has " << lats.size() << " latitudes at " << vg::repr(lon));
        for (double lat : lats) {
            ld off = std::abs(vg::dot(m, vg::dir({lon, lat})));
            VF_CHECK(off <= tol && -90 <= lat && lat <= 90, "circle-latitude", which << " through " << str(p) << " and " << str(q) << " does not go through " << str({lon, lat}) << ", off by " << vg::repr(double(off)));
            c.count("latitudes");
        }
        double lat = r.chance(.3) ? vg::point(r).lat : r.real(-90, 90);
        ld top     = std::acos(std::min(1.L, std::abs(m[2]))) * 180 / M_PIl;  // how far north it goes
        bool touch = r.chance(.15) && !gc->crossesPoles() && top > 1e-3 && top < 89.999 && tol < 1e-11L;
        if (touch) lat = double(r.chance(.5) ? top : -top);
        auto lons  = gc->longitude(lat);
        if (touch) {
            VF_CHECK(lons.size() <= 2, "circle-longitude", which << " through " << str(p) << " and " << str(q) << " has " << lons.size() << " longitudes at latitude " << vg::repr(lat) << ", which it touches");
            c.count("latitudes touched");
        }
        for (double l : lons) {
            ld off = std::abs(vg::dot(m, vg::dir({l, lat})));
            VF_CHECK(off <= tol + (std::abs(std::abs(lat) - top) < 1e-5 ? 1e-5L : 0), "circle-longitude", which << " through " << str(p) << " and " << str(q) << " does not go through " << str({l, lat}) << ", off by " << vg::repr(double(off)));
            c.count("longitudes");
        }
        ld margin = 1e-6L + tol * 100;
        if (std::abs(lat) < 90 - 1e-6) {
            if (std::abs(lat) < top - margin && top > 1e-5) {
                VF_CHECK(lons.size() == 2 && std::abs(std::remainder(lons[0] - lons[1], 360.)) > 1e-9, "circle-longitude", which << " through " << str(p) << " and " << str(q) << " has " << lons.size() << " longitudes at latitude " << vg::repr(lat));
            }
            else if (std::abs(lat) > top + margin) {
                VF_CHECK(lons.empty(), "circle-longitude", which << " through " << str(p) << " and " << str(q) << " has " << lons.size() << " longitudes at latitude " << vg::repr(lat) << ", where it does not go");
            }
        }
    }
    c.count("circles");
    c.eval();
    if (gc->crossesPoles()) c.count("meridians");
    if constexpr (std::is_same_v<Circle, geo::GreatCircle>) {
        if (s > 1e-6L) {
            auto [at_p, at_q] = gc->course();
            auto bearing      = [&](const LL& at, const Vec& d) {
                Vec east  = vg::east(at);
                Vec north = vg::north(at);
                Vec t     = vg::cross(m, d);
                return std::atan2(vg::dot(t, east), vg::dot(t, north)) * 180 / M_PIl;
            };
            ld b1 = bearing(p, v), b2 = bearing(q, w);
            ld btol = 1e-13L * 180 / s + 1e-12L;
            VF_CHECK(std::abs(std::remainder(at_p - b1, 360.L)) <= btol && std::abs(std::remainder(at_q - b2, 360.L)) <= btol, "course",
                     "from " << str(p) << " to " << str(q) << " is " << vg::repr(at_p) << ", " << vg::repr(at_q) << " instead of " << vg::repr(double(b1)) << ", " << vg::repr(double(b2)));
            VF_CHECK(-180 <= at_p && at_p <= 180 && -180 <= at_q && at_q <= 180, "course", "out of range");
            c.count("courses");
            c.eval();
        }
    }
}

}  // namespace

VF_WORKLOAD(circles, 10000, 200000) {
    auto& r = c.rng;
    for (int i = 0; i < 5; ++i) {
        LL p = vg::point(r), q = vg::other(r, p);
        c.trace() << "points " << str(p) << " " << str(q) << "\n";
        c.distinct(vf::hashStr(str(p) + str(q)));
        circle<g2::Point2, g2::GreatCircle>(c, p, q, "GreatCircle");
        circle<geo::PointLonLat, geo::GreatCircle>(c, p, q, "geo::GreatCircle");
    }
}

namespace {

ld lune(ld n, ld s) { return std::sin(n * M_PIl / 180) - std::sin(s * M_PIl / 180); }

/// area of the zone between two latitudes of a spheroid, for one radian of longitude, by integration
ld zone(ld a, ld b, ld n, ld s) {
    const int steps = 400;
    ld h = (n - s) * M_PIl / 180 / steps, sum = 0;
    auto f = [&](ld phi) {
        ld e2 = 1 - b * b / (a * a), d = 1 - e2 * std::sin(phi) * std::sin(phi);
        return a * a * (1 - e2) * std::cos(phi) / (d * d);
    };
    for (int i = 0; i <= steps; ++i) {
        sum += f(s * M_PIl / 180 + i * h) * (i == 0 || i == steps ? 1 : i % 2 ? 4 : 2);
    }
    return sum * h / 3;
}

}  // namespace

VF_WORKLOAD(areas, 6000, 60000) {
    auto& r  = c.rng;
    double R = r.chance(.3) ? 1. : r.chance(.5) ? 6371229. : std::exp(r.real(-3, 18));
    double n = r.chance(.3) ? 90 : r.real(-89, 90), s = r.chance(.3) ? -90 : r.real(-90, n);
    if (s > n) std::swap(n, s);
    double w = r.chance(.4) ? r.pick(std::vector<double>{0, -180, -90, 90, 180}) : r.real(-360, 360);
    double e = r.chance(.3) ? w + 360 : w + r.real(1e-3, 359.999);
    c.trace() << "radius " << vg::repr(R) << " box " << vg::repr(n) << "/" << vg::repr(w) << "/" << vg::repr(s) << "/" << vg::repr(e) << "\n";
    c.distinct(vf::hashStr(vg::repr(n) + vg::repr(w) + vg::repr(e)));
    ld dl   = (e - w) * M_PIl / 180;
    ld want = ld(R) * R * dl * lune(n, s);
    ld all  = 4 * M_PIl * R * R;
    double a = g2::Sphere::area(R, {w, n}, {e, s});
    VF_CHECK(std::abs(a - want) <= 1e-14L * all, "area", "of the box on a sphere is " << vg::repr(a) << " instead of " << vg::repr(double(want)));
    if (const double d = e - w; d > 1e-3 && d < 360. - 1e-3) {  // with east on another turn
        const double turned = g2::Sphere::area(R, {w, n}, {e + 360. * double(c.rng.in(-3, 3)), s});
        VF_CHECK(std::abs(turned - want) <= 1e-12L * all, "area", "of the box on a sphere, with east on another turn, is " << vg::repr(turned) << " instead of " << vg::repr(double(want)));
    }
    VF_CHECK(std::abs(g2::Sphere::area(R) - all) <= 1e-14L * all, "area", "of the sphere");
    VF_CHECK(refuses([&] { g2::Sphere::area(R, {w, -91.}, {e, s}); }), "area-refused", "north at -91");
    geo::area::BoundingBox box(n, w, s, e);
    geo::figure::Sphere ball(R);
    VF_CHECK(std::abs(ball.area(box) - want) <= 1e-14L * all, "area", "of the box on a geo sphere is " << vg::repr(ball.area(box)) << " instead of " << vg::repr(double(want)));
    VF_CHECK(std::abs(ball.area() - all) <= 1e-14L * all, "area", "of the geo sphere");
    VF_CHECK(std::abs(box.area() - want / R / R * 6371229 * 6371229) <= 1e-14L * 4 * M_PIl * 6371229 * 6371229, "area", "of a box on Earth is " << vg::repr(box.area()));
    // the same on a spheroid
    double b = r.chance(.1) ? R : r.chance(.5) ? R * r.real(.3, .999) : R * (1 - 1 / 298.257);
    geo::figure::OblateSpheroid flat(R, b);
    const geo::Figure& figure = flat;
    ld fwant = dl * zone(R, b, n, s), fall = 2 * M_PIl * zone(R, b, 90, -90);
    VF_CHECK(std::abs(flat.area() - fall) <= 1e-6L * fall, "area", "of a spheroid of " << vg::repr(R) << " and " << vg::repr(b) << " is " << vg::repr(flat.area()) << " instead of " << vg::repr(double(fall)));
    VF_CHECK(std::abs(flat.area(box) - fwant) <= 1e-6L * fall, "area", "of the box on a spheroid of " << vg::repr(R) << " and " << vg::repr(b) << " is " << vg::repr(flat.area(box)) << " instead of " << vg::repr(double(fwant)));
    VF_CHECK(std::abs(figure.eccentricity() - std::sqrt(1 - ld(b) * b / (ld(R) * R))) <= 1e-7L && std::abs(figure.flattening() - (ld(R) - b) / R) <= 1e-15L, "eccentricity", "of " << vg::repr(R) << " and " << vg::repr(b));
    VF_CHECK(figure.spherical() == (b == R) && ball.spherical(), "spherical", "flattened by " << vg::repr(figure.flattening()));
    // figures made from their own description
    std::unique_ptr<geo::Figure> f;
    switch (r.below(5)) {
        case 0: f.reset(new geo::figure::Sphere(R)); break;
        case 1: f.reset(new geo::figure::OblateSpheroid(R, b)); break;
        case 2: f.reset(new geo::figure::Wgs84); break;
        case 3: f.reset(new geo::figure::Grs80); break;
        default: f.reset(new geo::figure::Earth); break;
    }
    std::unique_ptr<eckit::spec::Custom> spec(f->spec());
    std::unique_ptr<geo::Figure> g(geo::FigureFactory::build(*spec));
    std::unique_ptr<geo::Figure> h(geo::FigureFactory::make_from_string(f->spec_str()));
    auto close = [](double x, double y) { return std::abs(x - y) <= 1e-12 * std::abs(x); };
    VF_CHECK(*g == *f && close(g->a(), f->a()) && close(g->b(), f->b()), "figure", f->spec_str() << " was built as " << g->spec_str());
    VF_CHECK(close(h->a(), f->a()) && close(h->b(), f->b()), "figure", f->spec_str() << " was read as " << h->spec_str());
    if (r.chance(.02)) {
        VF_CHECK(refuses([&] { geo::figure::Sphere(-R); }) && refuses([&] { geo::figure::Sphere(0); }) && refuses([&] { geo::figure::OblateSpheroid(b, R * 1.01); }) && refuses([&] { geo::figure::OblateSpheroid(R, -b); }), "figure-refused", "impossible figures");
    }
    c.count("areas");
    c.eval();
}
