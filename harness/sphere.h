// Directions on the unit sphere in long double, and generators of unpleasant points.
#pragma once
#include <array>
#include <cmath>
#include <vector>

#include "vf.h"

namespace vg {

using ld  = long double;
using Vec = std::array<ld, 3>;

inline std::string repr(double d) {
    char s[40];
    snprintf(s, sizeof s, "%.17g", d);
    return s;
}

struct LL {
    double lon, lat;
};

inline ld rad(ld deg) { return std::remainder(deg, 360.L) * M_PIl / 180; }

inline ld sind(ld deg) {
    ld x = std::remainder(deg, 360.L);
    if (x == 0 || x == 180 || x == -180) return 0;
    return std::sin(x * M_PIl / 180);
}
inline ld cosd(ld deg) { return sind(90 - std::remainder(deg, 360.L)); }

inline Vec dir(const LL& p) {
    ld cl = cosd(p.lat);
    return {cl * cosd(p.lon), cl * sind(p.lon), sind(p.lat)};
}
inline Vec east(const LL& p) { return {-sind(p.lon), cosd(p.lon), 0}; }
inline Vec north(const LL& p) { return {-sind(p.lat) * cosd(p.lon), -sind(p.lat) * sind(p.lon), cosd(p.lat)}; }

inline Vec mul(const Vec& v, ld k) { return {v[0] * k, v[1] * k, v[2] * k}; }
inline Vec sub(const Vec& v, const Vec& w) { return {v[0] - w[0], v[1] - w[1], v[2] - w[2]}; }
inline Vec cross(const Vec& v, const Vec& w) { return {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]}; }
inline ld dot(const Vec& v, const Vec& w) { return v[0] * w[0] + v[1] * w[1] + v[2] * w[2]; }
inline ld norm(const Vec& v) { return std::sqrt(dot(v, v)); }
inline ld dist(const Vec& v, const Vec& w) { return norm(sub(v, w)); }
inline ld angle(const Vec& v, const Vec& w) { return std::atan2(norm(cross(v, w)), dot(v, w)); }
inline LL lonlat(const Vec& v) { return {double(std::atan2(v[1], v[0]) * 180 / M_PIl), double(std::atan2(v[2], std::hypot(v[0], v[1])) * 180 / M_PIl)}; }

inline double nudge(vf::Rng& r) {
    return r.chance(.5) ? 0. : (r.chance(.5) ? 1 : -1) * std::pow(10., -r.real(1, r.chance(.2) ? 25 : 14));
}

/// on the sphere, in the usual range of latitudes
inline LL point(vf::Rng& r) {
    double lon = r.chance(.4) ? r.pick(std::vector<double>{0, 45, 90, 135, 180, -45, -90, -135, -180, 270, 360, 315}) + nudge(r) : r.real(-360, 360);
    double lat = r.chance(.1) ? 90 : r.chance(.1) ? -90 : r.chance(.3) ? r.pick(std::vector<double>{0, 45, -45, 90, -90}) + nudge(r) : r.chance(.5) ? std::asin(r.real(-1, 1)) * 180 / M_PI : r.real(-90, 90);
    return {lon, std::min(90., std::max(-90., lat))};
}

/// related to another point: close, opposite, on the same meridian or parallel, or anywhere
inline LL other(vf::Rng& r, const LL& p) {
    auto clamp = [](double l) { return std::min(90., std::max(-90., l)); };
    switch (r.below(9)) {
        case 0: return {p.lon + nudge(r), clamp(p.lat + nudge(r))};
        case 1: return {p.lon + 180 + nudge(r), clamp(-p.lat + nudge(r))};
        case 2: return {p.lon, point(r).lat};
        case 3: return {p.lon + 180, point(r).lat};
        case 4: return {point(r).lon, p.lat};
        case 5: return {p.lon + 360, clamp(p.lat + nudge(r))};
        case 6: return {point(r).lon, -p.lat};
        default: return point(r);
    }
}

inline double angle(vf::Rng& r, double min) {
    switch (r.below(6)) {
        case 0: return min + 360. * (int(r.below(9)) - 4) + nudge(r);
        case 1: return nudge(r);
        case 2: return (r.chance(.5) ? 1 : -1) * std::pow(10., r.real(2, 9));
        case 3: return std::nextafter(360. * (int(r.below(2000000)) - 1000000), r.chance(.5) ? 1e300 : -1e300);
        case 4: return min + 45. * (int(r.below(40)) - 20);
        default: return r.real(-1500, 1500);
    }
}

/// any longitude and latitude, also several times around
inline LL anywhere(vf::Rng& r, double span = 2000) {
    LL p = point(r);
    if (r.chance(.3)) p.lon = r.chance(.5) ? r.real(-span, span) : p.lon + 360. * (int(r.below(7)) - 3);
    if (r.chance(.3)) p.lat = r.chance(.5) ? r.real(-span, span) : r.pick(std::vector<double>{180, 270, -180, -270, 360, 90, -90, 450}) + nudge(r);
    return p;
}

}  // namespace vg
