// C10: dates, times, date-times, fractions, versions, fixed strings, tolerant comparison of numbers.
// Oracles: civil calendar arithmetic, 64/128-bit integers, std::string, ordinals of floating point numbers, libc's gmtime and strftime.
#include "vf.h"

#include <cmath>
#include <cstring>
#include <ctime>
#include <limits>
#include <tuple>

#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/io/Buffer.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/DayOfYear.h"
#include "eckit/types/FixedString.h"
#include "eckit/types/FloatCompare.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Hour.h"
#include "eckit/types/Month.h"
#include "eckit/types/SemanticVersion.h"
#include "eckit/types/Time.h"
#include "eckit/types/UUID.h"

using namespace eckit;
using vf::refuses;

namespace {

/// days since 1970-01-01 in the proleptic Gregorian calendar
long days(long y, long m, long d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    long yoe = y - era * 400;
    long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
bool leap(long y) {
    return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
long dim(long y, long m) {
    static const long n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}
struct Ymd {
    long y, m, d;
    Ymd(long y_, long m_, long d_) : y(y_), m(m_), d(d_) {}
    explicit Ymd(long n) {  // by walking, on purpose unlike the library
        y = 1970 + n / 366 - (n < 0 ? 1 : 0);
        while (days(y + 1, 1, 1) <= n) ++y;
        while (days(y, 1, 1) > n) --y;
        m = 1;
        while (m < 12 && days(y, m + 1, 1) <= n) ++m;
        d = n - days(y, m, 1) + 1;
    }
    long n() const { return days(y, m, d); }
    long doy() const { return n() - days(y, 1, 1) + 1; }
    std::string iso() const {
        char b[64];
        snprintf(b, sizeof b, "%ld-%02ld-%02ld", y, m, d);
        return b;
    }
};

Ymd someDay(vf::Rng& r, long lo = 1000, long hi = 9998) {
    long y;
    switch (r.below(4)) {
        case 0: y = r.in(1850, 2100); break;
        case 1: y = std::min<long>(hi, std::max<long>(lo, r.in(lo / 100 + 1, hi / 100) * 100 + r.in(-1, 1))); break;
        case 2: y = std::min<long>(hi, std::max<long>(lo, r.in(lo / 4 + 1, hi / 4) * 4)); break;
        default: y = r.in(lo, hi);
    }
    long m = r.in(1, 12);
    if (r.chance(0.3)) {
        m = r.chance(0.7) ? 2 : 12;
    }
    long d = r.chance(0.5) ? r.in(1, dim(y, m)) : (r.chance(0.5) ? dim(y, m) - r.in(0, 2) : 1);
    return {y, m, d};
}

std::string fmt(const char* f, long a, long b = 0, long c = 0) {
    char s[128];
    snprintf(s, sizeof s, f, a, b, c);
    return s;
}

void same(vf::Case& c, const Date& d, const Ymd& w, const char* what) {
    VF_CHECK(d.year() == w.y && d.month() == w.m && d.day() == w.d && d.yyyymmdd() == w.y * 10000 + w.m * 100 + w.d && d.julian() == w.n() + 2440588, "date",
             what << ": " << d << ", expected " << w.iso());
    VF_EQ(std::string(d), w.iso(), "date-text", what);
    VF_EQ(d.dayOfWeek(), ((w.n() + 3) % 7 + 7) % 7, "day-of-week", what << " " << w.iso());
    c.eval();
}

int sgn(long x) {
    return x < 0 ? -1 : x > 0;
}

template <class T>
void order(vf::Case& c, const T& a, const T& b, int want, const char* what) {
    VF_CHECK((a < b) == (want < 0) && (a > b) == (want > 0) && (a == b) == (want == 0) && (a != b) == (want != 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0),
             "order", what << ": " << a << " and " << b << " should compare " << want);
    c.eval();
}

bool digits(const std::string& s) {
    return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos;
}
std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> r(1);
    for (char ch : s) {
        if (ch == sep) r.emplace_back();
        else r.back() += ch;
    }
    return r;
}

/// the forms of a date: yymmdd yyyymmdd mmm mm-dd yyyy-ddd yy-ddd yyyy-mm-dd yy-mm-dd; a day 00 is the first
bool strictDate(const std::string& s, Ymd& out) {
    static const char* names[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    auto year = [](const std::string& t) { long y = atol(t.c_str()); return y < 100 ? y + 1900 : y; };
    auto ok = [&](long y, long m, long d) {
        if (d == 0) d = 1;
        if (y < 0 || m < 1 || m > 12 || d < 1 || d > dim(y, m)) return false;
        out = Ymd(y, m, d);
        return true;
    };
    for (int i = 0; i < 12; ++i) {
        if (s == names[i]) return ok(1900, i + 1, 1);
    }
    std::vector<std::string> t;
    for (auto& x : split(s, '-')) {
        if (!x.empty()) t.push_back(x);
    }
    for (auto& x : t) {
        if (!digits(x)) return false;
    }
    if (t.size() == 1 && t[0].size() == s.size() && (s.size() == 6 || s.size() == 8)) {
        return ok(year(s.substr(0, s.size() - 4)), atol(s.substr(s.size() - 4, 2).c_str()), atol(s.substr(s.size() - 2).c_str()));
    }
    if (t.size() == 2 && t[0].size() == 2 && t[1].size() == 2) {
        return atol(t[1].c_str()) > 0 && ok(2004, atol(t[0].c_str()), atol(t[1].c_str()));
    }
    if (t.size() == 2 && (t[0].size() == 2 || t[0].size() == 4) && t[1].size() == 3) {
        long y = year(t[0]), n = atol(t[1].c_str());
        if (n < 1 || n > (leap(y) ? 366 : 365)) return false;
        out = Ymd(days(y, 1, 1) + n - 1);
        return true;
    }
    if (t.size() == 3 && (t[0].size() == 2 || t[0].size() == 4) && t[1].size() == 2 && t[2].size() == 2) {
        return ok(year(t[0]), atol(t[1].c_str()), atol(t[2].c_str()));
    }
    return false;
}

}  // namespace

VF_WORKLOAD(dates, 1500, 40000) {
    auto& r = c.rng;
    Ymd a = someDay(r), b = someDay(r);
    long n = b.n() - a.n();
    c.trace() << a.iso() << " and " << b.iso();
    Date da(a.y, a.m, a.d), db(b.y * 10000 + b.m * 100 + b.d);
    same(c, da, a, "year, month, day");
    same(c, db, b, "yyyymmdd");
    same(c, Date(a.y, a.doy()), a, "year and day of the year");
    same(c, Date(a.iso()), a, "yyyy-mm-dd");
    same(c, Date(fmt("%04ld%02ld%02ld", a.y, a.m, a.d)), a, "yyyymmdd text");
    same(c, Date(fmt("%04ld-%03ld", a.y, a.doy())), a, "yyyy-ddd");
    same(c, Date(std::string(da)), a, "its own text");
    if (a.y >= 1900 && a.y < 2000) {
        same(c, Date(fmt("%02ld%02ld%02ld", a.y - 1900, a.m, a.d)), a, "yymmdd text");
        same(c, Date(fmt("%02ld-%02ld-%02ld", a.y - 1900, a.m, a.d)), a, "yy-mm-dd");
        same(c, Date((a.y - 1900) * 10000 + a.m * 100 + a.d), a, "yymmdd");
    }
    if (a.m != 2 || a.d != 29) {
        same(c, Date(fmt("%02ld-%02ld", a.m, a.d)), Ymd(2004, a.m, a.d), "mm-dd");
    }
    VF_EQ(db - da, n, "date-difference", "days from " << a.iso() << " to " << b.iso());
    order(c, da, db, sgn(-n), "dates");
    same(c, da + n, b, "date + n");
    same(c, n + da, b, "n + date");
    Date x = da;
    x += n;
    same(c, x, b, "date += n");
    x -= n;
    same(c, x, a, "date -= n");
    ++x;
    same(c, x, Ymd(a.n() + 1), "++date");
    --x;
    --x;
    same(c, x, Ymd(a.n() - 1), "--date");
    order(c, x, da, -1, "the day before");
    // the calendar is refused what it does not have
    long y = a.y, m = r.in(0, 14), d = r.in(0, 33);
    bool valid = m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m);
    VF_EQ(refuses([&] { Date(y, m, d); }), !valid, "invalid-date", "refuses " << y << " " << m << " " << d);
    VF_EQ(refuses([&] { Date(y * 10000 + m * 100 + d); }), !valid, "invalid-date", "refuses the number of " << y << " " << m << " " << d);
    VF_EQ(refuses([&] { Date(fmt("%04ld-%02ld-%02ld", y, m, d)); }), !valid && !(d == 0 && m >= 1 && m <= 12), "invalid-date", "refuses the text of " << y << " " << m << " " << d);
    long doy = r.in(-1, 400);
    VF_EQ(refuses([&] { Date(y, doy); }), doy < 1 || doy > 365 + leap(y), "invalid-date", "refuses day " << doy << " of " << y);
    // months and days of the year
    Month mo(da);
    VF_CHECK(mo.year() == a.y && mo.month() == a.m && std::string(mo) == fmt("%ld-%02ld", a.y, a.m), "month", "month of " << a.iso() << " is " << mo);
    order(c, mo, Month(db), sgn((a.y * 12 + a.m) - (b.y * 12 + b.m)), "months");
    order(c, Month(fmt("%04ld%02ld%02ld", a.y, a.m, a.d)), Month(da), a.d == 1 ? 0 : 1, "a month made of a date keeps the day it is made of");
    DayOfYear ya(da), yb(db);
    VF_EQ(std::string(ya), fmt("%02ld-%02ld", a.m, a.d), "day-of-year", "day of year of " << a.iso());
    order(c, ya, yb, sgn(a.m * 100 + a.d - b.m * 100 - b.d), "days of the year");
    c.count("dates");
    c.distinct(a.iso() + b.iso());
}

VF_WORKLOAD(date_text, 3000, 60000) {
    auto& r = c.rng;
    Ymd a = someDay(r, 1000, 9998);
    std::string s;
    switch (r.below(7)) {
        case 0: s = r.chance(0.3) ? fmt("%04ld-%02ld-%02ld", a.y, long(r.below(14)), long(27 + r.below(6))) : a.iso(); break;
        case 1: s = fmt("%04ld%02ld%02ld", a.y, a.m, r.chance(0.3) ? long(28 + r.below(5)) : a.d); break;
        case 2: s = fmt("%02ld%02ld%02ld", a.y % 100, a.m, r.chance(0.3) ? long(28 + r.below(5)) : a.d); break;
        case 3: s = fmt("%04ld-%03ld", a.y, r.chance(0.3) ? long(364 + r.below(4)) : r.chance(0.05) ? 0 : a.doy()); break;
        case 4: s = fmt("%02ld-%02ld", a.m, r.chance(0.3) ? long(28 + r.below(5)) : a.d); break;
        case 5: s = fmt("%02ld-%02ld-%02ld", a.y % 100, a.m, a.d); break;
        default: s = "jan"; break;
    }
    for (size_t n = r.below(3); n > 0 && !s.empty(); --n) {
        size_t at = r.below(s.size());
        static const std::string chars = "0123456789--- abjx.+:";
        switch (r.below(3)) {
            case 0: s.erase(at, 1); break;
            case 1: s.insert(at, 1, r.pick(chars)); break;
            default: s[at] = r.pick(chars);
        }
    }
    c.trace() << vf::repr(s);
    Ymd w(1970, 1, 1);
    bool valid = strictDate(s, w), got = true;
    Date d;
    try {
        d = Date(s);
    }
    catch (std::exception&) {
        got = false;
    }
    VF_EQ(got, valid, "date-text-valid", "accepted as a date: " << vf::repr(s));
    if (valid && w.y >= 100) {
        same(c, d, w, "date text");
        c.count("date_texts");
    }
    else {
        c.count("date_texts_refused");
    }
    c.eval();
    c.distinct(s);
}

namespace {

struct Hms {
    long h, m, s;
    long n() const { return h * 3600 + m * 60 + s; }
    std::string text() const { return fmt("%02ld:%02ld:%02ld", h, m, s); }
};

/// the forms of a time; the result in seconds
bool strictTime(const std::string& text, bool extended, long& n) {
    std::string s = text;
    bool minus = !s.empty() && s[0] == '-';
    if (minus) s.erase(0, 1);
    for (auto& ch : s) ch = std::tolower(ch);
    auto num = [](const std::string& t, long& v) {
        if (!t.empty() && !digits(t)) return false;
        v = t.empty() ? 0 : strtol(t.c_str(), nullptr, 10);
        return true;
    };
    long h = 0, m = 0, x = 0;
    if (s.find(':') != std::string::npos) {
        auto t = split(s, ':');
        if (t.size() > 3 || t[0].empty() || (t.size() == 3 && t[1].empty())) return false;
        t.resize(3);
        if (!num(t[0], h) || !num(t[1], m) || !num(t[2], x) || m >= 60 || x >= 60) return false;
        n = h * 3600 + m * 60 + x;
    }
    else if (s.find_first_of("dhms") != std::string::npos) {
        static const std::string units = "dhms";
        static const long mult[] = {86400, 3600, 60, 1};
        size_t unit = 0;
        std::string number;
        n = 0;
        for (char ch : s) {
            size_t u = units.find(ch);
            if (u == std::string::npos) {
                number += ch;
                continue;
            }
            long v;
            if (u < unit || !num(number, v)) return false;
            n += v * mult[u];
            unit = u + 1;
            number.clear();
        }
        if (!number.empty()) return false;
    }
    else if (s.find('.') != std::string::npos) {
        auto t = split(s, '.');
        if (t.size() != 2 || t[1].empty() || !num(t[0], h) || !num(t[1], m)) return false;
        n = std::lround(strtod(s.c_str(), nullptr) * 3600);
    }
    else {
        if (!num(s, h)) return false;
        if (extended || s.size() <= 2) n = h * 3600;
        else {
            if (s.size() <= 4) { m = h % 100; h /= 100; }
            else { x = h % 100; m = (h / 100) % 100; h /= 10000; }
            if (m >= 60 || x >= 60) return false;
            n = h * 3600 + m * 60 + x;
        }
    }
    if (minus) n = -n;
    return extended || (n >= 0 && n < 86400);
}

}  // namespace

VF_WORKLOAD(times, 1500, 40000) {
    auto& r = c.rng;
    Hms a{r.in(0, 23), r.in(0, 59), r.in(0, 59)};
    if (r.chance(0.3)) {
        a = {r.chance(0.5) ? 0 : 23, r.chance(0.5) ? 0 : 59, r.chance(0.5) ? 0 : 59};
    }
    Hms b{r.in(0, 23), r.in(0, 59), r.in(0, 59)};
    c.trace() << a.text() << " " << b.text();
    Time ta(a.h, a.m, a.s), tb(b.n());
    VF_EQ(std::string(ta), a.text(), "time-text", "text of the time");
    VF_EQ(std::string(tb), b.text(), "time-text", "text of the time of day in seconds");
    VF_CHECK(ta.hours() == a.h && ta.minutes() == a.m && ta.seconds() == a.s && ta.hhmmss() == a.h * 10000 + a.m * 100 + a.s, "time-parts", ta);
    order(c, ta, tb, sgn(a.n() - b.n()), "times");
    VF_EQ(ta - tb, double(a.n() - b.n()), "time-difference", "seconds between " << ta << " and " << tb);
    VF_EQ(double(Second(ta)), double(a.n()), "time-seconds", "seconds of " << ta);
    for (std::string s : {a.text(), fmt("%02ld%02ld%02ld", a.h, a.m, a.s), fmt("%ldh%ldm%lds", a.h, a.m, a.s), fmt("%ldm%lds", a.h * 60 + a.m, a.s), fmt("%lds", a.n())}) {
        Time t(s);
        VF_CHECK(t == ta, "time-form", s << " is " << t << ", not " << ta);
        VF_CHECK(Time(s, s.find_first_of(":h") != std::string::npos || s.back() == 's') == (s.find_first_of(":hs") == std::string::npos ? t : ta), "time-form", s << " extended");
        c.eval(2);
    }
    long h = r.in(-2, 26), m = r.in(-2, 62), s = r.in(-2, 62);
    bool bad = h < 0 || h > 23 || m < 0 || m > 59 || s < 0 || s > 59;
    VF_EQ(refuses([&] { Time(h, m, s); }), bad, "invalid-time", "refuses " << h << " " << m << " " << s);
    long n = r.chance(0.5) ? r.in(-3, 3) : r.in(86397, 86403);
    VF_EQ(refuses([&] { Time t(n); }), n < 0 || n >= 86400, "invalid-time", "refuses " << n << " seconds");
    // extended
    long e = r.in(0, 1000000);
    Time te(e, true);
    VF_CHECK(te.hours() == e / 3600 && te.minutes() == e / 60 % 60 && te.seconds() == e % 60, "extended-time", e << " seconds give " << te);
    VF_CHECK(Time(std::string(te), true) == te, "extended-time", te << " is read back as " << Time(std::string(te), true));
    // edited text
    std::string t;
    switch (r.below(6)) {
        case 0: t = a.text(); break;
        case 1: t = fmt("%02ld%02ld%02ld", a.h, a.m, a.s).substr(0, 1 + r.below(6)); break;
        case 2: t = fmt("%ldh%ldm%lds", a.h, a.m, a.s); break;
        case 3: t = fmt("%ldd%ldh", a.h % 3, a.h); break;
        case 4: t = fmt("%ld.%ld", a.h, a.m); break;
        default: t = fmt("%ld:%02ld", a.h, a.m); break;
    }
    if (r.chance(0.2)) {
        t = "-" + t;
    }
    for (size_t k = r.below(3); k > 0 && !t.empty(); --k) {
        size_t at = r.below(t.size());
        static const std::string chars = "0123456789:.dhmsDHMS-+ x";
        switch (r.below(3)) {
            case 0: t.erase(at, 1); break;
            case 1: t.insert(at, 1, r.pick(chars)); break;
            default: t[at] = r.pick(chars);
        }
    }
    bool ext = r.chance(0.5);
    c.trace() << " text " << vf::repr(t) << (ext ? " extended" : "");
    long want = 0;
    bool valid = strictTime(t, ext, want);
    bool got = true;
    Time x;
    try {
        x = Time(t, ext);
    }
    catch (std::exception&) {
        got = false;
    }
    VF_EQ(got, valid, "time-text-valid", "accepted as a time: " << vf::repr(t));
    if (valid) {
        VF_EQ(double(Second(x)), double(want), "time-text-value", vf::repr(t));
    }
    c.count(valid ? "time_texts" : "time_texts_refused");
    // hours
    Hour ha(a.text());
    std::string ht = a.s ? fmt("%ld:%02ld:%02ld", a.h, a.m, a.s) : a.m ? fmt("%ld:%02ld", a.h, a.m) : fmt("%ld", a.h);
    VF_EQ(std::string(ha), ht, "hour-text", "hour " << a.text());
    order(c, ha, Hour(b.text()), sgn(a.n() - b.n()), "hours");
    VF_CHECK(Hour(double(a.n()) / 3600) == ha, "hour-number", a.text() << " as a number of hours");
    VF_CHECK(Hour(ht) == ha, "hour-text", ht);
    VF_CHECK(refuses([&] { Hour(fmt("%ld:60", a.h)); }) && refuses([&] { Hour(fmt("%ld:1:60", a.h)); }) && refuses([&] { Hour h1(std::string{}); }) && refuses([&] { Hour(-0.1 - a.h); }),
             "invalid-hour", "something that is not an hour accepted");
    c.distinct(a.text() + b.text() + t);
}

VF_WORKLOAD(datetimes, 1500, 40000) {
    auto& r = c.rng;
    setenv("LC_ALL", "C", 1);
    auto make = [](long n) {
        Ymd d(long(std::floor(n / 86400.)));
        long s = n - d.n() * 86400;
        return DateTime(Date(d.y, d.m, d.d), Time(s / 3600, s / 60 % 60, s % 60));
    };
    auto text = [](long n) {
        Ymd d(long(std::floor(n / 86400.)));
        long s = n - d.n() * 86400;
        return d.iso() + " " + Hms{s / 3600, s / 60 % 60, s % 60}.text();
    };
    long a = someDay(r).n() * 86400 + (r.chance(0.3) ? (r.chance(0.5) ? 0 : 86399) : r.in(0, 86399));
    long n;
    switch (r.below(4)) {
        case 0: n = r.in(-3, 3); break;
        case 1: n = r.in(-86402, 86402); break;
        case 2: n = r.in(-3, 3) * 86400 + r.in(-1, 1); break;
        default: n = someDay(r).n() * 86400 + r.in(0, 86399) - a;
    }
    c.trace() << text(a) << " + " << n << " seconds";
    DateTime da = make(a), db = make(a + n);
    VF_EQ(std::string(da), text(a), "datetime-text", "text");
    VF_EQ(da.iso(), std::string(da).replace(text(a).find(' '), 1, "T") + "Z", "datetime-iso", "iso text");
    VF_CHECK(DateTime(text(a)) == da, "datetime-text", text(a) << " is read as " << DateTime(text(a)));
    VF_EQ(db - da, double(n), "datetime-difference", db << " - " << da);
    VF_EQ(std::string(da + double(n)), text(a + n), "datetime-sum", da << " + " << n);
    VF_CHECK(da + double(n) == db, "datetime-sum", da << " + " << n << " is not " << db);
    order(c, da, db, sgn(-n), "date-times");
    double frac = r.in(0, 999) / 1000.;
    DateTime df = da + (double(n) + frac);
    VF_CHECK(std::fabs((df - db) - frac) < 1e-3 && df.time() >= Time(0) && Second(df.time()) < 86400.001 && !(df < db), "datetime-fraction",
             da << " + " << n << "." << frac << " is " << df << ", " << (df - db) << " after " << db);
    long step = r.chance(0.5) ? 3600 * r.in(1, 48) : r.in(1, 100000);
    long j = a + 2440588L * 86400;
    VF_EQ(std::string(da.round(double(step))), text(a - j % step), "datetime-round", da << " rounded to " << step << " seconds");
    c.eval(6);
    // unix time
    time_t u = r.in(-2208988800L + 86400, 4102444800L);
    struct tm t;
    gmtime_r(&u, &t);
    DateTime du(u);
    char buf[200];
    strftime(buf, sizeof buf, "%Y-%m-%d %H:%M:%S", &t);
    VF_EQ(std::string(du), std::string(buf), "datetime-unix", "unix time " << u);
    for (const char* f : {"%Y-%m-%d %H:%M:%S", "%a %b %d %y", "%j", "%U %W %V %G %u %w", "%I %p %e", "x%%y"}) {
        strftime(buf, sizeof buf, f, &t);
        VF_EQ(du.format(f), std::string(buf), "datetime-format", "format " << f << " of " << du);
        c.eval();
    }
    c.count("datetimes");
    c.distinct(text(a) + std::to_string(n));
}

namespace {

using I = __int128;

struct Q {
    I n, d;
    Q(I a, I b) {
        if (b < 0) { a = -a; b = -b; }
        I x = a < 0 ? -a : a, y = b;
        while (y) { I t = x % y; x = y; y = t; }
        n = x ? a / x : 0;
        d = x ? b / x : 1;
        if (!n) d = 1;
    }
    int cmp(const Q& o) const { I l = n * o.d, r = o.n * d; return l < r ? -1 : l > r; }
    std::string text() const { return std::to_string((long long)n) + (d == 1 ? "" : "/" + std::to_string((long long)d)); }
};

}  // namespace

VF_WORKLOAD(fractions, 2000, 50000) {
    auto& r = c.rng;
    long long big = r.chance(0.5) ? 1000 : r.chance(0.5) ? 40000 : 1LL << 30;
    auto make = [&] { return std::make_pair(r.chance(0.1) ? 0 : r.in(-big, big), r.in(1, big) * (r.chance(0.3) ? -1 : 1)); };
    auto x = make(), y = make();
    if (r.chance(0.1)) {
        y = std::make_pair(x.first * (big > 1000000 ? 1 : 3), x.second * (big > 1000000 ? 1 : 3));
    }
    Q a(x.first, x.second), b(y.first, y.second);
    Fraction fa(x.first, x.second), fb(y.first, y.second);
    c.trace() << x.first << "/" << x.second << " and " << y.first << "/" << y.second;
    auto same = [&](const Fraction& f, const Q& q, const char* what) {
        std::ostringstream o;
        o << f;
        VF_CHECK(f.numerator() == (long long)q.n && f.denominator() == (long long)q.d && o.str() == q.text(), "fraction", what << ": " << f << ", expected " << q.text());
        c.eval();
    };
    auto fits = [](const Q& q) { I m = std::numeric_limits<long long>::max(); return q.n <= m && q.n >= -m && q.d <= m; };
    same(fa, a, "canonical form");
    same(-fa, Q(-a.n, a.d), "opposite");
    same(Fraction::abs(fa), Q(a.n < 0 ? -a.n : a.n, a.d), "absolute value");
    same(Fraction(a.text()), a, "its own text");
    same(Fraction(a.text().c_str()), a, "its own text");
    order(c, fa, fb, a.cmp(b), "fractions");
    VF_EQ(fa.integralPart(), (long long)(a.n / a.d), "fraction-integral", "integral part of " << fa);
    VF_EQ(double(fa), double((long long)a.n) / double((long long)a.d), "fraction-double", "as a double");
    auto small = [](I v) { I m = std::numeric_limits<long long>::max(); return v <= m && v >= -m; };
    I p = a.n * b.d, q = a.d * b.n;
    if (small(p + q) && small(p - q) && small(p) && small(q) && small(a.d * b.d) && small(a.n * b.n)) {
        same(fa + fb, Q(p + q, a.d * b.d), "sum");
        same(fa - fb, Q(p - q, a.d * b.d), "difference");
        same(fa * fb, Q(a.n * b.n, a.d * b.d), "product");
        Fraction z = fa;
        z += fb;
        z -= fa;
        if (fits(Q(p + q, a.d * b.d)) && big <= 40000) {
            same(z, b, "sum minus the first");
        }
        if (b.n) {
            same(fa / fb, Q(p, q), "quotient");
            same(fb.inverse(), Q(b.d, b.n), "inverse");
        }
        long long k = r.in(-100, 100);
        if (big <= 40000) {
            same(fa + k, Q(a.n + k * a.d, a.d), "sum with an integer");
            same(k - fa, Q(k * a.d - a.n, a.d), "integer minus fraction");
            same(k * fa, Q(k * a.n, a.d), "product with an integer");
            same(fa.decimalPart(), Q(a.n % a.d, a.d), "decimal part");
            if (a.n) {
                same(k / fa, Q(k * a.d, a.n), "integer over fraction");
            }
            VF_CHECK((fa < k) == (a.cmp(Q(k, 1)) < 0) && (k < fa) == (a.cmp(Q(k, 1)) > 0) && (fa == k) == (a.cmp(Q(k, 1)) == 0), "fraction-order", fa << " with integer " << k);
        }
        c.count("fraction_sums");
    }
    if (!b.n) {
        VF_CHECK(refuses([&] { fb.inverse(); }) && refuses([&] { Fraction(x.first, 0); }), "fraction-zero", "division by zero accepted");
    }
    VF_EQ(refuses([&] { static_cast<void>(static_cast<Fraction::value_type>(fa)); }), a.d != 1, "fraction-integer", fa << " refused as an integer");
    // doubles
    double v = double(x.first) / double(x.second);
    Fraction fv(v);
    VF_CHECK(std::fabs(double(fv) - v) <= 1e-9 * std::max(1., std::fabs(v)), "fraction-from-double", v << " gives " << fv);
    if (big <= 1000) {
        same(fv, a, "fraction of the double of a fraction");
    }
    int nd = int(r.in(0, 9));
    std::string t = std::to_string(r.in(-99999, 99999));
    long long den = 1;
    std::string dec;
    for (int i = 0; i < nd; ++i) {
        dec += char('0' + r.below(10));
        den *= 10;
    }
    bool neg = t[0] == '-';
    long long whole = std::stoll(neg ? t.substr(1) : t), part = nd ? std::stoll(dec) : 0;
    same(Fraction::fromString(nd ? t + "." + dec : t), Q((neg ? -1 : 1) * I(whole * den + part), den), "decimal text");
    // stream
    Buffer buf(64);
    {
        ResizableMemoryStream s(buf);
        s << fa;
    }
    MemoryStream in(buf);
    Fraction back;
    in >> back;
    same(back, a, "read back from a stream");
    c.distinct(a.text() + b.text());
}

/// fractions whose numerators and denominators come near to what 64 bits hold: exact where the result fits, close or refused where it does not
static std::string vf_text(const Fraction& f) {
    std::ostringstream o;
    o << f;
    return o.str();
}

VF_WORKLOAD(fractions_large, 4000, 80000) {
    auto& r = c.rng;
    const long long M = std::numeric_limits<long long>::max();
    auto big = [&]() -> long long {
        switch (r.below(6)) {
            case 0: return M - r.below(4);
            case 1: return 3037000499LL + r.in(-3, 3);
            case 2: return (1LL << r.in(28, 62)) + r.in(-2, 2);
            case 3: return r.in(1, 10);
            case 4: return r.in(1, 4000000000LL);
            default: return 1 + (r.u64() >> r.in(2, 60));
        }
    };
    auto make = [&] { return std::make_pair(big() * (r.chance(0.4) ? -1 : 1), big() * (r.chance(0.1) ? -1 : 1)); };
    auto x = make(), y = make();
    if (r.chance(0.3)) {
        // a neighbour of the first
        y = x;
        auto& z = r.chance(0.5) ? y.first : y.second;
        z -= z > 0 ? 1 : z > -M ? -1 : -2;
        y.first  = std::max(y.first, -M);
        y.second = y.second ? std::max(y.second, -M) : 1;
    }
    Q a(x.first, x.second), b(y.first, y.second);
    if (r.chance(0.1)) {
        b = a;
        y = std::make_pair((long long)a.n, (long long)a.d);
    }
    c.trace() << x.first << "/" << x.second << " and " << y.first << "/" << y.second;
    Fraction fa(x.first, x.second), fb(y.first, y.second);
    VF_CHECK(fa.numerator() == (long long)a.n && fa.denominator() == (long long)a.d && fb.numerator() == (long long)b.n && fb.denominator() == (long long)b.d,
             "fraction", "canonical forms " << fa << " and " << fb << ", expected " << a.text() << " and " << b.text());
    VF_CHECK((fa == fb) == (a.cmp(b) == 0) && (fa != fb) == (a.cmp(b) != 0), "fraction-equal", fa << " == " << fb << " is " << (fa == fb));
    VF_CHECK(Fraction(fa.numerator(), fa.denominator()) == fa && -(-fa) == fa, "fraction-equal", "copies of " << fa);
    long double la = (long double)(long long)a.n / (long double)(long long)a.d, lb = (long double)(long long)b.n / (long double)(long long)b.d;
    I ac = a.n * b.d, bc = b.n * a.d;
    auto fits = [&](I v) { return v <= M && v >= -M; };
    bool exact = fits(ac) && fits(bc);
    if (exact || std::fabs(la - lb) > 1e-12L * std::max(std::fabs(la), std::fabs(lb))) {
        order(c, fa, fb, a.cmp(b), "large fractions");
        c.count(exact ? "large_fractions_compared" : "huge_fractions_compared");
    }
    auto check = [&](const char* what, auto op, I top, I bottom, bool plain, long double ideal, long double scale = 0) {
        bool refused = false;
        Fraction f;
        try {
            f = op();
        }
        catch (BadValue&) {
            refused = true;
        }
        if (plain) {
            Q q(top, bottom);
            VF_CHECK(!refused && f.numerator() == (long long)q.n && f.denominator() == (long long)q.d, "fraction-large",
                     fa << " " << what << " " << fb << " is " << (refused ? "refused" : vf_text(f)) << ", expected " << q.text());
            c.count("large_results");
        }
        else if (!refused) {
            VF_CHECK(std::fabs((long double)double(f) - ideal) <= 2e-6L * std::max(1.L, std::max(scale, std::fabs(ideal))), "fraction-approximate",
                     fa << " " << what << " " << fb << " is " << f << " = " << double(f) << ", expected about " << double(ideal));
            c.count("huge_results");
        }
        else {
            c.count("huge_refused");
        }
        c.eval();
    };
    bool den = fits(a.d * b.d);
    check("+", [&] { return fa + fb; }, ac + bc, a.d * b.d, exact && den && fits(ac + bc), la + lb, std::fabs(la));
    check("-", [&] { return fa - fb; }, ac - bc, a.d * b.d, exact && den && fits(ac - bc), la - lb, std::fabs(la));
    check("*", [&] { return fa * fb; }, a.n * b.n, a.d * b.d, den && fits(a.n * b.n), la * lb);
    if (b.n) {
        check("/", [&] { return fa / fb; }, ac, bc, exact, la / lb);
    }
    c.distinct(c.trace_.str());
}

VF_WORKLOAD(versions, 1000, 20000) {
    auto& r = c.rng;
    auto part = [&] { return r.chance(0.6) ? r.below(4) : r.chance(0.8) ? r.below(1000) : r.u64() >> 1; };
    unsigned long a[3], b[3];
    for (int i = 0; i < 3; ++i) {
        a[i] = part();
        b[i] = r.chance(0.6) ? a[i] : part();
    }
    std::string ta = std::to_string(a[0]) + "." + std::to_string(a[1]) + "." + std::to_string(a[2]);
    c.trace() << ta;
    SemanticVersion va(a[0], a[1], a[2]), vb(b[0], b[1], b[2]);
    int want = std::make_tuple(a[0], a[1], a[2]) < std::make_tuple(b[0], b[1], b[2]) ? -1 : std::make_tuple(a[0], a[1], a[2]) > std::make_tuple(b[0], b[1], b[2]);
    order(c, va, vb, want, "versions");
    VF_EQ(std::string(va), ta, "version-text", "text");
    VF_CHECK(SemanticVersion(ta) == va, "version-text", ta << " read as " << SemanticVersion(ta));
    std::string s = ta;
    for (size_t k = r.in(1, 2); k > 0 && !s.empty(); --k) {
        size_t at = r.below(s.size());
        static const std::string chars = "0123456789..-+ xa";
        switch (r.below(3)) {
            case 0: s.erase(at, 1); break;
            case 1: s.insert(at, 1, r.pick(chars)); break;
            default: s[at] = r.pick(chars);
        }
    }
    auto t = split(s, '.');
    bool valid = t.size() == 3 && digits(t[0]) && digits(t[1]) && digits(t[2]) && t[0].size() < 19 && t[1].size() < 19 && t[2].size() < 19;
    bool huge = t[0].size() >= 19 || (t.size() > 1 && t[1].size() >= 19) || (t.size() > 2 && t[2].size() >= 19);
    c.trace() << " " << vf::repr(s);
    if (!huge) {
        VF_EQ(refuses([&] { SemanticVersion v(s); }), !valid, "version-valid", "refuses " << vf::repr(s));
        if (valid) {
            VF_CHECK(SemanticVersion(s) == SemanticVersion(std::stoul(t[0]), std::stoul(t[1]), std::stoul(t[2])), "version-value", s << " read as " << std::string(SemanticVersion(s)));
        }
    }
    c.eval(4);
    c.count("versions");
    c.distinct(ta + s);
}

VF_WORKLOAD(fixed_strings, 500, 10000) {
    auto& r = c.rng;
    constexpr size_t N = 12;
    using F = FixedString<N>;
    std::string cur, cur2;
    F f, g;
    auto padded = [](std::string s) { s.resize(N); return s; };
    for (size_t i = r.in(2, 12); i > 0; --i) {
        std::string s = r.chance(0.1) ? "" : r.word(N, r.chance(0.5) ? "ab\xff" : "abcdefghij \x80\x01");
        if (r.chance(0.2)) {
            s.resize(N, 'z');
        }
        c.trace() << vf::repr(s) << " ";
        switch (r.below(5)) {
            case 0: f = s; break;
            case 1: f = F(s); break;
            case 2: f = F(s.c_str()); break;
            case 3: { F h(g); g = f; f = h; std::swap(cur, cur2); s = cur; break; }
            default: f = FixedString<N + 3>(s); break;
        }
        cur = s;
        VF_CHECK(f.length() == cur.size() && f.size() == N && f.empty() == cur.empty() && f.asString() == cur && std::string(f) == cur, "fixed-string",
                 vf::repr(f.asString()) << " should be " << vf::repr(cur));
        std::ostringstream o;
        o << f << "|";
        VF_EQ(o.str(), cur + "|", "fixed-print", "printed");
        VF_CHECK(memcmp(f.data(), padded(cur).data(), N) == 0, "fixed-bytes", "bytes after the end of the string");
        order(c, f, g, sgn(memcmp(padded(cur).data(), padded(cur2).data(), N)), "fixed strings");
        std::string l(N + r.in(1, 4), 'x');
        VF_CHECK(refuses([&] { F h(l); }) && refuses([&] { f = l; }) && refuses([&] { F h(l.c_str()); }), "fixed-too-long", "a string too long is accepted");
        VF_EQ(f.asString(), cur, "fixed-too-long", "after a refused assignment");
        c.eval(4);
    }
    c.distinct(c.trace_.str());
}

namespace {

template <class T, class U>
void floatCompare(vf::Case& c) {
    auto& r = c.rng;
    constexpr T tiny = std::numeric_limits<T>::min();
    auto bits = [](T v) { U u; memcpy(&u, &v, sizeof v); return u; };
    auto from = [](U u) { T v; memcpy(&v, &u, sizeof v); return v; };
    const U top = U(1) << (sizeof(U) * 8 - 1);
    // ordinal among normal numbers and zero: zero is 0, the smallest normal 1
    auto ordinal = [&](T v) -> I {
        T m = std::fabs(v);
        if (m < tiny) return 0;
        I o = I(bits(m)) - I(bits(tiny)) + 1;
        return v < 0 ? -o : o;
    };
    T a, b;
    switch (r.below(7)) {
        case 0: a = T(r.real(-10, 10)); break;
        case 1: a = from(U(r.u64())); break;
        case 2: a = T(0); break;
        case 3: a = from(bits(tiny) + U(r.below(20)) - 10); break;
        case 4: a = std::numeric_limits<T>::infinity(); break;
        case 5: a = std::ldexp(T(1), int(r.in(-20, 20))); break;
        default: a = T(r.in(-5, 5));
    }
    if (r.chance(0.3)) a = -a;
    switch (r.below(6)) {
        case 0: b = from(bits(a) + U(r.below(25)) - 12); break;
        case 1: b = -a; break;
        case 2: b = from((bits(tiny) + U(r.below(20)) - 10) | (r.chance(0.5) ? top : 0)); break;
        case 3: b = T(a + r.real(-1e-6, 1e-6)); break;
        case 4: b = r.chance(0.5) ? T(0) : std::numeric_limits<T>::quiet_NaN(); break;
        default: b = from(U(r.u64()));
    }
    T eps = r.chance(0.4) ? T(0) : T(std::pow(10., double(r.in(-20, 0))));
    int ulps = r.chance(0.3) ? 0 : int(r.in(1, 15));
    c.trace() << std::hexfloat << a << " " << b << " eps " << eps << " ulps " << ulps;
    bool want;
    if (a == b) want = true;
    else if (!std::isfinite(a) || !std::isfinite(b)) want = false;
    else {
        T x = std::fabs(a) < tiny ? T(0) : a, y = std::fabs(b) < tiny ? T(0) : b;
        I d = ordinal(a) - ordinal(b);
        want = std::fabs(x - y) <= eps || (d < 0 ? -d : d) <= ulps;
    }
    bool got = types::is_approximately_equal(a, b, eps, ulps), rev = types::is_approximately_equal(b, a, eps, ulps);
    VF_CHECK(got == want && rev == want, "float-compare", std::hexfloat << a << " and " << b << " eps " << eps << " ulps " << ulps << ": " << got << ", reversed " << rev << ", expected " << want);
    c.count(want ? "float_equal" : "float_different");
    c.eval(2);
    c.distinct(c.trace_.str());
}

}  // namespace

VF_WORKLOAD(float_compare, 10000, 300000) {
    if (c.rng.chance(0.5)) {
        floatCompare<double, uint64_t>(c);
    }
    else {
        floatCompare<float, uint32_t>(c);
    }
}

VF_WORKLOAD(uuids, 100, 1000) {
    auto& r = c.rng;
    std::string x = r.bytes(16), y = r.chance(0.3) ? x : r.bytes(16);
    if (r.chance(0.3)) {
        y = x;
        y[r.below(16)] ^= char(1 << r.below(8));
    }
    UUID a, b;
    memcpy(&*a.begin(), x.data(), 16);
    memcpy(&*b.begin(), y.data(), 16);
    static const char* hex = "0123456789abcdef";
    std::string h;
    for (unsigned char ch : x) {
        h += hex[ch >> 4];
        h += hex[ch & 15];
    }
    c.trace() << h;
    VF_EQ(a.asString(), h, "uuid-text", "hexadecimal text");
    UUID d(h);
    VF_CHECK(d == a && !(d != a) && memcmp(&*d.begin(), x.data(), 16) == 0, "uuid-text", "read back from its text: " << d.asString());
    int want = memcmp(x.data(), y.data(), 16);
    VF_CHECK((a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0), "uuid-order", a.asString() << " and " << b.asString());
    VF_CHECK(UUID().isNil() && a.isNil() == (x == std::string(16, 0)), "uuid-nil", "nil");
    c.eval(4);
    c.distinct(h);
}
