// A reference value tree, independent of eckit::Value
#pragma once
#include "vf.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Time.h"
#include "eckit/value/Value.h"

struct Ref {
    enum T { NIL, BOOL, INT, DBL, STR, LIST, MAP, OMAP, DATE, TIME, DATETIME } t = NIL;
    bool b      = false;
    long long i = 0;
    double d    = 0;
    std::string s;
    std::vector<Ref> l;                          // list, or map values
    std::vector<std::string> k;                  // map keys, in order
    int y = 1970, m = 1, dd = 1, sec = 0;

    eckit::Value value() const {
        using eckit::Value;
        switch (t) {
            case NIL: return Value();
            case BOOL: return Value(b);
            case INT: return Value(i);
            case DBL: return Value(d);
            case STR: return Value(s);
            case LIST: {
                std::vector<Value> v;
                for (auto& x : l) {
                    v.push_back(x.value());
                }
                return Value::makeList(v);
            }
            case MAP: {
                eckit::ValueMap v;
                for (size_t j = 0; j < k.size(); ++j) {
                    v[k[j]] = l[j].value();
                }
                return Value::makeMap(v);
            }
            case OMAP: {
                Value v = Value::makeOrderedMap();
                for (size_t j = 0; j < k.size(); ++j) {
                    v[k[j]] = l[j].value();
                }
                return v;
            }
            case DATE: return Value(eckit::Date(y, m, dd));
            case TIME: return Value(eckit::Time(sec / 3600, sec / 60 % 60, sec % 60));
            case DATETIME: return Value(eckit::DateTime(eckit::Date(y, m, dd), eckit::Time(sec / 3600, sec / 60 % 60, sec % 60)));
        }
        return Value();
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        switch (t) {
            case NIL: o << "nil"; break;
            case BOOL: o << (b ? "true" : "false"); break;
            case INT: o << i; break;
            case DBL: o << d << "f"; break;
            case STR: o << '"' << vf::repr(s) << '"'; break;
            case LIST:
                o << "[";
                for (auto& x : l) {
                    o << x.str() << ",";
                }
                o << "]";
                break;
            case MAP:
            case OMAP:
                o << (t == MAP ? "m{" : "o{");
                for (size_t j = 0; j < k.size(); ++j) {
                    o << vf::repr(k[j]) << ":" << l[j].str() << ",";
                }
                o << "}";
                break;
            case DATE: o << "date(" << y << "," << m << "," << dd << ")"; break;
            case TIME: o << "time(" << sec << ")"; break;
            case DATETIME: o << "datetime(" << y << "," << m << "," << dd << "," << sec << ")"; break;
        }
        return o.str();
    }
    size_t nodes() const {
        size_t n = 1;
        for (auto& x : l) {
            n += x.nodes();
        }
        return n;
    }
    /// compare with an eckit Value through its accessors; a description of the difference, or empty
    std::string diff(const eckit::Value& v, const std::string& path = "$", bool exactType = true) const {
        auto bad = [&](const std::string& what) {
            std::ostringstream o;
            o << path << ": expected " << str() << ", got " << v << " (" << v.typeName() << "): " << what;
            return o.str();
        };
        switch (t) {
            case NIL: return v.isNil() ? "" : bad("not nil");
            case BOOL: return v.isBool() && bool(v) == b ? "" : bad("bool");
            case INT: return v.isNumber() && (long long)v == i ? "" : bad("number");
            case DBL:
                if (!exactType && v.isNumber()) {
                    return (double)(long long)v == d ? "" : bad("number for double");
                }
                return v.isDouble() && (double(v) == d) ? "" : bad("double");
            case STR: return v.isString() && std::string(v) == s ? "" : bad("string");
            case LIST: {
                if (!v.isList() || v.size() != l.size()) {
                    return bad("list size");
                }
                for (size_t j = 0; j < l.size(); ++j) {
                    std::string e = l[j].diff(v[int(j)], path + "[" + std::to_string(j) + "]", exactType);
                    if (!e.empty()) {
                        return e;
                    }
                }
                return "";
            }
            case MAP:
            case OMAP: {
                if (exactType ? (t == MAP ? !v.isMap() : !v.isOrderedMap()) : !(v.isMap() || v.isOrderedMap())) {
                    return bad("map type");
                }
                eckit::Value keys = v.keys();
                if (keys.size() != k.size()) {
                    return bad("number of keys");
                }
                std::vector<std::string> want = k;
                if (t == MAP) {
                    std::sort(want.begin(), want.end());
                }
                for (size_t j = 0; j < k.size(); ++j) {
                    if (std::string(keys[int(j)]) != want[j]) {
                        return bad("key " + std::to_string(j) + " is " + std::string(keys[int(j)]) + ", expected " + want[j]);
                    }
                    if (!v.contains(k[j])) {
                        return bad("contains " + k[j]);
                    }
                    const eckit::Value& cv = v;
                    std::string e          = l[j].diff(cv[k[j]], path + "." + k[j], exactType);
                    if (!e.empty()) {
                        return e;
                    }
                }
                return "";
            }
            case DATE: return v.isDate() && v.as<eckit::Date>() == eckit::Date(y, m, dd) ? "" : bad("date");
            case TIME: return v.isTime() && v.as<eckit::Time>() == eckit::Time(sec / 3600, sec / 60 % 60, sec % 60) ? "" : bad("time");
            case DATETIME:
                return v.isDateTime() && v.as<eckit::DateTime>() == eckit::DateTime(eckit::Date(y, m, dd), eckit::Time(sec / 3600, sec / 60 % 60, sec % 60)) ? "" : bad("datetime");
        }
        return "";
    }
};

struct RefGen {
    vf::Rng& r;
    bool dates      = false;
    bool plainMaps  = false;
    bool bigInts    = true;
    bool binaryStrings = true;
    bool nul        = true;

    std::string string() {
        switch (r.below(6)) {
            case 0: return "";
            case 1: return r.word(8);
            case 2: {  // valid utf-8 of several lengths
                static const char* u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a", "z"};
                std::string s;
                for (int i = 0, n = r.in(1, 6); i < n; ++i) {
                    s += u[r.below(5)];
                }
                return s;
            }
            case 3: {
                static const char* e[] = {"\"", "\\", "/", "\n", "\t", "\b", "\f", ",", ":", "{", "}", "[", "]", " ", "#", "'", "true", "null", "12", "-", "\\u0041", "&", "*", "%", "@", "|", ">"};
                std::string s;
                for (int i = 0, n = r.in(1, 8); i < n; ++i) {
                    s += e[r.below(sizeof(e) / sizeof(e[0]))];
                }
                return s;
            }
            case 4: {
                std::string s;
                for (int i = 0, n = r.in(1, 10); i < n; ++i) {
                    s += char(r.in(nul ? 0 : 1, 127));
                }
                return binaryStrings ? s : r.word(5);
            }
            default: return r.word(30, "abcdefXYZ0123456789 _-");
        }
    }
    double dbl() {
        switch (r.below(5)) {
            case 0: return r.in(-1000, 1000);
            case 1: return r.real(-1, 1);
            case 2: return std::ldexp(r.real(-1, 1), r.in(-300, 300));
            case 3: return r.in(-100, 100) / 8.0;
            default: return r.real(-1e6, 1e6);
        }
    }
    long long num() {
        switch (r.below(bigInts ? 4 : 2)) {
            case 0: return r.in(-10, 10);
            case 1: return r.in(-1000000, 1000000);
            case 2: return (long long)r.u64();
            default: {
                static const long long e[] = {LLONG_MAX, LLONG_MIN, INT_MAX, INT_MIN, (long long)INT_MAX + 1, (long long)UINT_MAX, (1LL << 53) + 1};
                return e[r.below(7)];
            }
        }
    }
    Ref make(int depth) {
        Ref v;
        int kind = r.below(depth > 0 ? 12 : 6);
        if (kind < 6 && dates && r.chance(0.3)) {
            v.t  = Ref::T(Ref::DATE + r.below(3));
            v.y  = r.in(1800, 2200);
            v.m  = r.in(1, 12);
            v.dd = r.in(1, 28);
            v.sec = r.in(0, 86399);
            return v;
        }
        switch (kind) {
            case 0: v.t = Ref::NIL; break;
            case 1: v.t = Ref::BOOL; v.b = r.chance(0.5); break;
            case 2: v.t = Ref::INT; v.i = num(); break;
            case 3: v.t = Ref::DBL; v.d = dbl(); break;
            case 4:
            case 5: v.t = Ref::STR; v.s = string(); break;
            case 6:
            case 7:
            case 8:
                v.t = Ref::LIST;
                for (int i = 0, n = r.in(0, 5); i < n; ++i) {
                    v.l.push_back(make(depth - 1));
                }
                break;
            default:
                v.t = plainMaps && r.chance(0.4) ? Ref::MAP : Ref::OMAP;
                for (int i = 0, n = r.in(0, 5); i < n; ++i) {
                    std::string key = r.chance(0.7) ? r.word(4) : string();
                    if (std::find(v.k.begin(), v.k.end(), key) == v.k.end()) {
                        v.k.push_back(key);
                        v.l.push_back(make(depth - 1));
                    }
                }
                break;
        }
        return v;
    }
};
