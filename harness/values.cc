// Value semantics: copies, order, conversions, arithmetic, maps, streams
#include "value_gen.h"

#include "eckit/types/DateTime.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/utils/MD5.h"

using namespace eckit;

static std::string digest(const Value& v) {
    MD5 h;
    v.hash(h);
    return h.digest();
}

VF_WORKLOAD(value_trees, 500, 8000) {
    RefGen g{c.rng};
    g.dates     = true;
    g.plainMaps = true;
    Ref ref     = g.make(c.rng.in(0, 4));
    c.trace() << ref.str();
    Value v = ref.value();
    auto chk = [&](const Value& x, const char* key, const char* what) {
        std::string d = ref.diff(x);
        VF_CHECK(d.empty(), key, what << ": " << d);
        c.eval();
    };
    chk(v, "value-build", "built value");
    Value copy(v), assigned;
    assigned = v;
    Value cl = v.clone();
    chk(copy, "value-copy", "copy");
    chk(cl, "value-clone", "clone");
    chk(assigned, "value-assign", "assigned");
    VF_CHECK(v == copy && v == cl && v.compare(cl) == 0 && !(v != cl) && !(v < cl) && !(v > cl) && v <= cl && v >= cl, "value-equal", "a value and its copies do not compare equal");
    VF_EQ(digest(v), digest(cl), "value-hash", "hash of an equal value");
    // streams
    Buffer b(16);
    size_t len;
    {
        ResizableMemoryStream s(b);
        s << v;
        s << v;
        len = s.position();
    }
    {
        MemoryStream s(b.data(), len);
        Value a(s), d(s);
        chk(a, "value-stream", "value read back from a stream");
        chk(d, "value-stream", "second value read back from a stream");
        VF_CHECK(a == v, "value-stream-eq", "value read back from a stream is not equal");
    }
    if (ref.nodes() > 1) {
        c.distinct(c.trace_.str());
        c.count("value_trees");
    }
}

// mutation through one name never shows through another
VF_WORKLOAD(value_sharing, 300, 6000) {
    RefGen g{c.rng};
    g.plainMaps = true;
    std::vector<Value> v;
    std::vector<Ref> m;
    auto setAt = [&](Ref& r, const std::string& k, const Ref& x) {
        auto it = std::find(r.k.begin(), r.k.end(), k);
        if (it == r.k.end()) {
            r.k.push_back(k);
            r.l.push_back(x);
        }
        else {
            r.l[it - r.k.begin()] = x;
        }
    };
    for (int i = 0, n = c.rng.in(2, 5); i < n; ++i) {
        m.push_back(g.make(3));
        v.push_back(m.back().value());
    }
    for (int i = 0, n = c.rng.in(5, 60); i < n; ++i) {
        size_t a = c.rng.below(v.size()), b = c.rng.below(v.size());
        switch (c.rng.below(5)) {
            case 0:
                v[a] = v[b];
                m[a] = m[b];
                c.trace() << " assign " << a << b;
                break;
            case 1: {
                // walk down to a container and modify it in place
                Value* p = &v[a];
                Ref* q   = &m[a];
                for (int depth = c.rng.below(4); depth > 0 && !q->l.empty(); --depth) {
                    size_t j = c.rng.below(q->l.size());
                    p        = q->t == Ref::LIST ? &(*p)[int(j)] : &(*p)[q->k[j]];
                    q        = &q->l[j];
                }
                Ref x = c.rng.chance(0.5) ? m[b] : g.make(1);
                if (x.nodes() > 100) {
                    x = Ref();
                }
                Value xv = x.value();
                if (q->t == Ref::LIST && (q->l.empty() || c.rng.chance(0.5))) {
                    p->append(xv);
                    q->l.push_back(x);
                    c.trace() << " append";
                }
                else if (q->t == Ref::LIST) {
                    size_t j = c.rng.below(q->l.size());
                    (*p)[int(j)] = xv;
                    q->l[j] = x;
                    c.trace() << " setlist";
                }
                else if (q->t == Ref::MAP || q->t == Ref::OMAP) {
                    if (!q->k.empty() && c.rng.chance(0.3)) {
                        size_t j = c.rng.below(q->k.size());
                        Value old = p->remove(q->k[j]);
                        VF_CHECK(q->l[j].diff(old).empty(), "value-remove", "removed value: " << q->l[j].diff(old));
                        q->k.erase(q->k.begin() + j);
                        q->l.erase(q->l.begin() + j);
                        c.trace() << " remove";
                        c.count("map_removes");
                    }
                    else {
                        std::string k = c.rng.word(2, "abc");
                        (*p)[k] = xv;
                        setAt(*q, k, x);
                        c.trace() << " set";
                    }
                }
                else {
                    *p = xv;
                    *q = x;
                    c.trace() << " replace";
                }
                c.count("mutations");
                break;
            }
            case 2:
                v[a] = v[b].clone();
                m[a] = m[b];
                break;
            case 3: {
                // put a value inside another
                if (m[a].t == Ref::LIST && a != b && m[a].nodes() + m[b].nodes() < 200) {
                    v[a].append(v[b]);
                    m[a].l.push_back(m[b]);
                    c.trace() << " nest";
                }
                break;
            }
            case 4:
                if (m[a].nodes() > 150) {
                    m[a] = Ref();
                    v[a] = Value();
                }
                break;
        }
        for (size_t j = 0; j < v.size(); ++j) {
            std::string d = m[j].diff(v[j]);
            VF_CHECK(d.empty(), "value-sharing", "value " << j << " after step " << i << ": " << d);
            c.eval();
        }
    }
    c.distinct(c.trace_.str());
}

VF_WORKLOAD(value_order, 400, 6000) {
    RefGen g{c.rng};
    g.dates     = true;
    g.plainMaps = true;
    bool close  = c.rng.chance(0.3);  // numbers and doubles that are nearly the same
    long long around = c.rng.pick<long long>({1LL << 53, -(1LL << 53), LLONG_MAX, LLONG_MIN, 1LL << 62, 0, (1LL << 53) + (1LL << 20)});
    auto scalar = [&](Ref& x) {
        double d = double(around);
        if (c.rng.chance(0.5)) {
            x.t = Ref::INT;
            unsigned long long u = (unsigned long long)around + (unsigned long long)c.rng.in(-3, 3);
            x.i = (long long)u;
            if ((around > 0) != (x.i > 0) && around) x.i = around;
        }
        else {
            x.t = Ref::DBL;
            switch (c.rng.below(5)) {
                case 0: x.d = std::nextafter(d, 1e300); break;
                case 1: x.d = std::nextafter(d, -1e300); break;
                case 2: x.d = c.rng.chance(0.5) ? INFINITY : -INFINITY; break;
                case 3: x.d = d + 0.5; break;
                default: x.d = d;
            }
        }
        c.count("close_numbers");
    };
    std::vector<Ref> refs;
    for (int i = 0; i < 8; ++i) {
        Ref r = g.make(c.rng.in(0, 2));
        if (i && c.rng.chance(0.4)) {
            // a neighbour of an existing one
            r = refs[c.rng.below(refs.size())];
            if (!r.l.empty()) {
                size_t j = c.rng.below(r.l.size());
                if (c.rng.chance(0.5)) {
                    r.l[j] = g.make(0);
                }
                else if (r.t == Ref::LIST) {
                    r.l.erase(r.l.begin() + j);
                }
                else {
                    r.l.erase(r.l.begin() + j);
                    r.k.erase(r.k.begin() + j);
                }
            }
            else if (r.t == Ref::INT) {
                r.i = (long long)((unsigned long long)r.i + (unsigned long long)c.rng.in(-1, 1));
            }
        }
        if (close && r.l.empty()) scalar(r = Ref());
        refs.push_back(r);
    }
    std::vector<Value> v;
    for (auto& r : refs) {
        v.push_back(r.value());
        c.trace() << r.str() << "; ";
    }
    auto sgn = [](int x) { return (x > 0) - (x < 0); };
    size_t n = v.size();
    std::vector<std::vector<int>> cmp(n, std::vector<int>(n));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            cmp[i][j] = sgn(v[i].compare(v[j]));
            c.eval();
            VF_CHECK((v[i] == v[j]) == (cmp[i][j] == 0) && (v[i] < v[j]) == (cmp[i][j] < 0) && (v[i] > v[j]) == (cmp[i][j] > 0), "value-operators", "operators disagree with compare for " << refs[i].str() << " and " << refs[j].str());
        }
    }
    for (size_t i = 0; i < n; ++i) {
        VF_CHECK(cmp[i][i] == 0, "value-reflexive", refs[i].str() << " does not equal itself");
        for (size_t j = 0; j < n; ++j) {
            VF_CHECK(cmp[i][j] == -cmp[j][i], "value-antisymmetric", "compare(" << refs[i].str() << ", " << refs[j].str() << ") = " << cmp[i][j] << " but reversed " << cmp[j][i]);
            for (size_t k = 0; k < n; ++k) {
                VF_CHECK(!(cmp[i][j] <= 0 && cmp[j][k] <= 0) || cmp[i][k] <= 0, "value-transitive", refs[i].str() << " <= " << refs[j].str() << " <= " << refs[k].str() << " but not first <= last");
            }
            if (refs[i].t == refs[j].t) {
                auto cm = [&](auto a, auto b) { return (a > b) - (a < b); };
                int want = 9;
                switch (refs[i].t) {
                    case Ref::INT: want = cm(refs[i].i, refs[j].i); break;
                    case Ref::DBL: want = cm(refs[i].d, refs[j].d); break;
                    case Ref::STR: want = sgn(refs[i].s.compare(refs[j].s)); break;
                    case Ref::BOOL: want = cm(refs[i].b, refs[j].b); break;
                    case Ref::NIL: want = 0; break;
                    default: break;
                }
                VF_CHECK(want == 9 || want == cmp[i][j], "value-order", "compare(" << refs[i].str() << ", " << refs[j].str() << ") = " << cmp[i][j] << ", expected " << want);
            }
            if (refs[i].t == Ref::INT && refs[j].t == Ref::DBL) {
                long double x = refs[i].i, y = refs[j].d;  // both exact
                VF_EQ(cmp[i][j], (x > y) - (x < y), "value-order", "compare(" << refs[i].str() << ", " << refs[j].str() << ")");
            }
            VF_CHECK((cmp[i][j] == 0) == (refs[i].str() == refs[j].str()) || cmp[i][j] == 0, "value-equality", "equal values compare different: " << refs[i].str());
        }
    }
    c.distinct(c.trace_.str());
}

VF_WORKLOAD(value_arith, 400, 6000) {
    RefGen g{c.rng};
    for (int i = 0; i < 20; ++i) {
        long long a = g.num(), b = g.num(), r;
        Value A(a), B(b);
        c.eval();
        if (!__builtin_add_overflow(a, b, &r)) {
            VF_EQ((long long)(A + B), r, "value-add", a << "+" << b);
        }
        if (!__builtin_sub_overflow(a, b, &r)) {
            VF_EQ((long long)(A - B), r, "value-sub", a << "-" << b);
        }
        if (!__builtin_mul_overflow(a, b, &r)) {
            VF_EQ((long long)(A * B), r, "value-mul", a << "*" << b);
        }
        if (b && !(a == LLONG_MIN && b == -1)) {
            VF_EQ((long long)(A / B), a / b, "value-div", a << "/" << b);
            VF_EQ((long long)(A % B), a % b, "value-mod", a << "%" << b);
        }
        VF_EQ(A < B, a < b, "value-less", a << " < " << b);
        VF_EQ(A == B, a == b, "value-eq", a << " == " << b);
        VF_EQ(A > B, a > b, "value-greater", a << " > " << b);
        VF_EQ((long long)A, a, "value-int", "as long long");
        VF_EQ(std::string(A), std::to_string(a), "value-int-string", "as string");
        VF_EQ(bool(A), a != 0, "value-int-bool", "as bool");
        VF_EQ(double(A), double(a), "value-int-double", "as double");
        double x = g.dbl(), y = g.dbl();
        Value X(x), Y(y);
        VF_EQ(double(X + Y), x + y, "value-fadd", x << "+" << y);
        VF_EQ(double(X - Y), x - y, "value-fsub", x << "-" << y);
        VF_EQ(double(X * Y), x * y, "value-fmul", x << "*" << y);
        if (y != 0) {
            VF_EQ(double(X / Y), x / y, "value-fdiv", x << "/" << y);
        }
        VF_EQ(X < Y, x < y, "value-fless", x << " < " << y);
        VF_EQ(X == Y, x == y, "value-feq", x << " == " << y);
        long long s = c.rng.in(-1000000, 1000000);
        Value S(s);
        auto mixed = [&](const Value& l, const Value& r, double lv, double rv) {
            // some mixed operations are not provided; those that are must be exact
            auto tryit = [&](auto op, double want, const char* name) {
                double got;
                try {
                    got = op();
                }
                catch (Exception&) {
                    return;
                }
                VF_EQ(got, want, "value-mixed", lv << name << rv);
                c.count("mixed_arith");
            };
            tryit([&] { return double(l + r); }, lv + rv, "+");
            tryit([&] { return double(l - r); }, lv - rv, "-");
            tryit([&] { return double(l * r); }, lv * rv, "*");
            if (rv != 0) {
                tryit([&] { return double(l / r); }, lv / rv, "/");
            }
        };
        mixed(S, X, s, x);
        mixed(X, S, x, s);
        VF_EQ(S < X, double(s) < x, "value-mixed-less", s << " < " << x);
        VF_EQ(X < S, x < double(s), "value-mixed-less", x << " < " << s);
        std::string p = c.rng.word(5), q = c.rng.word(5);
        VF_EQ(std::string(Value(p) + Value(q)), p + q, "value-concat", "concatenation");
        Value L = Value::makeList(), M = Value::makeList();
        L.append(A);
        M.append(X);
        M.append(Value(p));
        Value LM = L + M;
        VF_EQ(LM.size(), 3u, "value-list-add", "size of list sum");
        VF_CHECK(LM[0] == A && LM[1] == X && LM[2] == Value(p), "value-list-add", "elements of a list sum");
        VF_EQ(L.size(), 1u, "value-list-operand", "operand changed");
        VF_CHECK(LM.head() == A && LM.tail().size() == 2 && LM.tail()[0] == X, "value-head-tail", "head or tail of a list");
        c.distinct(vf::mix(a) ^ vf::mix(b));
    }
    // bad conversions are refused
    Value str("not a number"), map = Value::makeMap(), list = Value::makeList();
    for (auto& bad : {map, list}) {
        bool threw = false;
        try {
            long long x = bad;
            (void)x;
        }
        catch (Exception&) {
            threw = true;
        }
        VF_CHECK(threw, "value-bad-conversion", bad << " converted to a number");
    }
    // all operations between values of any types: a value, or refused; the operands remain
    auto& rr = c.rng;
    std::vector<Value> any{Value(), Value(true), Value(rr.in(1, 100)), Value(0.5 + double(rr.below(10))), Value(rr.word(5)), Value::makeList(), Value::makeMap(), Value::makeOrderedMap(), Value(Date(20240229)), Value(Time(1, 2, 3)), Value(DateTime(Date(20240229), Time(3, 2, 1)))};
    any[5].append(Value(1));
    any[6]["a"] = 1;
    any[7]["b"] = 2;
    auto text = [](const Value& v) {
        std::ostringstream o;
        o << v;
        v.dump(o);
        return o.str();
    };
    for (int i = 0; i < 60; ++i) {
        const Value a = rr.pick(any), b = rr.pick(any);
        std::string before = text(a) + text(b), result;
        int op = int(rr.below(5));
        auto make = [&] { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : a % b; };
        bool gave = false;
        Value v;
        if (op >= 3 && b.isNumber() && !b.isDouble() && (long long)b == 0) continue;
        try {
            v    = make();
            gave = true;
            c.count("operations done");
        }
        catch (Exception&) {
            c.count("operations refused");
        }
        if (gave) {
            result = text(v);
            Value w(a);
            op == 0 ? w += b : op == 1 ? w -= b : op == 2 ? w *= b : op == 3 ? w /= b : w %= b;
            VF_EQ(text(w), result, "value-operator-assign", "operation " << op << " of " << a << " and " << b);
            VF_CHECK(w == v || a.isDouble() || b.isDouble(), "value-operator-assign", "operation " << op << " of " << a << " and " << b << ": " << w << " and " << v);
        }
        VF_EQ(text(a) + text(b), before, "value-operand", "operands of operation " << op);
        c.eval();
        // what this gives: the sum of a list and a value, of maps
        if (gave && op == 0 && a.isList() && b.isList()) VF_EQ(v.size(), a.size() + b.size(), "value-list-add", a << " + " << b);
        if (gave && op == 1 && a.isDate() && b.isNumber() && !b.isDouble()) VF_CHECK(Date(v) == Date(a) - (long)(long long)b, "value-date", a << " - " << b << " is " << v);
        if (gave && op == 0 && a.isDate() && b.isNumber() && !b.isDouble()) VF_CHECK(Date(v) == Date(a) + (long)(long long)b, "value-date", a << " + " << b << " is " << v);
        if (gave && op == 1 && a.isDate() && b.isDate()) VF_EQ((long long)v, (long long)(Date(a) - Date(b)), "value-date", a << " - " << b);
    }
    c.count("arith", 20);
}
