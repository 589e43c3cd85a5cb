// Dense and sparse linear algebra, tensors, small matrices and convex hulls against direct computation
#include <sstream>
#include <thread>

#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/linalg/LinearAlgebra.h"
#include "eckit/linalg/Matrix.h"
#include "eckit/linalg/SparseMatrix.h"
#include "eckit/memory/MemoryBuffer.h"
#include "eckit/linalg/Tensor.h"
#include "eckit/linalg/Triplet.h"
#include "eckit/linalg/Vector.h"
#include "eckit/linalg/allocator/NonOwningAllocator.h"
#include "eckit/linalg/allocator/StandardContainerAllocator.h"
#include "eckit/maths/ConvexHullN.h"
#include "eckit/maths/Functions.h"
#include "eckit/maths/Matrix.h"
#include "eckit/maths/Matrix3.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"

using namespace eckit;
using namespace eckit::linalg;
using vf::refuses;

namespace {

double num(vf::Rng& r) {
    switch (r.below(6)) {
        case 0: return 0;
        case 1: return double(r.in(-9, 9));
        case 2: return r.in(-100, 100) / 8.0;
        case 3: return std::ldexp(r.real(-1, 1), int(r.in(-20, 20)));
        default: return r.real(-10, 10);
    }
}
bool nearly(double got, long double want, long double scale, size_t n) {
    return std::fabs(got - want) <= (n + 4) * 4 * DBL_EPSILON * (scale + 1e-300L);
}

std::vector<std::string> names(std::ostream& (*list)(std::ostream&)) {
    std::ostringstream o;
    list(o);
    std::vector<std::string> out;
    std::string s = o.str(), w;
    for (char ch : s + ",") {
        if (ch == ',') {
            out.push_back(w);
            w.clear();
        }
        else if (ch != ' ') w += ch;
    }
    return out;
}

struct M {  // row by row
    size_t r, c;
    std::vector<double> v;
    M(size_t rows = 0, size_t cols = 0) : r(rows), c(cols), v(rows * cols) {}
    double& at(size_t i, size_t j) { return v[i * c + j]; }
    double at(size_t i, size_t j) const { return v[i * c + j]; }
};
M random(vf::Rng& r, size_t rows, size_t cols) {
    M m(rows, cols);
    for (auto& x : m.v) x = num(r);
    return m;
}
Matrix dense(const M& m) {
    Matrix d(m.r, m.c);
    for (size_t i = 0; i < m.r; ++i) {
        for (size_t j = 0; j < m.c; ++j) d(i, j) = m.at(i, j);
    }
    return d;
}
Vector dense(const std::vector<double>& v) {
    Vector d(v.size());
    for (size_t i = 0; i < v.size(); ++i) d[i] = v[i];
    return d;
}
void same(vf::Case& c, const Matrix& d, const M& m, const char* key, const std::string& what) {
    VF_CHECK(d.rows() == m.r && d.cols() == m.c && d.size() == m.v.size(), key, what << ": shape");
    for (size_t i = 0; i < m.r; ++i) {
        for (size_t j = 0; j < m.c; ++j) VF_CHECK(d(i, j) == m.at(i, j) && d[j * m.r + i] == m.at(i, j), key, what << ": element " << i << "," << j);
    }
}
std::vector<double> randv(vf::Rng& r, size_t n) {
    std::vector<double> v(n);
    for (auto& x : v) x = num(r);
    return v;
}

const double UNSET = -987654.25;

}  // namespace

VF_WORKLOAD(dense, 400, 5000) {
    vf::Rng& r = c.rng;
    static const std::vector<std::string> backends = names(LinearAlgebraDense::list);
    size_t n = r.in(1, 9), m = r.in(1, 9), k = r.in(1, 9);
    if (r.chance(0.05)) n = r.in(30, 70), m = r.in(30, 70), k = r.in(30, 70);
    M a = random(r, n, k), b = random(r, k, m);
    std::vector<double> x = randv(r, k), y = randv(r, k);
    Matrix A = dense(a), B = dense(b);
    Vector X = dense(x), Y = dense(y);
    std::string name = r.pick(backends);
    c.trace() << name << " " << n << "x" << k << "x" << m;
    VF_CHECK(LinearAlgebraDense::hasBackend(name), "backend", name);
    bool dflt                    = r.chance(0.3);
    const LinearAlgebraDense& la = dflt ? LinearAlgebraDense::backend(name) : LinearAlgebraDense::getBackend(name);
    if (dflt) VF_EQ(LinearAlgebraDense::name(), name, "backend", "name of the default");

    {
        long double want = 0, scale = 0;
        for (size_t i = 0; i < k; ++i) want += (long double)x[i] * y[i], scale += std::fabs((long double)x[i] * y[i]);
        double got = dflt ? LinearAlgebra::dot(X, Y) : la.dot(X, Y);
        VF_CHECK(nearly(got, want, scale, k), "dot", name << ": " << got << " instead of " << double(want));
    }
    {
        std::vector<double> out(n + 2, UNSET);  // a view on somebody else's memory, with a margin
        Vector V(out.data() + 1, n);
        dflt ? LinearAlgebra::gemv(A, X, V) : la.gemv(A, X, V);
        for (size_t i = 0; i < n; ++i) {
            long double want = 0, scale = 0;
            for (size_t j = 0; j < k; ++j) want += (long double)a.at(i, j) * x[j], scale += std::fabs((long double)a.at(i, j) * x[j]);
            VF_CHECK(nearly(out[i + 1], want, scale, k), "gemv", name << ": " << out[i + 1] << " instead of " << double(want));
        }
        VF_CHECK(out[0] == UNSET && out[n + 1] == UNSET, "gemv", name << " wrote outside");
    }
    {
        std::vector<double> out(n * m + 2, UNSET);
        Matrix C(out.data() + 1, n, m);
        dflt ? LinearAlgebra::gemm(A, B, C) : la.gemm(A, B, C);
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < m; ++j) {
                long double want = 0, scale = 0;
                for (size_t l = 0; l < k; ++l) want += (long double)a.at(i, l) * b.at(l, j), scale += std::fabs((long double)a.at(i, l) * b.at(l, j));
                VF_CHECK(nearly(C(i, j), want, scale, k), "gemm", name << ": " << C(i, j) << " instead of " << double(want));
            }
        }
        VF_CHECK(out[0] == UNSET && out[n * m + 1] == UNSET, "gemm", name << " wrote outside");
    }
    // the arguments are not changed
    same(c, A, a, "arguments", "A");
    same(c, B, b, "arguments", "B");
    VF_CHECK(std::equal(x.begin(), x.end(), X.begin()) && X.size() == k && X.rows() == k && X.cols() == 1, "arguments", "x");
    // sizes that do not match
    if (r.chance(0.1)) {
        Vector bad(k + r.in(1, 2)), ok(n);
        Matrix badm(n, m + 1), badr(n + 1, m), C(n, m), badB(k + 1, m);
        VF_CHECK(refuses([&] { la.dot(X, bad); }), "mismatch", name << " dot");
        VF_CHECK(refuses([&] { la.gemv(A, bad, ok); }), "mismatch", name << " gemv");
        Vector badout(n + 1);
        VF_CHECK(refuses([&] { la.gemv(A, X, badout); }), "mismatch", name << " gemv result");
        VF_CHECK(refuses([&] { la.gemm(A, B, badm); }), "mismatch", name << " gemm columns");
        VF_CHECK(refuses([&] { la.gemm(A, B, badr); }), "mismatch", name << " gemm rows");
        VF_CHECK(refuses([&] { la.gemm(A, badB, C); }), "mismatch", name << " gemm inner");
        VF_CHECK(!LinearAlgebraDense::hasBackend("nothere") && refuses([&] { LinearAlgebraDense::getBackend("nothere"); }), "backend", "one that does not exist");
        std::string before = LinearAlgebraDense::name();
        VF_CHECK(refuses([&] { LinearAlgebraDense::backend("nothere"); }), "backend", "one that does not exist");
        VF_EQ(LinearAlgebraDense::name(), before, "backend", "default after a wrong one");
    }
    c.eval(3);
    c.count("products_" + name);
    c.distinct(c.trace_.str() + std::to_string(a.v[0]));
}

VF_WORKLOAD(arrays, 300, 4000) {
    vf::Rng& r = c.rng;
    size_t n = r.in(1, 12), m = r.in(1, 12);
    M a = random(r, n, m);
    Matrix A = dense(a);
    std::vector<double> x = randv(r, n);
    Vector X = dense(x);
    // copies are independent, views are not
    Matrix copy(A), assigned, view(A.data(), n, m);
    if (r.chance(0.5)) assigned = Matrix(2, 3);
    assigned = A;
    Vector vc(X), va, vv(X.data(), n);
    if (r.chance(0.5)) va = Vector(r.in(1, 5));
    va = X;
    same(c, copy, a, "copy", "matrix copy");
    same(c, assigned, a, "copy", "matrix assigned");
    size_t i = r.below(n), j = r.below(m);
    double was = a.at(i, j), wasx = x[i];
    A(i, j) = 77;
    X[i]    = 78;
    VF_CHECK(copy(i, j) == was && assigned(i, j) == was && vc[i] == wasx && va[i] == wasx, "copy", "a copy follows the original");
    VF_CHECK(view(i, j) == 77 && vv[i] == 78, "view", "a view does not follow its memory");
    view(i, j) = was;
    vv[i]      = wasx;
    same(c, A, a, "view", "written through a view");
    VF_EQ(X[i], wasx, "view", "written through a view");
    // assigning to a view makes it a copy, and leaves the memory alone
    M other   = random(r, r.in(1, 5), r.in(1, 5));
    Matrix v2(A.data(), n, m);
    v2 = dense(other);
    same(c, v2, other, "view", "assigned view");
    same(c, A, a, "view", "memory of the assigned view");
    // streams
    Buffer buf(16);
    size_t len;
    {
        ResizableMemoryStream s(buf);
        s << A << X << dense(other);
        len = s.position();
    }
    {
        MemoryStream s(buf.data(), len);
        Matrix d(s);
        Vector e(s);
        Matrix f(s);
        same(c, d, a, "stream", "matrix from a stream");
        VF_CHECK(e.size() == n && std::equal(x.begin(), x.end(), e.begin()), "stream", "vector from a stream");
        same(c, f, other, "stream", "second matrix from a stream");
    }
    if (len > 40) {
        MemoryStream s(buf.data(), r.below(len - 8));
        VF_CHECK(refuses([&] {
                     Matrix d(s);
                     Vector e(s);
                     Matrix f(s);
                 }),
                 "stream", "a stream that ends too early");
    }
    // swap, resize, fill
    A.swap(assigned);
    Matrix B = dense(other);
    B.swap(A);
    same(c, B, a, "swap", "swapped");
    same(c, A, other, "swap", "swapped back");
    B.resize(m, n);
    VF_CHECK(B.rows() == m && B.cols() == n && size_t(B.end() - B.begin()) == n * m, "resize", "same size");
    B.resize(n + 1, m + 2);
    VF_CHECK(B.rows() == n + 1 && B.cols() == m + 2, "resize", "another size");
    double f = num(r);
    B.fill(f);
    for (auto z : B) VF_EQ(z, f, "fill", "matrix");
    B.setZero();
    for (auto z : B) VF_EQ(z, 0.0, "fill", "zero");
    X.resize(m);
    VF_EQ(X.size(), m, "resize", "vector");
    X.fill(f);
    for (auto z : X) VF_EQ(z, f, "fill", "vector");
    X.setZero();
    for (auto z : X) VF_EQ(z, 0.0, "fill", "zero");
    VF_CHECK(refuses([&] { Matrix z(0, 3); }), "resize", "a matrix without elements");
    Vector none, none2(none);
    VF_EQ(none2.size(), size_t(0), "copy", "an empty vector");
    // rounding
    size_t p = r.below(1000), q = r.in(1, 50);
    VF_CHECK(eckit::round(p, q) % q == 0 && eckit::round(p, q) >= p && eckit::round(p, q) < p + q, "round", p << " to " << q);
    VF_CHECK(eckit::sign(num(r) * 0) == 0 && eckit::sign(-3.5) == -1 && eckit::sign(1e-300) == 1, "sign", "sign");
    c.eval(8);
    c.distinct(uint64_t(int64_t(a.v[0] * 1000)) + n * 100 + m);
}

namespace {

struct Entries {
    size_t rows, cols;
    std::vector<Triplet> t;  // ordered by row, without zeros
    double at(size_t i, size_t j) const {
        double s = 0;
        for (auto& x : t) {
            if (x.row() == i && x.col() == j) s += x.value();
        }
        return s;
    }
};
Entries entries(vf::Rng& r, size_t rows, size_t cols, double fill) {
    Entries e{rows, cols, {}};
    for (size_t i = 0; i < rows; ++i) {
        if (r.chance(0.2)) continue;  // an empty row
        std::vector<size_t> js;
        for (size_t j = 0; j < cols; ++j) {
            if (r.chance(fill)) js.push_back(j);
        }
        if (r.chance(0.2)) r.shuffle(js);
        for (size_t j : js) {
            double v = num(r);
            if (v == 0) v = 1;
            if (r.chance(0.2)) v = double(r.in(1, 3));
            e.t.emplace_back(i, j, v);
        }
    }
    if (e.t.empty()) e.t.emplace_back(r.below(rows), r.below(cols), 3.);
    return e;
}
/// exactly these entries, in this order (by row, then as given)
void same(vf::Case& c, const SparseMatrix& m, const Entries& e, const char* key, const std::string& what) {
    VF_CHECK(m.rows() == e.rows && m.cols() == e.cols && m.nonZeros() == e.t.size() && m.empty() == e.t.empty(), key,
             what << ": shape " << m.rows() << "x" << m.cols() << " with " << m.nonZeros() << ", expected " << e.rows << "x" << e.cols << " with " << e.t.size());
    const auto* outer = m.outerIndex();
    VF_EQ(size_t(outer[0]), size_t(0), key, what + ": first row");
    size_t n = 0;
    for (size_t i = 0; i < e.rows; ++i) {
        size_t first = n;
        while (n < e.t.size() && e.t[n].row() == i) {
            VF_CHECK(size_t(m.inner()[n]) == e.t[n].col() && m.data()[n] == e.t[n].value(), key, what << ": entry " << n);
            ++n;
        }
        VF_EQ(size_t(outer[i + 1]), n, key, what + ": end of row " + std::to_string(i));
        VF_EQ(size_t(m.outer()[i + 1]), n, key, what + ": end of row " + std::to_string(i));
        // iterate over the row
        size_t k = first;
        for (auto it = m.begin(i), end = m.end(i); it != end; ++it, ++k) {
            VF_CHECK(k < n, key, what << ": row " << i << " has more entries than it should");
            VF_CHECK(it && it.row() == i && it.col() == e.t[k].col() && *it == e.t[k].value(), key, what << ": iterating row " << i << " entry " << k - first << ": row " << it.row());
        }
        VF_EQ(k, n, key, what + ": entries iterated");
    }
    size_t k = 0;
    for (auto it = m.begin(); it != m.end(); it++, ++k) {
        VF_CHECK(k < n, key, what << ": too many entries");
        VF_CHECK(it.row() == e.t[k].row() && it.col() == e.t[k].col() && *it == e.t[k].value(), key, what << ": entry " << k << ": " << it.row() << "," << it.col());
    }
    VF_EQ(k, n, key, what + ": entries iterated");
}
void products(vf::Case& c, const SparseMatrix& S, const Entries& e) {
    vf::Rng& r = c.rng;
    static const std::vector<std::string> backends = names(LinearAlgebraSparse::list);
    std::string name = r.pick(backends);
    VF_CHECK(LinearAlgebraSparse::hasBackend(name), "backend", name);
    bool dflt     = r.chance(0.3);
    const auto& la = dflt ? LinearAlgebraSparse::backend(name) : LinearAlgebraSparse::getBackend(name);
    if (dflt) VF_EQ(LinearAlgebraSparse::name(), name, "backend", "name of the default");
    std::vector<double> x = randv(r, e.cols), y = randv(r, e.rows);
    Vector X = dense(x), Y = dense(y);
    size_t nk = r.in(1, 5);
    M b = random(r, e.cols, nk);
    Matrix B = dense(b);
    std::vector<long double> want(e.rows * nk), scale(e.rows * nk), wv(e.rows), sv(e.rows);
    for (auto& t : e.t) {
        long double p = (long double)t.value() * x[t.col()];
        wv[t.row()] += p, sv[t.row()] += std::fabs(p);
        for (size_t k = 0; k < nk; ++k) {
            p = (long double)t.value() * b.at(t.col(), k);
            want[t.row() * nk + k] += p, scale[t.row() * nk + k] += std::fabs(p);
        }
    }
    std::vector<double> out(e.rows + 2, UNSET), outm(e.rows * nk + 2, UNSET);
    Vector V(out.data() + 1, e.rows);
    dflt ? LinearAlgebra::spmv(S, X, V) : la.spmv(S, X, V);
    for (size_t i = 0; i < e.rows; ++i) VF_CHECK(nearly(V[i], wv[i], sv[i], e.cols), "spmv", name << ": row " << i << " is " << V[i] << " instead of " << double(wv[i]));
    VF_CHECK(out[0] == UNSET && out.back() == UNSET, "spmv", name << " wrote outside");
    Matrix C(outm.data() + 1, e.rows, nk);
    dflt ? LinearAlgebra::spmm(S, B, C) : la.spmm(S, B, C);
    for (size_t i = 0; i < e.rows; ++i) {
        for (size_t k = 0; k < nk; ++k) VF_CHECK(nearly(C(i, k), want[i * nk + k], scale[i * nk + k], e.cols), "spmm", name << ": " << i << "," << k << " is " << C(i, k) << " instead of " << double(want[i * nk + k]));
    }
    VF_CHECK(outm[0] == UNSET && outm.back() == UNSET, "spmm", name << " wrote outside");
    SparseMatrix D;
    if (r.chance(0.3)) D = SparseMatrix(2, 2, {Triplet(0, 1, 4.)});
    dflt ? LinearAlgebra::dsptd(Y, S, X, D) : la.dsptd(Y, S, X, D);
    VF_CHECK(D.rows() == e.rows && D.cols() == e.cols && D.nonZeros() == e.t.size(), "dsptd", name << " shape");
    for (size_t k = 0; k < e.t.size(); ++k) {
        long double w = (long double)e.t[k].value() * y[e.t[k].row()] * x[e.t[k].col()];
        VF_CHECK(size_t(D.inner()[k]) == e.t[k].col() && nearly(D.data()[k], w, std::fabs(w), 2), "dsptd", name << " entry " << k);
    }
    same(c, S, e, "arguments", "sparse argument");
    if (r.chance(0.06)) {
        Vector bad(e.cols + 1), badout(e.rows + 1);
        Matrix badB(e.cols + 1, nk), badC(e.rows + 1, nk), badK(e.rows, nk + 1);
        VF_CHECK(refuses([&] { la.spmv(S, bad, V); }), "mismatch", name << " spmv");
        VF_CHECK(refuses([&] { la.spmv(S, X, badout); }), "mismatch", name << " spmv result");
        VF_CHECK(refuses([&] { la.spmm(S, badB, C); }), "mismatch", name << " spmm");
        VF_CHECK(refuses([&] { la.spmm(S, B, badC); }), "mismatch", name << " spmm rows");
        VF_CHECK(refuses([&] { la.spmm(S, B, badK); }), "mismatch", name << " spmm columns");
        VF_CHECK(refuses([&] { la.dsptd(badout, S, X, D); }), "mismatch", name << " dsptd");
        VF_CHECK(refuses([&] { la.dsptd(Y, S, bad, D); }), "mismatch", name << " dsptd");
        VF_CHECK(refuses([&] { LinearAlgebraSparse::getBackend("nothere"); }), "backend", "one that does not exist");
    }
    c.eval(3);
    c.count("products_" + name);
}

}  // namespace

VF_WORKLOAD(sparse, 600, 8000) {
    vf::Rng& r  = c.rng;
    size_t rows = r.in(1, 12), cols = r.in(1, 12);
    if (r.chance(0.05)) rows = r.in(50, 200), cols = r.in(50, 200);
    Entries e = entries(r, rows, cols, r.real(0.05, 1));
    std::vector<Triplet> given;
    for (auto& t : e.t) {
        if (r.chance(0.1)) given.emplace_back(t.row(), r.below(cols), 0.);  // zeros are left out
        given.push_back(t);
    }
    SparseMatrix S(rows, cols, given);
    same(c, S, e, "build", "built");
    c.trace() << rows << "x" << cols << " with " << e.t.size();
    int n = int(r.in(1, 7));
    for (int i = 0; i < n; ++i) {
        int op = int(r.below(12));
        c.trace() << " op " << op;
        std::string what = "operation " + std::to_string(op);
        switch (op) {
            case 0: {
                S.transpose();
                for (auto& t : e.t) t = Triplet(t.col(), t.row(), t.value());
                std::sort(e.t.begin(), e.t.end());
                std::swap(e.rows, e.cols);
                break;
            }
            case 1: {  // some of the rows in another order, or more than once
                std::vector<size_t> p;
                for (size_t k = r.in(1, e.rows); k > 0; --k) p.push_back(r.below(e.rows));
                Entries f{p.size(), e.cols, {}};
                for (size_t k = 0; k < p.size(); ++k) {
                    for (auto& t : e.t) {
                        if (t.row() == p[k]) f.t.emplace_back(k, t.col(), t.value());
                    }
                }
                if (f.t.empty()) {
                    VF_CHECK(refuses([&] { S.rowReduction(p); }), "reduce", "a reduction without entries");
                }
                else {
                    SparseMatrix T = S.rowReduction(p);
                    same(c, S, e, "reduce", "the reduced matrix itself");
                    S = std::move(T);
                    e = f;
                }
                break;
            }
            case 2: {
                double v = r.chance(0.7) ? r.pick(e.t).value() : num(r);
                Entries f{e.rows, e.cols, {}};
                for (auto& t : e.t) {
                    if (t.value() != v) f.t.push_back(t);
                }
                if (f.t.empty()) VF_CHECK(refuses([&] { S.prune(v); }), "prune", "nothing left");
                else {
                    S.prune(v);
                    e = f;
                }
                break;
            }
            case 3: {  // through a file
                PathName p(c.scratch + "/m");
                S.save(p);
                SparseMatrix T;
                if (r.chance(0.5)) T = S;
                T.load(p);
                S.swap(T);
                same(c, T, T.empty() ? Entries{0, 0, {}} : e, "swap", "the other one");
                break;
            }
            case 4: {  // through a stream
                Buffer b(16);
                size_t len;
                {
                    ResizableMemoryStream s(b);
                    s << S << S;
                    len = s.position();
                }
                MemoryStream s(b.data(), len);
                SparseMatrix T(s), U(s);
                same(c, T, e, "stream", "first");
                S = U;
                break;
            }
            case 5: {  // through memory
                size_t need = S.footprint() + 200;
                MemoryBuffer b(need);
                S.dump(b);
                SparseMatrix T(b);
                same(c, T, e, "dump", "view of a dump");
                VF_CHECK(refuses([&] {
                             MemoryBuffer small(40 + r.below(e.t.size() * 8));
                             S.dump(small);
                         }),
                         "dump", "a buffer that is too small");
                SparseMatrix U(T);
                same(c, U, e, "dump", "copy of a view of a dump");
                if (r.chance(0.5) && e.t.size() > 1) {  // changing a view does not change what it views
                    std::string before(static_cast<const char*>(b.data()), b.size());
                    double v = e.t[0].value();
                    bool all = std::all_of(e.t.begin(), e.t.end(), [&](const Triplet& t) { return t.value() == v; });
                    if (!all) {
                        T.prune(v);
                        VF_CHECK(before == std::string(static_cast<const char*>(b.data()), b.size()), "prune", "changed the memory it views");
                    }
                }
                S.swap(U);
                break;
            }
            case 6: {
                SparseMatrix T(S);
                SparseMatrix U(std::move(T));
                SparseMatrix V;
                V = U;
                for (auto it = V.begin(); it != V.end(); ++it) *it += 1;
                same(c, S, e, "copy", "the original of a changed copy");
                SparseMatrix& self = S;
                S                  = self;
                break;
            }
            case 7: {
                if (!r.chance(0.3)) break;
                e.rows = r.in(1, 10);
                e.cols = r.in(1, 10);
                S.setIdentity(e.rows, e.cols);
                e.t.clear();
                for (size_t k = 0; k < std::min(e.rows, e.cols); ++k) e.t.emplace_back(k, k, 1.);
                break;
            }
            case 8: {  // memory of somebody else
                std::vector<Index> ia(e.rows + 1), ja(e.t.size());
                std::vector<double> a(e.t.size());
                for (size_t k = 0; k < e.t.size(); ++k) {
                    ia[e.t[k].row() + 1]++;
                    ja[k] = Index(e.t[k].col());
                    a[k]  = e.t[k].value();
                }
                for (size_t k = 0; k < e.rows; ++k) ia[k + 1] += ia[k];
                SparseMatrix T(new linalg::allocator::NonOwningAllocator(e.rows, e.cols, e.t.size(), ia.data(), ja.data(), a.data()));
                same(c, T, e, "view", "view of arrays");
                products(c, T, e);
                SparseMatrix U(T);
                S = U;
                break;
            }
            case 9: {
                e.cols += r.below(3);
                S.cols(e.cols);
                break;
            }
            default: products(c, S, e);
        }
        same(c, S, e, "history", what);
        c.eval();
        c.count("operations");
    }
    products(c, S, e);
    if (r.chance(0.1)) {  // what is refused
        VF_CHECK(refuses([&] { SparseMatrix(2, 2, {Triplet(1, 0, 1.), Triplet(0, 0, 1.)}); }), "refused", "rows out of order");
        VF_CHECK(refuses([&] { SparseMatrix(2, 2, {Triplet(2, 0, 1.)}); }), "refused", "row outside");
        VF_CHECK(refuses([&] { SparseMatrix(2, 2, {Triplet(0, 2, 1.)}); }), "refused", "column outside");
        VF_CHECK(refuses([&] { SparseMatrix(2, 2, std::vector<Triplet>{}); }), "refused", "without entries");
        SparseMatrix none, copy(none);
        size_t k = 0;
        for (auto it = none.begin(); it != none.end() && k < 3; ++it) ++k;
        VF_EQ(k, size_t(0), "empty", "entries of an empty matrix");
        VF_CHECK(none.empty() && copy.empty() && copy.rows() == 0, "empty", "copy of an empty matrix");
    }
    c.distinct(c.trace_.str());
}

namespace {
template <class T>
size_t flat(const std::vector<size_t>& shape, const std::vector<size_t>& at, bool left) {
    size_t n = 0;
    if (left) {
        for (size_t i = shape.size(); i-- > 0;) n = n * shape[i] + at[i];
    }
    else {
        for (size_t i = 0; i < shape.size(); ++i) n = n * shape[i] + at[i];
    }
    return n;
}
template <class T>
void tensors(vf::Case& c) {
    vf::Rng& r = c.rng;
    using Tn   = Tensor<T>;
    using L    = typename Tn::Layout;
    std::vector<size_t> shape;
    size_t size = 1;
    for (int n = int(r.in(1, 4)); n > 0; --n) shape.push_back(r.in(1, 6)), size *= shape.back();
    bool left = r.chance(0.5);
    L layout  = left ? L::Left : L::Right;
    std::vector<T> ext(size + 2, T(UNSET));
    bool view = r.chance(0.4);
    std::unique_ptr<Tn> t(view ? new Tn(ext.data() + 1, shape, layout) : new Tn(shape, layout));
    auto value = [&](const std::vector<size_t>& at) {
        T v = 1;
        for (size_t i : at) v = v * 10 + T(i);
        return v;
    };
    auto each = [&](auto f) {
        std::vector<size_t> at(shape.size());
        for (size_t k = 0; k < size; ++k) {
            size_t m = k;
            for (size_t i = 0; i < shape.size(); ++i) at[i] = m % shape[i], m /= shape[i];
            f(at);
        }
    };
    auto get = [&](Tn& x, const std::vector<size_t>& at) -> T& {
        switch (at.size()) {
            case 1: return x(at[0]);
            case 2: return x(at[0], at[1]);
            case 3: return x(at[0], at[1], at[2]);
            default: return x(at[0], at[1], at[2], at[3]);
        }
    };
    auto same = [&](Tn& x, bool l, const char* key, const char* what) {
        VF_CHECK(x.shape() == shape && x.size() == size && x.layout() == (l ? L::Left : L::Right), key, what << ": shape or layout");
        each([&](const std::vector<size_t>& at) {
            VF_CHECK(get(x, at) == value(at), key, what << ": element " << value(at) << " is " << get(x, at));
            VF_CHECK(x[flat<T>(shape, at, l)] == value(at), key, what << ": place of element " << value(at));
        });
        c.eval();
    };
    each([&](const std::vector<size_t>& at) { get(*t, at) = value(at); });
    same(*t, left, "tensor", "filled");
    VF_CHECK(ext[0] == T(UNSET) && ext.back() == T(UNSET), "tensor", "wrote outside");
    Tn other = left ? t->transformColMajorToRowMajor() : t->transformRowMajorToColMajor();
    same(other, !left, "tensor-transform", "in the other layout");
    Tn back = left ? other.transformRowMajorToColMajor() : other.transformColMajorToRowMajor();
    same(back, left, "tensor-transform", "and back");
    Tn copy(*t), moved(std::move(copy)), assigned(layout);
    same(moved, left, "tensor-copy", "moved copy");
    VF_EQ(copy.size(), size_t(0), "tensor-copy", "what was moved from");
    if (r.chance(0.5)) assigned = Tn(std::vector<size_t>(r.in(1, 3), r.in(1, 3)), left ? L::Right : L::Left);
    Tn keep(*t);
    assigned = *t;
    same(assigned, left, "tensor-copy", "assigned");
    assigned[0] = T(-1);
    same(*t, left, "tensor-copy", "the original of a changed copy");
    if (r.chance(0.5)) assigned = Tn(std::vector<size_t>(r.in(1, 3), r.in(1, 3)), left ? L::Right : L::Left);
    assigned = std::move(moved);
    same(assigned, left, "tensor-copy", "move-assigned");
    VF_EQ(moved.size(), size_t(0), "tensor-copy", "what was moved from, assigned");
    moved = keep;
    same(moved, left, "tensor-copy", "what was moved from, assigned to");
    moved = other;
    same(moved, !left, "tensor-copy", "assigned, of the other layout");
    moved = moved;
    same(moved, !left, "tensor-copy", "assigned to itself");
    same(keep, left, "tensor-copy", "kept copy");
    Buffer b(16);
    size_t len;
    {
        ResizableMemoryStream s(b);
        s << *t << other;
        len = s.position();
    }
    {
        MemoryStream s(b.data(), len);
        Tn x(s), y(s);
        same(x, left, "tensor-stream", "from a stream");
        same(y, !left, "tensor-stream", "second from a stream");
    }
    Tn z(layout);
    z.swap(assigned);
    same(z, left, "tensor-swap", "swapped");
    // reshaped: the same elements in the same places of memory
    std::vector<T> flatv(z.begin(), z.end());
    z.resize({size});
    VF_CHECK(z.shape() == std::vector<size_t>{size} && std::equal(flatv.begin(), flatv.end(), z.begin()), "tensor-resize", "reshaped");
    for (size_t i = 0; i < size; ++i) VF_EQ(z(i), flatv[i], "tensor-resize", "reshaped element");
    z.resize({size + 1, 2});
    VF_EQ(z.size(), (size + 1) * 2, "tensor-resize", "another size");
    z.fill(T(4));
    VF_CHECK(std::all_of(z.begin(), z.end(), [](T v) { return v == 4; }), "tensor-fill", "fill");
    z.zero();
    VF_CHECK(std::all_of(z.begin(), z.end(), [](T v) { return v == 0; }), "tensor-fill", "zero");
    if (r.chance(0.1)) {
        Tn none;
        VF_CHECK(refuses([&] { Tn x(none); }), "tensor-empty", "copy of an empty tensor");
        VF_CHECK(refuses([&] { z = none; }), "tensor-empty", "assignment of an empty tensor");
        VF_CHECK(refuses([&] { Tn x(std::vector<size_t>{3, 0}); }), "tensor-empty", "a tensor without elements");
        Tn single(std::vector<size_t>{});
        VF_EQ(single.size(), size_t(1), "tensor-empty", "a tensor without dimensions");
        size_t big = r.in(1, 1000000), bigger = r.in(1, 1000000);
        VF_EQ(Tn::flatSize({big, bigger}), big * bigger, "tensor-size", "size of a large shape");
    }
    c.count("tensors");
    std::string sig = left ? "L" : "R";
    for (auto s : shape) sig += std::to_string(s) + "x";
    c.distinct(sig);
}
}  // namespace

VF_WORKLOAD(tensor, 400, 5000) {
    c.rng.chance(0.5) ? tensors<double>(c) : tensors<float>(c);
}

VF_WORKLOAD(small_matrices, 400, 5000) {
    using maths::Matrix3;
    vf::Rng& r = c.rng;
    long long a[9], b[9];
    for (auto& x : a) x = r.in(-9, 9);
    for (auto& x : b) x = r.in(-9, 9);
    if (r.chance(0.1)) {
        for (int i = 0; i < 3; ++i) a[6 + i] = 2 * a[i] - a[3 + i];
    }
    auto mk = [](const long long* v) { return Matrix3<double>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); };
    Matrix3<double> A = mk(a), B = mk(b), P = A * B, I = Matrix3<double>::identity();
    auto at = [](const Matrix3<double>& m, int i) { return *(m.begin() + i); };
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            long long s = 0;
            for (int k = 0; k < 3; ++k) s += a[3 * i + k] * b[3 * k + j];
            VF_EQ(at(P, 3 * i + j), double(s), "matrix3", "product");
            VF_EQ(at(I, 3 * i + j), double(i == j), "matrix3", "identity");
        }
    }
    long long det = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
    VF_EQ(A.determinant(), double(det), "matrix3", "determinant");
    if (det == 0) {
        VF_CHECK(refuses([&] { A.inverse(); }), "matrix3", "inverse of a singular matrix");
        c.count("singular");
    }
    else {
        Matrix3<double> inv = A.inverse(), one = A * inv, one2 = inv * A;
        for (int i = 0; i < 9; ++i) {
            VF_CHECK(std::fabs(at(one, i) - at(I, i)) < 1e-10 && std::fabs(at(one2, i) - at(I, i)) < 1e-10, "matrix3", "inverse times the matrix");
        }
    }
    geo::PointXYZ p(double(r.in(-9, 9)), double(r.in(-9, 9)), double(r.in(-9, 9)));
    geo::PointXYZ q = A * p;
    VF_CHECK(q.X() == a[0] * p.X() + a[1] * p.Y() + a[2] * p.Z() && q.Y() == a[3] * p.X() + a[4] * p.Y() + a[5] * p.Z() && q.Z() == a[6] * p.X() + a[7] * p.Y() + a[8] * p.Z(), "matrix3", "times a point");
    c.eval(3);
    // convex hulls: points with whole coordinates
    size_t n = r.in(5, 25);
    if (r.chance(0.5)) {
        std::vector<std::array<double, 2>> pts;
        for (size_t i = 0; i < n; ++i) pts.push_back({double(r.in(-20, 20)) + r.unit() * 0.1, double(r.in(-20, 20)) + r.unit() * 0.1});
        maths::ConvexHullN<2> hull(pts);
        auto vs = hull.list_vertices();
        auto fs = hull.list_facets();
        std::set<size_t> vertices(vs.begin(), vs.end()), used;
        VF_EQ(vertices.size(), vs.size(), "hull", "a vertex twice");
        VF_EQ(fs.size(), vs.size(), "hull", "edges and vertices of a polygon");
        for (auto& f : fs) {
            VF_EQ(f.size(), size_t(2), "hull", "vertices of an edge");
            double side = 0;
            for (size_t i = 0; i < n; ++i) {
                if (i == f[0] || i == f[1]) continue;
                double s = (pts[f[1]][0] - pts[f[0]][0]) * (pts[i][1] - pts[f[0]][1]) - (pts[f[1]][1] - pts[f[0]][1]) * (pts[i][0] - pts[f[0]][0]);
                VF_CHECK(side * s >= -1e-9, "hull", "points on both sides of an edge");
                if (std::fabs(s) > std::fabs(side)) side = s;
            }
            for (auto v : f) {
                VF_CHECK(vertices.count(v), "hull", "an edge between points that are no vertices");
                used.insert(v);
            }
        }
        VF_CHECK(used == vertices, "hull", "a vertex without edge");
        VF_CHECK(hull.facets(2).size() == 2 * fs.size() && hull.facets(3).empty(), "hull", "facets by size");
        VF_CHECK(hull.facets_n() == (maths::ConvexHull::facets_n_t{{2, fs.size()}}), "hull", "count of facets");
        c.count("hulls");
    }
    else {
        std::vector<std::vector<double>> pts;
        for (size_t i = 0; i < n; ++i) pts.push_back({double(r.in(-20, 20)) + r.unit() * 0.1, double(r.in(-20, 20)) + r.unit() * 0.1, double(r.in(-20, 20)) + r.unit() * 0.1});
        maths::ConvexHullN<3> hull(pts);
        auto vs = hull.list_vertices();
        auto fs = hull.list_facets();
        std::set<size_t> vertices(vs.begin(), vs.end()), used;
        VF_EQ(vertices.size(), vs.size(), "hull", "a vertex twice");
        std::map<std::pair<size_t, size_t>, int> edges;
        size_t total = 0;
        for (auto& f : fs) {
            VF_CHECK(f.size() >= 3, "hull", "a facet of less than three");
            total += f.size();
            auto d = [&](size_t i, int k) { return pts[i][k] - pts[f[0]][k]; };
            double nx = d(f[1], 1) * d(f[2], 2) - d(f[1], 2) * d(f[2], 1), ny = d(f[1], 2) * d(f[2], 0) - d(f[1], 0) * d(f[2], 2), nz = d(f[1], 0) * d(f[2], 1) - d(f[1], 1) * d(f[2], 0);
            double side = 0;
            for (size_t i = 0; i < n; ++i) {
                double s = nx * d(i, 0) + ny * d(i, 1) + nz * d(i, 2);
                VF_CHECK(side * s >= -1e-6, "hull", "points on both sides of a facet");
                if (std::fabs(s) > std::fabs(side)) side = s;
            }
            for (auto v : f) {
                VF_CHECK(vertices.count(v), "hull", "a facet between points that are no vertices");
                used.insert(v);
            }
            if (f.size() == 3) {
                for (int i = 0; i < 3; ++i) edges[std::minmax(f[i], f[(i + 1) % 3])]++;
            }
        }
        VF_CHECK(used == vertices, "hull", "a vertex without facet");
        size_t sum = 0, facets = 0;
        bool triangles = true;
        for (auto& kv : hull.facets_n()) {
            sum += kv.first * kv.second;
            facets += kv.second;
            triangles = triangles && kv.first == 3;
            VF_EQ(hull.facets(kv.first).size(), kv.first * kv.second, "hull", "facets of a size");
        }
        VF_CHECK(sum == total && facets == fs.size(), "hull", "count of facets");
        if (triangles) {
            for (auto& e : edges) VF_EQ(e.second, 2, "hull", "facets at an edge");
            VF_EQ(vs.size() + fs.size(), edges.size() + 2, "hull", "Euler's formula");
        }
        c.count("hulls");
    }
    // (the errors of libqhull itself are not provoked: printing them crashes inside the packaged library)
    if (r.chance(0.1)) {
        std::string command;
        try {
            throw maths::ConvexHull::InputError("reason", 6013, std::string(60, 'Q'));
        }
        catch (maths::ConvexHull::Exception& e) {
            command = e.command;
            VF_EQ(e.errorCode, 6013, "hull-error", "code");
        }
        VF_EQ(command, std::string(60, 'Q'), "hull-error", "command");
        VF_CHECK(refuses([&] { maths::Qhull(3, {1., 2., 3., 4.}, "Qt"); }), "hull-error", "coordinates that are not points");
    }
    c.distinct(uint64_t(int64_t(det)) * 1000 + n);
}

// the small subset of dense matrices used elsewhere
VF_WORKLOAD(maths_matrices, 200, 3000) {
    vf::Rng& r = c.rng;
    using Mx   = maths::Matrix<double>;
    size_t n   = r.in(1, 6);
    Mx A(n, n), B(n, n);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) A(i, j) = r.real(-5, 5) + (i == j ? 20 : 0), B(i, j) = num(r);
    }
    Mx inv = A.inverse(), one = A * inv, sum = A + B, tr = B.transpose();
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            VF_CHECK(std::fabs(one(i, j) - (i == j)) < 1e-9, "maths-matrix", "inverse");
            VF_EQ(sum(i, j), A(i, j) + B(i, j), "maths-matrix", "sum");
            VF_EQ(tr(j, i), B(i, j), "maths-matrix", "transpose");
        }
    }
    maths::ColVector<double> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = num(r);
    maths::ColVector<double> y = A * x;
    for (size_t i = 0; i < n; ++i) {
        long double s = 0, sc = 0;
        for (size_t j = 0; j < n; ++j) s += (long double)A(i, j) * x[j], sc += std::fabs(A(i, j) * x[j]);
        VF_CHECK(nearly(y[i], s, sc, n), "maths-matrix", "times a vector");
    }
    c.eval();
    c.distinct(uint64_t(int64_t(A(0, 0) * 1e6)));
}
