// SQL: queries over tables kept by the harness, against an evaluation of the same query by its definition.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "vf.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLOutputConfig.h"
#include "eckit/sql/SQLSimpleOutput.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLStatement.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/expression/SQLExpressions.h"
#include "eckit/sql/expression/function/FunctionExpression.h"
#include "eckit/sql/expression/function/FunctionFactory.h"
#include "eckit/sql/type/SQLBitfield.h"
#include "eckit/sql/type/SQLType.h"

using namespace eckit;
using vf::Rng;

namespace {

//---------------------------------------------------------------------------------------------------------------------
// Tables

enum class T { INT, REAL, DBL, STR, BITS };

struct Col {
    std::string name;
    T type;
    sql::BitfieldDef bits;
};

struct Val {
    double d = 0;
    std::string s;
    bool str  = false;
    bool null = false;
    static Val num(double d) { Val v; v.d = d; return v; }
    static Val text(const std::string& s) { Val v; v.s = s; v.str = true; return v; }
    static Val none(bool str = false) { Val v; v.null = true; v.str = str; return v; }
};

std::string decimal(double d) {
    std::ostringstream o;
    o.precision(17);
    o << d;
    return o.str();
}

std::string show(const Val& v) { return v.null ? "NULL" : v.str ? "'" + v.s + "'" : decimal(v.d); }

struct Frame {
    size_t start;
    std::vector<size_t> width;  // in doubles
    std::vector<char> hasMissing;
    std::vector<double> missing;
};

using Row = std::vector<Val>;

struct Data {
    std::string name;
    std::vector<Col> cols;
    std::vector<Row> rows;
    std::vector<Frame> frames;
};

double asDouble(const std::string& s) {
    double d = 0;
    std::memcpy(&d, s.data(), std::min<size_t>(8, s.size()));
    return d;
}

class Table : public sql::SQLTable {
public:

    Table(sql::SQLDatabase& db, const Data& data) : SQLTable(db, "path/" + data.name, data.name), data_(data) {
        for (size_t i = 0; i < data.cols.size(); ++i) {
            auto& c = data.cols[i];
            auto& f = data.frames[0];
            switch (c.type) {
                case T::INT:
                    addColumn(c.name, i, sql::type::SQLType::lookup("integer"), f.hasMissing[i], f.missing[i]);
                    break;
                case T::REAL:
                    addColumn(c.name, i, sql::type::SQLType::lookup("real"), f.hasMissing[i], f.missing[i]);
                    break;
                case T::DBL:
                    addColumn(c.name, i, sql::type::SQLType::lookup("double"), f.hasMissing[i], f.missing[i]);
                    break;
                case T::STR:
                    addColumn(c.name, i, sql::type::SQLType::lookup("string", f.width[i]), f.hasMissing[i], f.missing[i]);
                    break;
                case T::BITS: {
                    auto type = sql::type::SQLBitfield::make("Bitfield", c.bits.first, c.bits.second, nullptr);
                    addColumn(c.name, i, sql::type::SQLType::lookup(type), f.hasMissing[i], f.missing[i], true, c.bits);
                    break;
                }
            }
        }
    }

private:

    class Iterator : public sql::SQLTableIterator {
    public:

        Iterator(const Data& data, const std::vector<std::reference_wrapper<const sql::SQLColumn>>& cols, std::function<void(SQLTableIterator&)> update) :
            data_(data), update_(update) {
            for (const auto& c : cols) index_.push_back(c.get().index());
            frame(0);
        }

    private:

        void frame(size_t f) {
            frame_ = f;
            offsets_.clear();
            size_t n = 0;
            for (auto i : index_) {
                offsets_.push_back(n);
                n += data_.frames[f].width[i];
            }
            buffer_ = std::make_unique<double[]>(n + 1);  // (moves)
            size_   = n;
        }

        void rewind() override { row_ = 0; }

        bool next() override {
            if (row_ >= data_.rows.size()) return false;
            size_t f = data_.frames.size() - 1;
            while (data_.frames[f].start > row_) --f;
            if (f != frame_) {
                frame(f);
                update_(*this);
            }
            auto& row = data_.rows[row_++];
            std::memset(buffer_.get(), 0, (size_ + 1) * sizeof(double));
            for (size_t k = 0; k < index_.size(); ++k) {
                auto& v = row[index_[k]];
                if (v.null) {
                    buffer_[offsets_[k]] = data_.frames[f].missing[index_[k]];
                }
                else if (v.str) {
                    std::memcpy(&buffer_[offsets_[k]], v.s.data(), v.s.size());
                }
                else {
                    buffer_[offsets_[k]] = v.d;
                }
            }
            return true;
        }

        template <typename V>
        std::vector<V> of(const std::vector<V>& all) const {
            std::vector<V> v;
            for (auto i : index_) v.push_back(all[i]);
            return v;
        }

        std::vector<size_t> columnOffsets() const override { return offsets_; }
        std::vector<size_t> doublesDataSizes() const override { return of(data_.frames[frame_].width); }
        std::vector<char> columnsHaveMissing() const override { return of(data_.frames[frame_].hasMissing); }
        std::vector<double> missingValues() const override { return of(data_.frames[frame_].missing); }
        const double* data() const override { return buffer_.get(); }

        const Data& data_;
        std::function<void(SQLTableIterator&)> update_;
        std::vector<size_t> index_, offsets_;
        std::unique_ptr<double[]> buffer_;
        size_t row_ = 0, frame_ = 0, size_ = 0;
    };

    sql::SQLTableIterator* iterator(const std::vector<std::reference_wrapper<const sql::SQLColumn>>& cols,
                                    std::function<void(sql::SQLTableIterator&)> update) const override {
        return new Iterator(data_, cols, update);
    }

    const Data& data_;
};

struct Cell {
    char kind;  // r(eal), d(ouble), i(nteger), u(nsigned), s(tring), b(itfield)
    Val v;
};

struct Output : sql::SQLOutput {
    std::vector<std::vector<Cell>> pending, rows;
    std::vector<Cell> row;
    std::vector<std::string> titles;
    unsigned long long counted = 0;
    bool flushed               = false;

    void cleanup(sql::SQLSelect&) override {}
    void reset() override { pending.clear(); }
    void flush() override {
        rows    = pending;
        flushed = true;
    }
    bool output(const sql::expression::Expressions& results) override {
        row.clear();
        for (const auto& r : results) r->output(*this);
        pending.push_back(row);
        return true;
    }
    void prepare(sql::SQLSelect& sql) override {
        titles.clear();
        for (const auto& c : sql.output()) titles.push_back(c->title());
    }
    void add(char k, double d, bool null) { row.push_back({k, null ? Val::none() : Val::num(d)}); }
    void outputReal(double d, bool m) override { add('r', d, m); }
    void outputDouble(double d, bool m) override { add('d', d, m); }
    void outputInt(double d, bool m) override { add('i', d, m); }
    void outputUnsignedInt(double d, bool m) override { add('u', d, m); }
    void outputBitfield(double d, bool m) override { add('b', d, m); }
    void outputString(const char* s, size_t l, bool m) override { row.push_back({'s', m ? Val::none(true) : Val::text(std::string(s, l))}); }
    unsigned long long count() override { return pending.size(); }
};

//---------------------------------------------------------------------------------------------------------------------
// Expressions

struct Env {
    std::vector<const Row*> rows;  // a row of every table
    std::vector<std::vector<const Row*>> group;
};

struct E;
using P = std::shared_ptr<E>;

enum K { COL, NUM, TEXT, ADD, SUB, MUL, DIV, NEG, ABS, FLOOR, NVL, CMP, CHAIN, AND, OR, NOT, IN, NOTIN, BETWEEN, NOTBETWEEN, ISNULL, NOTNULL, LIKE, AGG };

const char* const OPS[] = {"=", "<>", "<", ">", "<=", ">="};

struct E {
    K k;
    std::vector<P> a;
    double num = 0;
    std::string text;  // literal, name of aggregate, or pattern
    size_t t = 0, c = 0;
    int field = -1;
    int op = 0, op2 = 0;
    std::string sql;  // of a column
    unsigned shift = 0, width = 0;
};

P make(K k, std::vector<P> a = {}) {
    auto e = std::make_shared<E>();
    e->k   = k;
    e->a   = std::move(a);
    return e;
}

P number(double d) {
    auto e = make(NUM);
    e->num = d;
    return e;
}

std::string trim(const std::string& s) {
    auto b = s.find_first_not_of("\t\n\v\f\r "), e = s.find_last_not_of("\t\n\v\f\r ");
    return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}

bool cmp(int op, double x, double y) {
    switch (op) {
        case 0: return x == y;
        case 1: return x != y;
        case 2: return x < y;
        case 3: return x > y;
        case 4: return x <= y;
        default: return x >= y;
    }
}

Val compare(int op, const Val& x, const Val& y) {
    if (x.null || y.null) return Val::none();
    if (x.str) {
        bool eq = trim(x.s) == trim(y.s);
        return Val::num(op == 0 ? eq : !eq);
    }
    return Val::num(cmp(op, x.d, y.d));
}

Val both(const Val& x, const Val& y) {
    if ((!x.null && !x.d) || (!y.null && !y.d)) return Val::num(0);
    if (x.null || y.null) return Val::none();
    return Val::num(1);
}

Val either(const Val& x, const Val& y) {
    if ((!x.null && x.d) || (!y.null && y.d)) return Val::num(1);
    if (x.null || y.null) return Val::none();
    return Val::num(0);
}

Val negated(const Val& x) { return x.null ? x : Val::num(!x.d); }

// pattern: letters and '.', with an optional ^ at the start and $ at the end
bool like(const std::string& pattern, const std::string& s) {
    std::string p = pattern;
    bool begin = !p.empty() && p[0] == '^', end = !p.empty() && p.back() == '$';
    if (begin) p = p.substr(1);
    if (end) p.pop_back();
    for (size_t i = 0; i + p.size() <= s.size(); ++i) {
        if (begin && i) break;
        if (end && i + p.size() != s.size()) continue;
        bool ok = true;
        for (size_t j = 0; j < p.size() && ok; ++j) ok = p[j] == '.' || p[j] == s[i + j];
        if (ok) return true;
    }
    return false;
}

Val eval(const P& e, const Env& env);

// of the sums in the aggregates of a query, and of what they are multiplied with: what is lost to rounding
double magnitude = 0, factor = 1;

bool aggregates(const P& e);

Val aggregate(const E& e, const Env& env) {
    std::vector<double> x, y;
    for (auto& rows : env.group) {
        Env one{rows, {}};
        auto v = e.a.empty() ? Val::num(1) : eval(e.a[0], one);
        auto w = e.a.size() > 1 ? eval(e.a[1], one) : Val::num(0);
        if (v.null || w.null) continue;
        x.push_back(v.d);
        y.push_back(w.d);
    }
    double n = x.size();
    if (e.text == "count") return Val::num(n);
    if (!x.size()) return Val::none();
    double s = 0, q = 0, p = 0, lo = x[0], hi = x[0];
    for (size_t i = 0; i < x.size(); ++i) {
        s += x[i];
        q += x[i] * x[i];
        p += x[i] * y[i];
        lo = std::min(lo, x[i]);
        hi = std::max(hi, x[i]);
    }
    double a = 0;
    for (auto v : x) a += std::abs(v);
    magnitude = std::max({magnitude, a, e.text == "stdev" ? 1e4 * std::sqrt(q) : 0., e.text == "var" || e.text == "dotp" ? q : 0.});
    if (e.text == "sum") return Val::num(s);
    if (e.text == "avg" || e.text == "mean") return Val::num(s / n);
    if (e.text == "min") return Val::num(lo);
    if (e.text == "max") return Val::num(hi);
    if (e.text == "rms") return Val::num(std::sqrt(q / n));
    if (e.text == "dotp") return Val::num(p);
    if (e.text == "norm") return Val::num(p > 0 ? std::sqrt(p) : 0);
    double var = 0;
    for (auto v : x) var += (v - s / n) * (v - s / n);
    var /= n;
    if (e.text == "var") return Val::num(var);
    return Val::num(std::sqrt(var));  // stdev
}

Val eval(const P& p, const Env& env) {
    auto& e = *p;
    auto A  = [&](size_t i) { return eval(e.a[i], env); };
    switch (e.k) {
        case COL: {
            auto v = (*env.rows[e.t])[e.c];
            if (e.field >= 0 && !v.null) v.d = double((static_cast<unsigned long>(v.d) >> e.shift) & ((1ul << e.width) - 1));
            return v;
        }
        case NUM: return Val::num(e.num);
        case TEXT: return Val::text(e.text);
        case ADD:
        case SUB:
        case DIV: {
            auto x = A(0), y = A(1);
            if (x.null || y.null) return Val::none();
            if (e.k == DIV && y.d && aggregates(p)) factor = std::max({factor, 1 / std::abs(y.d), std::abs(x.d / y.d / y.d)});
            return Val::num(e.k == ADD ? x.d + y.d : e.k == SUB ? x.d - y.d : x.d / y.d);
        }
        case MUL: {
            auto x = A(0), y = A(1);
            if ((!x.null && x.d == 0) || (!y.null && y.d == 0)) return Val::num(0);  // (even of a missing value)
            if (x.null || y.null) return Val::none();
            if (aggregates(p)) factor = std::max({factor, std::abs(x.d), std::abs(y.d)});
            return Val::num(x.d * y.d);
        }
        case NEG:
        case ABS:
        case FLOOR: {
            auto x = A(0);
            if (!x.null) x.d = e.k == NEG ? -x.d : e.k == ABS ? std::abs(x.d) : std::floor(x.d);
            return x;
        }
        case NVL: {
            auto x = A(0);
            return x.null ? A(1) : x;
        }
        case CMP: return compare(e.op, A(0), A(1));
        case CHAIN: return both(compare(e.op, A(0), A(1)), compare(e.op2, A(1), A(2)));
        case AND: return both(A(0), A(1));
        case OR: return either(A(0), A(1));
        case NOT: return negated(A(0));
        case IN:
        case NOTIN: {
            auto x = A(0);
            auto r = Val::num(0);
            for (size_t i = 1; i < e.a.size(); ++i) r = either(r, compare(0, x, A(i)));
            return e.k == IN ? r : negated(r);
        }
        case BETWEEN:
        case NOTBETWEEN: {
            auto x = A(0), l = A(1), h = A(2);
            if (x.null || l.null || h.null) return Val::none();
            bool in = x.d >= l.d && x.d <= h.d;
            return Val::num(e.k == BETWEEN ? in : !in);
        }
        case ISNULL: return Val::num(A(0).null);
        case NOTNULL: return Val::num(!A(0).null);
        case LIKE: {
            auto x = A(0);
            return x.null ? Val::none() : Val::num(like(e.text, trim(x.s)));
        }
        case AGG: return aggregate(e, env);
    }
    return {};
}

std::string quoted(Rng& r, const std::string& s) {
    char q = r.chance(0.5) ? '\'' : '"';
    std::string o(1, q);
    for (auto c : s) {
        if (c == q || c == '\\') o += '\\';
        o += c;
    }
    return o + q;
}

std::string kw(Rng& r, const char* w) {  // keywords in any case
    std::string s(w);
    if (r.chance(0.2)) {
        for (auto& c : s) c = r.chance(0.5) ? toupper(c) : tolower(c);
    }
    return s;
}

std::string text(Rng& r, const P& p) {
    auto& e = *p;
    auto A  = [&](size_t i) { return text(r, e.a[i]); };
    auto eq = [&](int op) { return op == 0 && r.chance(0.3) ? "==" : op == 1 && r.chance(0.3) ? "!=" : OPS[op]; };
    switch (e.k) {
        case COL: return e.sql;
        case NUM: return decimal(e.num);
        case TEXT: return quoted(r, e.text);
        case ADD: return "(" + A(0) + " + " + A(1) + ")";
        case SUB: return "(" + A(0) + " - " + A(1) + ")";
        case MUL: return "(" + A(0) + " * " + A(1) + ")";
        case DIV: return "(" + A(0) + " / " + A(1) + ")";
        case NEG: return "(- (" + A(0) + "))";
        case ABS: return "abs(" + A(0) + ")";
        case FLOOR: return "floor(" + A(0) + ")";
        case NVL: return "nvl(" + A(0) + ", " + A(1) + ")";
        case CMP: return "(" + A(0) + " " + eq(e.op) + " " + A(1) + ")";
        case CHAIN: return "(" + A(0) + " " + OPS[e.op] + " " + A(1) + " " + OPS[e.op2] + " " + A(2) + ")";
        case AND: return "(" + A(0) + kw(r, " and ") + A(1) + ")";
        case OR: return "(" + A(0) + kw(r, " or ") + A(1) + ")";
        case NOT: return "(" + kw(r, "not") + " " + A(0) + ")";
        case IN:
        case NOTIN: {
            auto s = "(" + A(0) + (e.k == IN ? kw(r, " in ") : kw(r, " not in ")) + "(";
            for (size_t i = 1; i < e.a.size(); ++i) s += (i > 1 ? ", " : "") + A(i);
            return s + "))";
        }
        case BETWEEN: return "(" + A(0) + kw(r, " between ") + A(1) + kw(r, " and ") + A(2) + ")";
        case NOTBETWEEN: return "(" + A(0) + kw(r, " not between ") + A(1) + kw(r, " and ") + A(2) + ")";
        case ISNULL: return "(" + A(0) + kw(r, " is null") + ")";
        case NOTNULL: return "(" + A(0) + kw(r, " is not null") + ")";
        case LIKE: return "(" + A(0) + kw(r, r.chance(0.5) ? " like " : " rlike ") + quoted(r, e.text) + ")";
        case AGG: {
            if (e.a.empty()) return "count(*)";
            auto s = e.text + "(" + A(0);
            return s + (e.a.size() > 1 ? ", " + A(1) : "") + ")";
        }
    }
    return "";
}

bool isString(const P& e, const std::vector<const Data*>& tables) { return e->k == TEXT || (e->k == COL && tables[e->t]->cols[e->c].type == T::STR); }

//---------------------------------------------------------------------------------------------------------------------
// Generation

const char* const LETTERS = "abc";

std::string word(Rng& r) {
    std::string s;
    size_t n = r.chance(0.15) ? 0 : r.chance(0.7) ? r.below(5) : r.below(24);
    for (size_t i = 0; i < n; ++i) s += r.chance(0.05) ? r.pick(std::vector<char>{'\'', '"', '\\', '-', ' '}) : LETTERS[r.below(3)];
    return trim(s);
}

double small(Rng& r, bool whole) {
    double d = double(r.in(-4, 9));
    if (!whole) d += r.below(4) * 0.25;
    return d;
}

Data makeData(Rng& r, const std::string& name, const std::string& prefix, size_t maxRows, bool hdr) {
    Data t;
    t.name = name;
    size_t n = 1 + r.below(6);
    std::vector<std::string> strings;
    for (size_t i = 0, m = 1 + r.below(5); i < m; ++i) strings.push_back(word(r));
    for (size_t i = 0; i < n; ++i) {
        Col c;
        c.type = i == 0 ? T::INT : T(r.below(5));
        c.name = prefix + "ircsb"[int(c.type)] + std::to_string(i);
        if (c.type == T::BITS) {
            for (size_t f = 0, m = 1 + r.below(4); f < m; ++f) {
                c.bits.first.push_back(std::string("f") + std::to_string(f));
                c.bits.second.push_back(1 + r.below(5));
            }
        }
        if (hdr) c.name += r.chance(0.5) ? "@hdr" : "@body";
        t.cols.push_back(c);
    }
    size_t rows = r.chance(0.1) ? r.below(2) : r.below(maxRows + 1);
    size_t start = 0;
    do {
        Frame f;
        f.start    = start;
        size_t end = r.chance(0.5) ? rows : start + 1 + r.below(rows + 1);
        end        = std::min(end, rows);
        std::vector<Row> block(end - start, Row(n));
        for (size_t i = 0; i < n; ++i) {
            auto type    = t.cols[i].type;
            bool missing = r.chance(0.4);
            double mv    = type == T::STR ? (r.chance(0.7) ? 0. : asDouble("missing!")) : type == T::REAL ? -2147483647. : type == T::BITS ? 2147483647. : r.chance(0.8) ? 2147483647. : 0.;
            size_t width = 1;
            for (auto& row : block) {
                auto& v = row[i];
                if (type == T::STR) {
                    v = Val::text(r.pick(strings));
                    if (missing && asDouble(v.s) == mv) v = Val::none(true);
                }
                else {
                    v.d = type == T::INT ? small(r, true) : type == T::BITS ? double(r.below(1ul << 20)) : small(r, false);
                    if (r.chance(0.02) && type != T::BITS) v.d = mv;  // missing only where it can be
                    if (missing && v.d == mv) v = Val::none();
                }
                if (missing && r.chance(0.3)) v = Val::none(type == T::STR);
                width = std::max(width, (v.s.size() + 7) / 8);
            }
            if (type == T::STR && r.chance(0.3)) width += r.below(2);
            f.width.push_back(width);
            f.hasMissing.push_back(missing);
            f.missing.push_back(mv);
        }
        t.rows.insert(t.rows.end(), block.begin(), block.end());
        t.frames.push_back(f);
        start = end;
    } while (start < rows);
    return t;
}

struct Gen {
    Rng& r;
    std::vector<const Data*> tables;
    std::vector<P> numeric, strings, all;

    Gen(Rng& r_, std::vector<const Data*> t) : r(r_), tables(std::move(t)) {
        for (size_t k = 0; k < tables.size(); ++k) {
            for (size_t i = 0; i < tables[k]->cols.size(); ++i) {
                auto& c = tables[k]->cols[i];
                auto e  = make(COL);
                e->t    = k;
                e->c    = i;
                e->sql  = c.name;
                (c.type == T::STR ? strings : numeric).push_back(e);
                all.push_back(e);
                if (c.type == T::BITS) {
                    unsigned shift = 0;
                    for (size_t f = 0; f < c.bits.first.size(); ++f) {
                        auto b   = std::make_shared<E>(*e);
                        b->field = int(f);
                        b->shift = shift;
                        b->width = c.bits.second[f];
                        shift += b->width;
                        auto at = c.name.find('@');
                        b->sql  = c.name.substr(0, at) + "." + c.bits.first[f] + (at == std::string::npos ? "" : c.name.substr(at));
                        numeric.push_back(b);
                        all.push_back(b);
                    }
                }
            }
        }
    }

    P literal() { return number(small(r, r.chance(0.6))); }

    P value(int depth = 2) {
        if (depth == 0 || r.chance(0.5)) return r.chance(0.2) ? literal() : r.pick(numeric);
        switch (r.below(8)) {
            case 0: return make(ADD, {value(depth - 1), value(depth - 1)});
            case 1: return make(SUB, {value(depth - 1), value(depth - 1)});
            case 2: return make(MUL, {value(depth - 1), value(depth - 1)});
            case 3: return make(DIV, {value(depth - 1), number(r.pick(std::vector<double>{2, -4, 0.5}))});
            case 4: return make(NEG, {value(depth - 1)});
            case 5: return make(ABS, {value(depth - 1)});
            case 6: return make(FLOOR, {value(depth - 1)});
            default: return make(NVL, {r.pick(numeric), literal()});
        }
    }

    P strLiteral() {
        auto e  = make(TEXT);
        e->text = word(r);
        if (r.chance(0.7)) {
            auto& p = r.pick(strings);
            auto& d = *tables[p->t];
            if (!d.rows.empty()) {
                auto& v = r.pick(d.rows)[p->c];
                if (!v.null) e->text = v.s;
            }
        }
        if (r.chance(0.1)) e->text += " ";
        return e;
    }

    P condition(int depth = 3) {
        if (depth > 0 && r.chance(0.5)) {
            switch (r.below(3)) {
                case 0: return make(AND, {condition(depth - 1), condition(depth - 1)});
                case 1: return make(OR, {condition(depth - 1), condition(depth - 1)});
                default: return make(NOT, {condition(depth - 1)});
            }
        }
        if (!strings.empty() && r.chance(0.35)) {
            auto s = r.pick(strings);
            switch (r.below(4)) {
                case 0: {
                    auto e = make(CMP, {s, r.chance(0.3) ? r.pick(strings) : strLiteral()});
                    e->op  = r.below(2);
                    return e;
                }
                case 1: {
                    auto e = make(r.chance(0.5) ? IN : NOTIN, {s});
                    for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) e->a.push_back(r.chance(0.2) ? r.pick(strings) : strLiteral());
                    return e;
                }
                case 2: {
                    auto e = make(LIKE, {s});
                    if (r.chance(0.3)) e->text += "^";
                    for (size_t i = 0, n = 1 + r.below(r.chance(0.3) ? 12 : 3); i < n; ++i) e->text += r.chance(0.2) ? '.' : LETTERS[r.below(3)];
                    if (r.chance(0.3)) e->text += "$";
                    return e;
                }
                default: return make(r.chance(0.5) ? ISNULL : NOTNULL, {s});
            }
        }
        switch (r.below(9)) {
            case 0: {
                auto e = make(r.chance(0.5) ? IN : NOTIN, {value(1)});
                for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) e->a.push_back(r.chance(0.3) ? value(1) : literal());
                return e;
            }
            case 1: return make(r.chance(0.5) ? BETWEEN : NOTBETWEEN, {value(1), value(1), value(1)});
            case 2: return make(r.chance(0.5) ? ISNULL : NOTNULL, {r.chance(0.6) ? r.pick(numeric) : value(1)});
            case 3: {
                auto e = make(CHAIN, {value(1), value(1), value(1)});
                e->op  = r.below(6);
                e->op2 = r.below(6);
                return e;
            }
            case 4: {  // constant
                auto e = make(CMP, {literal(), literal()});
                e->op  = r.below(6);
                return e;
            }
            case 5: {
                auto e = make(CMP, {r.pick(numeric), r.pick(numeric)});
                e->op  = 0;
                return e;
            }
            default: {
                auto e = make(CMP, {value(), value()});
                e->op  = r.below(6);
                return e;
            }
        }
    }

    P aggregateOf() {
        auto e  = make(AGG);
        e->text = r.pick(std::vector<std::string>{"count", "count", "sum", "avg", "mean", "min", "max", "var", "stdev", "rms", "dotp", "norm"});
        if (e->text == "count" && r.chance(0.5)) {
            if (r.chance(0.6)) e->a.push_back(r.pick(all));
            return e;
        }
        e->a.push_back(r.chance(0.6) ? r.pick(numeric) : value(1));
        if (e->text == "dotp" || e->text == "norm") e->a.push_back(r.pick(numeric));
        return e;
    }

    P aggregated() {
        auto a = aggregateOf();
        if (r.chance(0.6)) return a;
        switch (r.below(4)) {
            case 0: return make(ADD, {a, literal()});
            case 1: return make(MUL, {a, number(2)});
            case 2: return make(SUB, {a, aggregateOf()});
            default: return make(NEG, {a});
        }
    }
};

struct Query {
    bool distinct = false, aggregates = false, grouped = false;
    std::vector<P> select;
    std::vector<std::string> titles;  // "" for anything
    P where;
    struct Key {
        int index;  // of the select list, or -1
        P e;
        bool asc;
    };
    std::vector<Key> order;
    std::string sql;
};

using Rows = std::vector<std::vector<Val>>;

// -1, 0, 1, missing values first
int before(const Val& x, const Val& y) {
    if (x.null != y.null) return x.null ? -1 : 1;
    if (x.null) return 0;
    if (x.str) {
        auto a = trim(x.s), b = trim(y.s);
        return a < b ? -1 : a > b ? 1 : 0;
    }
    return x.d < y.d ? -1 : x.d > y.d ? 1 : 0;
}

struct Less {
    bool operator()(const std::vector<Val>& x, const std::vector<Val>& y) const {
        for (size_t i = 0; i < x.size(); ++i) {
            if (int b = before(x[i], y[i])) return b < 0;
        }
        return false;
    }
};

bool aggregates(const P& e) {
    if (e->k == AGG) return true;
    for (auto& a : e->a)
        if (aggregates(a)) return true;
    return false;
}

Rows reference(const Query& q, const std::vector<const Data*>& tables, bool& none) {
    std::vector<Env> kept;
    std::vector<size_t> at(tables.size(), 0);
    bool any = true;
    for (auto* t : tables) any = any && !t->rows.empty();
    while (any) {
        Env env;
        for (size_t k = 0; k < tables.size(); ++k) env.rows.push_back(&tables[k]->rows[at[k]]);
        auto w = q.where ? eval(q.where, env) : Val::num(1);
        if (!w.null && w.d) kept.push_back(env);
        size_t k = 0;
        while (k < tables.size() && ++at[k] == tables[k]->rows.size()) at[k++] = 0;
        any = k < tables.size();
    }
    none = kept.empty();

    struct Made {
        std::vector<Val> row, key;
    };
    std::vector<Made> made;
    auto emit = [&](const Env& env) {
        Made m;
        for (auto& e : q.select) m.row.push_back(eval(e, env));
        for (auto& k : q.order) m.key.push_back(k.index >= 0 ? m.row[k.index] : eval(k.e, env));
        made.push_back(m);
    };

    if (!q.aggregates) {
        for (auto& env : kept) emit(env);
    }
    else if (!q.grouped) {
        Env all;
        for (auto& env : kept) all.group.push_back(env.rows);
        if (!kept.empty()) emit(all);
    }
    else {
        std::map<std::vector<Val>, Env, Less> groups;
        for (auto& env : kept) {
            std::vector<Val> key;
            for (auto& e : q.select)
                if (!aggregates(e)) key.push_back(eval(e, env));
            auto& g = groups.emplace(key, env).first->second;
            g.group.push_back(env.rows);
        }
        for (auto& g : groups) emit(g.second);
    }

    if (q.distinct) {
        std::set<std::vector<Val>, Less> seen;
        std::vector<Made> once;
        for (auto& m : made)
            if (seen.insert(m.row).second) once.push_back(m);
        made = once;
    }
    if (!q.order.empty()) {
        std::stable_sort(made.begin(), made.end(), [&](const Made& a, const Made& b) {
            for (size_t i = 0; i < q.order.size(); ++i) {
                if (int o = before(a.key[i], b.key[i])) return q.order[i].asc ? o < 0 : o > 0;
            }
            return false;
        });
    }
    Rows rows;
    for (auto& m : made) rows.push_back(m.row);
    return rows;
}

bool approx(const Val& got, const Val& want, bool exact) {
    if (got.null != want.null || got.str != want.str) return false;
    if (got.null) return true;
    if (got.str) return got.s == want.s;
    return got.d == want.d || (!exact && std::abs(got.d - want.d) <= 1e-7 * (1 + std::abs(want.d)) + 1e-12 * magnitude * factor);
}

std::string show(const std::vector<Val>& row) {
    std::string s = "(";
    for (auto& v : row) s += (s.size() > 1 ? ", " : "") + show(v);
    return s + ")";
}

std::string showAll(const Rows& rows) {
    std::string s;
    for (size_t i = 0; i < rows.size() && i < 12; ++i) s += (i ? " " : "") + show(rows[i]);
    return rows.size() > 12 ? s + "... " + std::to_string(rows.size()) : s.empty() ? "nothing" : s;
}

bool sameRow(const std::vector<Val>& got, const std::vector<Val>& want, const Query& q) {
    if (got.size() != want.size()) return false;
    for (size_t i = 0; i < got.size(); ++i)
        if (!approx(got[i], want[i], !aggregates(q.select[i]))) return false;
    return true;
}

bool sameAnyOrder(const Rows& got, const Rows& want, const Query& q) {
    if (got.size() != want.size()) return false;
    std::vector<bool> used(want.size(), false);
    for (auto& g : got) {
        size_t i = 0;
        while (i < want.size() && (used[i] || !sameRow(g, want[i], q))) ++i;
        if (i == want.size()) return false;
        used[i] = true;
    }
    return true;
}

Query makeQuery(Rng& r, Gen& g, bool stars) {
    Query q;
    auto nt = g.tables.size();
    std::string list;
    auto put = [&](const P& e, const std::string& sql, const std::string& title) {
        q.select.push_back(e);
        q.titles.push_back(title);
        if (!sql.empty()) list += (list.empty() ? "" : r.chance(0.5) ? "," : ", ") + sql;
    };
    auto item = [&](const P& e) {
        auto sql = text(r, e), title = e->k == COL ? e->sql : std::string();
        if (r.chance(0.2)) {
            title = "as" + std::to_string(q.select.size());
            sql += kw(r, " as ") + title;
        }
        put(e, sql, title);
    };
    auto column = [&] { return r.chance(0.8) ? r.pick(g.all) : r.chance(0.8) ? g.value() : g.condition(1); };

    if (stars) {
        list = "*";
        for (auto& e : g.all)
            if (e->field < 0) put(e, "", e->sql);
    }
    else {
        q.aggregates = r.chance(0.35);
        q.grouped    = q.aggregates && r.chance(0.7);
        size_t n     = 1 + r.below(4);
        if (q.aggregates) {
            std::vector<char> kinds;
            for (size_t i = 0; i < n; ++i) kinds.push_back(q.grouped && r.chance(0.5));
            kinds[0] = !q.grouped ? false : kinds[0];
            if (q.grouped) {
                kinds.push_back(true);
                kinds.push_back(false);
                r.shuffle(kinds);
            }
            for (auto k : kinds) item(k ? r.chance(0.8) ? r.pick(g.all) : g.value(1) : g.aggregated());
            q.grouped = false;
            for (auto& e : q.select) q.grouped = q.grouped || !aggregates(e);
        }
        else {
            for (size_t i = 0; i < n; ++i) {
                // all fields of a bit field
                if (r.chance(0.05)) {
                    std::vector<P> bits;
                    for (auto& e : g.numeric)
                        if (e->field == 0) bits.push_back(e);
                    if (!bits.empty()) {
                        auto b  = r.pick(bits);
                        auto at = b->sql.find('.'), hdr = b->sql.find('@');
                        list += (list.empty() ? "" : ", ") + b->sql.substr(0, at) + ".*" + (hdr == std::string::npos ? "" : b->sql.substr(hdr));
                        for (auto& e : g.numeric)
                            if (e->field >= 0 && e->t == b->t && e->c == b->c) put(e, "", "");
                        continue;
                    }
                }
                item(column());
            }
        }
        // every table is part of it
        std::set<size_t> used;
        std::function<void(const P&)> walk = [&](const P& e) {
            if (e->k == COL) used.insert(e->t);
            for (auto& a : e->a) walk(a);
        };
        for (auto& e : q.select) walk(e);
        if (nt > 1) {
            for (size_t k = 0; k < nt; ++k) {
                if (used.count(k)) continue;
                std::vector<P> of;
                for (auto& e : g.all)
                    if (e->t == k && (!q.aggregates || !isString(e, g.tables))) of.push_back(e);
                auto e = r.pick(of);
                if (q.aggregates) {
                    auto m  = make(AGG, {e});
                    m->text = "count";
                    e       = m;
                }
                item(e);
            }
        }
    }

    q.sql = kw(r, "select ");
    if (r.chance(0.25)) {
        q.distinct = true;
        q.sql += kw(r, "distinct ");
    }
    q.sql += list;
    return q;
}

void finish(Rng& r, Gen& g, Query& q, const std::string& from, const std::string& variable = "") {
    q.sql += from;
    if (r.chance(0.6)) {
        q.where = g.condition();
        if (r.chance(0.2)) q.sql += "  -- a comment 'of it;\n";
        q.sql += kw(r, " where ") + text(r, q.where);
    }
    if (q.grouped && r.chance(0.3)) q.sql += kw(r, " group by ") + text(r, r.pick(g.all));
    if (r.chance(0.4)) {
        std::vector<int> columns;
        for (size_t i = 0; i < q.select.size(); ++i) columns.push_back(int(i));
        for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) {
            Query::Key k{-1, nullptr, true};
            std::string sql;
            if (q.aggregates || r.chance(0.5)) {
                k.index = r.pick(columns);
                // (a column of the select list by its name)
                sql = q.select[k.index]->k == COL && q.titles[k.index] == q.select[k.index]->sql && r.chance(0.5) &&
                              std::any_of(g.all.begin(), g.all.end(), [&](const P& e) { return e->sql == q.select[k.index]->sql; }) ? q.select[k.index]->sql : std::to_string(k.index + 1);
            }
            else {
                k.e = r.chance(0.8) ? r.pick(g.all) : g.value(1);
                if (k.e->k == NUM) k.e = g.numeric[0];
                // what is constant is the number of a column
                std::function<bool(const P&)> constant = [&](const P& e) {
                    if (e->k == COL) return false;
                    for (auto& a : e->a)
                        if (!constant(a)) return false;
                    return true;
                };
                if (constant(k.e)) k.e = g.numeric[0];
                sql = text(r, k.e);
            }
            if (r.chance(0.6)) {
                k.asc = r.chance(0.4);
                sql += kw(r, k.asc ? " asc" : " desc");
            }
            q.sql += (q.order.empty() ? kw(r, " order by ") : ", ") + sql;
            q.order.push_back(k);
        }
    }
    if (r.chance(0.3)) q.sql += ";";
}

struct Quiet {  // what the library prints while it simplifies is not of interest
    std::ostringstream sink;
    std::streambuf* saved;
    Quiet() : saved(std::cout.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(saved); }
};

const char* kindName(char k) { return k == 'r' ? "real" : k == 'd' ? "double" : k == 'i' ? "integer" : k == 'u' ? "unsigned" : k == 's' ? "string" : "bitfield"; }

void check(vf::Case& c, Output& out, const Query& q, const std::vector<const Data*>& tables, unsigned long long returned, const std::string& when) {
    bool none = false;
    magnitude = 0;
    factor    = 1;
    auto want = reference(q, tables, none);
    Rows got;
    for (auto& row : out.rows) {
        got.emplace_back();
        for (auto& cell : row) got.back().push_back(cell.v);
    }
    auto what = [&] { return q.sql + when; };
    c.eval();
    VF_CHECK(out.flushed, "sql-flush", what() << ": the output was not flushed");

    if (q.aggregates && !q.grouped && none) {
        // (of no rows)
        VF_CHECK(got.size() <= 1, "sql-rows", what() << " of no rows gave " << showAll(got));
        return;
    }
    VF_EQ(returned, (unsigned long long)got.size(), "sql-count", what() << ": number of rows said");

    bool ordered = tables.size() == 1 && !q.aggregates;
    bool ok      = sameAnyOrder(got, want, q);
    VF_CHECK(ok, tables.size() > 1 ? "sql-join-rows" : q.aggregates ? "sql-aggregates" : q.distinct ? "sql-distinct" : "sql-rows",
             what() << " gave " << showAll(got) << ", not " << showAll(want));
    if (!ok) return;
    if (ordered) {
        for (size_t i = 0; i < want.size(); ++i) {
            if (!sameRow(got[i], want[i], q)) {
                VF_CHECK(false, q.order.empty() ? "sql-sequence" : "sql-order", what() << " gave " << showAll(got) << " in that order, not " << showAll(want));
                break;
            }
        }
    }
    else if (!q.order.empty()) {
        // the keys that are in the select list
        std::vector<std::pair<int, bool>> keys;
        for (auto& k : q.order) {
            int index = k.index;
            if (index < 0) break;
            keys.emplace_back(index, k.asc);
        }
        for (size_t i = 1; i < got.size(); ++i) {
            for (auto& [k, asc] : keys) {
                // (equal to rounding)
                if (aggregates(q.select[k]) && approx(got[i - 1][k], got[i][k], false)) break;
                int b = before(got[i - 1][k], got[i][k]);
                if (b == 0) continue;
                VF_CHECK(asc ? b < 0 : b > 0, "sql-order", what() << " gave " << showAll(got) << " out of order");
                break;
            }
        }
    }
    VF_CHECK(out.titles.size() == q.titles.size(), "sql-titles", what() << ": " << out.titles.size() << " titles");
    for (size_t i = 0; i < q.titles.size() && i < out.titles.size(); ++i) {
        if (!q.titles[i].empty()) VF_EQ(out.titles[i], q.titles[i], "sql-titles", what() << ": title of column " << i);
    }
    for (auto& row : out.rows) {
        for (size_t i = 0; i < row.size() && i < q.select.size(); ++i) {
            auto& e = *q.select[i];
            if (e.k != COL || e.field >= 0) continue;
            char k = "irdsb"[int(tables[e.t]->cols[e.c].type)];
            if (row[i].kind != k) {
                VF_CHECK(false, "sql-type", what() << ": column " << i << " is given as " << kindName(row[i].kind) << ", not " << kindName(k));
                return;
            }
        }
    }
}

//---------------------------------------------------------------------------------------------------------------------
// The same queries, with their results written as text

struct Text {
    std::ostringstream out;
    std::string delimiter, format;
    bool noNames, noNull, binary, noAlign, full;
    std::unique_ptr<sql::SQLOutputConfig> config;
    std::unique_ptr<sql::SQLSession> session;

    Text(Rng& r, std::vector<Data>& data, bool implicit) {
        delimiter = r.pick(std::vector<std::string>{"\t", "|", " | ", ";", ","});
        format    = r.pick(std::vector<std::string>{"default", "wide"});
        noNames = r.chance(0.3), noNull = r.chance(0.2), binary = r.chance(0.5), noAlign = r.chance(0.5), full = r.chance(0.5);
        start(data, implicit);
    }

    Text(const Text& t, std::vector<Data>& data, bool implicit) :
        delimiter(t.delimiter), format(t.format), noNames(t.noNames), noNull(t.noNull), binary(t.binary), noAlign(t.noAlign), full(t.full) {
        start(data, implicit);
    }

    void start(std::vector<Data>& data, bool implicit) {
        config = std::make_unique<sql::SQLOutputConfig>(noNames, noNull, delimiter, format, binary, noAlign, full);
        session = std::make_unique<sql::SQLSession>(std::unique_ptr<sql::SQLOutput>(new sql::SQLSimpleOutput(*config, out)));
        auto& db = session->currentDatabase();
        for (auto& d : data) {
            if (implicit) db.addImplicitTable(new Table(db, d));
            else db.addTable(new Table(db, d));
        }
    }

    std::string number(double x, char kind) const {
        char buf[400];
        if (kind == 'b' && binary && x >= 0 && x < 18446744073709551616.) {
            std::string s;
            for (auto n = (unsigned long)x; n; n >>= 1) s.insert(s.begin(), char('0' + (n & 1)));
            return s;
        }
        if (kind == 'i' && x >= -9223372036854775808. && x < 9223372036854775808.) return std::to_string((long long)x);
        if ((kind == 'u' || kind == 'b') && x >= 0 && x < 18446744073709551616.) return std::to_string((unsigned long)x);
        int digits = !full ? 6 : 2 + (kind == 'i' ? std::numeric_limits<long long>::digits10 : kind == 'u' || kind == 'b' ? std::numeric_limits<unsigned long>::digits10 : std::numeric_limits<double>::digits10);
        std::snprintf(buf, sizeof(buf), "%.*f", digits, x);
        return buf;
    }

    // the lines written are the names of the columns, and the rows
    void check(vf::Case& c, const std::string& sqltext, const Output& o, bool parseAgain, bool joined, bool aggregates) {
        out.str("");
        if (parseAgain) sql::SQLParser::parseString(*session, sqltext);
        auto returned = session->statement().execute();
        c.eval();
        VF_EQ(returned, o.rows.size(), "sql-text-count", sqltext + ": rows counted");
        std::vector<std::string> lines;
        std::string text = out.str(), line;
        for (char ch : text) {
            if (ch == '\n') lines.push_back(line), line.clear();
            else line += ch;
        }
        VF_CHECK(line.empty(), "sql-text", sqltext + ": the last line is incomplete: " + vf::repr(line));
        VF_EQ(lines.size(), o.rows.size() + !noNames, "sql-text", sqltext + ": lines written");
        if (lines.size() != o.rows.size() + !noNames) return;
        auto fields = [&](const std::string& l) {
            std::vector<std::string> f;
            size_t at = 0;
            for (;;) {
                auto e = l.find(delimiter, at);
                f.push_back(trim(l.substr(at, e == std::string::npos ? e : e - at)));
                if (e == std::string::npos) return f;
                at = e + delimiter.size();
            }
        };
        bool namesClear = true;
        for (auto& t : o.titles) namesClear = namesClear && t.find(delimiter) == std::string::npos && t.find('\n') == std::string::npos;
        if (!noNames && namesClear && !(format == "wide" && (delimiter == ";" || delimiter == ","))) {
            auto f = fields(lines[0]);
            VF_EQ(f.size(), o.titles.size(), "sql-text-names", sqltext + ": names of columns");
            for (size_t i = 0; i < f.size() && i < o.titles.size(); ++i) {
                auto name = format == "wide" ? f[i].substr(0, trim(o.titles[i]).size()) : f[i];
                if (format == "wide") VF_CHECK(f[i].size() > name.size() && f[i][name.size()] == ':', "sql-text-names", sqltext + ": type of column: " + f[i]);
                VF_EQ(trim(name), trim(o.titles[i]), "sql-text-names", sqltext + ": name of column " + std::to_string(i));
            }
            c.count("headers of text");
        }
        if (joined) {
            // the order of the rows of several tables may be another one
            if (aggregates || noNull) return;
            std::vector<std::string> got(lines.begin() + !noNames, lines.end()), want;
            for (auto& l : got) {
                std::string t;
                for (auto& f : fields(l)) t += f + delimiter;
                l = t;
            }
            for (auto& row : o.rows) {
                want.push_back("");
                for (auto& f : row) want.back() += trim(f.v.null ? "NULL" : f.v.str ? "'" + f.v.s + "'" : number(f.v.d, f.kind)) + delimiter;
            }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            for (size_t i = 0; i < got.size(); ++i) VF_EQ(got[i], want[i], "sql-text", sqltext + ": line of the sorted ones " + std::to_string(i));
            c.count("queries written as text");
            return;
        }
        for (size_t k = 0; k < o.rows.size(); ++k) {
            auto f    = fields(lines[k + !noNames]);
            auto& row = o.rows[k];
            VF_EQ(f.size(), row.size(), "sql-text", sqltext + ": fields of line " + vf::repr(lines[k + !noNames]));
            for (size_t i = 0; i < f.size() && i < row.size(); ++i) {
                auto& v = row[i].v;
                if (v.null && noNull) continue;
                auto want = v.null ? "NULL" : v.str ? "'" + v.s + "'" : number(v.d, row[i].kind);
                VF_EQ(f[i], trim(want), "sql-text", sqltext + ": field " + std::to_string(i) + " of row " + std::to_string(k));
                c.count("fields of text");
            }
        }
        c.count("queries written as text");
    }
};

void run(vf::Case& c, std::vector<Data>& data, bool stars) {
    auto& r = c.rng;
    Quiet quiet;
    std::vector<const Data*> tables;
    for (auto& d : data) tables.push_back(&d);

    auto* out = new Output;
    sql::SQLSession session{std::unique_ptr<sql::SQLOutput>(out)};
    auto& db      = session.currentDatabase();
    bool implicit = data.size() == 1 && r.chance(0.2);
    for (auto& d : data) {
        if (implicit) db.addImplicitTable(new Table(db, d));
        else db.addTable(new Table(db, d));
    }
    std::unique_ptr<Text> text;
    if (r.chance(0.3)) text = std::make_unique<Text>(r, data, implicit);
    std::string from;
    if (!implicit) {
        from = kw(r, " from ");
        for (size_t i = 0; i < data.size(); ++i) from += (i ? ", " : "") + data[i].name;
    }

    for (int k = 0, n = 1 + r.below(3); k < n; ++k) {
        Gen g(r, tables);
        auto q = makeQuery(r, g, stars);
        if (stars && tables.size() > 1) {
            // columns of several tables have no name of their own
            for (auto* v : {&g.numeric, &g.strings, &g.all}) {
                std::map<std::string, int> names;
                for (auto& e : *v) names[e->sql]++;
                v->erase(std::remove_if(v->begin(), v->end(), [&](const P& e) { return names[e->sql] > 1; }), v->end());
            }
        }
        if (g.numeric.empty()) q.sql += from;
        else finish(r, g, q, from);
        c.trace() << q.sql << "\n";
        c.distinct(q.sql);
        try {
            if (r.chance(0.5)) sql::SQLParser().parseString(session, q.sql);
            else sql::SQLParser::parseString(session, q.sql);
            // a row at a time, some of the rows
            if (auto* select = dynamic_cast<sql::SQLSelect*>(&session.statement()); select && r.chance(0.25)) {
                select->prepareExecute();
                size_t n = r.chance(0.2) ? 0 : r.below(6), i = 0;
                bool more = true;
                for (; i < n && (more = select->processOneRow()); ++i) {
                    if (out->pending.size() != i + 1) {
                        c.fail("sql-one-row", q.sql + ": " + std::to_string(out->pending.size()) + " rows given after " + std::to_string(i + 1) + " steps");
                        break;
                    }
                }
                if (!more && !q.aggregates) {
                    VF_CHECK(!select->processOneRow(), "sql-one-row", q.sql << ": a step after the last gives a row");
                    c.count("rows asked for after the last");
                }
                auto some = out->pending;
                select->postExecute();
                VF_CHECK(out->pending.empty(), "sql-one-row", q.sql << ": rows left after an execution a row at a time");
                auto all = select->execute();
                VF_EQ(size_t(all), more ? std::max(out->rows.size(), i) : i, "sql-one-row", q.sql << ": rows of an execution after one " << (more ? "of the first " : "of all ") << i << " rows");
                auto same = [](const Cell& a, const Cell& b) { return a.kind == b.kind && a.v.null == b.v.null && (a.v.null || (a.v.s == b.v.s && (a.v.d == b.v.d || (a.v.d != a.v.d && b.v.d != b.v.d)))); };
                for (size_t k = 0; k < some.size(); ++k) {
                    bool ok = k < out->rows.size() && some[k].size() == out->rows[k].size();
                    for (size_t j = 0; ok && j < some[k].size(); ++j) ok = same(some[k][j], out->rows[k][j]);
                    if (!ok) {
                        c.fail("sql-one-row", q.sql + ": row " + std::to_string(k) + " is not the same a row at a time");
                        break;
                    }
                }
                c.eval(4);
                c.count("rows one at a time", i);
            }
            for (int again = 0, times = r.chance(0.3) ? 2 : 1; again < times; ++again) {
                out->flushed  = false;
                auto returned = session.statement().execute();
                check(c, *out, q, tables, returned, again ? " (executed again)" : "");
                c.count(q.aggregates ? q.grouped ? "grouped queries" : "aggregate queries" : "plain queries");
                c.count("rows given", out->rows.size());
                if (q.distinct) c.count("distinct queries");
                if (!q.order.empty()) c.count("ordered queries");
                if (data.size() > 1) c.count("join queries");
                if (again) c.count("repeated executions");
                if (text) {
                    text->check(c, q.sql, *out, !again, data.size() > 1, q.aggregates);
                    if (data.size() == 1 && k + again) {
                        // alone in a session, it gives the same text
                        Text fresh(*text, data, implicit);
                        fresh.check(c, q.sql, *out, true, false, q.aggregates);
                        VF_EQ(text->out.str(), fresh.out.str(), "sql-text-again", q.sql + ": text after other queries");
                        c.count("texts compared with those of new sessions");
                    }
                }
            }
        }
        catch (const std::exception& e) {
            c.fail("sql-exception", q.sql + " raised " + e.what());
        }
    }
}

VF_WORKLOAD(select, 10000, 200000) {
    auto& r = c.rng;
    std::vector<Data> data{makeData(r, r.chance(0.5) ? "t" : "table1", "", r.chance(0.01) ? 600 : r.chance(0.1) ? 60 : 14, r.chance(0.3))};
    if (data[0].frames.size() > 1) c.count("tables of several frames");
    run(c, data, r.chance(0.1));
}

VF_WORKLOAD(join, 4000, 80000) {
    auto& r = c.rng;
    std::vector<Data> data;
    size_t n   = r.chance(0.2) ? 3 : 2;
    bool stars = r.chance(0.15);
    for (size_t i = 0; i < n; ++i) data.push_back(makeData(r, "t" + std::to_string(i), stars && r.chance(0.7) ? "" : std::string(1, char('a' + i)), n == 3 ? 4 : 8, r.chance(0.2)));
    run(c, data, stars);
}

//---------------------------------------------------------------------------------------------------------------------
// Anything given as a query

std::string call(Rng& r, const std::vector<sql::expression::function::FunctionFactory::FuncInfo>& functions, const Gen& g, int depth) {
    switch (depth ? r.below(8) : r.below(4)) {
        case 0: return r.pick(g.all)->sql;
        case 1: return r.chance(0.2) && !g.strings.empty() ? r.pick(g.strings)->sql : r.pick(g.all)->sql;
        case 2:
            return r.pick(std::vector<std::string>{"0", "1", "-1", "2", "7", "12", "31", "32", "33", "64", "0.5", "-0.5", "1e10", "-1e10", "1e300", "-1e300", "2147483647", "2147483648", "-2147483648", "-2147483649",
                                                   "4294967296", "9223372036854775807", "20240229", "20231301", "235959", "1e400", "1e-320", "'x'", "''", "'a longer text of more than 8'", "\"(\""});
        case 3: return std::to_string(r.edgy(100000000));
    }
    auto& f = r.pick(functions);
    std::vector<std::string> a;
    for (int i = 0, n = f.arity < 0 ? r.below(4) : r.chance(0.02) ? r.below(4) : f.arity; i < n; ++i) a.push_back(call(r, functions, g, depth - 1));
    bool word = !f.name.empty() && std::isalpha((unsigned char)(f.name[0]));
    if (!word) {
        if (a.size() == 1) return "(" + f.name + " " + a[0] + ")";
        if (a.size() == 2) return "(" + a[0] + " " + f.name + " " + a[1] + ")";
    }
    std::string t = f.name + "(";
    for (size_t i = 0; i < a.size(); ++i) t += (i ? "," : "") + a[i];
    return t + ")";
}

std::string garble(Rng& r, const std::string& sql) {
    static const std::vector<std::string> words{
        "select", "distinct", "from", "where", "order by", "group by", "order", "by", "asc", "desc", "as", "and", "or", "not", "in", "is", "null", "missing", "between", "like", "rlike", "match", "query", "count", "all", "dual",
        "set", "create", "type", "table", "view", "updated", "readonly", "align", "(", ")", ",", ";", "*", "+", "-", "/", "%", "=", "==", "<>", "!=", "<", "<=", ">", ">=", ".", "@", "#", "[", "]", "{", "}", "$v", "~", "1", "-1", "0",
        "1e308", "2147483648", "0.5", "'a'", "\"b\"", "'", "\"", "i0", "t", "b1.f0", "*@hdr", "*.*", "/x/", "\\", "\n", "-- x\n", "--", "#include", "i0#1", "i0#-1", "i0[2]", "i0[1:2]", "((((((((((((((", "1 between 0 and 2", "count(*)", "null null", "sum(sum(i0))"};
    std::vector<std::string> tokens;
    for (size_t i = 0; i < sql.size();) {
        size_t j = i + 1;
        if (std::isalnum((unsigned char)sql[i]))
            while (j < sql.size() && (std::isalnum((unsigned char)sql[j]) || sql[j] == '.')) ++j;
        tokens.push_back(sql.substr(i, j - i));
        i = j;
    }
    for (int k = 0, n = 1 + r.below(4); k < n && !tokens.empty(); ++k) {
        auto at = tokens.begin() + r.below(tokens.size());
        switch (r.below(7)) {
            case 0: tokens.erase(at); break;
            case 1: *at = " " + r.pick(words) + " "; break;
            case 2: tokens.insert(at, " " + r.pick(words) + " "); break;
            case 3: {
                auto other = tokens[r.below(tokens.size())];
                tokens.insert(at, other);
                break;
            }
            case 4: std::swap(*at, tokens[r.below(tokens.size())]); break;
            case 5: tokens.erase(at, r.chance(0.5) ? tokens.end() : at + std::min<size_t>(tokens.end() - at, 1 + r.below(6))); break;
            default: *at = std::string(1, char(r.chance(0.5) ? r.in(32, 126) : r.in(1, 255))); break;
        }
    }
    std::string t;
    for (auto& x : tokens) t += x;
    return t;
}

VF_WORKLOAD(hostile, 6000, 120000) {
    auto& r = c.rng;
    Quiet quiet;
    std::vector<Data> data{makeData(r, "t", "", 8, r.chance(0.2))};
    std::vector<const Data*> tables{&data[0]};
    auto* out = new Output;
    sql::SQLSession session{std::unique_ptr<sql::SQLOutput>(out)};
    auto& db = session.currentDatabase();
    db.addTable(new Table(db, data[0]));
    db.addImplicitTable(new Table(db, data[0]));
    static const auto functions = sql::expression::function::FunctionFactory::instance().functionsInfo();
    Gen g(r, tables);
    auto valid = [&] {
        auto q = makeQuery(r, g, false);
        finish(r, g, q, " from t");
        return q;
    };
    for (int k = 0, n = 1 + r.below(4); k < n; ++k) {
        std::string text;
        bool calls = r.chance(0.5);
        if (calls) {
            text = "select ";
            for (int i = 0, m = 1 + r.below(3); i < m; ++i) text += (i ? "," : "") + call(r, functions, g, 3);
            text += " from t";
            if (r.chance(0.5)) text += " where " + call(r, functions, g, 3);
            if (r.chance(0.3)) text += " order by " + call(r, functions, g, 2);
        }
        else text = garble(r, valid().sql);
        c.trace() << text << "\n";
        c.distinct(text);
        bool parsed = false;
        try {
            sql::SQLParser::parseString(session, text);
            parsed = true;
            session.statement().execute();
            c.count(calls ? "function queries executed" : "garbled queries executed");
        }
        catch (const eckit::Exception&) {
            c.count(parsed ? "queries refused when executed" : "queries refused");
        }
        c.eval();
    }
    // what is refused has no effect on what follows
    auto q = valid();
    c.trace() << q.sql << "\n";
    try {
        sql::SQLParser::parseString(session, q.sql);
        auto returned = session.statement().execute();
        check(c, *out, q, tables, returned, " (after others)");
        c.count("queries after hostile ones");
    }
    catch (const std::exception& e) {
        c.fail("sql-exception", q.sql + " (after others) raised " + e.what());
    }
}

}  // namespace



//---------------------------------------------------------------------------------------------------------------------
// Functions of numbers, in longer precision than theirs

namespace {

using L = long double;

struct Known {
    const char* name;
    size_t args;
    std::function<L(const std::vector<double>&)> value;
    // how much the value may be off: relative, absolute
    double rel = 1e-13, abs = 1e-13;
    size_t needed = 0;  // arguments that may not be missing (all)
};

L rad(L x) { return x * acosl(-1) / 180; }
L deg(L x) { return x / acosl(-1) * 180; }
L kelvin(L x) { return x + 273.15L; }
L fahrenheit(L x) { return 9 * x / 5 + 32; }

// of a sphere, by the haversine
L arc(const std::vector<double>& a, int i, int j, int k, int l) {
    L s = sinl(rad(L(a[k]) - a[i]) / 2), t = sinl(rad(L(a[l]) - a[j]) / 2);
    L h = s * s + cosl(rad(a[i])) * cosl(rad(a[k])) * t * t;
    return 2 * asinl(sqrtl(std::min<L>(h, 1)));
}

const L KM = 180 * 60 / acosl(-1) * 1.852L;

// days since the first of January of the year 1 of the calendar, then as Julian days
long days(long y, long m, long d) {
    static const int before[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    long p    = y - 1;
    return p * 365 + p / 4 - p / 100 + p / 400 + before[m - 1] + (leap && m > 2) + d - 1 + 1721426;
}

const std::vector<Known>& known() {
    using V = const std::vector<double>&;
    static const std::vector<Known> k = {
        {"abs", 1, [](V a) { return fabsl(a[0]); }, 0, 0},
        {"fabs", 1, [](V a) { return fabsl(a[0]); }, 0, 0},
        {"acos", 1, [](V a) { return deg(acosl(a[0])); }, 1e-13, 1e-11},
        {"asin", 1, [](V a) { return deg(asinl(a[0])); }, 1e-13, 1e-11},
        {"atan", 1, [](V a) { return deg(atanl(a[0])); }},
        {"atan2", 2, [](V a) { return deg(atan2l(a[0], a[1])); }},
        {"cos", 1, [](V a) { return cosl(rad(a[0])); }, 0, 1e-11},
        {"sin", 1, [](V a) { return sinl(rad(a[0])); }, 0, 1e-11},
        {"tan", 1, [](V a) { return tanl(rad(a[0])); }, 1e-6, 1e-9},
        {"exp", 1, [](V a) { return expl(a[0]); }},
        {"cosh", 1, [](V a) { return coshl(a[0]); }},
        {"sinh", 1, [](V a) { return sinhl(a[0]); }},
        {"tanh", 1, [](V a) { return tanhl(a[0]); }},
        {"log", 1, [](V a) { return logl(a[0]); }},
        {"ln", 1, [](V a) { return logl(a[0]); }},
        {"log10", 1, [](V a) { return log10l(a[0]); }},
        {"lg", 1, [](V a) { return log10l(a[0]); }},
        {"sqrt", 1, [](V a) { return sqrtl(a[0]); }},
        {"mod", 2, [](V a) { return L(a[0] - a[1] * std::trunc(a[0] / a[1])); }, 1e-9, 1e-9},
        {"fmod", 2, [](V a) { return L(a[0] - a[1] * std::trunc(a[0] / a[1])); }, 1e-9, 1e-9},
        {"pow", 2, [](V a) { return powl(a[0], a[1]); }},
        {"twice", 1, [](V a) { return 2 * L(a[0]); }},
        {"celsius", 1, [](V a) { return a[0] - 273.15L; }, 0, 1e-9},
        {"k2c", 1, [](V a) { return a[0] - 273.15L; }, 0, 1e-9},
        {"kelvin", 1, [](V a) { return kelvin(a[0]); }, 0, 1e-9},
        {"c2k", 1, [](V a) { return kelvin(a[0]); }, 0, 1e-9},
        {"c2f", 1, [](V a) { return fahrenheit(a[0]); }, 0, 1e-9},
        {"f2c", 1, [](V a) { return (a[0] - 32.L) * 5 / 9; }, 0, 1e-9},
        {"f2k", 1, [](V a) { return kelvin((a[0] - 32.L) * 5 / 9); }, 0, 1e-9},
        {"k2f", 1, [](V a) { return fahrenheit(a[0] - 273.15L); }, 0, 1e-9},
        {"fahrenheit", 1, [](V a) { return fahrenheit(a[0] - 273.15L); }, 0, 1e-9},
        {"radians", 1, [](V a) { return rad(a[0]); }},
        {"deg2rad", 1, [](V a) { return rad(a[0]); }},
        {"degrees", 1, [](V a) { return deg(a[0]); }},
        {"rad2deg", 1, [](V a) { return deg(a[0]); }},
        {"speed", 2, [](V a) { return sqrtl(L(a[0]) * a[0] + L(a[1]) * a[1]); }},
        {"ff", 2, [](V a) { return sqrtl(L(a[0]) * a[0] + L(a[1]) * a[1]); }},
        {"direction", 2, [](V a) { L d = deg(atan2l(-a[0], -a[1])); return d < 0 ? d + 360 : d; }, 0, 1e-10},
        {"dd", 2, [](V a) { L d = deg(atan2l(-a[0], -a[1])); return d < 0 ? d + 360 : d; }, 0, 1e-10},
        {"dir", 2, [](V a) { L d = deg(atan2l(-a[0], -a[1])); return d < 0 ? d + 360 : d; }, 0, 1e-10},
        {"distance", 4, [](V a) { return 1000 * KM * arc(a, 0, 1, 2, 3); }, 1e-9, 0.5},
        {"km", 4, [](V a) { return KM * arc(a, 0, 1, 2, 3); }, 1e-9, 5e-4},
        {"dist", 5, [](V a) { L d = KM * arc(a, 0, 1, 3, 4); return fabsl(d - a[2]) < .01 ? NAN : L(d <= a[2]); }, 0, 0},
        {"rad", 5, [](V a) { L d = deg(arc(a, 0, 1, 3, 4)); return fabsl(d - a[2]) < 1e-4 ? NAN : L(d <= a[2]); }, 0, 0},
        {"circle", 5, [](V a) { return L((a[0] - a[1]) * (a[0] - a[1]) + (a[2] - a[3]) * (a[2] - a[3]) <= a[4] * a[4]); }, 0, 0},
        {"not_between", 3, [](V a) { return L(a[0] < a[1] || a[0] > a[2]); }, 0, 0},
        {"between_exclude_first", 3, [](V a) { return L(a[0] > a[1] && a[0] <= a[2]); }, 0, 0},
        {"between_exclude_second", 3, [](V a) { return L(a[0] >= a[1] && a[0] < a[2]); }, 0, 0},
        {"between_exclude_both", 3, [](V a) { return L(a[0] > a[1] && a[0] < a[2]); }, 0, 0},
        {"floor", 1, [](V a) { return floorl(a[0]); }, 0, 0},
        {"ceil", 1, [](V a) { return ceill(a[0]); }, 0, 0},
        {"trunc", 1, [](V a) { return truncl(a[0]); }, 0, 0},
        {"int", 1, [](V a) { return truncl(a[0]); }, 0, 0},
        {"nint", 1, [](V a) { return roundl(a[0]); }, 0, 0},
        {"@year", 1, [](V a) { return L(long(a[0]) / 10000); }, 0, 0},
        {"@month", 1, [](V a) { return L(long(a[0]) / 100 % 100); }, 0, 0},
        {"@day", 1, [](V a) { return L(long(a[0]) % 100); }, 0, 0},
        {"%hour", 1, [](V a) { return L(long(a[0]) / 10000); }, 0, 0},
        {"%minute", 1, [](V a) { return L(long(a[0]) / 100 % 100); }, 0, 0},
        {"%minutes", 1, [](V a) { return L(long(a[0]) / 100 % 100); }, 0, 0},
        {"%second", 1, [](V a) { return L(long(a[0]) % 100); }, 0, 0},
        {"%seconds", 1, [](V a) { return L(long(a[0]) % 100); }, 0, 0},
        // of whole numbers
        {"#ibits", 3, [](V a) { auto x = std::uint32_t(std::int32_t(a[0])); L v = 0; for (int b = 0; b < int(a[2]) && b + int(a[1]) < 32; ++b) v += L((x >> (b + int(a[1]))) & 1) * (1u << b); return v; }, 0, 0},
        // of dates and times
        {"@julian", 2, [](V a) { long d = long(a[0]); return L(days(d / 10000, d / 100 % 100, d % 100)); }, 0, 0, 1},
        {"@jd", 2, [](V a) { long d = long(a[0]); return L(days(d / 10000, d / 100 % 100, d % 100)); }, 0, 0, 1},
        {"@julian_date", 2, [](V a) { long d = long(a[0]); return L(days(d / 10000, d / 100 % 100, d % 100)); }, 0, 0, 1},
        {"@julian_seconds", 2, [](V a) { long d = long(a[0]), t = long(a[1]); return L(days(d / 10000, d / 100 % 100, d % 100)) * 86400 + t / 10000 * 3600 + t / 100 % 100 * 60 + t % 100; }, 0, 0},
        {"@timestamp", 2, [](V a) { return L(a[0]) * 1000000 + a[1]; }, 0, 0},
        {"@tdiff", 4, [](V a) {
             auto s = [](long d, long t) { return L(days(d / 10000, d / 100 % 100, d % 100)) * 86400 + t / 10000 * 3600 + t / 100 % 100 * 60 + t % 100; };
             return s(long(a[0]), long(a[1])) - s(long(a[2]), long(a[3]));
         }, 0, 0},
    };
    return k;
}

}  // namespace

VF_WORKLOAD(functions, 3000, 100000) {
    auto& r = c.rng;
    Quiet quiet;
    auto& k          = r.pick(known());
    std::string name = k.name;
    char kind        = isalpha((unsigned char)name[0]) ? 0 : name[0];
    if (kind) name = name.substr(1);
    Data t;
    t.name = "t";
    Frame f;
    f.start = 0;
    for (size_t i = 0; i < k.args; ++i) {
        t.cols.push_back({"x" + std::to_string(i), T::DBL, {}});
        f.width.push_back(1);
        f.hasMissing.push_back(r.chance(.5));
        f.missing.push_back(2147483647.);
    }
    t.frames.push_back(f);
    int style = int(r.below(4));
    for (int n = int(r.in(1, 30)); n > 0; --n) {
        Row row;
        for (size_t i = 0; i < k.args; ++i) {
            double v;
            if (kind == '@' || kind == '%') {
                long y = name == "tdiff" ? r.in(1980, 1990) : r.in(1000, 3000), m = r.in(1, 12), dim = m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31;
                if (m == 2) dim = (y % 4 == 0 && y % 100) || y % 400 == 0 ? 29 : 28;
                v = i % 2 == 0 && kind == '@' ? double(y * 10000 + m * 100 + (r.chance(.3) ? dim : r.in(1, dim))) : double(r.below(24) * 10000 + r.below(60) * 100 + r.below(60));
            }
            else if (kind == '#') {
                v = i == 0 ? double(std::int32_t(r.u64() >> r.below(32))) : i == 1 ? double(r.below(32)) : double(r.in(1, row[1].null ? 31 : std::min(31L, 32 - long(row[1].d))));
            }
            else if (k.args >= 4) {
                // latitudes and longitudes, or distances
                v = style == 0 ? double(r.in(-90, 90)) : r.real(-90, 90);
                if (name != "circle" && i == 2 && k.args == 5) v = name == "dist" ? r.real(0, 20000) : r.real(0, 180);
                if (name == "circle") v = double(r.in(-5, 5));
            }
            else {
                v = style == 0 ? double(r.in(-5, 5)) : style == 1 ? r.real(-1, 1) : style == 2 ? r.real(-100, 100) : double(r.in(-360, 360)) / 4;
            }
            Val x = f.hasMissing[i] && r.chance(.15) ? Val::none() : Val::num(v);
            row.push_back(x);
        }
        t.rows.push_back(row);
    }
    auto* out = new Output;
    sql::SQLSession session{std::unique_ptr<sql::SQLOutput>(out)};
    auto& db = session.currentDatabase();
    db.addTable(new Table(db, t));
    db.addImplicitTable(new Table(db, t));
    std::string text = "select " + name + "(";
    for (size_t i = 0; i < k.args; ++i) text += (i ? "," : "") + t.cols[i].name;
    text += ")";
    // with constants, which are evaluated before the rows
    std::vector<double> fixed;
    if (!t.rows.empty())
        for (auto& v : t.rows[0])
            if (!v.null && decimal(v.d).find('e') == std::string::npos) fixed.push_back(v.d);  // the language has no exponents
    bool folded = fixed.size() == k.args;
    if (folded) {
        text += ", " + name + "(";
        for (size_t i = 0; i < k.args; ++i) text += (i ? "," : "") + decimal(fixed[i]);
        text += ")";
    }
    text += " from t";
    c.trace() << text;
    c.distinct(text + std::to_string(t.rows.size()));
    try {
        sql::SQLParser::parseString(session, text);
        session.statement().execute();
    }
    catch (const std::exception& e) {
        c.fail("sql-function", text + " raised " + e.what());
        return;
    }
    VF_EQ(out->rows.size(), t.rows.size(), "sql-function", "rows of " + text);
    for (size_t i = 0; i < std::min(out->rows.size(), t.rows.size()); ++i)
        for (size_t j = 0; j < (folded ? 2u : 1u); ++j) {
            bool null = false;
            std::vector<double> a;
            for (auto& v : t.rows[i]) {
                null = null || (v.null && (k.needed == 0 || a.size() < k.needed));
                a.push_back(v.d);
            }
            if (j) null = false, a = fixed;
            L want   = null ? 0 : k.value(a);
            auto got = out->rows[i][j].v;
            c.eval();
            std::string what = name + "(";
            for (size_t q = 0; q < a.size(); ++q) what += (q ? "," : "") + (j == 0 && t.rows[i][q].null ? std::string("NULL") : decimal(a[q]));
            what += j ? ") (of constants)" : ")";
            if (null) {
                c.count("functions of missing values");
                VF_CHECK(got.null, "sql-function", what + " is " + show(got));
                continue;
            }
            if (std::isnan(want) || std::isinf(double(want))) continue;  // not defined there
            c.count("functions evaluated");
            L tol = k.abs + k.rel * fabsl(want);
            if (name == "tan" && fabsl(cosl(rad(a[0]))) < 1e-6) continue;
            if ((name == "mod" || name == "fmod") && std::abs(std::abs(a[0] / a[1]) - std::round(std::abs(a[0] / a[1]))) < 1e-6) {  // at a multiple: nothing, or all of it
                VF_CHECK(std::min(std::abs(got.d), std::abs(std::abs(got.d) - std::abs(a[1]))) < 1e-4 + 1e-6 * std::abs(a[1]), "sql-function", what + " is " + show(got));
                continue;
            }
            if (name == "direction" || name == "dd" || name == "dir") {  // on the circle
                L d = fabsl(got.d - want);
                VF_CHECK(!got.null && got.d >= 0 && got.d <= 360 && std::min(d, 360 - d) <= 1e-9, "sql-function", what + " is " + show(got) + ", expected " + decimal(double(want)));
                continue;
            }
            if (name == "distance" || name == "km") {
                // the cosine says little about small distances, and about points nearly opposite
                L m = name == "km" ? 1 : 1000, off = std::min<L>(want, acosl(-1) * KM * m - want) / (KM * m);
                tol = off < 1e-3 ? 1e-3L * m : 1e-6L * m / off * 1e-3L + 1e-9L * want + 1e-5L * m;
            }
            VF_CHECK(!got.null && fabsl(got.d - want) <= tol, "sql-function", what + " is " + show(got) + ", expected " + decimal(double(want)));
        }
}
