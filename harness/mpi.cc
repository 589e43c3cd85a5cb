// C29 communicators: collectives and messages, with one process and with several
#include "vf.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <deque>
#include <fstream>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/log/Log.h"
#include "eckit/mpi/Comm.h"
#include "eckit/runtime/Main.h"

using namespace eckit;
using mpi::Comm;

namespace {

struct Wrong {
    std::string key, msg;
};

#define CHECK(cond, what)                                                                                                     \
    do {                                                                                                                      \
        if (!(cond)) {                                                                                                        \
            std::ostringstream os_;                                                                                           \
            os_ << what << " [" << #cond << " line " << __LINE__ << ", process " << comm.rank() << " of " << comm.size() << "]"; \
            throw Wrong{doing, os_.str()};                                                                                    \
        }                                                                                                                     \
    } while (0)

/// what all processes do: they share the random numbers, so each knows what all the others send
struct Program {
    vf::Rng shared;
    std::string dir;
    std::string doing = "start";
    std::map<std::string, long> counts;
    std::ostringstream trace;
    long names = 0;

    Program(uint64_t seed, const std::string& dir) : shared(seed), dir(dir) {}

    template <class T>
    static T value(uint64_t salt, size_t rank, size_t i) {
        return T(vf::hashStr(std::to_string(salt) + "/" + std::to_string(rank) + "/" + std::to_string(i)) % 90 + 1);
    }
    template <class T>
    static std::vector<T> values(uint64_t salt, size_t rank, size_t n, size_t from = 0) {
        std::vector<T> v(n);
        for (size_t i = 0; i < n; ++i) v[i] = value<T>(salt, rank, from + i);
        return v;
    }
    template <class T>
    static std::string show(const std::vector<T>& v) {
        std::ostringstream o;
        for (auto& x : v) o << (long)x << " ";
        return o.str();
    }

    void run(Comm& comm, int steps, int depth = 0) {
        for (int s = 0; s < steps; ++s) {
            if (patience) ::alarm(unsigned(patience));
            step(comm, depth);
        }
    }
    int patience = 0;  // seconds for a step

    void step(Comm& comm, int depth) {
        switch (shared.below(depth ? 9 : patience ? 12 : 11)) {
            case 0: typed<int>(comm); break;
            case 1: typed<long>(comm); break;
            case 2: typed<double>(comm); break;
            case 3: typed<float>(comm); break;
            case 4: typed<size_t>(comm); break;
            case 5: typed<long long>(comm); break;
            case 6: typed<char>(comm); break;
            case 7: messages(comm); break;
            case 8: extremes(comm); break;
            case 9: file(comm); break;
            case 11: groups(comm, depth); break;
            default: parts(comm, depth); break;
        }
    }

    /// places in a buffer for each process' items: in any order, with gaps
    struct Places {
        std::vector<int> counts, displs;
        size_t size = 0;
    };
    Places places(size_t n, bool inorder) {
        Places p;
        p.counts.resize(n);
        p.displs.resize(n);
        std::vector<size_t> order(n);
        for (size_t i = 0; i < n; ++i) order[i] = i;
        if (!inorder) shared.shuffle(order);
        for (size_t i : order) {
            p.size += inorder ? 0 : shared.below(4);
            p.counts[i] = int(shared.below(7));
            p.displs[i] = int(p.size);
            p.size += size_t(p.counts[i]);
        }
        p.size += inorder ? 0 : shared.below(4);
        return p;
    }

    template <class T>
    void typed(Comm& comm) {
        size_t n = comm.size(), me = comm.rank(), root = shared.below(n);
        uint64_t salt = shared.u64();
        size_t len    = shared.chance(.15) ? 0 : shared.below(30);
        int how       = int(shared.below(4));
        static const mpi::Operation::Code codes[] = {mpi::sum(), mpi::prod(), mpi::max(), mpi::min()};
        int op                                    = int(shared.below(sizeof(T) < 4 ? 2 : 4));
        if (sizeof(T) < 4) op += 2;
        auto fold = [&](size_t i) {
            // (factors are 1 or 2, so that products are exact)
            T all = 0;
            for (size_t r = 0; r < n; ++r) {
                T x = value<T>(salt, r, i);
                if (op == 1) x = T(1 + (long)x % 2);
                all = r == 0 ? x : op == 0 ? T(all + x) : op == 1 ? T(all * x) : op == 2 ? std::max(all, x) : std::min(all, x);
            }
            return all;
        };
        auto mine = [&](size_t count) {
            auto v = values<T>(salt, me, count);
            if (op == 1)
                for (auto& x : v) x = T(1 + (long)x % 2);
            return v;
        };
        const T hole = T(99);
        counts["collectives"]++;
        switch (shared.below(12)) {
            case 0: {
                doing = "broadcast";
                if (how == 0) len = 1;
                auto want = values<T>(salt, root, len);
                auto v    = me == root ? want : std::vector<T>(len, hole);
                if (how == 0) comm.broadcast(v[0], root);
                if (how == 1) comm.broadcast(v, root);
                if (how == 2) comm.broadcast(v.data(), v.size(), root);
                if (how == 3) comm.broadcast(v.begin(), v.end(), root);
                CHECK(v == want, "is given " << show(v) << " and not " << show(want));
                break;
            }
            case 1: {
                doing = "gather";
                if (how == 0) len = 1;
                auto v = values<T>(salt, me, len);
                std::vector<T> got(len * n, hole), want;
                for (size_t r = 0; r < n; ++r) {
                    auto x = values<T>(salt, r, len);
                    want.insert(want.end(), x.begin(), x.end());
                }
                if (how == 0) comm.gather(v[0], got, root);
                else if (how == 1) comm.gather(v, got, root);
                else comm.gather(v.begin(), v.end(), got.begin(), got.end(), root);
                if (me != root) want.assign(len * n, hole);
                CHECK(got == want, "is given " << show(got) << " and not " << show(want));
                break;
            }
            case 2: {
                doing  = "gatherv";
                auto p = places(n, shared.chance(.2));
                auto v = values<T>(salt, me, size_t(p.counts[me]));
                std::vector<T> got(p.size, hole), want(p.size, hole);
                for (size_t r = 0; r < n && me == root; ++r)
                    for (int i = 0; i < p.counts[r]; ++i) want[size_t(p.displs[r] + i)] = value<T>(salt, r, size_t(i));
                if (how == 0) comm.gatherv(v.data(), v.size(), got.data(), p.counts.data(), p.displs.data(), root);
                else if (how == 1) comm.gatherv(v, got, p.counts, p.displs, root);
                else if (how == 2) comm.gatherv(v.begin(), v.end(), got.begin(), got.end(), p.counts, p.displs, root);
                else comm.gatherv(v.begin(), v.end(), got.begin(), got.end(), p.counts.data(), p.displs.data(), root);
                CHECK(got == want, "is given " << show(got) << " and not " << show(want) << ", with displacements " << show(p.displs));
                counts["displacements"]++;
                break;
            }
            case 3: {
                doing = "scatter";
                if (how == 0) len = 1;
                // (what is not sent does not matter)
                std::vector<T> all = me == root ? values<T>(salt, root, len * n) : std::vector<T>(len * n, hole), got(len, hole);
                auto want = values<T>(salt, root, len, me * len);
                if (how == 0) comm.scatter(all, got[0], root);
                else comm.scatter(all, got, root);
                CHECK(got == want, "is given " << show(got) << " and not " << show(want));
                break;
            }
            case 4: {
                doing  = "scatterv";
                auto p = places(n, shared.chance(.2));
                auto all  = me == root ? values<T>(salt, root, p.size) : std::vector<T>(p.size, hole);
                auto want = values<T>(salt, root, size_t(p.counts[me]), size_t(p.displs[me]));
                std::vector<T> got(want.size(), hole);
                if (how == 0) comm.scatterv(all.data(), p.counts.data(), p.displs.data(), got.data(), int(got.size()), root);
                else if (how == 1) comm.scatterv(all.begin(), all.end(), p.counts.data(), p.displs.data(), got.begin(), got.end(), root);
                else comm.scatterv(all.begin(), all.end(), p.counts, p.displs, got.begin(), got.end(), root);
                CHECK(got == want, "is given " << show(got) << " and not " << show(want) << ", with displacements " << show(p.displs));
                counts["displacements"]++;
                break;
            }
            case 5:
            case 6: {
                bool everyone = shared.chance(.5), inplace = shared.chance(.5);
                doing         = everyone ? inplace ? "allReduceInPlace" : "allReduce" : inplace ? "reduceInPlace" : "reduce";
                if (how == 0) len = 1;
                auto v = mine(len);
                std::vector<T> got(len, hole), want(len);
                for (size_t i = 0; i < len; ++i) want[i] = fold(i);
                auto o = codes[op];
                if (inplace) got = v;
                if (everyone && inplace) {
                    if (how == 0) comm.allReduceInPlace(got[0], o);
                    else if (how == 1) comm.allReduceInPlace(got.data(), got.size(), o);
                    else comm.allReduceInPlace(got.begin(), got.end(), o);
                }
                else if (everyone) {
                    if (how == 0) comm.allReduce(v[0], got[0], o);
                    else if (how == 1) comm.allReduce(v.data(), got.data(), got.size(), o);
                    else comm.allReduce(v, got, o);
                }
                else if (inplace) {
                    if (how == 0) comm.reduceInPlace(got[0], o, root);
                    else if (how == 1) comm.reduceInPlace(got.data(), got.size(), o, root);
                    else comm.reduceInPlace(got.begin(), got.end(), o, root);
                }
                else {
                    if (how == 0) comm.reduce(v[0], got[0], o, root);
                    else if (how == 1) comm.reduce(v.data(), got.data(), got.size(), o, root);
                    else comm.reduce(v.data(), got.data(), v.size(), o, root);
                }
                if (everyone || me == root) CHECK(got == want, "operation " << op << " gives " << show(got) << " and not " << show(want));
                CHECK(inplace || v == mine(len), "what is sent is changed to " << show(v));
                break;
            }
            case 7: {
                doing = "allGather";
                std::vector<T> got(n, hole), want;
                for (size_t r = 0; r < n; ++r) want.push_back(value<T>(salt, r, 0));
                comm.allGather(value<T>(salt, me, 0), got.begin(), got.end());
                CHECK(got == want, "is given " << show(got) << " and not " << show(want));
                break;
            }
            case 8: {
                doing    = "allGatherv";
                bool own = shared.chance(.4);
                auto p   = places(n, own);
                auto v   = values<T>(salt, me, size_t(p.counts[me]));
                std::vector<T> got(p.size, hole), want(p.size, hole);
                for (size_t r = 0; r < n; ++r)
                    for (int i = 0; i < p.counts[r]; ++i) want[size_t(p.displs[r] + i)] = value<T>(salt, r, size_t(i));
                if (own) {
                    mpi::Buffer<T> b(n);
                    comm.allGatherv(v.begin(), v.end(), b);
                    CHECK(b.counts == p.counts && b.displs == p.displs && size_t(b.cnt) == p.size, "the counts are " << show(b.counts) << "; " << show(b.displs) << " and not " << show(p.counts));
                    got.assign(b.begin(), b.end());
                }
                else {
                    comm.allGatherv(v.begin(), v.end(), got.begin(), p.counts.data(), p.displs.data());
                    counts["displacements"]++;
                }
                CHECK(got == want, "is given " << show(got) << " and not " << show(want) << ", with displacements " << show(p.displs));
                break;
            }
            case 9: {
                doing    = "allToAll";
                auto all = values<T>(salt, me, len * n);
                std::vector<T> got(len * n, hole), want;
                for (size_t r = 0; r < n; ++r) {
                    auto x = values<T>(salt, r, len, me * len);
                    want.insert(want.end(), x.begin(), x.end());
                }
                comm.allToAll(all, got);
                CHECK(got == want, "is given " << show(got) << " and not " << show(want));
                break;
            }
            default: {
                bool nested = shared.chance(.4);
                doing       = nested ? "allToAll of vectors" : "allToAllv";
                std::vector<std::vector<int>> number(n, std::vector<int>(n));
                for (auto& x : number)
                    for (auto& y : x) y = int(shared.below(6));
                if (nested) {
                    std::vector<std::vector<T>> give(n), got(n), want(n);
                    for (size_t r = 0; r < n; ++r) {
                        give[r] = values<T>(salt + r, me, size_t(number[me][r]));
                        want[r] = values<T>(salt + me, r, size_t(number[r][me]));
                        got[r].resize(shared.below(4));
                    }
                    comm.allToAll(give, got);
                    for (size_t r = 0; r < n; ++r) CHECK(got[r] == want[r], "is given " << show(got[r]) << " and not " << show(want[r]) << " by " << r);
                    break;
                }
                // (places of what is sent and received: for the counts above)
                auto put = [&](std::vector<int> cnt, uint64_t salt) {
                    Places p;
                    p.counts = cnt;
                    p.displs.resize(n);
                    for (size_t i = n; i-- > 0;) {
                        p.size += (salt >> i) % 3;
                        p.displs[i] = int(p.size);
                        p.size += size_t(cnt[i]);
                    }
                    p.size += 2;
                    return p;
                };
                std::vector<int> come(n);
                for (size_t r = 0; r < n; ++r) come[r] = number[r][me];
                auto out = put(number[me], salt), in = put(come, salt / 7);
                std::vector<T> give(out.size, T(77)), got(in.size, hole), want(in.size, hole);
                for (size_t r = 0; r < n; ++r) {
                    for (int i = 0; i < out.counts[r]; ++i) give[size_t(out.displs[r] + i)] = value<T>(salt + r, me, size_t(i));
                    for (int i = 0; i < in.counts[r]; ++i) want[size_t(in.displs[r] + i)] = value<T>(salt + me, r, size_t(i));
                }
                comm.allToAllv(give.data(), out.counts.data(), out.displs.data(), got.data(), in.counts.data(), in.displs.data());
                CHECK(got == want, "is given " << show(got) << " and not " << show(want) << ", with displacements " << show(in.displs));
                counts["displacements"]++;
                break;
            }
        }
    }

    template <class V>
    void extreme(Comm& comm) {
        using P  = std::pair<V, int>;
        size_t n = comm.size(), me = comm.rank(), len = 1 + shared.below(8), root = shared.below(n);
        uint64_t salt = shared.u64();
        bool most = shared.chance(.5), everyone = shared.chance(.5), inplace = shared.chance(.5);
        doing    = most ? "maxloc" : "minloc";
        auto val = [&](size_t r, size_t i) { return P(V(value<int>(salt, r, i) % 4 - 2), int(r)); };
        std::vector<P> v(len), got(len, P(77, 77)), want(len);
        for (size_t i = 0; i < len; ++i) {
            v[i] = val(me, i);
            for (size_t r = 0; r < n; ++r) {
                auto x = val(r, i);
                if (r == 0 || (most ? x.first > want[i].first : x.first < want[i].first)) want[i] = x;
            }
        }
        auto op = most ? mpi::maxloc() : mpi::minloc();
        if (inplace) got = v;
        if (everyone) inplace ? comm.allReduceInPlace(got.data(), len, op) : comm.allReduce(v, got, op);
        else inplace ? comm.reduceInPlace(got.data(), len, op, root) : comm.reduce(v.data(), got.data(), len, op, root);
        if (everyone || me == root)
            for (size_t i = 0; i < len; ++i) CHECK(got[i] == want[i], "gives " << got[i].first << " of " << got[i].second << " and not " << want[i].first << " of " << want[i].second);
        counts["extremes"]++;
    }
    void extremes(Comm& comm) {
        switch (shared.below(5)) {
            case 0: extreme<int>(comm); break;
            case 1: extreme<double>(comm); break;
            case 2: extreme<float>(comm); break;
            case 3: extreme<long>(comm); break;
            default: {
                doing = "barrier";
                if (shared.chance(.5)) {
                    comm.barrier();
                    break;
                }
                auto r = comm.iBarrier();
                comm.wait(r);
                counts["barriers"]++;
            }
        }
    }

    struct Message {
        size_t from, to;
        int tag;
        std::vector<double> data;
        bool later;
    };

    void messages(Comm& comm) {
        size_t n = comm.size(), me = comm.rank();
        if (shared.chance(.2)) return shift(comm);
        doing         = "messages";
        uint64_t salt = shared.u64();
        bool many     = shared.chance(.15);
        size_t m      = many ? 100 * n + shared.below(60 * n) : 1 + shared.below(6 * n);
        int tags      = 1 + int(shared.below(4));
        std::deque<Message> plan;
        for (size_t i = 0; i < m; ++i) {
            Message x{shared.below(n), shared.below(n), int(10 - shared.below(size_t(tags))), {}, shared.chance(.4)};
            x.data = values<double>(salt, i, shared.below(many ? 4 : 40));
            plan.push_back(x);
        }
        vf::Rng mine(salt + me);  // what this process does by itself
        // nothing is there before the first message of the step
        comm.barrier();
        {
            auto s = comm.iProbe(comm.anySource(), mine.chance(.5) ? comm.anyTag() : int(mine.below(12)));
            CHECK(s.error() != 0, "a message is seen where none was sent, with tag " << s.tag());
        }
        comm.barrier();
        std::vector<mpi::Request> sent;
        for (auto& x : plan) {
            if (x.from != me) continue;
            if (x.later) {
                sent.push_back(x.data.size() == 1 && mine.chance(.5) ? comm.iSend(x.data[0], int(x.to), x.tag) : comm.iSend(x.data.data(), x.data.size(), int(x.to), x.tag));
            }
            else {
                auto copy = x.data;
                comm.send(copy.data(), copy.size(), int(x.to), x.tag);
                for (auto& d : copy) d = -1;  // (it has been sent)
            }
        }
        std::map<size_t, std::deque<const Message*>> left;
        size_t remaining = 0;
        for (auto& x : plan)
            if (x.to == me) {
                left[x.from].push_back(&x);
                ++remaining;
            }
        // the message of this process that a receive takes
        auto take = [&](size_t from, int tag, bool any) {
            auto& q = left[from];
            for (auto it = q.begin(); it != q.end(); ++it)
                if (any || (*it)->tag == tag) {
                    auto* x = *it;
                    q.erase(it);
                    --remaining;
                    return x;
                }
            return (const Message*)nullptr;
        };
        auto compare = [&](mpi::Status& s, const std::vector<double>& got, const Message& x, const char* by) {
            CHECK(s.error() == 0, by << " gives the error " << s.error());
            CHECK(s.source() == int(x.from) && s.tag() == x.tag, by << " gives the message of " << s.source() << " with tag " << s.tag() << " and not that of " << x.from << " with tag " << x.tag);
            CHECK(comm.getCount<double>(s) == x.data.size(), by << " gives " << comm.getCount<double>(s) << " items and not " << x.data.size());
            for (size_t i = 0; i < got.size(); ++i)
                CHECK(got[i] == (i < x.data.size() ? x.data[i] : -7), by << " gives " << show(got) << " and not " << show(x.data));
            counts["messages"]++;
        };
        while (remaining) {
            // one that has to come
            std::vector<const Message*> all;
            for (auto& q : left)
                for (auto* x : q.second) all.push_back(x);
            auto* wanted    = mine.pick(all);
            bool anySource  = mine.chance(.3), anyTag = mine.chance(.3);
            int source      = anySource ? comm.anySource() : int(wanted->from);
            int tag         = anyTag ? comm.anyTag() : wanted->tag;
            int way         = int(mine.below(5));
            if (way == 0) {
                // looked at first, so that it fits exactly
                bool blocking = mine.chance(.5);
                mpi::Status p = blocking ? comm.probe(source, tag) : comm.iProbe(source, tag);
                while (p.error() != 0) p = comm.iProbe(source, tag);
                size_t count = comm.getCount<double>(p);
                auto* x      = take(size_t(p.source()), tag, anyTag);
                CHECK(x, "a message of " << p.source() << " with tag " << p.tag() << " is seen that was not sent");
                CHECK(x->tag == p.tag() && x->data.size() == count, "the message seen has tag " << p.tag() << " and " << count << " items, not " << x->tag << " and " << x->data.size());
                std::vector<double> got(count, -7);
                auto s = comm.receive(got.data(), got.size(), p.source(), p.tag());
                compare(s, got, *x, "receive after probe");
                counts["probes"]++;
            }
            else if (way <= 2) {
                // (room for any, and more)
                size_t room = 40 + mine.below(5);
                if (!anySource && mine.chance(.5)) {
                    // exactly what is needed
                    for (auto* x : left[wanted->from])
                        if (anyTag || x->tag == tag) {
                            room = x->data.size();
                            break;
                        }
                }
                std::vector<double> got(room, -7);
                auto s = comm.receive(got.data(), got.size(), source, tag);
                CHECK(anySource || s.source() == source, "receive from " << source << " gives a message of " << s.source());
                auto* x = take(size_t(s.source()), tag, anyTag);
                CHECK(x, "a message of " << s.source() << " with tag " << s.tag() << " is received that was not sent");
                compare(s, got, *x, "receive");
                if (anySource || anyTag) counts["messages taken under any source or tag"]++;
            }
            else {
                // several at once, in order
                struct Posted {
                    std::vector<double> got;
                    const Message* x;
                };
                std::deque<Posted> posted;
                std::vector<mpi::Request> requests;
                size_t most = 1 + mine.below(6);
                while (remaining && posted.size() < most) {
                    std::vector<const Message*> some;
                    for (auto& q : left)
                        for (auto* x : q.second) some.push_back(x);
                    auto* w  = mine.pick(some);
                    bool any = mine.chance(.3);
                    auto* x  = take(w->from, w->tag, any);
                    posted.push_back({std::vector<double>(x->data.size() + (mine.chance(.5) ? mine.below(4) : 0), -7), x});
                    requests.push_back(comm.iReceive(posted.back().got.data(), posted.back().got.size(), int(w->from), any ? comm.anyTag() : w->tag));
                }
                if (way == 3) {
                    for (size_t i = 0; i < posted.size(); ++i) {
                        auto s = comm.wait(requests[i]);
                        compare(s, posted[i].got, *posted[i].x, "wait");
                    }
                }
                else if (mine.chance(.5)) {
                    auto s = comm.waitAll(requests);
                    CHECK(s.size() == posted.size(), "waitAll gives " << s.size());
                    for (size_t i = 0; i < posted.size(); ++i) compare(s[i], posted[i].got, *posted[i].x, "waitAll");
                }
                else {
                    std::set<int> done;
                    for (size_t i = 0; i < posted.size(); ++i) {
                        int which = -5;
                        auto s    = comm.waitAny(requests, which);
                        CHECK(which >= 0 && size_t(which) < posted.size() && done.insert(which).second, "waitAny gives " << which);
                        compare(s, posted[size_t(which)].got, *posted[size_t(which)].x, "waitAny");
                    }
                    int which = -5;
                    comm.waitAny(requests, which);
                    CHECK(which == comm.undefined(), "waitAny gives " << which << " where all are done");
                }
                counts["receives posted"] += long(posted.size());
            }
        }
        comm.waitAll(sent);
        comm.barrier();
        auto s = comm.iProbe(comm.anySource(), comm.anyTag());
        CHECK(s.error() != 0, "a message is left, with tag " << s.tag());
        comm.barrier();
        if (many) counts["steps with many messages"]++;
    }

    /// everyone gives to the next, and takes from the one before
    void shift(Comm& comm) {
        size_t n = comm.size(), me = comm.rank(), by = shared.below(n), len = shared.below(20);
        uint64_t salt = shared.u64();
        doing         = "sendReceiveReplace";
        size_t from   = (me + n - by) % n;
        auto v        = values<long>(salt, me, len);
        auto want     = values<long>(salt, from, len);
        bool anyTag   = shared.chance(.3);
        auto s        = comm.sendReceiveReplace(v.data(), v.size(), int((me + by) % n), 5, int(from), anyTag ? comm.anyTag() : 5);
        CHECK(v == want, "is given " << show(v) << " and not " << show(want));
        CHECK(s.source() == int(from) && s.tag() == 5 && comm.getCount<long>(s) == len, "the message is of " << s.source() << " with tag " << s.tag());
        // and pairs, waiting until the other one has it
        doing = "synchronisedSend";
        if (n > 1) {
            int after = 1;
            if (me % 2 == 0 && me + 1 < n) {
                comm.synchronisedSend(v.data(), v.size(), int(me + 1), 6);
                comm.send(after, int(me + 1), 8);
            }
            if (me % 2 == 1) {
                // (the sender does not go on before this one receives it)
                ::usleep(salt % 4 ? 0 : 15000);
                for (int i = 0; i < 3; ++i) CHECK(comm.iProbe(int(me - 1), 8).error() != 0, "the sender goes on before the message is received");
                std::vector<long> got(len, -7);
                comm.receive(got.data(), len, int(me - 1), 6);
                auto w = values<long>(salt, (me - 1 + n - by) % n, len);
                CHECK(got == w, "is given " << show(got) << " and not " << show(w));
                comm.receive(after, int(me - 1), 8);
            }
        }
        else if (!patience) {
            // (where there is only one process, it does not wait for itself)
            comm.synchronisedSend(v.data(), v.size(), 0, 6);
            std::vector<long> got(len, -7);
            comm.receive(got.data(), len, 0, 6);
            CHECK(got == v, "is given " << show(got) << " and not " << show(v));
        }
        counts["shifts"]++;
    }

    void file(Comm& comm) {
        doing         = "broadcastFile";
        size_t root   = shared.below(comm.size());
        uint64_t salt = shared.u64();
        int what      = int(shared.below(4));
        size_t len    = what == 1 ? 0 : shared.chance(.3) ? shared.below(300000) : 1 + shared.below(300);
        vf::Rng content(salt);
        std::string want = content.bytes(len);
        // (each its own, so that only the root's counts)
        std::string name = dir + "/file" + std::to_string(names++) + "." + std::to_string(comm.rank());
        if (what != 2) {
            std::ofstream out(name);
            out << (comm.rank() == root ? want : std::string("not this one"));
        }
        bool threw = false;
        try {
            auto b = comm.broadcastFile(name, root);
            CHECK(b->size() == want.size() && std::string(static_cast<const char*>(b->data()), b->size()) == want, "a file of " << want.size() << " bytes is given as " << b->size() << " bytes");
        }
        catch (eckit::Exception&) {
            threw = true;
        }
        CHECK(threw == (what == 1 || what == 2), "a file of " << want.size() << " bytes that is " << (what == 2 ? "not " : "") << "there is " << (threw ? "refused" : "given"));
        ::unlink(name.c_str());
        counts["files"]++;
    }

    /// sets of processes, in an order, made from each other
    void groups(Comm& comm, int depth) {
        doing    = "groups";
        int n    = int(comm.size()), me = int(comm.rank());
        using Is = std::vector<int>;
        std::vector<std::pair<mpi::Group, Is>> known;
        Is all;
        for (int i = 0; i < n; ++i) all.push_back(i);
        known.emplace_back(comm.group(), all);
        auto in = [](const Is& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
        for (int k = 3 + int(shared.below(8)); k > 0; --k) {
            auto a   = known[shared.below(known.size())];
            auto b   = known[shared.below(known.size())];
            int size = int(a.second.size());
            Is some, want;
            for (int i = 0; i < size; ++i)
                if (shared.chance(.6)) some.push_back(i);
            shared.shuffle(some);
            int first = size ? int(shared.below(size_t(size))) : 0, stride = 1 + int(shared.below(3));
            int last = size ? first + int(shared.below(size_t(size - first))) : 0;
            std::vector<std::array<int, 3>> range{{{first, last, stride}}};
            Is ranged;
            for (int i = first; i <= last; i += stride) ranged.push_back(i);
            mpi::Group g;
            int op = int(shared.below(7));
            if (op > 4 && !size) op = 0;
            switch (op) {
                case 0:
                    g = a.first.incl(some);
                    for (int i : some) want.push_back(a.second[size_t(i)]);
                    break;
                case 1:
                    g = a.first.excl(some);
                    for (int i = 0; i < size; ++i)
                        if (!in(some, i)) want.push_back(a.second[size_t(i)]);
                    break;
                case 2:
                    g    = a.first.union_group(b.first);
                    want = a.second;
                    for (int i : b.second)
                        if (!in(want, i)) want.push_back(i);
                    break;
                case 3:
                    g = a.first.intersection(b.first);
                    for (int i : a.second)
                        if (in(b.second, i)) want.push_back(i);
                    break;
                case 4:
                    g = a.first.difference(b.first);
                    for (int i : a.second)
                        if (!in(b.second, i)) want.push_back(i);
                    break;
                case 5:
                    g = a.first.range_incl(range);
                    for (int i : ranged) want.push_back(a.second[size_t(i)]);
                    break;
                default:
                    g = a.first.range_excl(range);
                    for (int i = 0; i < size; ++i)
                        if (!in(ranged, i)) want.push_back(a.second[size_t(i)]);
            }
            CHECK(g.size() == want.size(), "operation " << op << " gives " << g.size() << " and not " << want.size());
            auto at = std::find(want.begin(), want.end(), me);
            CHECK(g.rank() == (at == want.end() ? comm.undefined() : int(at - want.begin())), "operation " << op << ": this is " << g.rank());
            // who is in it, and what they are in the other
            Is ranks;
            for (int i = 0; i < int(want.size()); ++i) ranks.push_back(i);
            auto to = g.translate_ranks(ranks, known[0].first);
            for (int i : ranks) CHECK(to.count(i) && to[i] == want[size_t(i)], "operation " << op << ": number " << i << " is " << (to.count(i) ? to[i] : -1) << " and not " << want[size_t(i)]);
            auto other = g.translate_ranks(ranks, b.first);
            for (int i : ranks) {
                auto w = std::find(b.second.begin(), b.second.end(), want[size_t(i)]);
                CHECK(w == b.second.end() ? !other.count(i) : other.count(i) && other[i] == int(w - b.second.begin()), "number " << i << " is given as another one");
            }
            Is x = want, y = b.second;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            int cmp = g.compare(b.first);
            CHECK(want == b.second ? cmp == 0 : x == y ? cmp > 0 : cmp < 0, "compared as " << cmp);
            known.emplace_back(g, want);
            counts["groups"]++;
        }
        auto pick        = known[shared.below(known.size())];
        uint64_t sub     = shared.u64();
        std::string name = "group" + std::to_string(names++);
        auto at          = std::find(pick.second.begin(), pick.second.end(), me);
        if (at == pick.second.end()) return;
        Comm& part = comm.create(pick.first, 3, name);
        CHECK(part.size() == pick.second.size() && int(part.rank()) == at - pick.second.begin(), "this is " << part.rank() << " of " << part.size());
        vf::Rng keep(sub);
        std::swap(keep, shared);
        run(part, int(sub % 4), depth + 1);
        std::swap(keep, shared);
        mpi::deleteComm(name);
        counts["parts made of groups"]++;
    }

    void parts(Comm& comm, int depth) {
        doing      = "split";
        size_t n   = comm.size(), me = comm.rank();
        int colors = 1 + int(shared.below(3));
        std::vector<int> color(n);
        for (auto& c : color) c = int(shared.below(size_t(colors)));
        std::string name = "part" + std::to_string(names++);
        size_t size = 0, rank = 0;
        for (size_t r = 0; r < n; ++r) {
            if (color[r] != color[me]) continue;
            if (r < me) ++rank;
            ++size;
        }
        CHECK(!mpi::hasComm(name), name << " is there already");
        Comm& part = comm.split(color[me], name);
        CHECK(mpi::hasComm(name) && &mpi::comm(name) == &part && part.name() == name, name << " is not there");
        CHECK(part.size() == size && part.rank() == rank, "this is " << part.rank() << " of " << part.size() << " and not " << rank << " of " << size);
        bool again = vf::refuses([&] { comm.split(color[me], name); });
        CHECK(again, name << " is made twice");
        auto names_ = mpi::listComms();
        CHECK(std::count(names_.begin(), names_.end(), name) == 1, name << " is not in the list");
        // (what the parts do is the same for all of them, but of different sizes)
        vf::Rng keep(shared.u64());
        std::swap(keep, shared);
        run(part, int(keep.below(5)), depth + 1);
        std::swap(keep, shared);
        doing = "split";
        mpi::deleteComm(name);
        CHECK(!mpi::hasComm(name), name << " is still there");
        CHECK(vf::refuses([&] { mpi::deleteComm(name); }), name << " is removed twice");
        CHECK(vf::refuses([&] { mpi::deleteComm("world"); }), "the world is removed");
        counts["parts"]++;
    }
};

char stuck[512];
const std::string* doingNow;

/// one of several processes: vf-worker SEED STEPS FOLDER
int workerMain(int argc, char** argv) {
    if (argc != 4) return 9;
    eckit::Main::initialise(argc, argv);
    vf::NullBuf none;
    std::cout.rdbuf(&none);
    for (auto* l : {&Log::info(), &Log::warning(), &Log::error(), &Log::debug()}) l->reset();
    std::string dir = argv[3];
    Comm& comm      = mpi::comm();
    std::string me  = std::to_string(comm.rank());
    Program p(std::stoull(argv[1]), dir);
    std::string key, msg;
    p.patience = 40;
    doingNow   = &p.doing;
    ::snprintf(stuck, sizeof stuck, "%s/wrong.%s", argv[3], me.c_str());
    ::signal(SIGALRM, [](int) {
        int fd = ::open(stuck, O_WRONLY | O_CREAT, 0600);
        for (auto s : {doingNow->c_str(), "\nis not over after 40 s\n"}) (void)!::write(fd, s, ::strlen(s));
        ::_exit(3);
    });
    try {
        p.run(comm, std::stoi(argv[2]));
    }
    catch (Wrong& w) {
        key = w.key;
        msg = w.msg;
    }
    catch (std::exception& e) {
        key = p.doing;
        msg = std::string("throws ") + e.what();
    }
    if (!key.empty()) {
        {
            std::ofstream out(dir + "/wrong.tmp." + me);
            out << key << "\n" << msg << "\n";
        }
        ::rename((dir + "/wrong.tmp." + me).c_str(), (dir + "/wrong." + me).c_str());
        ::_exit(3);
    }
    {
        std::ofstream out(dir + "/done." + me);
        out << comm.size() << "\n";
        for (auto& c : p.counts) out << c.second << " " << c.first << "\n";
    }
    ::alarm(60);
    mpi::finaliseAllComms();
    return 0;
}
struct Hook {
    Hook() { vf::worker_main = workerMain; }
} hook;

void quietly() {
    static bool done = false;
    if (!done)
        for (auto* l : {&Log::error()}) l->reset();
    done = true;
}

int shell(const std::string& cmd) {
    pid_t pid = ::fork();
    if (pid == 0) {
        ::execl("/bin/sh", "sh", "-c", cmd.c_str(), nullptr);
        ::_exit(127);
    }
    // (not asleep: what is waited for works in process groups of its own, and comes to an end by itself)
    int st = 0;
    while (::waitpid(pid, &st, WNOHANG) == 0) {
        auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(1);
        while (std::chrono::steady_clock::now() < until) {
        }
        ::usleep(8000);
    }
    return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st);
}

}  // namespace

VF_WORKLOAD(mpi_one, 3000, 40000) {
    quietly();
    Program p(c.rng.u64(), c.scratch);
    Comm& comm = mpi::comm();
    VF_CHECK(comm.size() == 1 && comm.rank() == 0, "size", "there are " << comm.size());
    int steps = 10 + int(c.rng.below(30));
    c.trace() << steps << " steps\n";
    try {
        p.run(comm, steps);
    }
    catch (Wrong& w) {
        c.fail(w.key, w.msg);
    }
    catch (std::exception& e) {
        c.fail(p.doing, std::string("throws ") + e.what());
    }
    for (auto& k : p.counts) c.count("one: " + k.first, k.second);
    c.eval(steps);
    c.distinct(p.shared.u64());
}

VF_WORKLOAD(mpi_too_long, 300, 3000) {
    // a message longer than the room for it is refused, and nothing is written past it
    quietly();
    Comm& comm = mpi::comm();
    auto& r    = c.rng;
    size_t len = 1 + r.below(30), room = r.below(len);
    std::vector<double> v(len), got(room);
    for (auto& x : v) x = r.unit();
    int tag = int(r.below(5));
    bool later = r.chance(.5);
    comm.send(v.data(), v.size(), 0, tag);
    bool refused = vf::refuses([&] {
        if (later) {
            auto q = comm.iReceive(got.data(), got.size(), 0, tag);
            comm.wait(q);
        }
        else comm.receive(got.data(), got.size(), 0, tag);
    });
    VF_CHECK(refused, "too long", "a message of " << len << " items is received in " << room);
    // (whether it is still there is not said: it is taken out here)
    auto s = comm.iProbe(comm.anySource(), tag);
    if (s.error() == 0) {
        std::vector<double> all(len);
        comm.receive(all.data(), len, 0, tag);
        VF_CHECK(all == v, "too long", "a message refused is kept changed");
    }
    c.eval();
    c.count("messages too long");
    c.distinct(r.u64());
}

VF_WORKLOAD(mpi_several, 30, 600) {
    static int able = -1;
    std::string env = "TMPDIR=" + c.scratch + " OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 ASAN_OPTIONS=detect_leaks=0 ";
    std::string run = env + "timeout -k 5 130 mpirun --oversubscribe ";
    if (able < 0) able = shell(run + "-n 2 /bin/true > " + c.scratch + "/out 2>&1 < /dev/null") == 0;
    if (!able) {
        c.count("mpirun does not work here");
        c.eval();
        return;
    }
    int n = 2 + int(c.rng.below(5)), steps = 60 + int(c.rng.below(60));
    std::string worker = c.scratch + "/vf-worker";
    if (::symlink(("/proc/" + std::to_string(::getpid()) + "/exe").c_str(), worker.c_str())) c.fail("harness", "symlink");
    uint64_t seed = c.rng.u64();
    c.trace() << n << " processes, " << steps << " steps, seed " << seed << "\n";
    int rc = shell(run + "-n " + std::to_string(n) + " " + worker + " " + std::to_string(seed) + " " + std::to_string(steps) + " " + c.scratch + " > " + c.scratch + "/out 2>&1 < /dev/null");
    int done = 0;
    for (int i = 0; i < n; ++i) {
        std::ifstream wrong(c.scratch + "/wrong." + std::to_string(i));
        std::string key, msg;
        if (std::getline(wrong, key) && std::getline(wrong, msg)) c.fail(key, msg);
        std::ifstream in(c.scratch + "/done." + std::to_string(i));
        long size = 0, number;
        if (!(in >> size)) continue;
        VF_CHECK(size == n, "size", "there are " << size << " processes and not " << n);
        ++done;
        std::string what;
        while (in >> number && std::getline(in, what)) c.count("several:" + what, number);
    }
    if (rc || done != n) {
        std::ifstream in(c.scratch + "/out");
        std::string out((std::istreambuf_iterator<char>(in)), {});
        c.fail("ends", "of " + std::to_string(n) + " processes " + std::to_string(done) + " come to an end, status " + std::to_string(rc) + ": " + out.substr(0, 2500));
    }
    c.count("worlds of several processes");
    c.eval(long(steps) * n);
    c.distinct(seed);
}
