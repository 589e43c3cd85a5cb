// Queues, pools and other thread building blocks under varied schedules.
#include "vf.h"

#include <unistd.h>

#include <chrono>
#include <condition_variable>
#include <thread>

#include "eckit/container/Queue.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/memory/Counted.h"
#include "eckit/runtime/ProducerConsumer.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/Once.h"
#include "eckit/thread/Thread.h"
#include "eckit/thread/ThreadControler.h"
#include "eckit/thread/ThreadPool.h"
#include "eckit/thread/ThreadSingleton.h"

using namespace eckit;

static void jitter(vf::Rng& r) {
    switch (r.below(8)) {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(80))); break;
        default: break;
    }
}

struct Ev {
    long id;
    uint64_t call, ret;
};

// FIFO: if push(a) returned before push(b) was called, pop(b) must not return before pop(a) is called
static void checkFifo(vf::Case& c, std::map<long, Ev>& pushed, const std::vector<Ev>& popped) {
    std::map<long, Ev> pop;
    for (auto& e : popped) {
        VF_CHECK(pop.emplace(e.id, e).second, "queue-duplicate", "element " << e.id << " popped twice");
        VF_CHECK(pushed.count(e.id), "queue-invented", "element " << e.id << " popped but never pushed");
        VF_CHECK(pushed[e.id].call < e.ret, "queue-early", "element " << e.id << " popped before it was pushed");
    }
    // sort by push call; sweep
    std::vector<const Ev*> byRet, byCall;
    for (auto& p : pushed) {
        byRet.push_back(&p.second);
        byCall.push_back(&p.second);
    }
    std::sort(byRet.begin(), byRet.end(), [](auto a, auto b) { return a->ret < b->ret; });
    std::sort(byCall.begin(), byCall.end(), [](auto a, auto b) { return a->call < b->call; });
    uint64_t latestPopCall = 0;  // over elements a whose push returned already
    long who               = -1;
    size_t j               = 0;
    for (auto* b : byCall) {
        while (j < byRet.size() && byRet[j]->ret < b->call) {
            auto it = pop.find(byRet[j]->id);
            uint64_t pc = it == pop.end() ? ~0ULL : it->second.call;
            if (pc > latestPopCall) {
                latestPopCall = pc;
                who           = byRet[j]->id;
            }
            ++j;
        }
        auto it = pop.find(b->id);
        if (it != pop.end()) {
            VF_CHECK(it->second.ret > latestPopCall, "queue-order", "element " << b->id << " was popped before element " << who << ", pushed earlier");
        }
    }
}

VF_WORKLOAD(queue_mpmc, 120, 2500) {
    size_t max = c.rng.in(1, c.rng.chance(0.5) ? 3 : 20);
    Queue<long> q(max);
    int np = c.rng.in(1, 4), nc = c.rng.in(1, 4), per = c.rng.in(1, 60);
    bool resizer = c.rng.chance(0.3), interrupted = c.rng.chance(0.25);
    int popMode = c.rng.below(3);
    c.trace() << "max=" << max << " producers=" << np << " consumers=" << nc << " per=" << per << " resize=" << resizer << " interrupt=" << interrupted << " mode=" << popMode;
    std::atomic<uint64_t> clock{1};
    std::vector<std::vector<Ev>> pushed(np), popped(nc);
    std::atomic<int> pushInterrupts{0}, popInterrupts{0}, live{np};
    std::atomic<long> pushes{0};
    std::atomic<bool> oversize{false}, endSeen{false}, bad{false};
    std::vector<std::thread> th;
    uint64_t seed = c.rng.u64();
    for (int p = 0; p < np; ++p) {
        th.emplace_back([&, p] {
            vf::Rng r(seed + p);
            try {
                for (int i = 0; i < per; ++i) {
                    jitter(r);
                    Ev e{p * 100000L + i, clock++, 0};
                    size_t s = r.chance(0.5) ? q.push(e.id) : q.emplace(e.id);
                    e.ret    = clock++;
                    if (s > 20 || (!resizer && s > max)) {
                        oversize = true;
                    }
                    pushed[p].push_back(e);
                    ++pushes;
                }
            }
            catch (std::runtime_error& e) {
                ++pushInterrupts;
            }
            catch (...) {
                bad = true;
            }
            --live;
        });
    }
    for (int k = 0; k < nc; ++k) {
        th.emplace_back([&, k] {
            vf::Rng r(seed + 1000 + k);
            try {
                for (;;) {
                    jitter(r);
                    if (popMode == 0 || (popMode == 2 && r.chance(0.5))) {
                        long e        = -1;
                        uint64_t call = clock++;
                        long n        = q.pop(e);
                        uint64_t ret  = clock++;
                        if (n < 0) {
                            break;
                        }
                        popped[k].push_back({e, call, ret});
                    }
                    else {
                        std::vector<long> v(1 + r.below(4), -1);
                        uint64_t call = clock++;
                        long n        = q.pop(v);
                        uint64_t ret  = clock++;
                        if (n < 0) {
                            break;
                        }
                        if (n == 0 || n > (long)v.size()) {
                            bad = true;
                        }
                        for (long i = 0; i < n; ++i) {
                            popped[k].push_back({v[i], call, ret});
                        }
                        // order inside one batch
                        for (long i = 1; i < n; ++i) {
                            if (v[i] / 100000 == v[i - 1] / 100000 && v[i] <= v[i - 1]) {
                                bad = true;
                            }
                        }
                    }
                }
            }
            catch (std::runtime_error& e) {
                ++popInterrupts;
            }
            catch (...) {
                bad = true;
            }
        });
    }
    std::thread rz;
    if (resizer) {
        rz = std::thread([&] {
            vf::Rng r(seed + 5000);
            try {
                for (int i = 0; i < 5; ++i) {
                    jitter(r);
                    q.resize(1 + r.below(20));
                }
            }
            catch (std::runtime_error&) {
            }
            catch (Exception&) {  // resize refuses a closed queue
            }
        });
    }
    if (interrupted) {
        vf::Rng r(seed + 6000);
        long target = r.below(np * per + 1);
        while (pushes < target && live) {
            std::this_thread::yield();
        }
        q.interrupt(std::make_exception_ptr(std::runtime_error("stop")));
    }
    for (int p = 0; p < np; ++p) {
        th[p].join();
    }
    if (!interrupted) {
        q.close();
    }
    for (size_t k = np; k < th.size(); ++k) {
        th[k].join();
    }
    if (resizer) {
        rz.join();
    }
    VF_CHECK(!bad, "queue-unexpected", "an operation failed unexpectedly, or a batch was out of order");
    VF_CHECK(!oversize, "queue-bound", "the queue grew beyond its maximum");
    VF_CHECK(q.closed(), "queue-closed", "not reported closed");
    std::map<long, Ev> all;
    std::vector<Ev> out;
    for (auto& v : pushed) {
        for (auto& e : v) {
            all[e.id] = e;
        }
    }
    for (auto& v : popped) {
        out.insert(out.end(), v.begin(), v.end());
    }
    if (!interrupted) {
        VF_EQ(all.size(), (size_t)np * per, "queue-pushes", "pushes completed");
        VF_EQ(out.size(), all.size(), "queue-lost", "elements popped, of those pushed,");
        VF_CHECK(q.empty(), "queue-empty", "not empty after everything was popped");
        long e;
        VF_EQ(q.pop(e), -1, "queue-end", "pop of a closed and empty queue");
        bool threw = false;
        try {
            q.push(1);
        }
        catch (Exception&) {
            threw = true;
        }
        VF_CHECK(threw, "queue-push-closed", "push onto a closed queue accepted");
    }
    else {
        VF_EQ((int)popInterrupts, nc, "queue-interrupt", "consumers interrupted");
        bool threw = false;
        try {
            q.push(1);
        }
        catch (std::runtime_error&) {
            threw = true;
        }
        VF_CHECK(threw, "queue-push-interrupted", "push onto an interrupted queue accepted");
        c.count("queue_interrupts");
    }
    // elements in flight when interrupted: a push that threw may not have happened; pops only of completed or in-flight pushes
    if (interrupted) {
        for (auto& e : out) {
            if (!all.count(e.id)) {
                all[e.id] = {e.id, 0, ~0ULL};
            }
        }
    }
    checkFifo(c, all, out);
    c.eval(all.size() + out.size());
    c.count("queue_elements", out.size());
    std::string order;
    for (auto& v : popped) {
        for (auto& e : v) {
            order += std::to_string(e.id) + ",";
        }
        order += "|";
    }
    c.distinct(order);
}

// a smaller maximum waits until there are few enough elements, and nobody who waits is forgotten
VF_WORKLOAD(queue_resize, 200, 3000) {
    vf::Rng& r   = c.rng;
    size_t start = r.in(2, 8), pushers = r.below(4), resizers = r.in(1, 3), poppers = r.in(1, 2);
    c.trace() << "max=" << start << " pushers=" << pushers << " resizers=" << resizers << " poppers=" << poppers;
    Queue<long> q(start);
    for (size_t i = 0; i < start; ++i) q.push(long(i));
    std::atomic<size_t> limit{start}, waiting{0};
    std::atomic<bool> over{false}, lost{false};
    std::vector<std::thread> th;
    size_t least = r.in(1, start - 1), total = start + pushers;
    for (size_t p = 0; p < pushers; ++p)
        th.emplace_back([&, p] {
            ++waiting;
            size_t n = q.push(long(start + p));
            if (n > start) over = true;
        });
    uint64_t seed = r.u64();
    for (size_t z = 0; z < resizers; ++z)
        th.emplace_back([&] {
            ++waiting;
            q.resize(least);
            limit = least;
        });
    while (waiting < pushers + resizers) std::this_thread::yield();
    if (r.chance(0.8)) ::usleep(useconds_t(r.below(300)));
    std::atomic<size_t> taken{0}, done{0};
    for (size_t k = 0; k < poppers; ++k)
        th.emplace_back([&, k] {
            vf::Rng mine(seed + k);
            while (taken++ < total) {
                if (mine.chance(0.3)) ::usleep(useconds_t(mine.below(60)));
                size_t at = limit;
                long e    = -1;
                long n    = q.pop(e);
                // before the pop there was one more, and others may not have pushed beyond the limit
                if (n < 0 || e < 0) lost = true;
                else if (size_t(n) + 1 > at) over = true;
                ++done;
            }
        });
    for (auto& t : th) t.join();
    VF_EQ((size_t)done, total, "queue-lost", "elements popped");
    VF_CHECK(!lost, "queue-unexpected", "a pop failed");
    VF_CHECK(!over, "queue-bound", "more elements than the maximum");
    VF_CHECK(q.empty(), "queue-empty", "not empty");
    VF_EQ(q.maxSize(), least, "queue-bound", "the maximum");
    c.count("resizes", resizers);
    c.eval();
    c.distinct(std::to_string(start) + "-" + std::to_string(pushers) + "-" + std::to_string(resizers) + "-" + std::to_string(least));
}

// ---------------------------------------------------------------------------------------------------------------------

struct PoolLog {
    std::atomic<long> executed{0}, destroyed{0}, running{0}, maxRunning{0};
    std::vector<std::atomic<int>> runs;
    explicit PoolLog(size_t n) : runs(n) {}
};

struct LogTask : ThreadPoolTask {
    PoolLog& log;
    long id;
    uint64_t seed;
    int fail;
    std::vector<long> kids;
    LogTask(PoolLog& l, long i, uint64_t s, int f, std::vector<long> k = {}) : log(l), id(i), seed(s), fail(f), kids(std::move(k)) {}
    ~LogTask() override { ++log.destroyed; }
    void execute() override {
        long r = ++log.running;
        long m = log.maxRunning;
        while (r > m && !log.maxRunning.compare_exchange_weak(m, r)) {
        }
        vf::Rng rng(seed);
        jitter(rng);
        for (long k : kids) {
            pool().push(new LogTask(log, k, seed + k, 0));
        }
        ++log.runs[id];
        ++log.executed;
        --log.running;
        if (fail) {
            throw BadValue("task failed on purpose");
        }
    }
};

// as many tasks as there are threads, that end only when all of them run
struct MeetingTask : ThreadPoolTask {
    std::atomic<int>& here;
    std::atomic<int>& alone;
    int all;
    MeetingTask(std::atomic<int>& h, std::atomic<int>& a, int n) : here(h), alone(a), all(n) {}
    void execute() override {
        ++here;
        for (int i = 0; here < all; ++i) {
            ::usleep(i < 100 ? 10 : 1000);
            if (i == 15000) {
                ++alone;
                here = all;
            }
        }
    }
};

VF_WORKLOAD(pool_together, 40, 800) {
    static std::atomic<bool> failed{false};
    if (failed) return;
    int threads = c.rng.in(2, 6);
    ThreadPool pool("pool", threads);
    for (int k = 0, n = c.rng.in(1, 4); k < n; ++k) {
        if (c.rng.chance(0.3)) {
            threads = c.rng.in(2, 6);
            pool.resize(threads);
        }
        std::atomic<int> here{0}, alone{0};
        std::list<ThreadPoolTask*> l;
        bool list = c.rng.chance(0.7);
        if (c.rng.chance(0.5)) ::usleep(c.rng.below(2000));
        for (int i = 0; i < threads; ++i) {
            auto* t = new MeetingTask(here, alone, threads);
            if (list) l.push_back(t);
            else pool.push(t);
        }
        if (list) pool.push(l);
        pool.wait();
        failed = alone != 0;
        VF_CHECK(!alone, "pool-idle", "of " << threads << " tasks pushed to a pool of " << threads << " threads, not all run at the same time");
        c.count("pool_meetings");
        c.eval();
    }
    c.distinct(c.rng.u64());
}

VF_WORKLOAD(thread_pool, 120, 2000) {
    size_t threads = c.rng.in(1, 6);
    bool wait      = c.rng.chance(0.6);
    bool explicitEnd = c.rng.chance(0.5);
    int waiters    = c.rng.chance(0.3) ? c.rng.in(2, 4) : 1;
    int rounds     = c.rng.in(0, 3);
    double failp   = c.rng.chance(0.3) ? 0.1 : 0;
    c.trace() << "threads=" << threads << " wait=" << wait << " end=" << explicitEnd << " waiters=" << waiters << " rounds=" << rounds << " fail=" << failp;
    PoolLog log(2000);
    long next = 0, failed = 0;
    size_t most = threads;
    {
        ThreadPool pool("pool", threads, c.rng.chance(0.3) ? 256 * 1024 : 0);
        for (int r = 0; r < rounds; ++r) {
            int n = c.rng.in(0, 60);
            std::list<ThreadPoolTask*> batch;
            for (int i = 0; i < n; ++i) {
                std::vector<long> kids;
                long id = next++;
                if (wait && c.rng.chance(0.1)) {  // tasks pushed by tasks are only waited for by wait()
                    for (int k = 0; k < 3; ++k) {
                        kids.push_back(next++);
                    }
                }
                int f = c.rng.chance(failp) ? 1 : 0;
                failed += f;
                auto* t = new LogTask(log, id, c.rng.u64(), f, kids);
                if (c.rng.chance(0.3)) {
                    batch.push_back(t);
                }
                else {
                    pool.push(t);
                }
            }
            if (!batch.empty()) {
                pool.push(batch);
                VF_CHECK(batch.empty(), "pool-list", "the list pushed is not emptied");
                c.count("pool_lists");
            }
            if (wait) {
                std::vector<std::thread> w;
                std::atomic<int> early{0};
                for (int i = 0; i < waiters; ++i) {
                    w.emplace_back([&] {
                        pool.wait();
                        if (log.executed != next || log.destroyed != next || !pool.done()) {
                            ++early;
                        }
                    });
                }
                for (auto& t : w) {
                    t.join();
                }
                VF_CHECK(early == 0, "pool-wait", "wait() returned with " << log.executed << " of " << next << " tasks executed");
                c.count("pool_waits", waiters);
            }
            if (c.rng.chance(0.3)) {
                size_t s = c.rng.in(1, 6);
                most = std::max(most, s);
                pool.resize(s);
                c.trace() << " resize=" << s;
            }
        }
        if (explicitEnd) {
            bool threw = false;
            std::string what;
            try {
                pool.waitForThreads();
            }
            catch (std::exception& e) {
                threw = true;
                what  = e.what();
            }
            VF_EQ(threw, failed > 0, "pool-error", "waitForThreads reported a failed task");
            if (threw) {
                size_t k = 0;
                for (size_t p = what.find("task failed on purpose"); p != std::string::npos; p = what.find("task failed on purpose", p + 1)) {
                    ++k;
                }
                VF_CHECK(k >= (size_t)failed, "pool-error-lost", k << " of " << failed << " failures reported: " << what);
            }
            VF_EQ((long)log.executed, next, "pool-threads", "tasks executed when the threads ended");
            if (c.rng.chance(0.5)) {
                try {
                    pool.waitForThreads();
                }
                catch (std::exception& e) {
                    c.fail("pool-error", std::string("a failure is reported twice: ") + e.what());
                }
            }
        }
    }
    VF_EQ((long)log.executed, next, "pool-executed", "tasks executed");
    VF_EQ((long)log.destroyed, next, "pool-destroyed", "tasks destroyed");
    for (long i = 0; i < next; ++i) {
        VF_EQ((int)log.runs[i], 1, "pool-once", "executions of task " << i);
    }
    if (!c.trace_.str().empty() && c.trace_.str().find("resize") == std::string::npos) {
        VF_CHECK(log.maxRunning <= (long)most, "pool-threads-max", log.maxRunning << " tasks ran at once");
    }
    c.eval(next);
    c.count("pool_tasks", next);
    c.count("pool_failed", failed);
    if (next) {
        c.distinct(vf::hashStr(c.trace_.str()) ^ next);
    }
}

// ---------------------------------------------------------------------------------------------------------------------

struct NumProducer : Producer<long> {
    long n = 0, end, failAt, doneFailAt;
    vf::Rng r;
    NumProducer(long e, long f, long d, uint64_t s) : end(e), failAt(f), doneFailAt(d), r(s) {}
    bool done() override {
        if (n == doneFailAt) {
            throw BadValue("done failed on purpose");
        }
        return n >= end;
    }
    void produce(long& v) override {
        jitter(r);
        if (n == failAt) {
            throw BadValue("producer failed on purpose");
        }
        v = n++;
    }
};

struct NumConsumer : Consumer<long> {
    std::vector<long> got;
    long failAt;
    vf::Rng r;
    NumConsumer(long f, uint64_t s) : failAt(f), r(s) {}
    void consume(long& v) override {
        jitter(r);
        if ((long)got.size() == failAt) {
            throw BadValue("consumer failed on purpose");
        }
        got.push_back(v);
    }
};

VF_WORKLOAD(producer_consumer, 120, 2000) {
    long n      = c.rng.in(0, 100);
    auto fault  = [&] { return c.rng.chance(0.2) ? (long)c.rng.in(0, n) : -1L; };
    NumProducer p(n, fault(), fault(), c.rng.u64());
    NumConsumer k(fault(), c.rng.u64());
    long slots = c.rng.in(1, 5);
    c.trace() << "n=" << n << " slots=" << slots << " faults " << p.failAt << " " << p.doneFailAt << " " << k.failAt;
    bool threw = false;
    std::string what;
    ProducerConsumer<long> pc(slots);
    try {
        pc.execute(p, k);
    }
    catch (std::exception& e) {
        threw = true;
        what  = e.what();
    }
    bool pfail = (p.failAt >= 0 && p.failAt < n) || (p.doneFailAt >= 0);
    bool kfail = k.failAt >= 0 && k.failAt < n;
    for (size_t i = 0; i < k.got.size(); ++i) {
        VF_EQ(k.got[i], (long)i, "pc-order", "payload " << i);
    }
    if (!pfail && !kfail) {
        VF_CHECK(!threw, "pc-error", "failed: " << what);
        VF_EQ((long)k.got.size(), n, "pc-lost", "payloads consumed");
    }
    else {
        // a producer failing at item f may be preceded by the consumer failing at an earlier one
        VF_CHECK(threw, "pc-swallowed", "a failure was not reported");
        VF_CHECK(what.find("on purpose") != std::string::npos, "pc-message", "unexpected error: " << what);
        c.count("pc_failures");
    }
    c.eval(k.got.size() + 1);
    c.count("pc_payloads", k.got.size());
    if (n) {
        c.distinct(c.trace_.str());
    }
}

// ---------------------------------------------------------------------------------------------------------------------

struct Tracked : Counted {
    std::atomic<int>& dead;
    int guard = 42;
    explicit Tracked(std::atomic<int>& d) : dead(d) {}
    ~Tracked() override {
        guard = 0;
        ++dead;
    }
};

struct PerThread {
    static std::atomic<int> made, gone;
    std::thread::id owner = std::this_thread::get_id();
    long sum              = 0;
    PerThread() { ++made; }
    ~PerThread() { ++gone; }
};
std::atomic<int> PerThread::made{0}, PerThread::gone{0};

struct Slow {
    static std::atomic<int> made;
    int v;
    Slow() {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
        v = 7;
        ++made;
    }
};
std::atomic<int> Slow::made{0};
static Once<Slow> onceSlow;
static ThreadSingleton<PerThread> perThread;

struct Runner : Thread {
    std::function<void()> f;
    std::atomic<int>& dead;
    Runner(std::function<void()> g, std::atomic<int>& d, bool autodel) : Thread(autodel), f(std::move(g)), dead(d) {}
    ~Runner() override { ++dead; }
    void run() override { f(); }
};

VF_WORKLOAD(primitives, 100, 1500) {
    int n = c.rng.in(2, 6);
    uint64_t seed = c.rng.u64();
    std::vector<std::thread> th;
    auto all = [&](std::function<void(int, vf::Rng&)> f) {
        for (int t = 0; t < n; ++t) {
            th.emplace_back([=] {
                vf::Rng r(seed + t);
                jitter(r);
                f(t, r);
            });
        }
        for (auto& t : th) {
            t.join();
        }
        th.clear();
    };
    std::atomic<bool> bad{false};
    c.trace() << "threads=" << n;
    {  // reference counts
        std::atomic<int> dead{0};
        auto* x = new Tracked(dead);
        x->attach();
        for (int t = 0; t < n; ++t) {
            x->attach();
        }
        all([&](int, vf::Rng& r) {
            for (int i = 0; i < 30; ++i) {
                x->attach();
                if (x->guard != 42) {
                    bad = true;
                }
                x->detach();
            }
            x->detach();
        });
        VF_CHECK(dead == 0 && !bad, "counted-early", "object destroyed while referenced");
        VF_EQ(x->count(), 1u, "counted-count", "references left");
        x->detach();
        VF_EQ((int)dead, 1, "counted-destroyed", "destructions");
        SharedBuffer sb(100);
        ::memset(sb.data(), 'q', 100);
        all([&](int, vf::Rng&) {
            SharedBuffer b(sb);
            for (int i = 0; i < 20; ++i) {
                SharedBuffer d(b), e(1);
                e = d;
                if (e.size() != 100 || static_cast<char*>(e.data())[99] != 'q') {
                    bad = true;
                }
            }
        });
        VF_CHECK(!bad, "sharedbuffer-content", "a shared buffer lost its content");
        VF_EQ(((CountedBuffer*)sb.operator->())->count(), 1u, "sharedbuffer-count", "references left");
    }
    {  // mutual exclusion, recursion, exceptions
        Mutex m;
        MutexCond mc;
        long a = 0, b = 0;
        int in = 0;
        all([&](int, vf::Rng& r) {
            for (int i = 0; i < 30; ++i) {
                try {
                    AutoLock<Mutex> l(m);
                    if (++in != 1) {
                        bad = true;
                    }
                    {
                        AutoLock<Mutex> l2(m);
                        ++a;
                    }
                    --in;
                    if (r.chance(0.1)) {
                        throw BadValue("x");
                    }
                }
                catch (BadValue&) {
                }
                AutoLock<MutexCond> l(mc);
                ++b;
                mc.broadcast();
            }
        });
        VF_CHECK(!bad && a == n * 30L && b == n * 30L, "mutex", "updates lost under a mutex: " << a << " " << b);
        if (c.index % 20 == 0) {
            AutoLock<MutexCond> l(mc);
            VF_CHECK(mc.wait(1), "cond-timeout", "wait with a timeout and nobody signalling did not time out");
        }
    }
    {  // thread singletons and once
        int made0 = PerThread::made, gone0 = PerThread::gone;
        all([&](int, vf::Rng&) {
            for (int i = 0; i < 10; ++i) {
                auto& p = perThread.instance();
                if (p.owner != std::this_thread::get_id() || p.sum != i) {
                    bad = true;
                }
                p.sum++;
                Slow& s = onceSlow;
                if (s.v != 7) {
                    bad = true;
                }
            }
        });
        VF_CHECK(!bad, "thread-singleton", "an instance was shared between threads, or replaced");
        VF_EQ(PerThread::made - made0, n, "thread-singleton-made", "instances made");
        VF_EQ(PerThread::gone - gone0, n, "thread-singleton-gone", "instances destroyed at the end of their thread");
        VF_EQ((int)Slow::made, 1, "once", "objects made by Once");
    }
    {  // threads: joined and detached
        std::atomic<int> dead{0}, ran{0};
        int detached = 0;
        {
            std::vector<std::unique_ptr<ThreadControler>> ctl;
            for (int t = 0; t < n; ++t) {
                bool d = c.rng.chance(0.4);
                bool fail = c.rng.chance(0.2);
                ctl.emplace_back(new ThreadControler(new Runner([&ran, fail] {
                    ++ran;
                    if (fail) {
                        throw BadValue("thread failed on purpose");
                    }
                }, dead, true), d));
                ctl.back()->start();
                if (d) {
                    ++detached;
                    ctl.back().reset();
                    ctl.pop_back();
                }
            }
            for (auto& k : ctl) {
                k->wait();
            }
            VF_CHECK(ran >= n - detached, "thread-join", "wait() returned before the thread ran");
            VF_CHECK(dead >= n - detached, "thread-deleted", "wait() returned before the thread object was deleted");
        }
        for (int i = 0; i < 20000 && dead < n; ++i) {
            std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
        VF_EQ((int)ran, n, "thread-ran", "threads run");
        VF_EQ((int)dead, n, "thread-dead", "thread objects deleted");
        c.count("threads_run", n);
    }
    c.eval(n * 100);
    c.distinct(vf::mix(seed));
}
