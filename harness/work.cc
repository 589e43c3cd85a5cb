// Dispatchers of requests to threads, worker processes behind pipes, and the monitor of tasks.
#include "children.h"
#include "private_ipc.h"
#include "vf.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <list>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "eckit/config/Configurable.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Dispatcher.h"
#include "eckit/runtime/Main.h"
#include "eckit/runtime/Monitor.h"
#include "eckit/runtime/Monitorable.h"
#include "eckit/runtime/PipeApplication.h"
#include "eckit/runtime/PipeHandler.h"
#include "eckit/runtime/ProcessControler.h"
#include "eckit/runtime/TaskInfo.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/thread/Thread.h"
#include "eckit/thread/ThreadControler.h"

using namespace eckit;

// what the command "config" does
using ResourceSet = void (ResourceMgr::*)(const std::string&, const std::string&);
template <ResourceSet M>
struct Opened {
    friend void setResource(const std::string& k, const std::string& v) { (ResourceMgr::instance().*M)(k, v); }
};
void setResource(const std::string& k, const std::string& v);
template struct Opened<&ResourceMgr::set>;

namespace {

std::atomic<long> strays{0};             // signals to processes that are not ours
std::atomic<int> forkDelay{0};           // microseconds that the parent waits after a fork
std::atomic<bool> shortSleeps{false};
std::atomic<bool> lateAnswers{false};    // whether a process exists

bool ours(pid_t pid) {
    int fd = ::open(("/proc/" + std::to_string(pid) + "/stat").c_str(), O_RDONLY);
    char b[1024];
    ssize_t n = fd < 0 ? 0 : ::read(fd, b, sizeof b);
    if (fd >= 0) ::close(fd);
    std::string text(b, n < 0 ? 0 : size_t(n));
    auto at = text.rfind(')');
    if (at == std::string::npos) return false;
    char state;
    int parent = 0;
    std::istringstream(text.substr(at + 1)) >> state >> parent;
    return parent == ::getpid();
}

template <class F>
F next(const char* name) {
    return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
}

}  // namespace

extern "C" {
// nothing but children of this process is ever sent a signal, whatever the code under test says
int kill(pid_t pid, int sig) {
    static auto f = next<int (*)(pid_t, int)>("kill");
    if (pid <= 1 || (pid != ::getpid() && !ours(pid))) {
        if (sig) ++strays;
        errno = ESRCH;
        return -1;
    }
    return f(pid, sig);
}
unsigned sleep(unsigned s) {
    ::usleep(shortSleeps ? s * 5000 : s * 1000000);
    return 0;
}
int access(const char* path, int mode) {
    static auto f = next<int (*)(const char*, int)>("access");
    int result = f(path, mode);
    if (lateAnswers && std::strncmp(path, "/proc/", 6) == 0) {
        int e = errno;
        ::usleep(100);
        errno = e;
    }
    return result;
}
pid_t fork() {
    static auto f = next<pid_t (*)()>("fork");
    pid_t p       = f();
    if (p > 0 && forkDelay) {
        int e = errno;
        ::usleep(unsigned(forkDelay));
        errno = e;
    }
    return p;
}
}

namespace {

void jitter(vf::Rng& r) {
    switch (r.below(6)) {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); break;
        default: break;
    }
}

template <class F>
bool eventually(F f, double seconds = 60) {
    auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(seconds);
    while (!f()) {
        if (std::chrono::steady_clock::now() > end) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    return true;
}

// -- dispatching --------------------------------------------------------------------------------------------------------------

struct Ledger {
    std::mutex m;
    std::map<long, int> handled, destroyed, taken;
    std::vector<long> picked;
    std::set<int> groups;  // being handled
    std::set<std::string> wrong;
    int mode = 0, most = 1;
    int inside = 0, crowd = 0, handlers = 0, idle = 0;
    // those of a meeting wait for each other
    int meeting = 0, met = 0;
    std::condition_variable cond;
    uint64_t seed = 0;
    void bad(const std::string& s) { wrong.insert(s); }
};
Ledger* ledger = nullptr;

struct Job {
    long id, from;
    int group;
    bool throws, meets;
    ~Job() {
        std::lock_guard<std::mutex> g(ledger->m);
        if (ledger->destroyed[id]++) ledger->bad("a request is destroyed twice");
        if (!ledger->handled[id] && !ledger->taken[id]) ledger->bad("a request is destroyed before it is handled");
    }
    void json(JSON& j) const {
        j.startObject();
        j << "id" << id;
        j.endObject();
    }
    friend std::ostream& operator<<(std::ostream& s, const Job& j) { return s << "Job[" << j.id << "]"; }
};

struct JobHandler : DefaultHandler<Job> {
    vf::Rng rng;
    JobHandler() {
        std::lock_guard<std::mutex> g(ledger->m);
        rng = vf::Rng(ledger->seed++);
        ++ledger->handlers;
    }
    ~JobHandler() {
        std::lock_guard<std::mutex> g(ledger->m);
        --ledger->handlers;
    }
    void pick(std::list<Job*>& queue, std::vector<Job*>& out) {
        size_t before = queue.size();
        if (queue.empty()) {
            std::lock_guard<std::mutex> g(ledger->m);
            ledger->bad("asked to pick from an empty queue");
            return;
        }
        if (ledger->mode == 0) DefaultHandler<Job>::pick(queue, out);
        if (ledger->mode == 1)
            for (int k = 1 + int(rng.below(uint64_t(ledger->most))); k && !queue.empty(); --k) {
                out.push_back(queue.front());
                queue.pop_front();
            }
        std::lock_guard<std::mutex> g(ledger->m);
        if (ledger->mode == 2)
            for (auto i = queue.begin(); i != queue.end(); ++i)
                if (*i && ledger->groups.insert((*i)->group).second) {
                    out.push_back(*i);
                    queue.erase(i);
                    break;
                }
        if (ledger->mode == 0 && (out.size() != 1 || queue.size() != before - 1)) ledger->bad("the default does not pick one request");
        for (auto* j : out) ledger->picked.push_back(j->id);
    }
    void idle() {
        std::lock_guard<std::mutex> g(ledger->m);
        ++ledger->idle;
    }
    void handle(const std::vector<Job*>& v) {
        bool fails = false;
        {
            std::lock_guard<std::mutex> g(ledger->m);
            ledger->crowd = std::max(ledger->crowd, ++ledger->inside);
        }
        for (auto* j : v) {
            jitter(rng);
            std::unique_lock<std::mutex> g(ledger->m);
            if (ledger->handled[j->id]++) ledger->bad("a request is handled twice");
            if (ledger->destroyed[j->id]) ledger->bad("a request is handled after it is destroyed");
            if (ledger->taken[j->id]) ledger->bad("a request is handled that was taken out of the queue");
            fails = fails || j->throws;
            if (j->meets) {
                ++ledger->met;
                ledger->cond.notify_all();
                ledger->cond.wait(g, [] { return ledger->met >= ledger->meeting; });
            }
        }
        {
            std::lock_guard<std::mutex> g(ledger->m);
            --ledger->inside;
            for (auto* j : v) ledger->groups.erase(j->group);
        }
        if (fails) throw UserError("this request fails");
    }
};

struct Traits {
    using Request = Job;
    using Handler = JobHandler;
    static std::string name() { return "verif-dispatcher"; }
};

struct Taker : DequeuePicker<Job> {
    size_t most;
    long got = 0;
    explicit Taker(size_t n) : most(n) {}
    void pick(std::list<Job*>& q) override {
        for (auto i = q.begin(); i != q.end() && most;) {
            Job* j = *i;
            if (!j || j->id % 3) {
                ++i;
                continue;
            }
            i = q.erase(i);
            {
                std::lock_guard<std::mutex> g(ledger->m);
                if (ledger->handled[j->id] || ledger->taken[j->id]++) ledger->bad("a request is in the queue after it is handled");
            }
            delete j;
            ++got;
            --most;
        }
    }
};

}  // namespace

VF_WORKLOAD(dispatching, 150, 3000) {
    auto& r      = c.rng;
    int threads  = 1 + int(r.below(5)), pushers = 1 + int(r.below(3)), each = 1 + int(r.below(60));
    bool grow    = r.chance(.2);
    int mode     = int(r.below(3));
    int changes  = r.chance(.4) && !grow ? int(r.below(4)) : 0;
    bool meeting = !grow && !changes && r.chance(.3) && mode != 2;
    bool take    = !meeting && r.chance(.3);
    bool watch   = !grow && !changes && r.chance(.5);
    double fails = r.chance(.5) ? 0 : r.unit() * .5;
    uint64_t s   = r.u64();
    c.trace() << threads << " threads " << (grow ? "(growing) " : "") << pushers << "x" << each << " mode " << mode << " changes " << changes << " meeting " << meeting << "\n";
    std::vector<std::function<void(vf::Child&)>> body = {[&](vf::Child& ch) {
        vf::Rng mine(s);
        auto* l  = new Ledger;  // (the threads never end)
        ledger   = l;
        l->mode  = mode;
        l->most  = 1 + int(mine.below(5));
        l->seed  = mine.u64();
        auto& d  = *new Dispatcher<Traits>("verif", grow ? 0 : threads);
        int want = threads;
        if (meeting) l->meeting = std::min(threads, each), l->most = 1;
        auto fail = [&](const std::string& what) {
            ch.fail("dispatch", what);
            ::_exit(0);
        };
        auto wrong = [&] {
            std::lock_guard<std::mutex> g(l->m);
            if (!l->wrong.empty()) fail(*l->wrong.begin());
        };
        std::atomic<bool> end{false};
        std::vector<std::thread> all;
        std::atomic<long> taken{0};
        for (int p = 0; p < pushers; ++p)
            all.emplace_back([&, p, seed = mine.u64()] {
                vf::Rng q(seed);
                for (int k = 0; k < each; ++k) {
                    d.push(new Job{p * 1000L + k, p, int(q.below(4)), q.chance(fails), meeting && p == 0 && k < threads});
                    if (q.chance(.1)) d.push(static_cast<Job*>(nullptr));  // (is ignored)
                    jitter(q);
                }
            });
        std::thread watcher([&] {
            // (not while tasks are being made)
            if (watch) eventually([&] {
                std::lock_guard<std::mutex> g(l->m);
                return l->handlers == threads;
            });
            while (watch && !end) {
                std::ostringstream a, b;
                a << d;
                Monitorable::allStatuses(a);
                JSON j(b);
                j.startObject();
                j << "queue";
                d.json(j);
                j << "tasks";
                Monitorable::allJSON(j);
                j.endObject();
                if (d.size() < 0) fail("a negative size");
                ::usleep(500);
            }
        });
        if (take)
            for (int k = 0; k < 10; ++k) {
                Taker t(mine.below(6));
                d.dequeue(t);
                taken += t.got;
                ::usleep(unsigned(mine.below(300)));
            }
        for (int k = 0; k < changes; ++k) {
            ::usleep(unsigned(mine.below(3000)));
            want = int(mine.below(6));
            if (k == changes - 1 && want == 0) want = 1;
            setResource("numberOfThreads", std::to_string(want));
            Configurable::reconfigureAll();
        }
        for (auto& t : all) t.join();
        size_t total = size_t(pushers) * size_t(each);
        bool done    = eventually([&] {
            std::lock_guard<std::mutex> g(l->m);
            size_t n = 0;
            for (auto& [id, k] : l->destroyed) n += size_t(k);
            return n >= total || !l->wrong.empty();
        });
        end = true;
        watcher.join();
        wrong();
        if (!done) {
            std::lock_guard<std::mutex> g(l->m);
            fail("of " + std::to_string(total) + " requests " + std::to_string(l->destroyed.size()) + " come to an end (" + std::to_string(l->met) + " of " + std::to_string(l->meeting) + " met)");
        }
        if (!grow && !eventually([&] {
                std::lock_guard<std::mutex> g(l->m);
                return l->handlers == want;
            }))
            fail(std::to_string(l->handlers) + " threads instead of " + std::to_string(want));
        if (d.size() != 0) fail("requests are left: " + std::to_string(d.size()));
        ::usleep(1000);
        wrong();
        std::lock_guard<std::mutex> g(l->m);
        if (!grow && !changes && l->crowd > threads) fail("more threads than there should be");
        for (auto& [id, k] : l->handled)
            if (k + l->taken[id] != 1) fail("a request is handled " + std::to_string(k) + " times");
        std::map<long, long> last;
        if (mode != 2)
            for (auto id : l->picked) {
                auto& x = last[id / 1000];
                if (id < x) fail("requests are picked in another order");
                x = id;
            }
        uint64_t h = 0;
        for (auto id : l->picked) h = h * 1000003 + uint64_t(id);
        ch.line("done " + std::to_string(l->picked.size()) + " " + std::to_string(taken) + " " + std::to_string(l->idle) + " " + std::to_string(l->crowd) + " " + std::to_string(h));
    }};
    auto ended = vf::children(c, body, 200);
    for (auto& e : ended)
        for (auto& line : e.lines) {
            std::istringstream in(line);
            std::string w;
            long picked, taken, idle, crowd;
            uint64_t h;
            if (in >> w >> picked >> taken >> idle >> crowd >> h && w == "done") {
                c.count("requests handled", picked);
                c.count("requests taken out", taken);
                c.count("threads that found nothing to pick", idle);
                if (crowd > 1) c.count("dispatchers that worked in parallel");
                if (changes) c.count("dispatchers whose number of threads was changed");
                if (meeting) c.count("meetings");
                c.distinct(h);
                c.eval();
                return;
            }
        }
    c.fail("dispatch", "the process of the dispatcher ended before its time");
}

// -- worker processes ---------------------------------------------------------------------------------------------------------

namespace {

char journal[512];  // where the workers write what they do
bool whole(const std::string& line) {
    int fd = ::open(journal, O_WRONLY | O_APPEND | O_CREAT, 0600);
    std::string t = line + "\n";
    bool ok = fd >= 0 && ::write(fd, t.data(), t.size()) == ssize_t(t.size());
    ::close(fd);
    return ok;
}
std::vector<std::vector<std::string>> events() {
    std::ifstream in(journal);
    std::vector<std::vector<std::string>> out;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        out.emplace_back();
        for (std::string w; s >> w;) out.back().push_back(w);
    }
    return out;
}
std::string answer(long id, const std::string& payload) {
    return "re " + std::to_string(id) + std::string(payload.rbegin(), payload.rend());
}

struct Worker : PipeApplication {
    Worker(int argc, char** argv) : PipeApplication(argc, argv, "VF_WORK_HOME") {
        whole("begin " + std::to_string(::getpid()));
    }
    void event(const std::string& s) { whole(s + " " + std::to_string(::getpid())); }
    void init(Stream&) override { event("init"); }
    void endBatch() override { event("batch"); }
    void process(Stream& s) override {
        long id, attempt;
        std::string plan, payload;
        s >> id >> attempt >> plan >> payload;
        event("exec " + std::to_string(id) + " " + std::to_string(attempt) + " " + plan);
        auto reply = [&] { s << id << attempt << answer(id, payload); };
        switch (plan[0]) {
            case 'o': reply(); break;
            case 'a':
                reply();
                terminate_ = true;
                break;
            case 'x':
                reply();
                ::_exit(0);
            case 'e': throw UserError("boom of " + std::to_string(id) + " at " + std::to_string(attempt) + ".");
            case 'c': ::exit(0);
            case 'p':
                s << id << attempt;
                ::_exit(0);
            case 'k': ::kill(::getpid(), SIGKILL); break;
        }
        event("end " + std::to_string(id));
    }
};
int workerMain(int argc, char** argv) {
    ::snprintf(journal, sizeof journal, "%s", ::getenv("VF_WORK_LOG"));
    Worker w(argc, argv);
    vf::Quiet quiet;
    Log::info().reset();
    Log::warning().reset();
    Log::error().reset();
    Log::debug().reset();
    w.start();
    return 0;
}
struct Hook {
    Hook() { vf::worker_main = workerMain; }
} hook;

char workerPath[512];
struct Book {
    std::mutex m;
    std::map<long, int> done, destroyed;
    std::map<long, std::vector<std::string>> errors;
    std::set<std::string> wrong;
    std::map<long, long> replied;  // attempt
    int spurious = 0, sends = 0, remote = 0;
};
Book* book = nullptr;

struct Remote {
    long id;
    std::string plan, payload;
    long attempt = -1;
    int lastCnt = 0;
    bool answered = false;
    static std::string commandName() { return workerPath; }
    void bad(const std::string& s) const {
        std::lock_guard<std::mutex> g(book->m);
        book->wrong.insert(s);
    }
    long executions() const {
        long n = 0;
        for (auto& e : events())
            if (e.size() > 2 && e[0] == "exec" && e[1] == std::to_string(id)) ++n;
        return n;
    }
    void send(Stream& s) {
        attempt = executions();
        if (attempt >= long(plan.size())) return bad("a request is sent again after its end");
        {
            std::lock_guard<std::mutex> g(book->m);
            ++book->sends;
        }
        s << id << attempt << std::string(1, plan[size_t(attempt)]) << payload;
    }
    void reply(Stream& s) {
        long i, a;
        std::string t;
        s >> i >> a >> t;
        if (i != id || a != attempt) return bad("the reply to another request");
        if (t != answer(id, payload)) return bad("a reply that is not what was sent");
        std::lock_guard<std::mutex> g(book->m);
        if (answered) book->wrong.insert("two replies");
        answered = true;
        book->replied[id] = a;
    }
    bool error(std::exception& e, int cnt) {
        if (cnt != ++lastCnt) bad("errors are counted " + std::to_string(cnt) + " after " + std::to_string(lastCnt - 1));
        if (answered) bad("an error after the reply");
        long n = executions();
        bool executed = n > attempt;
        std::lock_guard<std::mutex> g(book->m);
        book->errors[id].push_back(e.what());
        if (!executed) ++book->spurious;
        if (executed && plan[size_t(attempt)] == 'e') {
            ++book->remote;
            if (std::string(e.what()).find("boom of " + std::to_string(id) + " at " + std::to_string(attempt) + ".") == std::string::npos)
                book->wrong.insert("the error of the worker is not told: " + vf::repr(e.what()));
        }
        return n < long(plan.size()) && cnt < 60;
    }
    void done() {
        std::lock_guard<std::mutex> g(book->m);
        if (book->done[id]++) book->wrong.insert("a request is done twice");
    }
    ~Remote() {
        std::lock_guard<std::mutex> g(book->m);
        if (book->destroyed[id]++) book->wrong.insert("a request is destroyed twice");
        if (!book->done[id]) book->wrong.insert("a request is destroyed before it is done");
    }
    void json(JSON& j) const {
        j.startObject();
        j << "id" << id;
        j.endObject();
    }
    friend std::ostream& operator<<(std::ostream& s, const Remote& r) { return s << "Remote[" << r.id << "]"; }
};
struct RemoteTraits {
    using Request = Remote;
    using Handler = PipeHandler<Remote>;
    static std::string name() { return "verif-workers"; }
};

}  // namespace

VF_WORKLOAD(workers, 40, 800) {
    vf::emptyTable();
    auto& r     = c.rng;
    int threads = 1 + int(r.below(3)), requests = 1 + int(r.below(8));
    bool smooth = r.chance(.25);
    long most   = !smooth && r.chance(.3) ? 1 + long(r.below(6)) : 0;
    int delay   = r.chance(.4) ? int(r.below(30000)) : 0;
    struct Wanted {
        std::string plan, payload;
    };
    std::vector<Wanted> wanted;
    for (int i = 0; i < requests; ++i) {
        std::string plan;
        if (!smooth)
            while (r.chance(.35) && plan.size() < 4) plan += "eckp"[r.below(4)];
        if (smooth) plan += "o";
        else if (plan.empty() || r.chance(.7)) plan += "oooax"[r.below(5)];
        wanted.push_back({plan, r.bytes(r.chance(.1) ? r.below(200000) : r.below(200))});
        c.trace() << plan << " ";
    }
    c.trace() << threads << " threads\n";
    ::snprintf(journal, sizeof journal, "%s/journal", c.scratch.c_str());
    ::snprintf(workerPath, sizeof workerPath, "%s/vf-worker", c.scratch.c_str());
    if (::symlink("/proc/self/exe", workerPath)) c.fail("harness", "symlink");
    std::string home = c.scratch + "/home";
    for (auto* d : {"", "/etc", "/etc/config"}) ::mkdir((home + d).c_str(), 0700);
    {
        std::ofstream out(home + "/etc/config/general");
        out << "monitorSize: 20\n";
        if (most) out << "maxRequests: " << most << "\n";
    }
    ::setenv("VF_WORK_HOME", home.c_str(), 1);
    ::setenv("VF_WORK_LOG", journal, 1);
    uint64_t s = r.u64();
    std::vector<std::function<void(vf::Child&)>> body = {[&](vf::Child& ch) {
        // (the workers inherit the other end of this pipe, so this case ends when all of them have)
        shortSleeps = true;
        forkDelay   = delay;
        vf::Rng mine(s);
        auto* b = new Book;
        book    = b;
        auto& d = *new Dispatcher<RemoteTraits>("verif", threads);
        auto fail = [&](const std::string& what) {
            ch.fail("workers", what);
            ::_exit(0);
        };
        for (int i = 0; i < requests; ++i) {
            auto* q    = new Remote;
            q->id      = i;
            q->plan    = wanted[size_t(i)].plan;
            q->payload = wanted[size_t(i)].payload;
            d.push(q);
            if (mine.chance(.3)) ::usleep(unsigned(mine.below(20000)));
        }
        bool done = eventually([&] {
            std::lock_guard<std::mutex> g(b->m);
            return b->destroyed.size() == size_t(requests) || !b->wrong.empty();
        }, 100);
        std::lock_guard<std::mutex> g(b->m);
        if (!b->wrong.empty()) fail(*b->wrong.begin());
        if (!done) fail("of " + std::to_string(requests) + " requests only " + std::to_string(b->destroyed.size()) + " come to an end");
        for (int i = 0; i < requests; ++i) {
            if (b->done[i] != 1) fail("a request is done " + std::to_string(b->done[i]) + " times");
            auto& plan     = wanted[size_t(i)].plan;
            bool succeeds  = std::string("oax").find(plan.back()) != std::string::npos;
            bool succeeded = b->replied.count(i) != 0;
            if (succeeds != succeeded) fail("a request with the plan " + plan + (succeeded ? " succeeds" : " fails") + ", after " + std::to_string(b->errors[i].size()) + " errors" + (b->errors[i].empty() ? "" : ", the last " + b->errors[i].back()));
            if (b->errors[i].size() < plan.size() - (succeeds ? 1 : 0)) fail("errors are not told");
        }
        ch.line("done " + std::to_string(b->sends) + " " + std::to_string(b->spurious) + " " + std::to_string(b->remote));
        ch.line("strays " + std::to_string(long(strays)));
    }};
    auto ended = vf::children(c, body, 200);
    long sends = -1, spurious = 0, remote = 0;
    for (auto& e : ended)
        for (auto& line : e.lines) {
            std::istringstream in(line);
            std::string w;
            in >> w;
            if (w == "done") in >> sends >> spurious >> remote;
        }
    if (sends < 0) c.fail("workers", "the process of the dispatcher ended before its time");
    // what the workers say
    std::map<std::string, int> begun, inits, batches, messages;
    std::map<std::string, std::vector<std::string>> ran;
    std::map<std::string, std::string> open;
    std::set<std::string> finished;  // the workers that were told to
    uint64_t h = 0;
    for (auto& e : events()) {
        std::string pid = e.back();
        h = h * 131 + e[0][0];
        if (e[0] == "begin") ++begun[pid];
        if (!begun[pid]) c.fail("workers", "the worker process is not there");
        if (e[0] == "init") ++inits[pid];
        else if (e[0] != "begin" && inits[pid] != 1) c.fail("workers", "a worker works before it is set up");
        if (e[0] == "batch" && finished.count(pid)) c.fail("workers", "a worker goes on that should have ended");
        if (e[0] == "batch") ++batches[pid], ++messages[pid];
        if (e[0] == "exec") {
            auto& v = ran[e[1]];
            if (e[2] != std::to_string(v.size())) c.fail("workers", "request " + e[1] + " is executed twice");
            v.push_back(e[3]);
            ++messages[pid];
            if (finished.count(pid)) c.fail("workers", "a worker goes on that should have ended");
            if (e[3] == "a") finished.insert(pid);
            if (!open[pid].empty()) c.fail("workers", "a worker takes a request before the end of another");
            open[pid] = e[1];
        }
        if (e[0] == "end") open[pid].clear();
    }
    long executions = 0, ends = 0;
    for (int i = 0; i < requests; ++i) {
        std::string all;
        for (auto& p : ran[std::to_string(i)]) all += p, ++executions;
        if (all != wanted[size_t(i)].plan) c.fail("workers", "the executions of a request are " + all + " instead of " + wanted[size_t(i)].plan);
    }
    for (auto& [pid, n] : batches) ends += n;
    if (most)
        for (auto& [pid, n] : messages)
            if (n > most) c.fail("workers", "a worker takes " + std::to_string(n) + " requests instead of " + std::to_string(most));
    if (smooth) {
        if (begun.size() > size_t(threads)) c.fail("workers", std::to_string(begun.size()) + " workers for " + std::to_string(threads) + " threads");
        if (ends != requests) c.fail("workers", std::to_string(ends) + " batches end, of " + std::to_string(requests));
        if (spurious) c.fail("workers", "errors although nothing fails");
    }
    if (ends > requests) c.fail("workers", "more batches end than began");
    c.count("requests executed by workers", executions);
    c.count("failing executions", executions - requests);
    c.count("worker processes", long(begun.size()));
    c.count("errors told by workers", remote);
    c.count("ends of batches", ends);
    c.count("requests sent to workers that had ended", spurious);
    c.eval(executions);
    c.distinct(h);
}

// -- processes ----------------------------------------------------------------------------------------------------------------

namespace {

struct Births {
    std::atomic<int> ran[64], hooks[64], pid[64];
};
Births* births = nullptr;

struct Proc : ProcessControler {
    int index = 0;
    char how  = 'r';
    long us   = 0;
    int after = 0;
    void run() override {
        births->pid[index] = ::getpid();
        ++births->ran[index];
        if (us) ::usleep(unsigned(us));
        switch (how) {
            case 't': throw UserError("the process fails");
            case 'c': ::_exit(3);
            case 'k': ::kill(::getpid(), SIGKILL); break;
            case 'f':
                for (;;) ::usleep(100000);
            default: ::_exit(0);
        }
    }
    void afterForkInChild() override { ++births->hooks[index]; }
    void afterForkInParent() override { ++after; }
};

}  // namespace

VF_WORKLOAD(processes, 60, 1500) {
    auto& r     = c.rng;
    int threads = 1 + int(r.below(3)), each = 1 + int(r.below(8));
    int delay   = r.chance(.6) ? int(r.below(3000)) : 0;
    struct Plan {
        char how;
        long us;
        bool wait, again;
    };
    std::vector<Plan> plan;
    for (int i = 0; i < threads * each; ++i) {
        plan.push_back({"rrrtckf"[r.below(7)], r.chance(.5) ? 0 : long(r.below(4000)), r.chance(.3), r.chance(.3)});
        c.trace() << plan.back().how << plan.back().us << (plan.back().wait ? "w " : " ");
    }
    vf::Shared<Births> shared;
    births     = shared.p;
    uint64_t s = r.u64();
    std::vector<std::function<void(vf::Child&)>> body = {[&](vf::Child& ch) {
        ::fcntl(ch.fd, F_SETFD, FD_CLOEXEC);
        shortSleeps = true;
        forkDelay   = delay;
        std::atomic<int> checked{0};
        auto fail = [&](const std::string& what) {
            ch.fail("processes", what);
            ::_exit(0);
        };
        std::vector<std::thread> all;
        for (int t = 0; t < threads; ++t)
            all.emplace_back([&, t] {
                vf::Rng mine(s + uint64_t(t));
                for (int k = 0; k < each; ++k) {
                    int i   = t * each + k;
                    auto& q = plan[size_t(i)];
                    Proc p;
                    p.index = i;
                    p.how   = q.how;
                    p.us    = q.us;
                    int n   = q.again ? 2 : 1;
                    for (int go = 1; go <= n; ++go) {
                        if (p.active()) fail("a process is active before it is started");
                        p.start();
                        if (p.after != go) fail("the parent is not told of the fork");
                        if (!eventually([&] { return births->ran[i] == go; })) fail("the process does not run");
                        if (births->hooks[i] != go) fail("the child is not told of the fork");
                        pid_t pid = births->pid[i];
                        if (p.how == 'f') {
                            jitter(mine);
                            if (!p.active()) fail("a process that runs is not active");
                            if (!ProcessControler::isRunning(pid)) fail("a process that runs is not running");
                            p.stop();
                        }
                        if (q.wait) {
                            p.wait();
                            if (::kill(pid, 0) == 0) fail("the process is there after it was waited for");
                        }
                        if (!eventually([&] { return !p.active(); }, 20)) fail("a process that ended stays active");
                        if (::kill(pid, 0) == 0) fail("a process that is not active is there");
                        ++checked;
                    }
                }
            });
        for (auto& t : all) t.join();
        ch.line("done " + std::to_string(int(checked)) + " " + std::to_string(long(strays)));
    }};
    auto ended = vf::children(c, body, 120);
    for (auto& e : ended)
        for (auto& line : e.lines) {
            std::istringstream in(line);
            std::string w;
            long n, stray;
            if (in >> w >> n >> stray && w == "done") {
                c.count("processes started and ended", n);
                c.eval(n);
                uint64_t h = uint64_t(delay);
                for (auto& q : plan) h = h * 1000003 + uint64_t(q.how) * 10000 + uint64_t(q.us);
                c.distinct(h);
                return;
            }
        }
    c.fail("processes", "the process that starts the others ended before its time");
}

// -- the monitor --------------------------------------------------------------------------------------------------------------

namespace {

// what should be in the slots of the tasks, in memory shared by all processes
struct SlotModel {
    std::atomic<int> held;  // while the slot or this is changed or read
    std::atomic<int> pid;   // of the owner, if known
    std::atomic<int> thread;
    char name[80], kind[80], status[256], message[80], host[80], progress[80];
    unsigned long long min, max, val;
    long parent;
    int port;
    char state;
    bool show, abort, stop;
    unsigned long written;
    char ring[10240];
};
struct Slots {
    SlotModel slot[64];
    std::atomic<long> claims, reads, aborts, stops, reclaimed, texts, trees, below;
    std::atomic<int> ids, failed;
};
Slots* slots = nullptr;

struct Hold {
    SlotModel& s;
    explicit Hold(SlotModel& x) : s(x) {
        while (s.held.exchange(1)) {
            if (slots->failed) ::_exit(0);
            ::sched_yield();
        }
    }
    ~Hold() { s.held = 0; }
};

bool gone(pid_t pid) {
    return ::access(("/proc/" + std::to_string(pid)).c_str(), F_OK) != 0;
}
template <size_t N>
void store(char (&to)[N], const std::string& s) {
    ::memset(to, 0, N);
    ::strncpy(to, s.c_str(), N - 1);
}

struct Slotted {
    vf::Rng rng;
    int me;
    unsigned long slot = 0;
    long parent;
    SlotModel* m = nullptr;
    Monitor& mon;
    using Fail = std::function<void(const std::string&)>;
    Fail fail;
    std::map<unsigned long, std::pair<int, unsigned long>> followed;  // how far another's text was read
    Slotted(uint64_t seed, Fail f, long p = -1) : rng(seed), me(++slots->ids), parent(p), mon(Monitor::instance()), fail(f) {}

    void claim() {
        slot = static_cast<unsigned long>(mon.self());
        if (slot >= mon.tasks().size()) fail("a slot that does not exist: " + std::to_string(slot));
        m = &slots->slot[slot];
        Hold h(*m);
        if (int p = m->pid) {
            if (p == ::getpid() || !gone(p)) fail("two tasks have the slot " + std::to_string(slot) + (p == ::getpid() ? " (of one process)" : ""));
            ++slots->reclaimed;
        }
        ++slots->claims;
        auto& t = mon.task(slot);
        if (!t.busy()) fail("the slot of a task is free");
        if (t.pid() != ::getpid()) fail("the process of a task");
        if (std::string(t.name()) != Main::instance().displayName() || std::string(t.application()) != Main::instance().name() || std::string(t.status()) != "Starting" || *t.message() || *t.progressName() || t.port() || !t.host().empty() || t.parent() != -1 || t.state() != ' ' || !t.show() || t.stopTriggered() || t.stopped())
            fail("a task begins with what another left");
        unsigned long pos = 0;
        char b[16];
        if (t.text(b, sizeof b, pos)) fail("a task begins with the text of another");
        // (everything but the owner)
        store(m->name, Main::instance().displayName());
        store(m->kind, Main::instance().name());
        store(m->status, "Starting");
        store(m->message, "");
        store(m->host, "");
        store(m->progress, "");
        m->min = m->max = m->val = 0;
        m->parent = -1, m->port = 0, m->state = ' ', m->show = true, m->abort = m->stop = false, m->written = 0;
        m->pid = ::getpid(), m->thread = me;
    }
    void leave() {
        Hold h(*m);
        m->pid = 0;
    }
    void check(unsigned long n, TaskInfo& t, SlotModel& x) {
        auto same = [&](const char* what, const std::string& got, const std::string& want) {
            if (got != want) fail(std::string(what) + " of a task is " + vf::repr(got) + " instead of " + vf::repr(want));
        };
        same("the name", t.name(), x.name);
        same("the kind", t.kind(), x.kind);
        same("the status", t.status(), x.status);
        same("the message", t.message(), x.message);
        same("the host", t.host(), x.host);
        same("the progress", t.progressName(), x.progress);
        if (t.min() != x.min || t.max() != x.max || t.val() != x.val) fail("how far a task is");
        if (t.parent() != x.parent || t.port() != x.port || t.state() != x.state || t.show() != x.show) fail("the settings of a task");
        if (t.pid() != x.pid) fail("the process of a task");
        if (t.parent() >= 0 && t.depth() < 1) fail("the depth of a task");
        // the last of what it wrote, and what is new since we looked
        auto text = [&](unsigned long& pos, unsigned long max, unsigned long from) {
            std::string b(max, '?');
            unsigned long got  = t.text(&b[0], max, pos);
            unsigned long want = std::min({max, x.written - from, 10240ul});
            if (got != want || pos != x.written) fail("the length of the text of a task");
            for (unsigned long i = 0; i < got; ++i)
                if (b[i] != x.ring[(x.written - got + i) % 10240]) fail("the text of a task");
            ++slots->texts;
        };
        unsigned long none = 0;
        text(none, 1 + rng.below(12000), 0);
        auto& f = followed[n];
        if (f.first != x.thread) f = {x.thread, 0};
        text(f.second, 12000, f.second);
    }
    void look() {
        unsigned long n = rng.below(mon.tasks().size());
        auto& x         = slots->slot[n];
        Hold h(x);
        if (!x.pid) return;
        auto& t = mon.task(n);
        if (rng.chance(.5) && gone(x.pid)) return;
        bool alive;
        {
            AutoLock<Monitor::TaskArray> lock(mon.tasks());  // (or the slot may have been given to another meanwhile)
            alive = t.busy(rng.chance(.5));
        }
        if (!alive && !gone(x.pid)) fail("a task that lives has no slot");
        if (!alive) return;
        struct Stale {};
        auto inner = fail;
        fail       = [&](const std::string& s) {
            if (gone(x.pid)) throw Stale();  // another has the slot by now
            inner(s);
        };
        try {
            check(n, t, x);
        }
        catch (Stale&) {
            fail = inner;
            return;
        }
        fail = inner;
        ++slots->reads;
        if (rng.chance(.2) && n != slot && !x.abort && x.pid == ::getpid()) {
            t.abort();
            x.abort = true;
        }
        if (rng.chance(.1) && x.pid == ::getpid()) {
            std::ostringstream s;
            JSON j(s);
            j << t;
            Value v;
            try {
                v = JSONParser::decodeString(s.str());
            }
            catch (Exception& e) {
                fail(std::string("the JSON of a task: ") + e.what());
            }
            if (long(v["id"]) != long(n) || std::string(v["name"]) != x.name || std::string(v["message"]) != x.message || long(v["pid"]) != x.pid) fail("the JSON of a task");
        }
    }
    void act() {
        Hold h(*m);
        std::string s(rng.below(rng.chance(.2) ? 400 : 40), 'a');
        for (auto& ch : s) ch = char('a' + rng.below(26));
        int what    = int(rng.below(11));
        bool thrown = false;
        std::string before = m->status;
        auto& t     = mon.task(slot);
        if (mon.self() != long(slot)) fail("a task changes its slot");
        try {
            switch (what) {
                case 0: mon.name(s); break;
                case 1: mon.kind(s); break;
                case 2: mon.status(s); break;
                case 3: mon.message(s); break;
                case 4: mon.host(s); break;
                case 5: mon.port(int(s.size())); break;
                case 6: mon.progress(s, 10, 10 + s.size()); break;
                case 7: t.progress(12); break;
                case 8: {
                    std::string all = s;
                    while (rng.chance(.8)) all += s + "\n";
                    mon.out(&all[0], &all[0] + all.size());
                    s = all;
                    break;
                }
                case 9: mon.state(s.empty() ? 'x' : s[0]); break;
                case 10: mon.show(s.size() % 2); break;
            }
        }
        catch (Abort&) {
            thrown = true;
        }
        if (thrown != m->abort) fail(thrown ? "a task is aborted that should not be" : "a task goes on that was aborted");
        if (thrown) {
            ++slots->aborts;
            m->abort = false;
            if (what == 6) store(m->progress, t.progressName()), m->min = t.min(), m->max = t.max(), m->val = t.val();
            if (what == 7) m->val = t.val();
        }
        else {
            switch (what) {
                case 0: store(m->name, s); break;
                case 1: store(m->kind, s); break;
                case 2: store(m->status, s); break;
                case 3: store(m->message, s); break;
                case 4: store(m->host, s); break;
                case 5: m->port = int(s.size()); break;
                case 6: store(m->progress, s), m->min = m->val = 10, m->max = 10 + s.size(); break;
                case 7: m->val = 12; break;
                case 8:
                    for (char ch : s) m->ring[m->written++ % 10240] = ch;
                    break;
                case 9: m->state = s.empty() ? 'x' : s[0]; break;
                case 10: m->show = s.size() % 2; break;
            }
        }
        check(slot, t, *m);
    }
    void tree() {
        std::string mine, all;
        {
            Hold h(*m);
            mine = m->status;
            all  = mon.statusTree();
        }
        if (all.compare(0, mine.size(), mine) != 0 || (all.size() > mine.size() && all[mine.size()] != '|')) fail("the statuses below a task do not begin with its own");
        ++slots->trees;
        if (all.size() > mine.size()) ++slots->below;
    }
    void belong() {
        Hold h(*m);
        if (m->abort) return;
        mon.parent(parent);
        m->parent = parent;
    }
    void live(int n) {
        for (int i = 0; i < n; ++i) {
            try {
                if (rng.chance(.6)) act();
                else if (rng.chance(.8)) look();
                else tree();
            }
            catch (std::exception& e) {
                fail(std::string("unexpected: ") + e.what());
            }
            jitter(rng);
        }
    }
};

}  // namespace

VF_WORKLOAD(monitor, 60, 1500) {
    vf::emptyTable();
    auto& r       = c.rng;
    int processes = 1 + int(r.below(3)), rounds = 2 + int(r.below(5));
    int most      = 1 + int(r.below(3));                                  // threads besides the first
    int size      = processes * (1 + most) + int(r.below(3));             // and none to spare
    c.trace() << processes << " processes " << rounds << " rounds of " << most << " size " << size << "\n";
    std::string path = c.scratch + "/monitor";
    setResource("monitorPath", path);
    setResource("monitorSize", std::to_string(size));
    vf::Shared<Slots> shared;
    slots = shared.p;
    for (auto& s : slots->slot) s.pid = 0;
    std::vector<std::function<void(vf::Child&)>> body;
    for (int p = 0; p < processes; ++p)
        body.push_back([&, seed = r.u64()](vf::Child& ch) {
            ::fcntl(ch.fd, F_SETFD, FD_CLOEXEC);
            vf::Rng mine(seed);
            lateAnswers = mine.chance(.5);
            auto fail = [&](const std::string& what) {
                ch.fail("monitor", what);
                slots->failed = 1;
                ::_exit(0);
            };
            auto start = [&](Slotted& s) {
                Monitor::active(true);
                s.mon.reset();
                s.claim();
            };
            Slotted first(mine.u64(), fail);
            start(first);
            auto together = [&](int n, std::function<void(Slotted&)> last) {
                std::vector<std::thread> all;
                for (int i = 0; i < n; ++i)
                    all.emplace_back([&, sd = mine.u64()] {
                        Slotted t(sd, fail, long(first.slot));
                        t.claim();
                        if (t.rng.chance(.5)) t.belong();
                        t.live(int(t.rng.below(40)));
                        last(t);
                    });
                first.live(int(mine.below(40)));
                for (auto& t : all) t.join();
            };
            for (int k = 0; k < rounds; ++k) {
                switch (mine.below(4)) {
                    case 0: first.live(int(mine.below(40))); break;
                    case 1: together(1 + int(mine.below(uint64_t(most))), [](Slotted& s) { s.leave(); }); break;
                    default: {
                        // a process that ends in some way, with all the slots that are left
                        char how   = "kesn"[mine.below(4)];
                        int others = most - 1;
                        uint64_t sd = mine.u64();
                        pid_t pid  = ::fork();
                        if (pid == 0) {
                            Slotted s(sd, fail);
                            start(s);
                            std::vector<std::thread> all;
                            std::atomic<int> ready{0};
                            for (int i = 0; i < others; ++i)
                                all.emplace_back([&, x = s.rng.u64()] {
                                    Slotted t(x, fail, long(s.slot));
                                    t.claim();
                                    t.belong();
                                    t.live(int(t.rng.below(20)));
                                    ++ready;
                                    for (;;) ::usleep(10000);
                                });
                            s.live(int(s.rng.below(40)));
                            while (ready < others) ::usleep(200);
                            auto& t = s.mon.task(s.slot);
                            switch (how) {
                                case 'k': ::kill(::getpid(), SIGKILL); break;
                                case 's': {
                                    // may be stopped from outside, or not
                                    Hold h(*s.m);
                                    try {
                                        s.mon.checkAbort();
                                    }
                                    catch (Abort&) {
                                    }
                                    s.mon.stoppable(false);
                                    t.stop();
                                    s.mon.message("not stopped");
                                    if (!s.mon.stopTriggered() || s.mon.stopped()) fail("a task that may not be stopped is");
                                    s.mon.setStopped();
                                    if (s.mon.stopTriggered() || !s.mon.stopped()) fail("a task that is stopped does not say so");
                                    s.mon.stoppable(true);
                                    t.stop();
                                    ++slots->stops;
                                    s.m->pid  = 0;  // (it ends here)
                                    s.m->held = 0;
                                    s.mon.message("to be stopped");
                                    fail("a task goes on that was stopped");
                                    break;
                                }
                                case 'n':
                                    for (auto& x : slots->slot) {
                                        Hold h(x);
                                        if (x.pid == ::getpid()) x.pid = 0;
                                    }
                                    s.mon.shutdown();
                                    ::_exit(7);
                            }
                            ::_exit(7);
                        }
                        int status = 0;
                        while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
                        bool ok = how == 'k' ? WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL : WIFEXITED(status) && WEXITSTATUS(status) == (how == 's' ? 1 : 7);
                        if (!ok && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) fail("a process that " + std::string(1, how) + " ends with the status " + std::to_string(status));
                        if (!ok) ::_exit(0);  // (and said why)
                        first.live(3);
                    }
                }
            }
            ch.line("done");
            if (mine.chance(.5)) {
                first.leave();
                first.mon.shutdown();
            }
        });
    auto ended = vf::children(c, body, 120);
    for (auto& e : ended)
        if (std::find(e.lines.begin(), e.lines.end(), "done") == e.lines.end()) c.fail("monitor", "a process ended before its time");
    body = {[&](vf::Child& ch) {
        // all slots of processes that are no more are free
        Monitor::active(true);
        Monitor::instance().reset();
        int busy   = 0;
        auto& all  = Monitor::instance().tasks();
        if (all.size() != unsigned(size)) ch.fail("monitor", "the number of slots");
        for (unsigned long i = 0; i < all.size(); ++i) busy += all[i].busy(true);
        if (busy != 1) ch.fail("monitor", std::to_string(busy) + " slots are used by one task");
    }};
    vf::children(c, body, 60);
    c.count("slots claimed", slots->claims);
    c.count("slots claimed after the end of a process", slots->reclaimed);
    c.count("tasks looked at", slots->reads);
    c.count("tasks aborted", slots->aborts);
    c.count("tasks stopped", slots->stops);
    c.count("texts read", slots->texts);
    c.count("trees of statuses", slots->trees);
    c.count("trees of statuses with tasks below", slots->below);
    c.eval(slots->claims + slots->reads);
    uint64_t h = 0;
    for (auto& s : slots->slot) h = h * 1000003 + s.written * 7 + uint64_t(s.thread);
    c.distinct(h);
}
