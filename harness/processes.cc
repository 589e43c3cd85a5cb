// C13: what processes share: semaphores, file locks, mapped and shared-memory arrays, transaction logs, caches of files.
// Oracles: mutual exclusion observed in shared memory, conservation of counts, journals of completed operations, crashes at
// counted points.
#include "children.h"
#include "vf.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/ipc.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/sem.h>
#include <sys/stat.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "eckit/container/CacheManager.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileLock.h"
#include "eckit/os/Semaphore.h"
#include "eckit/os/SharedInt.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/transaction/TxnLog.h"

using namespace eckit;
using vf::Child;
using vf::refuses;

namespace {

// -- crashes: a process told to do so dies at its n-th visit of a crash point, without flushing anything

long crashIn = -1;
void crashPoint() {
    if (crashIn >= 0 && crashIn-- == 0) ::kill(::getpid(), SIGKILL);
}

template <class F>
F real(const char* name) {
    return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
}

}  // namespace

extern "C" {
int rename(const char* a, const char* b) {
    static auto f = real<int (*)(const char*, const char*)>("rename");
    crashPoint();
    int r = f(a, b);
    crashPoint();
    return r;
}
int unlink(const char* a) {
    static auto f = real<int (*)(const char*)>("unlink");
    crashPoint();
    int r = f(a);
    crashPoint();
    return r;
}
int fsync(int fd) {
    static auto f = real<int (*)(int)>("fsync");
    crashPoint();
    (void)f;  // power failures are out of scope: no need to wait for the disk
    crashPoint();
    return 0;
}
}

namespace {

void removeSem(const std::string& path) {
    key_t k = ::ftok(path.c_str(), 1);
    if (k == key_t(-1)) return;
    int id = ::semget(k, 0, 0);
    if (id >= 0) ::semctl(id, 0, IPC_RMID);
}
// System V semaphores are found by the low bits of an inode number: what other processes left behind, or use at the
// same time, would be mistaken for ours. So this process gets a table of its own, emptied before each case.
bool privateTable() {
    uid_t uid = ::geteuid();
    gid_t gid = ::getegid();
    if (::unshare(CLONE_NEWUSER | CLONE_NEWIPC) != 0) return ::unshare(CLONE_NEWIPC) == 0;
    auto put = [](const char* f, const std::string& s) {
        int fd = ::open(f, O_WRONLY);
        if (fd >= 0) {
            if (::write(fd, s.data(), s.size()) < 0) ::perror(f);
            ::close(fd);
        }
    };
    put("/proc/self/setgroups", "deny");
    put("/proc/self/uid_map", std::to_string(uid) + " " + std::to_string(uid) + " 1");
    put("/proc/self/gid_map", std::to_string(gid) + " " + std::to_string(gid) + " 1");
    return true;
}
const bool privateTable_ = privateTable();

struct SemCleaner {
    std::string path;
    explicit SemCleaner(const std::string& p) : path(p) {
        if (!privateTable_) return;
        struct seminfo info;
        int top = ::semctl(0, 0, SEM_INFO, &info);
        for (int i = 0; i <= top; ++i) {
            struct semid_ds ds;
            int id = ::semctl(i, 0, SEM_STAT, &ds);
            if (id >= 0) ::semctl(id, 0, IPC_RMID);
        }
    }
    ~SemCleaner() { removeSem(path); }
};

struct Section {
    std::atomic<long> inside, entered, plain, tries, refused;
};

void critical(vf::Case& c, vf::Rng& r, Section* s, const char* key) {
    long n = s->inside.fetch_add(1);
    VF_CHECK(n == 0, key, "another process is in the critical section");
    long v = s->plain.load();
    if (r.chance(0.5)) ::usleep(useconds_t(r.below(150)));
    for (int i = r.below(50); i > 0; --i) sched_yield();
    s->plain.store(v + 1);
    s->entered.fetch_add(1);
    s->inside.fetch_sub(1);
}

}  // namespace

// -- mutual exclusion

VF_WORKLOAD(semaphores, 75, 800) {
    vf::Rng& r = c.rng;
    SemCleaner sc{c.scratch + "/sem"};
    PathName path(sc.path);
    if (r.chance(0.5)) path.touch();  // created when missing otherwise
    vf::Shared<Section> s;
    int n = r.in(2, 4);
    if (!path.exists()) path.touch();
    std::vector<std::function<void(Child&)>> bodies;
    bool deaths = r.chance(0.5);
    std::vector<char> dies;
    for (int i = 0; i < n; ++i) {
        vf::Rng mine(r.u64());
        bool die = deaths && i == 0;
        dies.push_back(die);
        bodies.push_back([&c, mine, path, &s, die](Child& ch) mutable {
            Semaphore sem(path);
            int rounds = int(mine.in(10, 40));
            for (int k = 0; k < rounds; ++k) {
                if (mine.chance(0.3) && !(die && k == rounds / 2)) {
                    s->tries++;
                    if (!sem.tryLock()) {
                        s->refused++;
                        continue;
                    }
                }
                else {
                    sem.lock();
                }
                if (mine.chance(0.2)) {
                    sem.lock();  // again by the same process
                    critical(c, mine, s.p, "exclusion");
                    sem.unlock();
                }
                critical(c, mine, s.p, "exclusion");
                if (die && k == rounds / 2) {
                    ch.line("dying");
                    ::kill(::getpid(), SIGKILL);
                }
                VF_CHECK(sem.test(), "test", "not in use while locked");
                sem.unlock();
            }
            // once unlocked completely, unlocking is refused
            VF_CHECK(refuses([&] { sem.unlock(); }), "unlock", "unlocked too often");
        });
    }
    auto out = vf::children(c, bodies);
    for (int i = 0; i < n; ++i) VF_EQ(out[i].killed(), bool(dies[i]), "exclusion", "died");
    VF_EQ(s->plain.load(), s->entered.load(), "exclusion", "updates in the critical section were lost");
    Semaphore sem(path);
    VF_CHECK(!sem.test(), "release", "still in use after all the processes ended");
    VF_CHECK(sem.tryLock(), "release", "cannot be locked after all the processes ended");
    sem.unlock();
    c.eval();
    c.distinct(uint64_t(s->entered.load()) * 1000 + s->refused.load() * 10 + n);
    c.count("critical_sections", s->entered.load());
    c.count("refused_trylocks", s->refused.load());
    if (deaths) c.count("deaths_in_a_lock");
}

VF_WORKLOAD(filelocks, 75, 800) {
    vf::Rng& r = c.rng;
    std::string path = c.scratch + "/a/lock";
    vf::Shared<Section> s;
    int n       = int(r.in(2, 4));
    bool deaths = r.chance(0.5);
    std::vector<std::function<void(Child&)>> bodies;
    for (int i = 0; i < n; ++i) {
        vf::Rng mine(r.u64());
        bool die = deaths && i == 0;
        bodies.push_back([&c, mine, path, &s, die](Child& ch) mutable {
            FileLock lock{PathName(path)};
            int rounds = int(mine.in(10, 40));
            for (int k = 0; k < rounds; ++k) {
                AutoLock<FileLock> l(lock);
                critical(c, mine, s.p, "exclusion");
                if (die && k == rounds / 2) {
                    ch.line("dying");
                    ::kill(::getpid(), SIGKILL);
                }
            }
        });
    }
    vf::children(c, bodies);
    VF_EQ(s->plain.load(), s->entered.load(), "exclusion", "updates in the critical section were lost");
    VF_CHECK(PathName(path).exists(), "filelock", "the lock file went away");
    {
        FileLock last(PathName(path), true);
        last.lock();
        last.unlock();
    }
    VF_CHECK(!PathName(path).exists(), "filelock", "the lock file is still there");
    c.eval();
    c.distinct(uint64_t(s->entered.load()) * 10 + n);
    c.count("critical_sections", s->entered.load());
    if (deaths) c.count("deaths_in_a_lock");
}

VF_WORKLOAD(sharedints, 45, 400) {
    vf::Rng& r = c.rng;
    SemCleaner sc{c.scratch + "/int"};
    PathName path(sc.path);
    path.touch();
    int limit = int(r.in(1, 3));
    SharedInt main(path, 2);
    main.newLimit(short(limit), 0);
    main.newLimit(short(limit + 5), 1);
    VF_EQ(main.limit(0), limit, "limit", "limit");
    VF_EQ(main.free(0), limit, "limit", "free at first");
    VF_EQ(main.free(1), limit + 5, "limit", "free of the other");
    vf::Shared<Section> s;
    std::vector<std::function<void(Child&)>> bodies;
    int n       = int(r.in(2, 4));
    bool deaths = r.chance(0.5);
    for (int i = 0; i < n; ++i) {
        vf::Rng mine(r.u64());
        bool die = deaths && i == 0;
        bodies.push_back([&c, mine, path, &s, die, limit](Child& ch) mutable {
            SharedInt x(path, 2);
            int rounds = int(mine.in(5, 25));
            for (int k = 0; k < rounds; ++k) {
                short v = short(mine.in(1, limit));
                v > 1 ? x.use(0, v) : x.use(0);
                long in = s->inside.fetch_add(v) + v;
                VF_CHECK(in <= limit, "limit", "more in use than the limit");
                if (mine.chance(0.5)) ::usleep(useconds_t(mine.below(200)));
                s->inside.fetch_sub(v);
                s->entered.fetch_add(1);
                if (die && k == rounds / 2) {
                    ch.line("dying");
                    ::kill(::getpid(), SIGKILL);
                }
                v > 1 ? x.release(0, v) : x.release(0);
            }
        });
    }
    vf::children(c, bodies);
    VF_EQ(main.free(0), limit, "limit", "free after all the processes ended");
    main.newLimit(short(limit + 2), 0);
    VF_EQ(main.free(0), limit + 2, "limit", "free after the limit was raised");
    VF_EQ(main.free(1), limit + 5, "limit", "free of the other");
    c.eval();
    c.distinct(uint64_t(s->entered.load()) * 10 + n);
    c.count("uses", s->entered.load());
}

// -- arrays

namespace {
struct Item {
    long a;
    double b;
    char c[13];
};

template <class Make>
void arrays(vf::Case& c, Make make, const char* kind) {
    vf::Rng& r = c.rng;
    size_t size = r.in(1, 300);
    int n       = int(r.in(2, 4));
    std::vector<std::function<void(Child&)>> bodies;
    std::vector<std::map<size_t, long>> adds(n);
    for (int generation = 0; generation < 2; ++generation) {
        bodies.clear();
        std::vector<std::map<size_t, long>> now(n);
        for (int i = 0; i < n; ++i) {
            std::vector<std::pair<size_t, long>> plan;
            for (int k = r.in(5, 40); k > 0; --k) {
                plan.push_back({r.chance(0.3) ? size - 1 : r.below(r.chance(0.5) ? std::min<size_t>(size, 4) : size), long(r.in(-5, 100))});
                adds[i][plan.back().first] += plan.back().second;
            }
            bool reopen = r.chance(0.3);
            bodies.push_back([plan, make, reopen, size, &c](Child&) {
                auto a = make(size);
                VF_EQ(size_t(a->size()), size, "array", "size");
                VF_CHECK(size_t(a->end() - a->begin()) == size, "array", "iterators");
                size_t k = 0;
                for (auto& p : plan) {
                    if (reopen && ++k == plan.size() / 2) a = make(size);
                    auto& x = *a;
                    x.lock();
                    Item& it = x[p.first];
                    VF_EQ(it.b, it.a * 0.5, "array", "an item is not whole");
                    VF_CHECK(it.a == 0 || it.c[12] == char(it.a), "array", "an item is not whole");
                    it.a += p.second;
                    if (k % 3 == 0) sched_yield();
                    it.b     = it.a * 0.5;
                    it.c[12] = char(it.a);
                    x.unlock();
                }
                a->sync();
            });
        }
        vf::children(c, bodies);
        std::map<size_t, long> want;
        for (auto& m : adds) {
            for (auto& kv : m) want[kv.first] += kv.second;
        }
        vf::children(c, {[&](Child&) {
                         auto a = make(size);
                         for (size_t i = 0; i < size; ++i) {
                             VF_EQ((*a)[i].a, want.count(i) ? want[i] : 0L, "array", std::string(kind) + ": the total of item " + std::to_string(i));
                         }
                     }});
        c.eval();
        c.count("array_items", size);
    }
    c.distinct(size * 10 + n);
}
}  // namespace

VF_WORKLOAD(mappedarrays, 60, 600) {
    SemCleaner sc{c.scratch + "/array"};
    std::string path = sc.path;
    PathName(path).touch();
    arrays(c, [path](size_t n) { return std::make_shared<MappedArray<Item>>(PathName(path), n); }, "MappedArray");
    // another type of item is refused
    vf::children(c, {[&](Child&) {
                     size_t size = (size_t(PathName(path).size()) - 4096) / sizeof(Item) * sizeof(Item);
                     VF_CHECK(refuses([&] { MappedArray<char> x(PathName(path), size); }), "array", "opened with items of another size");
                 }});
}

VF_WORKLOAD(sharedarrays, 45, 400) {
    SemCleaner sc{c.scratch + "/array"};
    std::string path = sc.path, name = "/verif." + std::to_string(::getpid()) + "." + std::to_string(c.index);
    PathName(path).touch();
    struct Unlink {
        std::string n;
        ~Unlink() { ::shm_unlink(n.c_str()); }
    } u{name};
    arrays(c, [path, name](size_t n) { return std::make_shared<SharedMemArray<Item>>(PathName(path), name, n); }, "SharedMemArray");
}

// -- transactions

namespace {

class Event : public TxnEvent {
public:
    std::string text_;
    explicit Event(const std::string& t) : text_(t) {}
    explicit Event(Stream& s) : TxnEvent(s) {
        s >> text_;
        long n;
        s >> n;
        if (n != long(text_.size())) throw SeriousBug("not whole");
    }
    void encode(Stream& s) const override {
        TxnEvent::encode(s);
        crashPoint();
        s << text_;
        crashPoint();
        s << long(text_.size());
        crashPoint();
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Event> reanimator_;
};
ClassSpec Event::classSpec_ = {&TxnEvent::classSpec(), "VerifEvent"};
Reanimator<Event> Event::reanimator_;

struct Seen {
    TxnID id;
    std::string text;
};

struct Collect : TxnRecoverer<Event>, TxnFinder<Event> {
    std::vector<Seen> seen;
    bool active_ = true, old_ = false;
    TxnID stop_  = 0;
    void push(Event* e) override {
        std::unique_ptr<Event> p(e);
        seen.push_back({e->transactionID(), e->text_});
    }
    bool found(Event& e) override {
        seen.push_back({e.transactionID(), e.text_});
        return stop_ && e.transactionID() == stop_;
    }
    bool active() override { return active_; }
    bool old() override { return old_; }
};

/// what a process did: every transaction it began
struct Journal {
    struct Txn {
        std::set<std::string> texts;  // any of these
        bool surely = false, maybe = false;
        bool done = false, doneMaybe = false;
    };
    std::map<std::string, Txn> txns;  // by unique name, the first word of the text
};

}  // namespace

VF_WORKLOAD(transactions, 150, 2000) {
    vf::Rng& r = c.rng;
    std::string name = "../" + c.scratch.substr(c.scratch.rfind('/') + 1) + "/log";
    SemCleaner sc{c.scratch + "/log/next"};
    std::map<std::string, Journal::Txn> txns;
    std::map<std::string, TxnID> ids;
    std::set<TxnID> used;
    TxnID top        = 0;
    bool tornBackup  = false;
    int generations  = int(r.in(1, 4));
    std::string text;
    c.trace() << "home " << name << " generations " << generations << "\n";
    for (int g = 0; g < generations; ++g) {
        int n      = int(r.in(1, 3));
        bool crash = r.chance(0.6);
        std::vector<std::function<void(Child&)>> bodies;
        for (int i = 0; i < n; ++i) {
            vf::Rng mine(r.u64());
            long in           = crash && i == 0 ? long(r.below(60)) : -1;
            std::string label = "t" + std::to_string(g) + "." + std::to_string(i) + ".";
            bodies.push_back([mine, in, label, name](Child& ch) mutable {
                TxnLog<Event> log(name);
                crashIn = in;
                std::vector<std::unique_ptr<Event>> open;
                int k = 0;
                for (int ops = int(mine.in(3, 15)); ops > 0; --ops) {
                    int op = open.empty() ? 0 : int(mine.below(3));
                    if (op == 0) {
                        std::string id = label + std::to_string(k++);
                        std::unique_ptr<Event> e(new Event(id + " " + std::string(mine.below(mine.chance(0.1) ? 20000 : 50), 'x')));
                        ch.line("begin " + id + " " + e->text_);
                        log.begin(*e);
                        ch.line("began " + id + " " + std::to_string(e->transactionID()));
                        open.push_back(std::move(e));
                        continue;
                    }
                    size_t w = mine.below(open.size());
                    Event& e = *open[w];
                    std::string id = e.text_.substr(0, e.text_.find(' '));
                    if (op == 1) {
                        std::string t = id + " u" + std::to_string(mine.below(1000000)) + std::string(mine.below(50), 'y');
                        ch.line("update " + id + " " + t);
                        e.text_ = t;
                        log.update(e);
                        ch.line("updated " + id + " " + t);
                    }
                    else {
                        bool backup = mine.chance(0.5);
                        ch.line(std::string(backup ? "archive " : "end ") + id + " -");
                        log.end(e, backup);
                        ch.line(std::string(backup ? "archived " : "ended ") + id + " -");
                        open.erase(open.begin() + long(w));
                    }
                }
                crashIn = -1;
                for (auto& e : open) {
                    if (!log.exists(*e)) ch.fail("exists", "a transaction that was begun does not exist");
                }
            });
        }
        auto out = vf::children(c, bodies);
        for (auto& o : out) {
            if (o.killed()) c.count("crashes");
            std::string lastOp, lastId;
            for (auto& l : o.lines) {
                std::istringstream in(l);
                std::string op, id, rest;
                in >> op >> id;
                std::getline(in, rest);
                if (!rest.empty()) rest.erase(0, 1);
                Journal::Txn& t = txns[id];
                lastOp          = op;
                lastId          = id;
                if (op == "begin") {
                    t.maybe = true;
                    t.texts = {rest};
                }
                else if (op == "began") {
                    t.surely = true;
                    TxnID x  = std::stoull(rest);
                    ids[id]  = x;
                    VF_CHECK(used.insert(x).second, "ids", "the same identifier twice");
                    c.count("transactions");
                }
                else if (op == "update") {
                    t.texts.insert(rest);
                }
                else if (op == "updated") {
                    t.texts = {rest};
                }
                else if (op == "end" || op == "archive") {
                    t.surely = false;
                    if (op == "archive") t.doneMaybe = true;
                }
                else if (op == "ended" || op == "archived") {
                    t.maybe = false;
                    if (op == "archived") t.done = true;
                }
                c.trace() << l.substr(0, 60) << "\n";
            }
            if (lastOp == "archive") tornBackup = true;
        }
        // a new process takes over
        bool thread = r.chance(0.3);
        auto rec    = vf::children(c, {[&](Child& ch) {
                                    TxnLog<Event> log(name);
                                    Collect found, old;
                                    log.find(found);
                                    for (auto& s : found.seen) ch.line("found " + std::to_string(s.id) + " " + s.text);
                                    old.active_ = false;
                                    old.old_    = true;
                                    log.find(old);
                                    for (auto& s : old.seen) ch.line("old " + std::to_string(s.id) + " " + s.text);
                                    Collect rc;
                                    log.recover(rc, false, 0);
                                    for (auto& s : rc.seen) ch.line("recovered " + std::to_string(s.id) + " " + s.text);
                                    Collect young;
                                    log.recover(young, false, 3600);
                                    if (!young.seen.empty()) ch.fail("recover", "a recent transaction was recovered as an old one");
                                    Event e("after recovery");
                                    log.begin(e);
                                    ch.line("new " + std::to_string(e.transactionID()) + " -");
                                    if (!log.exists(e)) ch.fail("exists", "a transaction that was begun does not exist");
                                    log.end(e, false);
                                    if (log.exists(e)) ch.fail("exists", "a transaction that was ended exists");
                                }});
        (void)thread;
        std::map<std::string, std::vector<Seen>> by;
        for (auto& l : rec[0].lines) {
            std::istringstream in(l);
            std::string what, rest;
            TxnID id;
            in >> what >> id;
            std::getline(in, rest);
            by[what].push_back({id, rest.substr(1)});
        }
        for (std::string what : {"found", "recovered"}) {
            std::set<std::string> got;
            TxnID last = 0;
            for (auto& s : by[what]) {
                std::string id = s.text.substr(0, s.text.find(' '));
                VF_CHECK(got.insert(id).second, what, "transaction " + id + " twice");
                VF_CHECK(txns.count(id), what, "an unknown transaction: " + s.text.substr(0, 100));
                auto& t = txns[id];
                VF_CHECK(t.maybe, what, "transaction " + id + " was ended, or never begun");
                VF_CHECK(t.texts.count(s.text), what, "transaction " + id + " is not as it was begun or updated: " + s.text.substr(0, 100));
                if (ids.count(id)) VF_EQ(s.id, ids[id], what, "identifier");
                if (what == "recovered") {
                    VF_CHECK(s.id > last, what, "not in the order of the identifiers");
                    last = s.id;
                }
                top = std::max(top, s.id);
                c.count("recovered");
            }
            for (auto& kv : txns) {
                if (kv.second.surely) VF_CHECK(got.count(kv.first), what, "transaction " + kv.first + " was lost");
            }
        }
        // what the dead process left is now known
        for (auto& kv : txns) {
            bool there = false;
            for (auto& s : by["recovered"]) {
                if (s.text.substr(0, s.text.find(' ')) == kv.first) {
                    there           = true;
                    kv.second.texts = {s.text};
                    ids[kv.first]   = s.id;
                    used.insert(s.id);
                }
            }
            kv.second.surely = kv.second.maybe = there;
        }
        if (!tornBackup) {
            std::multiset<std::string> got;
            for (auto& s : by["old"]) got.insert(s.text.substr(0, s.text.find(' ')));
            for (auto& kv : txns) {
                VF_EQ(got.count(kv.first), size_t(kv.second.done), "archive", "how often an archived transaction is found, " + kv.first);
            }
            VF_EQ(got.size(), size_t(std::count_if(txns.begin(), txns.end(), [](const std::pair<const std::string, Journal::Txn>& t) { return t.second.done; })), "archive",
                  "archived transactions");
            c.count("archived", got.size());
        }
        for (auto& s : by["new"]) {
            VF_CHECK(used.insert(s.id).second, "ids", "an identifier was given again after a recovery");
            for (TxnID x : used) VF_CHECK(x <= s.id, "ids", "an identifier smaller than earlier ones");
        }
        VF_EQ(by["new"].size(), size_t(1), "recover", "a transaction begun after a recovery");
        c.eval();
    }
    for (auto& t : txns) text += t.first + ";";
    c.distinct(text);
}

// -- caches of files

namespace {

std::string contentOf(const std::string& key) {
    std::string s;
    uint64_t h = vf::hashStr(key);
    size_t n   = 200 + h % 3000;
    while (s.size() < n) s += key + std::to_string(h = h * 6364136223846793005ULL + 1442695040888963407ULL) + ",";
    s.resize(n);
    return s;
}

std::string slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}

template <class L>
struct Traits_ {
    using value_type = std::string;
    using Locker     = L;
    static const char* name() { return "verif"; }
    static const char* extension() { return ".cached"; }
    static int version() { return 3; }
    static void save(const CacheManagerBase&, const value_type& v, const PathName& p) {
        std::ofstream out(p.asString(), std::ios::binary);
        out.write(v.data(), std::streamsize(v.size() / 2));
        out.flush();
        crashPoint();
        out.write(v.data() + v.size() / 2, std::streamsize(v.size() - v.size() / 2));
        out.close();
        crashPoint();
    }
    static void load(const CacheManagerBase&, value_type& v, const PathName& p) { v = slurp(p); }
};

template <class L>
struct Creator : CacheManager<Traits_<L>>::CacheContentCreator {
    std::function<void(const PathName&, std::string&, bool&)> f;
    void create(const PathName& p, std::string& v, bool& saved) override { f(p, v, saved); }
};

template <class L>
void caches(vf::Case& c, const std::string& roots, const std::string& sem) {
    SemCleaner sc(sem + "/none");
    vf::Rng& r = c.rng;
    int n      = int(r.in(2, 4));
    size_t nk  = r.in(1, 6);
    std::vector<std::function<void(Child&)>> bodies;
    bool crash = r.chance(0.4), throws = r.chance(0.3);
    for (int i = 0; i < n; ++i) {
        vf::Rng mine(r.u64());
        long in = crash && i == 0 ? long(r.below(40)) : -1;
        bodies.push_back([&c, mine, in, roots, nk, throws](Child& ch) mutable {
            CacheManager<Traits_<L>> m("loader", roots, false, 0);
            crashIn = in;
            for (int ops = int(mine.in(3, 25)); ops > 0; --ops) {
                std::string key = "k" + std::to_string(mine.below(nk)), value = "unset";
                Creator<L> creator;
                bool fails = throws && mine.chance(0.2), threw = false;
                creator.f = [&](const PathName& p, std::string& v, bool& saved) {
                    ch.line("creating " + key);
                    if (mine.chance(0.5)) ::usleep(useconds_t(mine.below(3000)));
                    if (fails) {
                        threw = true;
                        throw UserError("the creator fails");
                    }
                    v = contentOf(key);
                    if (mine.chance(0.4)) {
                        Traits_<L>::save(m, v, p);
                        saved = true;
                    }
                    ch.line("created " + key);
                };
                try {
                    PathName p = m.getOrCreate(key, creator, value);
                    VF_CHECK(!threw, "cache", "the failure of the creator was lost");
                    VF_CHECK(value == contentOf(key), "cache", "the value of " + key + " is not what was created, " + std::to_string(value.size()) + " bytes");
                    VF_CHECK(slurp(p) == value, "cache", "the file of " + key + " is not what was created");
                    ch.line("got " + key);
                }
                catch (UserError& e) {
                    if (!threw) throw;
                }
            }
        });
    }
    auto out = vf::children(c, bodies);
    std::map<std::string, int> creating, created;
    std::string sig;
    for (auto& o : out) {
        if (o.killed()) c.count("crashes");
        for (auto& l : o.lines) {
            std::string key = l.substr(l.find(' ') + 1);
            if (l.compare(0, 8, "creating") == 0) creating[key]++;
            if (l.compare(0, 7, "created") == 0) created[key]++;
            if (l.compare(0, 3, "got") == 0) c.count("cache_gets");
            sig += l[2];
        }
    }
    if (!crash && !throws) {
        for (auto& kv : creating) VF_EQ(kv.second, 1, "cache-once", "how often " + kv.first + " was created");
        c.count("created_once", creating.size());
    }
    // later, everything is there and whole
    vf::children(c, {[&](Child& ch) {
                     CacheManager<Traits_<L>> m("loader", roots, false, 0), strict("loader", roots, true, 0);
                     for (auto& kv : created) {
                         Creator<L> creator;
                         bool again = false;
                         creator.f  = [&](const PathName&, std::string& v, bool&) {
                             v     = contentOf(kv.first);
                             again = true;
                         };
                         std::string v;
                         m.getOrCreate(kv.first, creator, v);
                         VF_CHECK(v == contentOf(kv.first), "cache", "later, the value of " + kv.first);
                         VF_CHECK(crash || !again, "cache", kv.first + " was created again");
                         v.clear();
                         strict.getOrCreate(kv.first, creator, v);
                         VF_CHECK(v == contentOf(kv.first), "cache", "later still, the value of " + kv.first);
                     }
                     Creator<L> creator;
                     creator.f = [&](const PathName&, std::string&, bool&) { c.fail("cache", "created in a cache that cannot miss"); };
                     std::string v;
                     VF_CHECK(refuses([&] { strict.getOrCreate("missing", creator, v); }), "cache", "a miss that is not allowed");
                 }});
    for (size_t k = 0; k < nk; ++k) removeSem(sem + "/verif/3/k" + std::to_string(k) + ".cached.lock");
    c.eval();
    c.distinct(sig);
}

}  // namespace

VF_WORKLOAD(caches_flock, 75, 800) {
    caches<CacheManagerFileFlock>(c, c.scratch + "/cache", c.scratch + "/cache");
}
VF_WORKLOAD(caches_semaphore, 45, 400) {
    PathName(c.scratch + "/first").mkdir();
    caches<CacheManagerFileSemaphoreLock>(c, c.scratch + "/first:" + c.scratch + "/missing/cache", c.scratch + "/first");
}

namespace {
std::atomic<long> steppedTime{0};

}  // namespace

extern "C" time_t time(time_t* t) {
    struct timespec now;
    ::clock_gettime(CLOCK_REALTIME, &now);
    time_t s = now.tv_sec + steppedTime * 10;
    if (t) *t = s;
    return s;
}

struct NoLock {
    explicit NoLock(const std::string&) {}
    void lock() {}
    void unlock() {}
};

// what was used least recently goes first; what was there before the limit counts
VF_WORKLOAD(caches_limited, 75, 800) {
    vf::Rng& r = c.rng;
    std::string root = c.scratch + "/cache";
    size_t max       = r.in(1, 6) * 2500;
    bool before      = r.chance(0.3);
    vf::Rng mine(r.u64());
    auto body = [&](Child& ch) {
        size_t found = 0;
        if (before) {
            CacheManager<Traits_<NoLock>> unlimited("loader", root, false, 0);
            for (int k = 0; k < 8; ++k) {
                if (mine.chance(0.4)) continue;
                std::string key = "k" + std::to_string(k), v;
                Creator<NoLock> creator;
                creator.f = [&](const PathName&, std::string& x, bool&) { x = contentOf(key); };
                unlimited.getOrCreate(key, creator, v);
                ++found;
            }
        }
        int createdWithin = 0;
        std::vector<std::string> used;  // least recently used first
        size_t evicted = 0;
        std::unique_ptr<CacheManager<Traits_<NoLock>>> m;
        std::map<std::string, std::string> content;
        size_t created = 0, hits = 0;
        for (int ops = int(mine.in(10, 40)); ops > 0; --ops) {
            if (!m || mine.chance(0.1)) m.reset(new CacheManager<Traits_<NoLock>>("loader", root, false, max));
            std::string key = "k" + std::to_string(mine.below(8)), v;
            PathName file(root + "/verif/3/" + key + ".cached");
            bool there = file.exists(), made = false;
            Creator<NoLock> creator;
            creator.f = [&](const PathName&, std::string& x, bool&) {
                x    = contentOf(key);
                made = true;
            };
            m->getOrCreate(key, creator, v);
            VF_CHECK(v == contentOf(key), "cache", "the value of " + key);
            VF_EQ(made, !there, "cache", "created");
            made ? ++created : ++hits;
            ++steppedTime;
            size_t total = 0;
            std::set<std::string> present;
            for (int k = 0; k < 8; ++k) {
                PathName f(root + "/verif/3/k" + std::to_string(k) + ".cached");
                if (f.exists()) {
                    total += size_t(f.size());
                    present.insert("k" + std::to_string(k));
                }
            }
            VF_CHECK(file.exists(), "cache-size", "the file just cached was removed");
            if (!found) {
                used.erase(std::remove(used.begin(), used.end(), key), used.end());
                size_t sum = contentOf(key).size();
                for (auto& k : used) sum += contentOf(k).size();
                while (sum > max && !used.empty()) {
                    sum -= contentOf(used.front()).size();
                    used.erase(used.begin());
                    ++evicted;
                }
                used.push_back(key);
                VF_CHECK(present == std::set<std::string>(used.begin(), used.end()), "cache-recent",
                         "the cache has not what was used most recently, after " + key);
            }
            else {
                createdWithin += made;
                if (createdWithin < 2) continue;  // the first one finds out what there is
            }
            VF_CHECK(total <= std::max(max, contentOf(key).size()), "cache-size",
                     "the cache has " + std::to_string(total) + " bytes, more than " + std::to_string(max));
        }
        ch.line("created " + std::to_string(created) + " hits " + std::to_string(hits));
        ch.line("evicted " + std::to_string(evicted));
    };
    auto out = vf::children(c, {body});
    for (auto& l : out[0].lines)
        if (l.compare(0, 8, "evicted ") == 0) c.count("evicted", size_t(std::stoul(l.substr(8))));
    c.eval();
    c.distinct(out[0].lines.empty() ? "" : out[0].lines[0] + std::to_string(max));
    c.count("limited_caches");
}
