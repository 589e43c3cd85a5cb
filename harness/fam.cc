// Fabric-attached memory (eckit/io/fam): regions, objects, names, handles, lists and maps that live in memory shared by
// processes, against models; and what many writers at once leave behind, under schedules chosen at every access to it.
#include <dlfcn.h>
#include <openssl/sha.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "children.h"
#include "vf.h"

#include "fam/fam.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/fam/FamHandle.h"
#include "eckit/io/fam/FamList.h"
#include "eckit/io/fam/FamMap.h"
#include "eckit/io/fam/FamObject.h"
#include "eckit/io/fam/FamObjectName.h"
#include "eckit/io/fam/FamPath.h"
#include "eckit/io/fam/FamProperty.h"
#include "eckit/io/fam/FamRegion.h"
#include "eckit/io/fam/FamRegionName.h"
#include "eckit/io/fam/FamSession.h"
#include "eckit/io/fam/FamSessionManager.h"
#include "eckit/net/Endpoint.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"

using namespace eckit;

// -- a scheduler of the accesses to the memory ----------------------------------------------------------------------

namespace {

struct Stuck : std::runtime_error {
    Stuck() : std::runtime_error("the threads make no progress") {}
};

class Scheduler {
    std::mutex m_;
    std::condition_variable cv_;
    std::vector<bool> live_;
    int running_ = -1, started_ = 0;
    vf::Rng rng_;
    double stay_;
    long steps_ = 0, limit_;
    bool stuck_ = false;

    void next(bool mayStay) {
        std::vector<int> can;
        for (int i = 0; i < int(live_.size()); ++i)
            if (live_[i]) can.push_back(i);
        int was = running_;
        if (can.empty()) running_ = -1;
        else if (!(mayStay && rng_.chance(stay_))) running_ = rng_.pick(can);
        if (running_ != was) ++changes, hash = hash * 1099511628211ULL + uint64_t(running_) * 977 + uint64_t(steps_);
        cv_.notify_all();
    }

public:
    uint64_t hash = 1469598103934665603ULL;
    long changes  = 0;
    static thread_local int me;
    static std::atomic<Scheduler*> active;

    Scheduler(int n, vf::Rng& r, long limit) : live_(n, true), rng_(r.u64()), stay_(r.pick(std::vector<double>{0, .3, .6, .8, .9, .95})), limit_(limit) {}
    long steps() const { return steps_; }
    bool stuck() const { return stuck_; }

    void begin(int id) {
        std::unique_lock<std::mutex> l(m_);
        me = id;
        if (++started_ == int(live_.size())) next(false);
        cv_.wait(l, [&] { return running_ == me; });
    }
    void end() {
        std::unique_lock<std::mutex> l(m_);
        live_[me] = false;
        next(false);
        me = -1;
    }
    void point() {
        std::unique_lock<std::mutex> l(m_);
        if (++steps_ > limit_) stuck_ = true;
        if (stuck_) throw Stuck();
        next(true);
        cv_.wait(l, [&] { return running_ == me; });
        if (stuck_) throw Stuck();
    }

    /// runs the bodies as threads of which one at a time goes on, until its next access
    void run(const std::vector<std::function<void()>>& bodies, std::vector<std::string>& errors) {
        errors.assign(bodies.size(), "");
        active = this;
        std::vector<std::thread> ts;
        for (int i = 0; i < int(bodies.size()); ++i)
            ts.emplace_back([&, i] {
                begin(i);
                try {
                    bodies[i]();
                }
                catch (std::exception& e) {
                    errors[i] = e.what();
                }
                end();
            });
        for (auto& t : ts) t.join();
        active = nullptr;
    }
};

thread_local int Scheduler::me = -1;
std::atomic<Scheduler*> Scheduler::active{nullptr};
std::atomic<long> accesses{0};

void point() {
    ++accesses;
    if (Scheduler::me >= 0)
        if (auto* s = Scheduler::active.load()) s->point();
}

template <typename F>
F* next(const char* name) {
    auto* p = reinterpret_cast<F*>(::dlsym(RTLD_NEXT, name));
    if (!p) ::abort();
    return p;
}

}  // namespace

namespace openfam {

#define FORWARD(ret, name, symbol, params, types, args)      \
    ret fam::name params {                                   \
        static auto* real = next<ret types>(symbol);         \
        point();                                             \
        return real args;                                    \
    }
using u64 = std::uint64_t;
FORWARD(void, fam_put_blocking, "_ZN7openfam3fam16fam_put_blockingEPvPNS_14Fam_DescriptorEmm", (void* b, Fam_Descriptor* d, u64 o, u64 n), (fam*, void*, Fam_Descriptor*, u64, u64), (this, b, d, o, n))
FORWARD(void, fam_get_blocking, "_ZN7openfam3fam16fam_get_blockingEPvPNS_14Fam_DescriptorEmm", (void* b, Fam_Descriptor* d, u64 o, u64 n), (fam*, void*, Fam_Descriptor*, u64, u64), (this, b, d, o, n))
FORWARD(u64, fam_fetch_uint64, "_ZN7openfam3fam16fam_fetch_uint64EPNS_14Fam_DescriptorEm", (Fam_Descriptor* d, u64 o), (fam*, Fam_Descriptor*, u64), (this, d, o))
FORWARD(u64, fam_compare_swap, "_ZN7openfam3fam16fam_compare_swapEPNS_14Fam_DescriptorEmmm", (Fam_Descriptor* d, u64 o, u64 a, u64 b), (fam*, Fam_Descriptor*, u64, u64, u64), (this, d, o, a, b))
FORWARD(void, fam_set, "_ZN7openfam3fam7fam_setEPNS_14Fam_DescriptorEmm", (Fam_Descriptor* d, u64 o, u64 v), (fam*, Fam_Descriptor*, u64, u64), (this, d, o, v))
FORWARD(void, fam_add, "_ZN7openfam3fam7fam_addEPNS_14Fam_DescriptorEmm", (Fam_Descriptor* d, u64 o, u64 v), (fam*, Fam_Descriptor*, u64, u64), (this, d, o, v))
FORWARD(void, fam_subtract, "_ZN7openfam3fam12fam_subtractEPNS_14Fam_DescriptorEmm", (Fam_Descriptor* d, u64 o, u64 v), (fam*, Fam_Descriptor*, u64, u64), (this, d, o, v))
FORWARD(Fam_Descriptor*, fam_lookup, "_ZN7openfam3fam10fam_lookupEPKcS2_", (const char* a, const char* b), (fam*, const char*, const char*), (this, a, b))
FORWARD(Fam_Descriptor*, fam_allocate, "_ZN7openfam3fam12fam_allocateEPKcmjPNS_21Fam_Region_DescriptorE", (const char* a, u64 n, mode_t m, Fam_Region_Descriptor* r), (fam*, const char*, u64, mode_t, Fam_Region_Descriptor*), (this, a, n, m, r))

}  // namespace openfam

// -- the memory ----------------------------------------------------------------------------------------------------------

namespace {

const net::Endpoint& endpoint() {
    static const net::Endpoint e = [] {
        // memory of this process (and its children) only, of which nothing remains
        ::setenv("ECKIT_FAM_MOCK_SHM_SIZE", "58720256", 1);
        std::string host = "vf" + std::to_string(::getpid());
        net::Endpoint e(host, 8880);
        FamRegionName(e, FamPath("warm", "")).create(64, 0640, true).destroy();
        ::shm_unlink(("/eckit_fam_mock_" + host).c_str());
        return e;
    }();
    return e;
}

std::string text(const Buffer& b) { return {static_cast<const char*>(b.data()), b.size()}; }
std::string text(const void* p, size_t n) { return {static_cast<const char*>(p), n}; }

/// a region for one case
struct Region {
    std::string name;
    FamRegion region;
    explicit Region(vf::Case& c, fam::size_t size = 1 << 22) : name("r" + std::to_string(c.index) + c.rng.word(8, "abcxyz_-.")), region(FamRegionName(endpoint(), FamPath(name, "")).create(size, 0640, true)) {}
    ~Region() { region.destroy(); }
    FamRegion again(vf::Rng& r) const { return r.chance(.5) ? region : FamRegionName(endpoint(), FamPath(name, "")).lookup(); }
};

using Texts = std::deque<std::string>;

Texts forward(const FamList& l, size_t limit = 100000) {
    Texts out;
    for (auto i = l.begin(); i != l.end(); ++i) {
        out.push_back(text(*i));
        if (out.size() > limit) throw std::runtime_error("a list without end");
    }
    return out;
}

Texts backward(const FamList& l, size_t limit = 100000) {
    Texts out;
    auto i = l.end();
    while (i != l.begin()) {
        --i;
        out.push_front(text(*i));
        if (out.size() > limit) throw std::runtime_error("a list without end");
    }
    return out;
}

std::string str(const Texts& t) {
    std::string s = "[";
    for (auto& x : t) s += (s.size() > 1 ? " " : "") + vf::repr(x.size() > 30 ? x.substr(0, 30) + ".." : x);
    return s + "]";
}

std::string payload(vf::Rng& r) { return r.chance(.2) ? r.bytes(1 + r.below(3000)) : r.bytes(1 + r.below(40)); }

std::string listName(vf::Rng& r) { return r.word(12, "abcdefghij.-_0123"); }

}  // namespace

VF_WORKLOAD(lists, 900, 30000) {
    auto& r = c.rng;
    Region reg(c);
    struct L {
        std::string name;
        std::unique_ptr<FamList> list;
        Texts want;
    };
    std::map<std::string, L> lists;
    for (int i = 0, n = 1 + int(r.below(3)); i < n; ++i) {
        std::string name = listName(r);
        auto& l          = lists[name];
        l.name           = name;
        l.list           = std::make_unique<FamList>(reg.region, name);
    }
    std::vector<L*> all;
    for (auto& [k, v] : lists) all.push_back(&v);
    auto whole = [&](L& l) {
        auto got = forward(*l.list), back = backward(*l.list);
        VF_CHECK(got == l.want, "order", "list " << l.name << " holds " << str(got) << " instead of " << str(l.want));
        VF_CHECK(back == l.want, "order", "list " << l.name << " backwards holds " << str(back) << " instead of " << str(l.want));
        VF_EQ(l.list->size(), l.want.size(), "size", "elements of " + l.name);
        VF_EQ(l.list->empty(), l.want.empty(), "size", "empty " + l.name);
        c.eval();
        c.count("lists compared");
        c.count("elements compared", 2 * long(got.size()));
    };
    for (int step = 0, steps = 10 + int(r.below(60)); step < steps; ++step) {
        L& l = *r.pick(all);
        switch (r.below(12)) {
            case 0:
            case 1: {
                std::string v = payload(r);
                c.trace() << "pushFront " << l.name << " " << v.size() << "\n";
                if (r.chance(.3)) l.list->pushFront(Buffer(v.data(), v.size()));
                else if (r.chance(.5)) l.list->pushFront(std::string_view(v));
                else l.list->pushFront(v.data(), v.size());
                l.want.push_front(v);
                break;
            }
            case 2:
            case 3:
            case 4: {
                std::string v = payload(r);
                c.trace() << "pushBack " << l.name << " " << v.size() << "\n";
                if (r.chance(.3)) l.list->pushBack(Buffer(v.data(), v.size()));
                else if (r.chance(.5)) l.list->pushBack(std::string_view(v));
                else l.list->pushBack(v.data(), v.size());
                l.want.push_back(v);
                break;
            }
            case 5:
                c.trace() << "popFront " << l.name << "\n";
                if (l.want.empty()) VF_CHECK(vf::refuses([&] { l.list->popFront(); }), "empty", "popFront of an empty list");
                else {
                    l.list->popFront();
                    l.want.pop_front();
                }
                break;
            case 6:
                c.trace() << "popBack " << l.name << "\n";
                if (l.want.empty()) VF_CHECK(vf::refuses([&] { l.list->popBack(); }), "empty", "popBack of an empty list");
                else {
                    l.list->popBack();
                    l.want.pop_back();
                }
                break;
            case 7: {
                if (l.want.empty()) {
                    VF_CHECK(vf::refuses([&] { l.list->erase(l.list->end()); }), "empty", "erase of the end");
                    VF_CHECK(vf::refuses([&] { l.list->front(); }) && vf::refuses([&] { l.list->back(); }), "empty", "an end of an empty list");
                    break;
                }
                size_t at = r.below(l.want.size());
                c.trace() << "erase " << l.name << " " << at << "\n";
                auto i = l.list->begin();
                if (r.chance(.5))
                    for (size_t k = 0; k < at; ++k) ++i;
                else {
                    i = l.list->end();
                    for (size_t k = l.want.size(); k > at; --k) --i;
                }
                VF_EQ(text(*i), l.want[at], "order", "element reached");
                auto after = l.list->erase(std::move(i));
                l.want.erase(l.want.begin() + long(at));
                if (at == l.want.size()) VF_CHECK(after == l.list->end(), "erase", "after the last one");
                else VF_EQ(text(*after), l.want[at], "erase", "the element that follows");
                c.count("elements erased");
                break;
            }
            case 8:
                if (!l.want.empty()) {
                    VF_EQ(text(l.list->front()), l.want.front(), "ends", "front");
                    VF_EQ(text(l.list->back()), l.want.back(), "ends", "back");
                }
                break;
            case 9: {
                bool byName = r.chance(.5);
                c.trace() << "open again " << l.name << (byName ? " by name" : " by descriptor") << "\n";
                auto d = l.list->descriptor();
                std::unique_ptr<FamList> other = byName ? std::make_unique<FamList>(reg.again(r), l.name) : std::make_unique<FamList>(reg.again(r), d);
                auto e = other->descriptor();
                VF_CHECK(d.region == e.region && d.head == e.head && d.tail == e.tail && d.size == e.size, "reopen", "descriptor");
                if (r.chance(.5)) l.list.swap(other);  // the other one goes on being usable until here
                whole(l);
                c.count("lists opened again");
                break;
            }
            case 10:
                if (r.chance(.2)) {
                    c.trace() << "clear " << l.name << "\n";
                    l.list->clear();
                    l.want.clear();
                }
                else if (r.chance(.2)) {
                    c.trace() << "push nothing " << l.name << "\n";
                    VF_CHECK(vf::refuses([&] { r.chance(.5) ? l.list->pushBack("", 0) : l.list->pushFront("", 0); }), "nothing", "an element of no bytes is taken, and would come back as another");
                    whole(l);
                }
                break;
            default: {
                // from any element in both directions
                if (l.want.empty()) break;
                size_t at = 0;
                auto i    = l.list->cbegin();
                for (int k = 0; k < 12; ++k) {
                    if (at + 1 < l.want.size() && (at == 0 || r.chance(.6))) ++i, ++at;
                    else if (at > 0) --i, --at;
                    VF_EQ(text(*i), l.want[at], "walk", "element " + std::to_string(at));
                }
                break;
            }
        }
    }
    for (auto* l : all) {
        whole(*l);
        c.distinct(str(l->want));
    }
}

namespace {

struct Keys {
    std::vector<std::vector<std::string>> buckets;  // of keys of the same one
};

template <int N>
const std::vector<std::vector<std::string>>& sameBucket() {
    static const auto keys = [] {
        std::map<size_t, std::vector<std::string>> by;
        vf::Rng r(7);
        for (int i = 0; i < 20000; ++i) {
            std::string w = r.word(N, "abcdefghijklmnopqrstuvwxyz0123456789/:=,");
            auto& v       = by[FamHash<FixedString<N>>{}(FixedString<N>(w)) % 1024];
            if (v.size() < 8 && std::find(v.begin(), v.end(), w) == v.end()) v.push_back(w);
        }
        std::vector<std::vector<std::string>> out;
        for (auto& [k, v] : by)
            if (v.size() >= 5) out.push_back(v);
        return out;
    }();
    return keys;
}

/// the entries of a map: of each key the newest first
using Model = std::map<std::string, std::deque<std::string>>;

template <typename Map>
Model read(const Map& m) {
    Model out;
    size_t n = 0;
    for (auto i = m.begin(); i != m.end(); ++i) {
        auto e = *i;
        out[e.key.asString()].push_back(text(e.value));
        if (++n > 100000) throw std::runtime_error("a map without end");
    }
    return out;
}

size_t count(const Model& m) {
    size_t n = 0;
    for (auto& [k, v] : m) n += v.size();
    return n;
}

std::string str(const Model& m) {
    std::string s = "{";
    for (auto& [k, v] : m) s += " " + k + ": " + str(Texts(v.begin(), v.end()));
    return s + " }";
}

template <int N>
void maps(vf::Case& c) {
    using Map = FamMap<FamMapEntry<N>>;
    auto& r   = c.rng;
    Region reg(c);
    std::string name = r.word(8, "abcdefghij-_0123");
    std::vector<std::unique_ptr<Map>> m;
    std::vector<Model> want(2);
    std::vector<std::string> names{name, name + "~"};
    for (auto& n : names) m.push_back(std::make_unique<Map>(n, reg.region));
    std::vector<std::string> keys;
    for (int i = 0, n = 2 + int(r.below(4)); i < n; ++i) {
        auto& b = r.pick(sameBucket<N>());
        for (size_t k = 0, u = 1 + r.below(b.size()); k < u; ++k) keys.push_back(b[k]);
    }
    if (r.chance(.3)) keys.push_back("");
    if (r.chance(.5)) keys.push_back(r.word(1, "k") + std::string(size_t(N) - 1, 'w'));
    auto whole = [&](int x) {
        auto got = read(*m[x]);
        VF_CHECK(got == want[x], "entries", "map " << names[x] << " holds " << str(got) << " instead of " << str(want[x]));
        VF_EQ(m[x]->size(), count(want[x]), "size", "entries of " + names[x]);
        VF_EQ(m[x]->empty(), want[x].empty(), "size", "empty " + names[x]);
        VF_EQ(m[x]->loadFactor(), float(count(want[x])) / 1024, "size", "load of " + names[x]);
        c.eval();
        c.count("maps compared");
        c.count("entries compared", long(count(want[x])));
    };
    for (int step = 0, steps = 10 + int(r.below(50)); step < steps; ++step) {
        int x            = r.chance(.8) ? 0 : 1;
        auto& map        = *m[x];
        auto& w          = want[x];
        std::string k    = r.pick(keys);
        std::string v    = r.chance(.1) ? "" : payload(r);
        FixedString<N> key(k);
        bool has = w.count(k);
        auto at  = [&](const typename Map::iterator& i, const std::string& value) {
            VF_CHECK(i != map.end(), "iterator", "no iterator to " << k);
            auto e = *i;
            VF_EQ(e.key.asString(), k, "iterator", "key");
            VF_EQ(text(e.value), value, "iterator", "value of " + k);
        };
        auto put = [&](auto&& f) {
            if (r.chance(.3)) return f(Buffer(v.data(), v.size()));
            if (r.chance(.5)) return f(std::string_view(v));
            return f(std::string_view(v.data(), v.size()));
        };
        switch (r.below(12)) {
            case 0:
            case 1: {
                c.trace() << "insert " << x << " " << k << " " << v.size() << "\n";
                auto got = r.chance(.2) ? (v.assign(v.size(), 0), map.insert(key, nullptr, v.size())) : put([&](const auto& d) { return map.insert(key, d); });
                VF_EQ(got.second, !has, "insert", "inserted " + k);
                if (!has) w[k].push_front(v);
                at(got.first, w[k].front());
                break;
            }
            case 2:
            case 3: {
                c.trace() << "insertOrAssign " << x << " " << k << " " << v.size() << "\n";
                auto got = put([&](const auto& d) { return map.insertOrAssign(key, d); });
                VF_EQ(got.second, !has, "insert", "assigned " + k);
                auto& q = w[k];
                q.push_front(v);
                if (q.size() > 1) q.erase(q.begin() + 1);
                at(got.first, v);
                break;
            }
            case 4: {
                c.trace() << "forceInsert " << x << " " << k << " " << v.size() << "\n";
                at(put([&](const auto& d) { return map.forceInsert(key, d); }), v);
                w[k].push_front(v);
                break;
            }
            case 5:
            case 6: {
                c.trace() << "erase " << x << " " << k << "\n";
                VF_EQ(map.erase(key), has ? w[k].size() : 0, "erase", "entries removed of " + k);
                w.erase(k);
                c.count("entries erased", has);
                break;
            }
            case 7: {
                auto i = map.find(key);
                VF_EQ(i != map.end(), has, "find", k);
                if (has) at(i, w[k].front());
                VF_EQ(map.contains(key), has, "find", k);
                VF_EQ(map.count(key), has ? w[k].size() : 0, "find", "count of " + k);
                break;
            }
            case 8: {
                c.trace() << "open again " << x << "\n";
                m[x] = std::make_unique<Map>(names[x], reg.again(r));
                whole(x);
                c.count("maps opened again");
                break;
            }
            case 9: {
                if (r.chance(.5)) break;
                c.trace() << "merge into " << x << "\n";
                map.merge(*m[1 - x]);
                for (auto& [kk, q] : want[1 - x])
                    if (!w.count(kk)) w[kk] = {q.front()};
                whole(x);
                c.count("maps merged");
                break;
            }
            case 10: {
                if (r.chance(.7)) break;
                c.trace() << "clear " << x << "\n";
                if (r.chance(.5)) {
                    map.clear();
                    w.clear();
                }
                else map.merge(map);
                whole(x);
                break;
            }
            default: {
                map.lock();  // and can be used by who holds the lock
                VF_EQ(map.contains(key), has, "find", k);
                map.unlock();
                break;
            }
        }
    }
    for (int x : {0, 1}) whole(x);
    c.distinct(str(want[0]));
}

}  // namespace

VF_WORKLOAD(maps, 500, 15000) {
    switch (c.rng.below(3)) {
        case 0: return maps<32>(c);
        case 1: return maps<64>(c);
        default: return maps<128>(c);
    }
}

// -- objects and regions ---------------------------------------------------------------------------------------------------

namespace {

struct Obj {
    std::string bytes;
    fam::perm_t perm;
    std::unique_ptr<FamObject> o;
};

template <typename T>
void atomics(vf::Case& c, Obj& o) {
    auto& r     = c.rng;
    size_t room = o.bytes.size();
    T v         = std::is_floating_point<T>::value ? T(r.real(-1000, 1000)) : T(r.u64());
    if (room < sizeof(T) || r.chance(.1)) {
        size_t at = room < sizeof(T) ? r.below(room + 3) : room - sizeof(T) + 1 + r.below(5);
        if (r.chance(.1)) at = size_t(-1) - r.below(9);
        VF_CHECK(vf::refuses([&] { o.o->fetch<T>(at); }) && vf::refuses([&] { o.o->set<T>(at, v); }) && vf::refuses([&] { o.o->add<T>(at, v); }) && vf::refuses([&] { o.o->swap<T>(at, v); }), "bounds",
                 "a number at " << at << " of " << room << " bytes");
        c.count("refused");
        return;
    }
    size_t at = r.below(room - sizeof(T) + 1);
    T was;
    std::memcpy(&was, &o.bytes[at], sizeof(T));
    auto now = [&](T x) { std::memcpy(&o.bytes[at], &x, sizeof(T)); };
    auto same = [](T a, T b) { return !std::memcmp(&a, &b, sizeof(T)); };
    switch (r.below(6)) {
        case 0: VF_CHECK(same(o.o->fetch<T>(at), was), "number", "fetched at " << at); break;
        case 1: o.o->set<T>(at, v), now(v); break;
        case 2:
            if (std::is_floating_point<T>::value) o.o->set<T>(at, T(1.5)), o.o->add<T>(at, v), now(T(1.5) + v);
            else if (std::is_signed<T>::value) o.o->set<T>(at, 5), o.o->add<T>(at, v / 2), now(5 + v / 2);
            else o.o->add<T>(at, v), now(was + v);
            break;
        case 3:
            if (std::is_floating_point<T>::value) o.o->set<T>(at, T(1.5)), o.o->subtract<T>(at, v), now(T(1.5) - v);
            else if (std::is_signed<T>::value) o.o->set<T>(at, 5), o.o->subtract<T>(at, v / 2), now(5 - v / 2);
            else o.o->subtract<T>(at, v), now(was - v);
            break;
        case 4: VF_CHECK(same(o.o->swap<T>(at, v), was), "number", "swapped at " << at); now(v); break;
        default:
            if constexpr (std::is_integral<T>::value) {
                bool right = r.chance(.5);
                T expect   = right ? was : T(was + 1);
                VF_CHECK(same(o.o->compareSwap<T>(at, expect, v), was), "number", "compared at " << at);
                if (right) now(v);
            }
    }
    c.count("atomic operations");
}

std::string objectName(vf::Rng& r) { return r.word(10, "abcdeXYZ019_-.:"); }

}  // namespace

VF_WORKLOAD(objects, 2000, 60000) {
    auto& r = c.rng;
    struct Reg {
        fam::size_t size;
        fam::perm_t perm;
        std::map<std::string, Obj> objects;
    };
    std::map<std::string, Reg> regions;
    std::vector<std::string> regionNames{objectName(r) + "1", objectName(r) + "2"}, names{objectName(r), objectName(r), objectName(r)};
    auto path = [&](const std::string& reg) { return FamRegionName(endpoint(), FamPath(reg, "")); };
    auto same = [&](Obj& o, const std::string& what) {
        VF_CHECK(text(o.o->data()) == o.bytes, "bytes", what << " holds other bytes than were put");
        size_t at = r.below(o.bytes.size() + 1);
        VF_CHECK(text(o.o->data(at)) == o.bytes.substr(at), "bytes", what << " holds other bytes from " << at);
        c.count("objects compared");
        c.eval();
    };
    for (int step = 0, steps = 10 + int(r.below(40)); step < steps; ++step) {
        std::string rn = r.pick(regionNames), on = r.pick(names);
        auto i         = regions.find(rn);
        bool there     = i != regions.end();
        if (!there || r.chance(.15)) {
            VF_EQ(path(rn).exists(), there, "region", "exists " + rn);
            switch (r.below(4)) {
                case 0:
                case 1: {
                    bool over        = r.chance(.4);
                    fam::size_t size = 64 + r.below(5000);
                    fam::perm_t perm = fam::perm_t(r.pick(std::vector<int>{0640, 0777, 0600}));
                    c.trace() << "region " << rn << " " << size << (over ? " overwrite" : "") << "\n";
                    if (there && !over) {
                        bool ok = false;
                        try {
                            path(rn).create(size, perm);
                        }
                        catch (AlreadyExists&) {
                            ok = true;
                        }
                        VF_CHECK(ok, "region", "created again " << rn);
                    }
                    else {
                        auto got = path(rn).create(size, perm, over);
                        VF_EQ(got.size(), size, "region", "size");
                        VF_EQ(got.permissions(), perm, "region", "permissions");
                        VF_EQ(got.name(), rn, "region", "name");
                        VF_CHECK(got.exists(), "region", "exists");
                        regions[rn] = Reg{size, perm, {}};
                        c.count("regions created");
                    }
                    break;
                }
                case 2:
                    if (there) {
                        c.trace() << "destroy " << rn << "\n";
                        auto g = path(rn).lookup();
                        g.destroy();
                        VF_CHECK(!g.exists(), "region", "exists after it was destroyed");
                        regions.erase(i);
                    }
                    else {
                        bool ok = false;
                        try {
                            path(rn).lookup();
                        }
                        catch (NotFound&) {
                            ok = true;
                        }
                        VF_CHECK(ok, "region", "found, but is not there: " << rn);
                    }
                    break;
                default:
                    if (there) {
                        auto g = path(rn).lookup();
                        VF_CHECK(g.size() == i->second.size && g.permissions() == i->second.perm && g.name() == rn, "region", "looked up " << rn);
                        VF_CHECK(g.property() == FamProperty(i->second.size, i->second.perm, rn), "region", "property " << rn);
                    }
            }
            continue;
        }
        auto& reg  = i->second;
        auto j     = reg.objects.find(on);
        bool has   = j != reg.objects.end();
        auto g     = path(rn).lookup();
        auto oname = path(rn).object(on);
        if (!has || r.chance(.1)) {
            VF_EQ(oname.exists(), has, "object", "exists " + on);
            bool over        = r.chance(.3);
            fam::size_t size = r.chance(.1) ? reg.size + 1 + r.below(10) : 1 + r.below(r.chance(.3) ? reg.size : 40);
            c.trace() << "allocate " << rn << "/" << on << " " << size << (over ? " overwrite" : "") << "\n";
            std::unique_ptr<FamObject> o;
            bool exists = false, refused = false;
            fam::perm_t perm = reg.perm;
            int how = int(r.below(4));
            try {
                if (how == 0) o = std::make_unique<FamObject>(g.allocateObject(size, perm = 0644, on, over));
                else if (how == 1) o = std::make_unique<FamObject>(g.allocateObject(size, on, over));
                else if (how == 2) o = std::make_unique<FamObject>(oname.allocate(size, over));
                else o = std::make_unique<FamObject>(g.ensureObject(size, on));
            }
            catch (AlreadyExists&) {
                exists = true;
            }
            catch (Exception&) {
                refused = true;
            }
            if (how == 3 && has) {
                VF_EQ(refused, size != j->second.bytes.size(), "object", "ensured of another size");
                if (o) same(j->second, on);
                continue;
            }
            if (has && !(over && how != 3)) {
                VF_CHECK(exists, "object", "allocated again " << on);
                continue;
            }
            if (size > reg.size) {
                VF_CHECK(refused, "object", size << " bytes in a region of " << reg.size);
                if (has) reg.objects.erase(j);  // overwriting begins by removing
                if (oname.exists()) c.fail("object", "refused, but there");
                continue;
            }
            VF_CHECK(o, "object", "not allocated: " << size << " bytes");
            Obj n{std::string(size, 0), perm, std::move(o)};
            VF_EQ(n.o->size(), size, "object", "size");
            VF_EQ(n.o->permissions(), perm, "object", "permissions");
            VF_EQ(n.o->name(), on, "object", "name");
            VF_CHECK(n.o->exists(), "object", "exists");
            VF_EQ(n.o->regionId(), g.index(), "object", "region");
            same(n, on);
            reg.objects.erase(on);
            reg.objects.emplace(on, std::move(n));
            continue;
        }
        Obj& o = j->second;
        switch (r.below(9)) {
            case 0: {
                c.trace() << "deallocate " << on << "\n";
                if (r.chance(.5)) o.o->deallocate();
                else g.deallocateObject(on);
                VF_CHECK(!oname.exists(), "object", "exists after it was deallocated");
                bool ok = false;
                try {
                    r.chance(.5) ? g.lookupObject(on) : oname.lookup();
                }
                catch (NotFound&) {
                    ok = true;
                }
                VF_CHECK(ok, "object", "found after it was deallocated");
                reg.objects.erase(j);
                break;
            }
            case 1: {
                auto l = r.chance(.5) ? g.lookupObject(on) : oname.lookup();
                VF_CHECK(l == *o.o && l.size() == o.bytes.size() && l.name() == on && l.permissions() == o.perm, "object", "looked up " << on);
                VF_CHECK(l.property() == FamProperty(o.bytes.size(), o.perm, on), "object", "property of " << on);
                *o.o = std::move(l);
                same(o, on);
                for (auto& [name, other] : reg.objects) VF_EQ(other.o->offset() == o.o->offset(), name == on, "object", "same as " + name);
                break;
            }
            case 2:
            case 3: {
                size_t at = r.below(o.bytes.size()), n = 1 + r.below(o.bytes.size() - at);
                bool bad = r.chance(.15);
                if (bad) n = o.bytes.size() - at + 1 + r.below(10);
                std::string v = r.bytes(n);
                c.trace() << "put " << on << " " << at << "+" << n << "\n";
                if (bad) {
                    VF_CHECK(vf::refuses([&] { o.o->put(v.data(), at, n); }), "bounds", n << " bytes at " << at << " of " << o.bytes.size());
                    c.count("refused");
                    same(o, on);
                }
                else {
                    o.o->put(v.data(), at, n);
                    o.bytes.replace(at, n, v);
                }
                break;
            }
            case 4: {
                size_t at = r.below(o.bytes.size()), n = 1 + r.below(o.bytes.size() - at);
                bool bad  = r.chance(.15);
                if (bad) n = o.bytes.size() - at + 1 + r.below(10);
                std::string v(n, '?');
                if (bad) VF_CHECK(vf::refuses([&] { o.o->get(&v[0], at, n); }), "bounds", n << " bytes at " << at << " of " << o.bytes.size());
                else {
                    o.o->get(&v[0], at, n);
                    VF_CHECK(v == o.bytes.substr(at, n), "bytes", "at " << at);
                }
                break;
            }
            case 5:
                switch (r.below(6)) {
                    case 0: atomics<int32_t>(c, o); break;
                    case 1: atomics<int64_t>(c, o); break;
                    case 2: atomics<uint32_t>(c, o); break;
                    case 3: atomics<uint64_t>(c, o); break;
                    case 4: atomics<float>(c, o); break;
                    default: atomics<double>(c, o); break;
                }
                break;
            case 6: {
                // the same object by its place
                auto p = g.proxyObject(o.o->offset());
                VF_CHECK(p == *o.o && p.offset() == o.o->offset() && p.regionId() == o.o->regionId(), "object", "proxy");
                std::string v(o.bytes.size(), '?');
                p.get(&v[0], 0, v.size());
                VF_CHECK(v == o.bytes, "bytes", "through a proxy");
                break;
            }
            default: same(o, on);
        }
    }
    for (auto& [rn, reg] : regions) {
        for (auto& [on, o] : reg.objects) {
            same(o, on);
            c.distinct(vf::hashStr(o.bytes));
        }
        path(rn).lookup().destroy();
    }
}

// -- names ------------------------------------------------------------------------------------------------------------------

VF_WORKLOAD(names, 4000, 100000) {
    auto& r            = c.rng;
    std::string region = r.word(12, "abcdefXYZ0123_-."), object = r.chance(.2) ? "" : r.word(12, "abcdefXYZ0123_-.");
    std::string path   = "/" + region + (object.empty() ? "" : "/" + object);
    FamPath p(region, object);
    c.trace() << path << "\n";
    c.distinct(path);
    c.eval();
    VF_EQ(p.asString(), path, "path", "as text");
    for (auto& text : {path, path + "/", path.substr(1), "/" + path}) {
        FamPath q(text);
        VF_CHECK(q == p && q.regionName() == region && q.objectName() == object, "path", vf::repr(text) << " is region " << vf::repr(q.regionName()) << " and object " << vf::repr(q.objectName()));
    }
    VF_CHECK(vf::refuses([&] { FamPath bad("/" + region + "/" + r.word(3, "ab") + "/" + r.word(3, "ab")); }), "path", "three names");
    FamPath other(region, object + "x"), elsewhere(region + "x", object);
    VF_CHECK(!(other == p) && !(elsewhere == p), "path", "equal to another");
    Buffer buffer(4096);
    {
        MemoryStream s(buffer);
        s << p;
    }
    {
        MemoryStream s(buffer);
        FamPath q(s);
        VF_CHECK(q == p, "stream", "path");
    }
    // the identifier: version 5, of the namespace of OIDs
    {
        const unsigned char ns[16] = {0x6b, 0xa7, 0xb8, 0x12, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8};
        std::string in             = text(ns, 16) + path;
        unsigned char h[20];
        SHA1(reinterpret_cast<const unsigned char*>(in.data()), in.size(), h);
        h[6] = (h[6] & 0x0f) | 0x50;
        h[8] = (h[8] & 0x3f) | 0x80;
        char t[40];
        std::snprintf(t, sizeof t, "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]);
        VF_EQ(p.generateUUID(), t, "uuid", path);
    }
    std::string host = r.word(10, "abcdefg") + (r.chance(.5) ? "" : "." + r.word(5, "xyz"));
    int port         = int(1 + r.below(65000));
    net::Endpoint e(host, port);
    FamObjectName n(e, p);
    std::string full = "fam://" + host + ":" + std::to_string(port) + path;
    VF_EQ(n.asString(), full, "name", "as text");
    URI uri = n.uri();
    VF_CHECK(uri.scheme() == "fam" && uri.host() == host && uri.port() == port && uri.name() == path, "name", "URI " << uri << " of " << full);
    VF_EQ(uri.asRawString(), full, "name", "URI as text");
    for (auto& u : {uri, URI(full)}) {
        FamObjectName m(u);
        VF_CHECK(std::as_const(m).path() == p && m.endpoint() == e, "name", "from " << u);
        FamRegionName g(u);
        VF_CHECK(g.uriBelongs(u) && std::as_const(g).path().regionName() == region, "name", "the region of " << u);
    }
    {
        std::string query = r.chance(.5) ? "" : "?" + r.word(3, "abc") + "=" + r.word(3, "123"), fragment = r.chance(.5) ? "" : "#" + r.word(4, "pqr");
        VF_EQ(URI(full + query + fragment).asString(), "fam:" + path + query + fragment, "name", "URI as string");
    }
    FamRegionName g(e, FamPath(region, ""));
    VF_CHECK(g.uriBelongs(uri), "belongs", full);
    VF_CHECK(!FamRegionName(e, FamPath(region + "x", "")).uriBelongs(uri) && !FamRegionName(net::Endpoint(host, port + 1), FamPath(region, "")).uriBelongs(uri) &&
                 !FamRegionName(net::Endpoint(host + "x", port), FamPath(region, "")).uriBelongs(uri) && !g.uriBelongs(URI("file://" + host + ":" + std::to_string(port) + path)),
             "belongs", full << " to others");
    if (!object.empty()) VF_EQ(g.object(object).asString(), full, "name", "object of the region");
    {
        MemoryStream s(buffer);
        s << n;
    }
    {
        MemoryStream s(buffer);
        FamObjectName q(s);
        VF_EQ(q.asString(), full, "stream", "name");
        std::string o2 = r.word(5, "pqr");
        q.withObject(o2);
        VF_CHECK(std::as_const(q).path().objectName() == o2 && std::as_const(q).path().regionName() == region && q.endpoint() == e, "name", "with another object");
        std::string uuid = std::as_const(q).path().generateUUID();
        q.withUUID();
        VF_EQ(std::as_const(q).path().objectName(), uuid, "uuid", "with identifier");
        FamRegionName w(e, FamPath(region, ""));
        w.withRegion(o2);
        VF_EQ(std::as_const(w).path().regionName(), o2, "name", "with another region");
    }
    // permissions by their octal digits
    int perm = int(r.below(010000));
    char t[8];
    std::snprintf(t, sizeof t, r.chance(.5) ? "%o" : "0%o", perm);
    VF_EQ(FamProperty(7, t).perm, fam::perm_t(perm), "permissions", t);
    VF_CHECK(vf::refuses([&] { FamProperty(7, std::string(t) + r.pick(std::vector<std::string>{"8", "a", " ", "x1"})); }), "permissions", "more than digits after " << t);
    VF_CHECK(vf::refuses([&] { FamProperty(7, "1" + std::string(4, char('0' + r.below(8)))); }), "permissions", "too many digits");
    c.count("names");
    // names that cannot be
    std::string bad = r.pick(std::vector<std::string>{"", "a b", "a\tb", "a\nb", std::string("a\001b")});
    VF_CHECK(vf::refuses([&] { FamRegionName(endpoint(), FamPath(bad, "")).create(10, 0640); }), "valid", "region " << vf::repr(bad));
    VF_CHECK(vf::refuses([&] { FamRegionName(endpoint(), FamPath(bad, "")).lookup(); }), "valid", "region " << vf::repr(bad));
    VF_CHECK(vf::refuses([&] { FamSession s(bad, endpoint()); }), "valid", "session " << vf::repr(bad));
}

// -- handles ------------------------------------------------------------------------------------------------------------------

VF_WORKLOAD(handles, 1000, 30000) {
    auto& r = c.rng;
    Region reg(c);
    std::string on = objectName(r);
    FamObjectName name(endpoint(), FamPath(reg.name, on));
    size_t size = 1 + r.below(r.chance(.3) ? 20000 : 100);
    std::string want(size, 0);
    c.trace() << "object of " << size << "\n";
    c.distinct(size * 31 + r.below(31));
    // written piece by piece, with moves
    for (int time = 0; time < 2; ++time) {
        std::unique_ptr<DataHandle> h(r.chance(.3) ? name.uri().newWriteHandle() : name.dataHandle(r.chance(.5)));
        if (time == 1 && r.chance(.3)) {
            h.reset(name.dataHandle(true));
            VF_CHECK(vf::refuses([&] { h->openForWrite(Length(size + 1)); }), "room", "more than the object holds");
            continue;
        }
        h->openForWrite(Length(size));
        for (int k = 0, n = int(r.below(8)); k < n; ++k) {
            size_t at = size_t((long long)h->position());
            if (r.chance(.4)) {
                at = r.below(size + 1);
                VF_EQ((long long)h->seek(Offset(at)), (long long)at, "seek", "returned");
            }
            VF_EQ((long long)h->position(), (long long)at, "seek", "position");
            size_t len = r.below(size - at + 1);
            bool over  = r.chance(.1);
            if (over) len = size - at + 1 + r.below(50);
            std::string v = r.bytes(len + 1).substr(0, len);
            if (over) {
                VF_CHECK(vf::refuses([&] { h->write(v.data(), long(len)); }), "room", len << " bytes at " << at << " of " << size);
                VF_EQ((long long)h->position(), (long long)at, "room", "position after a refused write");
            }
            else if (len) {
                VF_EQ(h->write(v.data(), long(len)), long(len), "write", "returned");
                want.replace(at, len, v);
            }
        }
        h->flush();
        h->close();
    }
    VF_CHECK(name.exists(), "handle", "the object is not there");
    VF_CHECK(text(name.lookup().data()) == want, "handle", "the object holds other bytes than were written");
    // read
    std::unique_ptr<DataHandle> h(r.chance(.3) ? name.uri().newReadHandle() : name.dataHandle());
    for (int time = 0; time < 2; ++time) {
        VF_EQ((long long)h->openForRead(), (long long)size, "read", "length");
        VF_EQ((long long)h->size(), (long long)size, "read", "size");
        VF_EQ((long long)h->estimate(), (long long)size, "read", "estimate");
        size_t at = 0;
        for (int k = 0; k < 10; ++k) {
            if (r.chance(.3)) h->seek(Offset(at = r.below(size + 1)));
            size_t len = 1 + r.below(size + 10);
            std::string v(len, '?');
            long got = h->read(&v[0], long(len));
            VF_EQ(got, long(std::min(len, size - at)), "read", "returned at " + std::to_string(at));
            VF_CHECK(!std::memcmp(v.data(), want.data() + at, size_t(got)) && v.substr(size_t(got)) == std::string(len - size_t(got), '?'), "read", "bytes at " << at);
            at += size_t(got);
            VF_EQ((long long)h->position(), (long long)at, "read", "position");
            c.eval();
        }
        h->close();
    }
    // whole, to and from another
    {
        MemoryHandle mem(size + 10);
        VF_EQ((long long)h->saveInto(mem), (long long)size, "copy", "length");
        VF_CHECK(text(mem.data(), size) == want, "copy", "bytes");
        FamObjectName second(endpoint(), FamPath(reg.name, on + "2"));
        MemoryHandle from(want.data(), want.size());
        std::unique_ptr<DataHandle> to(second.dataHandle());
        VF_EQ((long long)from.saveInto(*to), (long long)size, "copy", "length");
        VF_CHECK(text(second.lookup().data()) == want, "copy", "bytes of the copy");
    }
    bool ok = false;
    try {
        std::unique_ptr<DataHandle> none(FamObjectName(endpoint(), FamPath(reg.name, on + "none")).dataHandle());
        none->openForRead();
    }
    catch (NotFound&) {
        ok = true;
    }
    VF_CHECK(ok, "handle", "an object that is not there can be read");
    VF_EQ(name.uri().exists(), true, "handle", "exists");
    VF_EQ(FamObjectName(endpoint(), FamPath(reg.name, on + "none")).uri().exists(), false, "handle", "exists");
    c.count("handles");
}

// -- many writers ------------------------------------------------------------------------------------------------------------------

namespace {

std::string element(int who, int n) { return std::to_string(who) + ":" + std::to_string(n) + ":" + std::string(size_t(who * 7 + n * 3), char('a' + who)); }

/// who and number of an element, or nothing if it was never pushed
bool parse(const std::string& e, int& who, int& n) {
    return std::sscanf(e.c_str(), "%d:%d:", &who, &n) == 2 && element(who, n) == e;
}

struct Pushes {
    std::vector<std::vector<bool>> front;  // of each thread, where its elements go

    /// what is seen while (or after) they are pushed
    std::string wrong(const Texts& got, bool backwards) const {
        std::set<std::string> seen;
        std::map<int, int> last, first;
        for (auto& e : got) {
            int who, n;
            if (!parse(e, who, n)) return "an element that was never pushed: " + vf::repr(e);
            if (!seen.insert(e).second) return "twice: " + vf::repr(e.substr(0, 8));
            if (who == 9) continue;
            bool f = front[size_t(who)][size_t(n)];
            if (f) {
                // the later ones stand before
                if (first.count(who) && n > first[who]) return "out of order: " + vf::repr(e.substr(0, 8));
                first[who] = n;
            }
            else {
                if (last.count(who) && n < last[who]) return "out of order: " + vf::repr(e.substr(0, 8));
                last[who] = n;
            }
        }
        (void)backwards;
        return "";
    }
};

}  // namespace

VF_WORKLOAD(pushing, 2000, 60000) {
    auto& r = c.rng;
    Region reg(c);
    std::string name = listName(r);
    int threads = 2 + int(r.below(3)), initial = int(r.below(3));
    bool born = initial == 0 && r.chance(.5);  // the threads make the list
    std::unique_ptr<FamList> base;
    Texts before;
    if (!born) {
        base = std::make_unique<FamList>(reg.region, name);
        for (int i = 0; i < initial; ++i) base->pushBack(element(9, i)), before.push_back(element(9, i));
    }
    Pushes p;
    int readers = int(r.below(2));
    for (int t = 0; t < threads; ++t) {
        std::vector<bool> f;
        double back = r.pick(std::vector<double>{0, .5, 1});
        for (int k = 0, n = 1 + int(r.below(4)); k < n; ++k) f.push_back(!r.chance(back));
        p.front.push_back(f);
    }
    std::vector<std::string> odd(size_t(threads + readers));
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < threads; ++t)
        bodies.push_back([&, t] {
            FamList l(reg.region, name);
            for (size_t k = 0; k < p.front[size_t(t)].size(); ++k) {
                auto e = element(t, int(k));
                p.front[size_t(t)][k] ? l.pushFront(e) : l.pushBack(e);
            }
        });
    std::atomic<long> walks{0};
    for (int t = 0; t < readers; ++t)
        bodies.push_back([&, t] {
            FamList l(reg.region, name);
            for (int k = 0; k < 3; ++k) {
                auto got  = forward(l, 100);
                auto what = p.wrong(got, false);
                int own   = 0;
                for (auto& e : got) own += e.substr(0, 2) == "9:";
                if (what.empty() && own != initial) what = "elements of before are missing";
                if (!what.empty() && odd[size_t(threads + t)].empty()) odd[size_t(threads + t)] = "seen while others push: " + what + " in " + str(got);
                ++walks;
            }
        });
    Scheduler s(int(bodies.size()), r, 20000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), "progress", "the threads go on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), "pushing", "a thread failed: " << e);
    for (auto& e : odd) VF_CHECK(e.empty(), "pushing", e);
    c.distinct(s.hash);
    c.count("changes of thread", s.changes);
    c.count("walks while others push", walks);
    FamList l(reg.again(r), name);
    auto got = forward(l, 100), back = backward(l, 100);
    size_t total = before.size();
    for (auto& f : p.front) total += f.size();
    auto what = p.wrong(got, false);
    VF_CHECK(what.empty(), "pushing", what << " in " << str(got));
    VF_CHECK(got.size() == total && l.size() == total, "pushing", "of " << total << " elements pushed " << got.size() << " are there and " << l.size() << " counted: " << str(got));
    VF_CHECK(back == got, "backwards", "backwards " << str(back) << " but forwards " << str(got));
    if (!before.empty()) {
        size_t at = 0;
        for (auto& e : got)
            if (e == before[at]) ++at;
            else if (at && at < before.size()) c.fail("pushing", "pushed between elements: " + str(got));
        VF_EQ(at, before.size(), "pushing", "elements of before");
    }
    c.eval();
    c.count("elements pushed at once", long(total));
    // and the list is as good as any
    Texts want = got;
    while (!want.empty()) {
        if (r.chance(.5)) l.popFront(), want.pop_front();
        else l.popBack(), want.pop_back();
        if (r.chance(.3)) l.pushBack("9:0:"), want.push_back("9:0:");
        auto now = forward(l, 100);
        VF_CHECK(now == want && l.size() == want.size() && backward(l, 100) == want, "afterwards", "afterwards " << str(now) << " (" << l.size() << ") instead of " << str(want));
        if (r.chance(.05)) break;
    }
}

VF_WORKLOAD(popping, 1200, 40000) {
    auto& r = c.rng;
    Region reg(c);
    std::string name = listName(r);
    FamList l(reg.region, name);
    int threads = 2 + int(r.below(3)), n = 0;
    std::vector<int> pops;
    bool front = r.chance(.5);
    for (int t = 0; t < threads; ++t) pops.push_back(1 + int(r.below(3))), n += pops.back();
    int left = int(r.below(3)) + (r.chance(.3) ? 0 : 1);
    Texts want;
    for (int i = 0; i < n + left; ++i) want.push_back(element(1, i)), l.pushBack(want.back());
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < threads; ++t)
        bodies.push_back([&, t] {
            FamList mine(reg.region, name);
            for (int k = 0; k < pops[size_t(t)]; ++k) front ? mine.popFront() : mine.popBack();
        });
    Scheduler s(threads, r, 20000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), "progress", "the threads go on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), "popping", "a thread failed: " << e);
    for (int i = 0; i < n; ++i) front ? want.pop_front() : want.pop_back();
    auto got = forward(l, 100);
    VF_CHECK(got == want && l.size() == want.size(), "popping", n << " elements were removed from the " << (front ? "front" : "back") << ", and what stays is " << str(got) << " (" << l.size() << ") instead of " << str(want));
    VF_CHECK(backward(l, 100) == want, "popping", "backwards " << str(backward(l, 100)) << " instead of " << str(want));
    c.distinct(s.hash);
    c.eval();
    c.count("elements removed at once", n);
    c.count("changes of thread", s.changes);
}

VF_WORKLOAD(inserting, 1000, 30000) {
    auto& r   = c.rng;
    using Map = FamMap32;
    Region reg(c);
    std::string name = r.word(6, "abcdef");
    int threads      = 2 + int(r.below(3));
    auto& bucket     = r.pick(sameBucket<32>());
    auto& second     = r.pick(sameBucket<32>());
    // each thread has keys of its own, in few buckets, which do not exist yet
    std::vector<std::vector<std::string>> keys(static_cast<size_t>(threads));
    std::set<std::string> used;
    for (size_t t = 0; t < size_t(threads); ++t) {
        keys[t].push_back(bucket[t]);
        used.insert(bucket[t]);
        if (r.chance(.5) && used.insert(second[t]).second) keys[t].push_back(second[t]);
    }
    std::string shared = r.chance(.5) ? bucket[4] : "";  // forced in by all
    Model want;
    std::mutex lock;
    std::vector<std::string> odd(static_cast<size_t>(threads));
    std::vector<std::function<void()>> bodies;
    std::vector<uint64_t> seeds;
    for (int t = 0; t < threads; ++t) seeds.push_back(r.u64());
    for (int t = 0; t < threads; ++t)
        bodies.push_back([&, t] {
            vf::Rng mine(seeds[size_t(t)]);
            Map m(name, reg.region);
            Model own;
            auto bad = [&](const std::string& what) {
                if (odd[size_t(t)].empty()) odd[size_t(t)] = what;
            };
            for (int k = 0; k < 3; ++k) {
                std::string key = mine.pick(keys[size_t(t)]), v = element(t, k);
                bool has = own.count(key);
                FixedString<32> fk(key);
                switch (mine.below(shared.empty() ? 3 : 4)) {
                    case 0: {
                        auto got = m.insert(fk, v);
                        if (got.second == has) bad("insert of " + key + " says " + std::to_string(got.second));
                        if (!has) own[key] = {v};
                        auto e = *got.first;
                        if (e.key.asString() != key || text(e.value) != own[key].front()) bad("insert of " + key + " gives another entry");
                        break;
                    }
                    case 1: {
                        auto i = m.forceInsert(fk, v);
                        own[key].push_front(v);
                        auto e = *i;
                        if (e.key.asString() != key || text(e.value) != v) bad("forceInsert of " + key + " gives another entry");
                        break;
                    }
                    case 2: {
                        auto i = m.find(fk);
                        if ((i != m.end()) != has) bad("find of " + key + " says " + std::to_string(!has));
                        else if (has && text((*i).value) != own[key].front()) bad("find of " + key + " gives another value");
                        if (m.count(fk) != (has ? own[key].size() : 0)) bad("count of " + key);
                        break;
                    }
                    default: {
                        m.forceInsert(FixedString<32>(shared), v);
                        std::lock_guard<std::mutex> g(lock);
                        want[shared].push_back(v);
                    }
                }
            }
            std::lock_guard<std::mutex> g(lock);
            for (auto& [k, v] : own) want[k] = v;
        });
    Scheduler s(threads, r, 60000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), "progress", "the threads go on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), "inserting", "a thread failed: " << e);
    for (auto& e : odd) VF_CHECK(e.empty(), "inserting", e);
    Map m(name, reg.again(r));
    auto got = read(m);
    size_t n = count(got);
    if (!shared.empty())
        for (auto* x : {&got, &want})
            if (x->count(shared)) std::sort((*x)[shared].begin(), (*x)[shared].end());
    VF_CHECK(got == want, "inserting", "the map holds " << str(got) << " instead of " << str(want));
    VF_EQ(m.size(), n, "inserting", "entries");
    for (auto& [k, v] : want) VF_EQ(m.count(FixedString<32>(k)), v.size(), "inserting", "count of " + k);
    c.distinct(s.hash);
    c.eval();
    c.count("entries inserted at once", long(n));
    c.count("changes of thread", s.changes);
}

VF_WORKLOAD(replacing, 800, 24000) {
    // each thread is the only one that changes the entries of some buckets, and looks at those of the others
    auto& r   = c.rng;
    using Map = FamMap32;
    Region reg(c);
    std::string name = r.word(6, "abcdef");
    size_t threads   = 2 + r.below(2);
    Map m(name, reg.region);
    std::vector<std::vector<std::string>> keys(threads);
    std::set<const void*> used;
    std::map<std::string, size_t> owner;
    for (size_t t = 0; t < threads; ++t)
        for (int k = 0; k < 2; ++k) {
            auto* b = &r.pick(sameBucket<32>());
            while (!used.insert(b).second) b = &r.pick(sameBucket<32>());
            keys[t].push_back((*b)[0]);
            owner[(*b)[0]] = t;
        }
    // the first key of each is always there
    Model want;
    for (size_t t = 0; t < threads; ++t) {
        auto v = element(int(t), 0);
        m.insert(FixedString<32>(keys[t][0]), v);
        want[keys[t][0]] = {v};
    }
    std::mutex lock;
    std::vector<std::string> odd(threads);
    std::vector<std::function<void()>> bodies;
    std::vector<uint64_t> seeds;
    std::atomic<long> seen{0};
    for (size_t t = 0; t < threads; ++t) seeds.push_back(r.u64());
    for (size_t t = 0; t < threads; ++t)
        bodies.push_back([&, t] {
            vf::Rng mine(seeds[t]);
            Map map(name, reg.region);
            Model own;
            own[keys[t][0]] = {element(int(t), 0)};
            auto bad        = [&](const std::string& what) {
                if (odd[t].empty()) odd[t] = what;
            };
            for (int k = 1; k < 6; ++k) {
                bool first      = mine.chance(.5);
                std::string key = keys[t][first ? 0 : 1], v = element(int(t), k);
                FixedString<32> fk(key);
                auto& e = own[key];
                switch (mine.below(6)) {
                    case 0:
                    case 1: {
                        auto got = map.insertOrAssign(fk, v);
                        if (got.second != e.empty()) bad("insertOrAssign of " + key);
                        e.push_front(v);
                        if (e.size() > 1) e.erase(e.begin() + 1);
                        if (text((*got.first).value) != v) bad("insertOrAssign of " + key + " gives another value");
                        break;
                    }
                    case 2: {
                        auto got = map.insert(fk, v);
                        if (got.second != e.empty()) bad("insert of " + key);
                        if (e.empty()) e.push_front(v);
                        break;
                    }
                    case 3: {
                        if (first) break;
                        if (map.erase(fk) != e.size()) bad("erase of " + key);
                        e.clear();
                        break;
                    }
                    case 4: {
                        auto& others = keys[mine.below(threads)];
                        auto i       = map.find(FixedString<32>(others[0]));
                        if (i == map.end()) bad("not found while it is replaced: " + others[0]);
                        else {
                            auto x = *i;
                            int who, n;
                            if (x.key.asString() != others[0] || !parse(text(x.value), who, n) || size_t(who) != owner[others[0]]) bad("found while it is replaced: " + vf::repr(text(x.value)) + " of " + others[0]);
                            ++seen;
                        }
                        break;
                    }
                    default:
                        for (size_t o = 0; o < threads; ++o)
                            for (auto& kk : keys[o]) {
                                size_t n = map.count(FixedString<32>(kk));
                                if (o == t && n != own[kk].size()) bad("count of " + kk);
                                if (o != t && kk == keys[o][0] && n < 1) bad("none of " + kk + " while it is replaced");
                            }
                }
                if (own[keys[t][1]].empty()) own.erase(keys[t][1]);
            }
            std::lock_guard<std::mutex> g(lock);
            for (auto& x : keys[t]) want.erase(x);
            for (auto& [k, v] : own)
                if (!v.empty()) want[k] = v;
        });
    Scheduler s(int(threads), r, 60000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), "progress", "the threads go on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), "replacing", "a thread failed: " << e);
    for (auto& e : odd) VF_CHECK(e.empty(), "replacing", e);
    auto got = read(m);
    VF_CHECK(got == want, "replacing", "the map holds " << str(got) << " instead of " << str(want));
    VF_EQ(m.size(), count(want), "replacing", "entries");
    c.distinct(s.hash);
    c.eval();
    c.count("entries seen while they are replaced", seen);
    c.count("changes of thread", s.changes);
}

VF_WORKLOAD(removing, 400, 4000) {
    // histories of removals at the same time as others, at the same place: the same ones for every seed, as some of them
    // are known to fail
    vf::Rng r(0xfa3 + c.index);
    Region reg(c);
    std::string name = r.word(6, "abcdef"), key;
    FamList l(reg.region, name + "0");
    FamMap32 m(name, reg.region);
    auto& bucket = r.pick(sameBucket<32>());
    FixedString<32> x(bucket[0]), y(bucket[1]);
    std::vector<std::function<void()>> bodies;
    std::set<Texts> want;
    std::string what;
    std::atomic<long> n{0};
    bool found = true;
    int kind   = c.index % 6;
    if (kind == 5) {
        // (not a removal: the only other history that is known to fail)
        FamObjectName n(endpoint(), FamPath(reg.name, name + "1"));
        std::string data = r.word(30), got(100, 0);
        reg.region.allocateObject(data.size(), name + "1").put(data.data(), 0, data.size());
        long from = r.in(0, long(data.size()) - 1), length = r.in(1, long(data.size()) - from);
        std::unique_ptr<DataHandle> h(n.partHandle({Offset(from)}, {Length(length)}));
        h->openForRead();
        got.resize(h->read(&got[0], long(got.size())));
        h->close();
        c.eval();
        VF_CHECK(got == data.substr(from, length), "part-handle", "the part of " << length << " bytes at " << from << " of " << vf::repr(data) << " is read as " << vf::repr(got));
        return;
    }
    auto fill  = [&](const Texts& t) {
        for (auto& e : t) l.pushBack(e);
    };
    auto nth = [](const FamList& list, int k) {
        auto i = list.begin();
        while (k--) ++i;
        return i;
    };
    switch (kind) {
        case 0:
            what = "popFront of the only element while another is pushed behind it";
            fill({"a"});
            bodies = {[&] { FamList(reg.region, name + "0").popFront(); }, [&] { FamList(reg.region, name + "0").pushBack("b"); }};
            want   = {{"b"}};
            break;
        case 1:
            what = "popFront while another is pushed before it";
            fill({"a", "b"});
            bodies = {[&] { FamList(reg.region, name + "0").popFront(); }, [&] { FamList(reg.region, name + "0").pushFront("n"); }};
            want   = {{"z", "n", "b"}, {"z", "a", "b"}};
            break;
        case 2:
            what = "erase of neighbours";
            fill({"a", "b", "c", "d"});
            for (int k : {1, 2})
                bodies.push_back([&, i = std::make_shared<FamList::iterator>(nth(l, k))] { FamList(reg.region, name + "0").erase(std::move(*i)); });
            want = {{"a", "d"}};
            break;
        case 3:
            what = "the same key of a map erased twice";
            m.insert(x, "v");
            bodies = {[&] { n += long(FamMap32(name, reg.region).erase(x)); }, [&] { n += long(FamMap32(name, reg.region).erase(x)); }};
            break;
        default:
            what = "find of a key that is replaced, behind another in its bucket";
            m.insert(x, "v");
            m.insert(y, "w");
            bodies = {[&] { FamMap32(name, reg.region).insertOrAssign(x, "u"); }, [&] { found = FamMap32(name, reg.region).contains(x); }};
            break;
    }
    static const char* keys[] = {"pop-only", "pop-push-front", "erase-neighbours", "erase-twice", "find-replaced"};
    key                       = keys[kind];
    Scheduler s(int(bodies.size()), r, 2000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), key, what << ": goes on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), key, what << ": " << e);
    if (kind < 3) {
        if (kind == 1) l.pushFront("z");
        auto got = forward(l, 100);
        VF_CHECK(want.count(got) && l.size() == got.size(), key, what << ": leaves " << str(got) << " (" << l.size() << ")");
    }
    else if (kind == 3) VF_CHECK(n == 1 && m.empty(), key, what << ": " << n << " removed, " << m.size() << " left");
    else VF_CHECK(found, key, what << ": not found");
    c.distinct(s.hash);
    c.eval();
}

VF_WORKLOAD(locking, 600, 12000) {
    auto& r = c.rng;
    Region reg(c);
    std::string name = r.word(6, "abcdef");
    int threads      = 2 + int(r.below(2));
    FamMap32 m(name, reg.region);
    std::atomic<int> inside{0};
    bool crowded = false;
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < threads; ++t)
        bodies.push_back([&] {
            FamMap32 mine(name, reg.region);
            for (int k = 0; k < 2; ++k) {
                mine.lock();
                if (++inside != 1) crowded = true;
                mine.size();
                mine.size();
                if (inside != 1) crowded = true;
                --inside;
                mine.unlock();
            }
        });
    // another one, whose clock is a little ahead, may hold it for a while
    auto lock  = reg.region.lookupObject(name + ".l");
    bool ahead = r.chance(.5);
    std::atomic<bool> held{false};
    if (ahead) {
        long by = long(r.below(20));
        bodies.push_back([&, by] {
            FamObject mine = reg.region.lookupObject(name + ".l");
            for (;;) {
                if (mine.compareSwap<uint64_t>(0, 0, uint64_t(::time(nullptr) + by)) == 0) break;
            }
            if (++inside != 1) crowded = true;
            for (int k = 0; k < 10; ++k) mine.fetch<uint64_t>(0);
            if (inside != 1) crowded = true;
            --inside;
            mine.set<uint64_t>(0, 0);
        });
        c.count("locks held by one whose clock is ahead");
    }
    Scheduler s(int(bodies.size()), r, 200000);
    std::vector<std::string> errors;
    s.run(bodies, errors);
    VF_CHECK(!s.stuck(), "progress", "the threads go on for ever");
    for (auto& e : errors) VF_CHECK(e.empty(), "locking", "a thread failed: " << e);
    VF_CHECK(!crowded, "locking", "two held the lock at once" << (ahead ? ", the clock of one being ahead" : ""));
    VF_EQ(lock.fetch<uint64_t>(0), uint64_t(0), "locking", "the lock when all are done");
    // a lock that was left behind is taken after its time
    lock.set<uint64_t>(0, uint64_t(::time(nullptr) - 31 - long(r.below(1000))));
    m.lock();
    m.unlock();
    c.distinct(s.hash);
    c.eval();
    c.count("locks taken", 2 * threads);
    c.count("changes of thread", s.changes);
}

// -- at full speed ------------------------------------------------------------------------------------------------------------------

VF_WORKLOAD(processes, 12, 200) {
    auto& r = c.rng;
    Region reg(c, 1 << 24);
    std::string lname = listName(r), mname = r.word(6, "abcdef");
    int n = 2 + int(r.below(3)), each = 60;
    FamList first(reg.region, lname);
    std::vector<std::function<void(vf::Child&)>> bodies;
    for (int t = 0; t < n; ++t)
        bodies.push_back([&, t](vf::Child& ch) {
            FamList l(reg.region, lname);
            FamMap32 m(mname, reg.region);
            for (int k = 0; k < each; ++k) {
                l.pushBack(element(t, k));
                m.insert(FixedString<32>(std::to_string(t) + "/" + std::to_string(k % 20)), element(t, k));
            }
            ch.line("done");
        });
    auto ended = vf::children(c, bodies);
    Texts got  = forward(first);
    Pushes p;
    for (int t = 0; t < n; ++t) p.front.push_back(std::vector<bool>(size_t(each), false));
    auto what = p.wrong(got, false);
    VF_CHECK(what.empty(), "processes", what);
    VF_CHECK(got.size() == size_t(n * each) && first.size() == got.size() && backward(first) == got, "processes", got.size() << " elements of " << n * each << ", " << first.size() << " counted");
    FamMap32 m(mname, reg.region);
    auto in = read(m);
    Model want;
    for (int t = 0; t < n; ++t)
        for (int k = 0; k < 20; ++k) want[std::to_string(t) + "/" + std::to_string(k)] = {element(t, k)};
    VF_CHECK(in == want && m.size() == count(want), "processes", "the map holds " << count(in) << " entries of " << count(want));
    int changes = 0;
    uint64_t h  = 0;
    for (size_t i = 1; i < got.size(); ++i)
        if (got[i][0] != got[i - 1][0]) ++changes, h = h * 31 + i;
    c.count("changes of writer seen", changes);
    c.distinct(h);
    c.eval();
}

VF_WORKLOAD(sessions, 60, 1000) {
    // threads that use the memory for the first time, all at once
    auto& r = c.rng;
    Region reg(c);
    std::string lname = listName(r);
    int threads       = 3;
    std::string host  = endpoint().host();
    auto session      = std::make_shared<FamSession>("s" + std::to_string(c.index), endpoint());
    std::atomic<int> ready{0};
    std::vector<std::string> errors(static_cast<size_t>(threads));
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < threads) {}
            try {
                auto region = session->lookupRegion(reg.name);
                FamList l(region, lname);
                for (int k = 0; k < 10; ++k) l.pushBack(element(t, k));
                auto s = FamSessionManager::instance().session(net::Endpoint(host, 100 + t % 2));
                s->lookupRegion(reg.name);
            }
            catch (std::exception& e) {
                errors[size_t(t)] = e.what();
            }
        });
    for (auto& t : ts) t.join();
    for (auto& e : errors) VF_CHECK(e.empty(), "sessions", e);
    FamList l(reg.region, lname);
    auto got = forward(l);
    Pushes p;
    for (int t = 0; t < threads; ++t) p.front.push_back(std::vector<bool>(10, false));
    auto what = p.wrong(got, false);
    VF_CHECK(what.empty() && got.size() == size_t(10 * threads) && l.size() == got.size(), "sessions", what << " " << got.size() << " elements");
    uint64_t h = 0;
    for (auto& e : got) h = h * 31 + uint64_t(e[0]);
    c.distinct(h);
    c.eval();
    for (int p : {100, 101}) FamSessionManager::instance().remove("FamSession:" + host + ":" + std::to_string(p));
}
