// Common runtime-monitoring harness: seeded case generation, violation recording, observation counters.
#pragma once
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <iostream>
#include <memory>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ULL;
    }
    return mix(h + n);
}
inline uint64_t hashStr(const std::string& s) {
    return hashBytes(s.data(), s.size());
}

class Rng {
    uint64_t s_;

public:

    explicit Rng(uint64_t s = 1) : s_(mix(s)) {}
    uint64_t u64() {
        s_ += 0x9e3779b97f4a7c15ULL;
        return mix(s_);
    }
    uint64_t state() const { return s_; }
    /// uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    /// uniform in [a,b]
    long long in(long long a, long long b) { return a + (long long)below((uint64_t)(b - a) + 1); }
    bool chance(double p) { return (u64() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <class C>
    auto pick(const C& c) -> decltype(c[0]) {
        return c[below(c.size())];
    }
    template <class T, size_t N>
    const T& pick(const T (&a)[N]) {
        return a[below(N)];
    }
    /// small numbers and the neighbourhoods of powers of two
    uint64_t edgy(uint64_t max) {
        uint64_t v;
        switch (below(4)) {
            case 0: v = below(4); break;
            case 1: v = (1ULL << below(63)) + in(-1, 1); break;
            case 2: v = max - below(3); break;
            default: v = below(max + 1 ? max + 1 : ~0ULL); break;
        }
        return v > max ? (max + 1 ? v % (max + 1) : v) : v;
    }
    std::string bytes(size_t n) {
        std::string s(n, 0);
        for (auto& c : s) {
            c = (char)u64();
        }
        return s;
    }
    std::string word(size_t maxlen, const std::string& alphabet = "abcdefghijklmnopqrstuvwxyz") {
        std::string s;
        size_t n = 1 + below(maxlen);
        for (size_t i = 0; i < n; ++i) {
            s += alphabet[below(alphabet.size())];
        }
        return s;
    }
    template <class V>
    void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[below(i)]);
        }
    }
};

/// true if the call throws
template <class F>
bool refuses(F f) {
    try {
        f();
    }
    catch (std::exception&) {
        return true;
    }
    return false;
}

struct Failure {
    std::string key, msg;
};

class Case;
using Body = void (*)(Case&);
struct Workload {
    std::string name;
    long quick, thorough;
    Body body;
};
std::vector<Workload>& workloads();
struct Register {
    Register(const char* n, long q, long t, Body b) { workloads().push_back({n, q, t, b}); }
};

/// One generated case: its random stream, its counters, its violations
class Case {
public:

    std::string workload;
    long index = 0;
    uint64_t seed = 0;
    bool thorough = false;
    Rng rng;
    std::string scratch;  ///< private scratch directory, removed after the case

    /// executions of the code under test that an oracle looked at
    void eval(long n = 1) { evals_ += n; }
    /// one observed, non-trivial state/input/history, for counting distinct ones
    void distinct(uint64_t h);
    void distinct(const std::string& s) { distinct(hashStr(s)); }
    void count(const std::string& what, long n = 1);
    /// the case, written out (kept for violations; a few go to the evidence)
    std::ostream& trace() { return trace_; }
    /// record a violation and stop the case
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
    /// record a violation, go on
    void report(const std::string& key, const std::string& msg);

    // internals
    std::atomic<long> evals_{0};
    std::ostringstream trace_;
    std::mutex mutex_;
    std::vector<Failure> failures_;
    std::map<std::string, long> counts_;
    std::vector<uint64_t> hashes_;
};

int main(int argc, char** argv);
/// what the program does when it is started by the name vf-worker
extern int (*worker_main)(int argc, char** argv);
std::string repr(const std::string&);  // printable

/// swallows what is written, by any thread
struct NullBuf : std::streambuf {
    int_type overflow(int_type ch) override { return traits_type::not_eof(ch); }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

/// nothing is written to std::cout meanwhile
struct Quiet {
    NullBuf none;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(&none)) {}
    ~Quiet() { std::cout.rdbuf(old); }
};

}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
/// VF_WORKLOAD(name, number of quick cases, number of thorough cases) { ... c ... }
#define VF_WORKLOAD(name, quick, thorough)                                   \
    static void name(vf::Case& c);                                           \
    static vf::Register VF_CAT(reg_, name)(#name, quick, thorough, &name);   \
    static void name(vf::Case& c)

#define VF_CHECK(cond, key, what)          \
    do {                                   \
        if (!(cond)) {                     \
            std::ostringstream vf_os;      \
            vf_os << what << " [" << #cond << " line " << __LINE__ << "]"; \
            c.fail(key, vf_os.str());      \
        }                                  \
    } while (0)

#define VF_EQ(got, want, key, what)                                                              \
    do {                                                                                         \
        auto vf_g = (got);                                                                       \
        auto vf_w = (want);                                                                      \
        if (!(vf_g == vf_w)) {                                                                   \
            std::ostringstream vf_os;                                                            \
            vf_os << what << ": got " << vf_g << ", expected " << vf_w << " [line " << __LINE__ << "]"; \
            c.fail(key, vf_os.str());                                                            \
        }                                                                                        \
    } while (0)
