// Random delays around waiting and locking, so that rare interleavings are seen more often. Correct code is not affected.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cstdint>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_NO_DELAYS 1
#endif
#endif

namespace vf {
std::atomic<bool> delays{false};
}

#ifndef VF_NO_DELAYS
namespace {
std::atomic<uint64_t> next{1};
uint64_t draw() {
    static thread_local uint64_t s = next.fetch_add(0x9E3779B97F4A7C15ull) * 0xBF58476D1CE4E5B9ull | 1;
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s;
}
void delay(unsigned oneIn, unsigned maxUs) {
    if (!vf::delays.load(std::memory_order_relaxed)) return;
    uint64_t x = draw();
    if (x % oneIn == 0) {
        int e = errno;
        if (x & (1ull << 40)) ::sched_yield();
        else ::usleep(useconds_t((x >> 41) % maxUs));
        errno = e;
    }
}
}  // namespace

extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = reinterpret_cast<int (*)(pthread_cond_t*, pthread_mutex_t*)>(::dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    delay(8, 200);  // between the test of the condition and the wait
    return f(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    static auto f =
        reinterpret_cast<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(::dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"));
    delay(8, 200);
    return f(c, m, t);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    delay(256, 50);
    return f(m);
}
#endif
