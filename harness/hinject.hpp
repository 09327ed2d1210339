// Faults the system may produce at any time, put in by the linker (--wrap).
#ifndef VERIF_HINJECT_HPP
#define VERIF_HINJECT_HPP
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <ctime>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>

namespace vi {
    inline std::atomic<uint64_t> slow_waits{0};
    inline std::atomic<uint64_t> short_io{0};
    inline std::atomic<unsigned> short_percent{0};
    inline uint64_t rnd() {
        static std::atomic<uint64_t> seed{88172645463325252ULL};
        thread_local uint64_t s = seed.fetch_add(0x9e3779b97f4a7c15ULL);
        s ^= s << 13U;
        s ^= s >> 7U;
        s ^= s << 17U;
        return s;
    }
}
#ifdef SLOW_WAITS
// Linked with --wrap for both: a thread which found that it has to wait takes
// a while before it does.
extern "C" void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>*);
extern "C" void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>* l) {
    auto n = vi::rnd() % 100;
    if(n < 6) {
        vi::slow_waits++;
        ::usleep(static_cast<useconds_t>(n == 0 ? 2500 : 200));
    }
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
extern "C" int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    auto n = vi::rnd() % 100;
    if(n < 6) {
        vi::slow_waits++;
        ::usleep(static_cast<useconds_t>(n == 0 ? 2500 : 200));
    }
    return __real_pthread_cond_clockwait(c, m, k, t);
}
#endif
#ifdef SHORT_IO
// Linked with --wrap=read --wrap=write: sockets take and give less than asked.
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __real_write(int, const void*, size_t);
namespace vi {
    inline size_t less(int fd, size_t n) {
        struct stat st {};
        if(n > 1 && rnd() % 100 < short_percent && ::fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) {
            short_io++;
            return 1 + rnd() % (rnd() % 2 == 0 ? n - 1 : std::min<size_t>(n - 1, 7));
        }
        return n;
    }
}
extern "C" ssize_t __wrap_read(int fd, void* p, size_t n) {
    return __real_read(fd, p, vi::less(fd, n));
}
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
    return __real_write(fd, p, vi::less(fd, n));
}
#endif
#endif
