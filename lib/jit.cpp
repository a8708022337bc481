#include "jit.hpp"

#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace {
    std::atomic<bool> g_on{false};
    std::atomic<unsigned> g_wait{0};
    std::atomic<unsigned> g_lock{0};
    std::atomic<unsigned> g_short{0};
    std::atomic<unsigned> g_io{0};
    std::atomic<unsigned> g_us{0};
    std::atomic<uint64_t> g_state{1};

    uint64_t rnd() {
        auto x = g_state.fetch_add(0x9e3779b97f4a7c15ULL,
                                   std::memory_order_relaxed);
        x ^= x >> 30;
        x *= 0xbf58476d1ce4e5b9ULL;
        x ^= x >> 27;
        x *= 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    void pause_for(unsigned us) {
        timespec t{0, static_cast<long>(us) * 1000};
        syscall(SYS_nanosleep, &t, nullptr);
    }
    void maybe(const std::atomic<unsigned>& p) {
        if(!g_on.load(std::memory_order_relaxed)) {
            return;
        }
        auto e = errno;
        auto r = rnd();
        if((r & 255) < p.load(std::memory_order_relaxed)) {
            auto us = g_us.load(std::memory_order_relaxed);
            pause_for(static_cast<unsigned>((r >> 8) % (us + 1)));
        }
        errno = e;
    }
    bool is_socket(int fd) {
        struct stat st {};
        return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
    }
    size_t shorter(int fd, size_t n) {
        if(n < 2 || !g_on.load(std::memory_order_relaxed)
           || g_short.load(std::memory_order_relaxed) == 0) {
            return n;
        }
        auto r = rnd();
        if((r & 255) >= g_short.load(std::memory_order_relaxed)
           || !is_socket(fd)) {
            return n;
        }
        // Often just a few bytes.
        auto lim = ((r >> 8) & 1) != 0 ? (n < 16 ? n : 16) : n;
        return 1 + (r >> 9) % lim;
    }
}

namespace jit {
    void set(const setting& s) {
        g_wait = s.m_wait;
        g_lock = s.m_lock;
        g_short = s.m_short;
        g_io = s.m_io;
        g_us = s.m_us;
        g_state = s.m_seed * 0x2545f4914f6cdd1dULL + 1;
        g_on = true;
    }
    void off() {
        g_on = false;
    }
}

extern "C" {
ssize_t read(int fd, void* p, size_t n) {
    if(g_on.load(std::memory_order_relaxed)) {
        maybe(g_io);
        n = shorter(fd, n);
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
    if(g_on.load(std::memory_order_relaxed)) {
        maybe(g_io);
        n = shorter(fd, n);
    }
    return syscall(SYS_write, fd, p, n);
}
int close(int fd) {
    bool d = g_on.load(std::memory_order_relaxed) && is_socket(fd);
    auto r = static_cast<int>(syscall(SYS_close, fd));
    if(d) {
        maybe(g_io);
    }
    return r;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
    auto r = static_cast<int>(syscall(SYS_accept, fd, a, l));
    maybe(g_io);
    return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    using fn = int (*)(pthread_mutex_t*);
    static std::atomic<fn> real{nullptr};
    auto f = real.load(std::memory_order_relaxed);
    if(f == nullptr) {
        f = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
        real = f;
    }
    maybe(g_lock);
    return f(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static std::atomic<fn> real{nullptr};
    auto f = real.load(std::memory_order_relaxed);
    if(f == nullptr) {
        f = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
        real = f;
    }
    maybe(g_wait);
    return f(c, m);
}
}
