// Lives of code that keeps files: each is a process of its own, which may be
// ended at any call that changes files, with the last write torn, or see its
// writes fail.  Include in one file of a program linked with -rdynamic.
#ifndef VERIF_HFILE_HPP
#define VERIF_HFILE_HPP
#include "vh.hpp"

#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>

namespace {
    // --- system calls of the library and of libstdc++ ---
    std::atomic<long> g_left{-1};  // calls until the process dies; -1: never
    std::atomic<long> g_calls{0};
    std::atomic<int> g_fail{0};    // writes fail from now on (errno)
    std::atomic<long> g_fail_at{-1};
    std::atomic<uint64_t> g_failed{0};
    std::atomic<size_t> g_torn{0}; // how much of the last write gets through
    std::atomic<uint64_t> g_unsynced[1024]; // bytes written since the last sync
    bool g_armed{false};

    // True if the process ends with this call.
    bool step() {
        if(!g_armed) {
            return false;
        }
        g_calls++;
        if(g_left > 0) {
            g_left--;
        }
        return g_left == 0;
    }
    [[noreturn]] void end_now() {
        syscall(SYS_exit_group, 77);
        for(;;) {}
    }
    bool fails() {
        if(!g_armed || g_fail_at < 0) {
            return false;
        }
        if(g_fail_at > 0) {
            g_fail_at--;
            return false;
        }
        errno = g_fail;
        g_failed++;
        return true;
    }
}
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
    if(fd > 2 && step()) {
        auto k = std::min(n, g_torn.load());
        if(k > 0) {
            syscall(SYS_write, fd, p, k);
        }
        end_now();
    }
    if(fd > 2 && fails()) {
        auto k = n > 0 ? std::min(n - 1, g_torn.load()) : 0;
        if(k > 0) {
            g_torn = 0;
            return syscall(SYS_write, fd, p, k);
        }
        return -1;
    }
    auto r = syscall(SYS_write, fd, p, n);
    if(r > 0 && fd >= 0 && fd < 1024) {
        g_unsynced[fd] += static_cast<uint64_t>(r);
    }
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    // One piece at a time: a crash between them is possible too.
    ssize_t all = 0;
    for(int i = 0; i < n; i++) {
        if(v[i].iov_len == 0) {
            continue;
        }
        auto r = write(fd, v[i].iov_base, v[i].iov_len);
        if(r < 0) {
            return all > 0 ? all : r;
        }
        all += r;
        if(static_cast<size_t>(r) < v[i].iov_len) {
            break;
        }
    }
    return all;
}
int fdatasync(int fd) {
    if(step()) {
        end_now();
    }
    if(fd >= 0 && fd < 1024) {
        g_unsynced[fd] = 0;
    }
    return 0;
}
int fsync(int fd) {
    return fdatasync(fd);
}
int close(int fd) {
    if(fd >= 0 && fd < 1024) {
        g_unsynced[fd] = 0;
    }
    return static_cast<int>(syscall(SYS_close, fd));
}
int rename(const char* a, const char* b) noexcept {
    if(step()) {
        end_now();
    }
    auto r = static_cast<int>(syscall(SYS_rename, a, b));
    if(step()) {
        end_now();
    }
    return r;
}
int remove(const char* a) noexcept {
    if(step()) {
        end_now();
    }
    auto r = static_cast<int>(syscall(SYS_unlink, a));
    if(r != 0 && (errno == EISDIR || errno == EPERM)) {
        r = static_cast<int>(syscall(SYS_rmdir, a));
    }
    return r;
}
int unlink(const char* a) noexcept {
    if(step()) {
        end_now();
    }
    return static_cast<int>(syscall(SYS_unlink, a));
}
}

namespace {
    struct shared {
        std::atomic<uint64_t> done;  // operations completed
        std::atomic<uint64_t> match; // which alternative was found, +1
        std::atomic<uint64_t> calls; // system calls made
        std::atomic<uint64_t> opened; // of these while opening
        std::atomic<uint64_t> may_end; // the save under way fails
        std::atomic<uint64_t> reads, synced, reopened, checked;
        char key[200];
        char detail[2000];
    };
    shared* g_sh;
    void fail(const std::string& key, const std::string& detail) {
        if(g_sh->key[0] == 0) {
            snprintf(g_sh->key, sizeof(g_sh->key), "%s", key.c_str());
            snprintf(g_sh->detail, sizeof(g_sh->detail), "%s", detail.c_str());
        }
        syscall(SYS_exit_group, 78);
    }
    // Runs `f` in a process of its own; the exit status.
    template<typename F>
    int life(F&& f) {
        g_sh->key[0] = 0;
        g_sh->done = 0;
        g_sh->match = 0;
        g_sh->may_end = 0;
        auto pid = fork();
        if(pid == 0) {
            signal(SIGABRT, SIG_DFL);
            f();
            syscall(SYS_exit_group, 0);
        }
        int st = 0;
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        for(unsigned us = 200;;) {
            auto r = waitpid(pid, &st, WNOHANG);
            if(r == pid) {
                break;
            }
            if(std::chrono::steady_clock::now() > until) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                vh::report("hang", "a life of the store did not end");
                return -1;
            }
            usleep(us);
            us = std::min(us * 2, 2000U);
        }
        vh::tick();
        if(g_sh->key[0] != 0) {
            vh::report(g_sh->key, g_sh->detail);
            return -1;
        }
        if(g_sh->may_end && (WIFEXITED(st) ? WEXITSTATUS(st) != 66 : WTERMSIG(st) == SIGABRT)) {
            return 77;
        }
        if(WIFEXITED(st)) {
            auto c = WEXITSTATUS(st);
            if(c != 0 && c != 77) {
                vh::report("process ended", "exit status " + std::to_string(c) + " after " + std::to_string(g_sh->done.load()) + " operations");
                return -1;
            }
            return c;
        }
        vh::report("process ended", "signal " + std::to_string(WTERMSIG(st)) + " after " + std::to_string(g_sh->done.load()) + " operations");
        return -1;
    }

    inline void share() {
        g_sh = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        memset(static_cast<void*>(g_sh), 0, sizeof(*g_sh));
    }
}
#endif
