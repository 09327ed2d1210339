// Loopback endpoints for monitors that run real servers.
#ifndef VERIF_HNET_HPP
#define VERIF_HNET_HPP
#include "vh.hpp"

#include <algorithm>
#include <condition_variable>
#include <functional>
#include <thread>

#include "util/network/connection_manager.hpp"

#include <arpa/inet.h>
#include <poll.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>

#ifdef FAST_SOCKETS
// Linked with --wrap=socket: small messages are not held back for the
// acknowledgement of earlier ones, so that more of them fit into a run.
#include <netinet/tcp.h>
extern "C" int __real_socket(int, int, int);
extern "C" int __wrap_socket(int d, int t, int p) {
    auto fd = __real_socket(d, t, p);
    if(fd >= 0 && d == AF_INET && (t & SOCK_STREAM) != 0) {
        int one = 1;
        (void)setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    }
    return fd;
}
#endif

namespace vn {
    // A port that is free now.  Each process draws from its own range, below
    // the kernel's ephemeral ports, so that neighbours do not take it.
    // Ports come from blocks which one process at a time owns (it holds an
    // abstract socket of the block's name), so that concurrent runs never
    // talk to each other's servers.
    inline uint16_t free_port() {
        static std::mutex m;
        std::unique_lock<std::mutex> l(m);
        static const uint32_t base = 10000;
        static const uint32_t size = 200;
        static const uint32_t blocks = 110;
        static const size_t most = 5;
        static std::vector<uint32_t> mine;
        static size_t used = 0;
        static uint32_t from = static_cast<uint32_t>(getpid()) * 7U;
        for(int i = 0; i < 5000; i++) {
            if(used == mine.size() * size) {
                bool got = false;
                for(uint32_t k = 0; k < blocks && mine.size() < most && !got; k++) {
                    auto blk = (from + k) % blocks;
                    sockaddr_un u{};
                    u.sun_family = AF_UNIX;
                    auto n = snprintf(u.sun_path + 1, sizeof(u.sun_path) - 1, "vh-ports-%u", blk);
                    auto fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
                    if(::bind(fd, reinterpret_cast<sockaddr*>(&u), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + static_cast<size_t>(n))) == 0) {
                        mine.push_back(blk); // keeps fd
                        got = true;
                    } else {
                        ::close(fd);
                    }
                }
                if(!got) {
                    if(mine.empty()) {
                        _exit(91);
                    }
                    used = 0;
                }
            }
            auto p = static_cast<uint16_t>(base + mine[used / size] * size + used % size);
            used++;
            auto fd = ::socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(p);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            auto ok = ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0;
            ::close(fd);
            if(ok) {
                return p;
            }
        }
        _exit(91);
    }
    inline cbdc::network::endpoint_t endpoint() {
        return {cbdc::network::localhost, free_port()};
    }
    template<typename F>
    bool wait(F&& f, int ms = 20000) {
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        while(!f()) {
            if(std::chrono::steady_clock::now() > end) {
                return false;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return true;
    }

// ---- a relay that splits, delays and breaks connections ----
struct proxy {
    int lfd{-1};
    uint16_t port{};
    uint16_t to{};
    std::atomic<bool> stop{false};
    std::atomic<int> cuts{0};
    std::atomic<int> accepted{0};
    std::atomic<int> refused{0};
    std::atomic<int64_t> cut_after{-1}; // bytes, -1 never
    std::atomic<bool> tiny{false};
    std::thread th;
    bool start(uint16_t target) {
        to = target;
        port = vn::free_port();
        lfd = ::socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(::bind(lfd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || ::listen(lfd, 16) != 0) {
            ::close(lfd);
            lfd = -1;
            return false;
        }
        th = std::thread([this] {
            run();
        });
        return true;
    }
    void run() {
        struct pair_ {
            int a, b;
        };
        std::vector<pair_> ps;
        vh::rng r(port);
        std::vector<char> b(4096);
        while(!stop) {
            std::vector<pollfd> f;
            f.push_back({lfd, POLLIN, 0});
            for(auto& p : ps) {
                f.push_back({p.a, POLLIN, 0});
                f.push_back({p.b, POLLIN, 0});
            }
            if(::poll(f.data(), f.size(), 5) <= 0) {
                continue;
            }
            if((f[0].revents & POLLIN) != 0) {
                auto c = ::accept(lfd, nullptr, nullptr);
                accepted += c >= 0 ? 1 : 0;
                auto s = ::socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in a{};
                a.sin_family = AF_INET;
                a.sin_port = htons(to);
                a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if(c >= 0 && ::connect(s, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0) {
                    ps.push_back({c, s});
                } else {
                    refused++;
                    ::close(c);
                    ::close(s);
                }
                continue;
            }
            for(size_t i = 0; i < ps.size(); i++) {
                bool dead = false;
                for(int side = 0; side < 2 && !dead; side++) {
                    if((f[1 + 2 * i + static_cast<size_t>(side)].revents & (POLLIN | POLLHUP | POLLERR)) == 0) {
                        continue;
                    }
                    auto in = side == 0 ? ps[i].a : ps[i].b;
                    auto out = side == 0 ? ps[i].b : ps[i].a;
                    auto want = tiny ? r.in(1, 30) : r.in(1, b.size());
                    auto n = ::recv(in, b.data(), want, 0);
                    if(n <= 0) {
                        dead = true;
                        break;
                    }
                    auto cut = cut_after.load();
                    auto pass = static_cast<int64_t>(n);
                    if(cut >= 0) {
                        pass = std::min<int64_t>(pass, cut);
                        cut_after = cut - pass;
                    }
                    for(int64_t d = 0; d < pass;) {
                        auto w = ::send(out, b.data() + d, static_cast<size_t>(pass - d), MSG_NOSIGNAL);
                        if(w <= 0) {
                            dead = true;
                            break;
                        }
                        d += w;
                    }
                    if(cut >= 0 && pass < n) {
                        cut_after = -1;
                        cuts++;
                        dead = true;
                    }
                    if(r.chance(2)) {
                        std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
                    }
                }
                if(dead) {
                    ::close(ps[i].a);
                    ::close(ps[i].b);
                    ps.erase(ps.begin() + static_cast<long>(i));
                    break;
                }
            }
        }
        for(auto& p : ps) {
            ::close(p.a);
            ::close(p.b);
        }
    }
    ~proxy() {
        stop = true;
        if(th.joinable()) {
            th.join();
        }
        if(lfd >= 0) {
            ::close(lfd);
        }
    }
};
inline int raw_connect(uint16_t port) {
    auto s = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if(::connect(s, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0) {
        ::close(s);
        return -1;
    }
    return s;
}

// Runs jobs a little later, in no particular order.
struct later_pool {
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::pair<std::chrono::steady_clock::time_point, std::function<void()>>> q;
    bool stop{false};
    std::vector<std::thread> ts;
    explicit later_pool(size_t n) {
        for(size_t i = 0; i < n; i++) {
            ts.emplace_back([this] {
                std::unique_lock<std::mutex> l(m);
                while(true) {
                    auto it = std::min_element(q.begin(), q.end(), [](auto& a, auto& b) {
                        return a.first < b.first;
                    });
                    if(it == q.end()) {
                        if(stop) {
                            return;
                        }
                        cv.wait(l);
                        continue;
                    }
                    if(it->first > std::chrono::steady_clock::now() && !stop) {
                        cv.wait_until(l, std::chrono::steady_clock::time_point(it->first));
                        continue;
                    }
                    auto f = std::move(it->second);
                    q.erase(it);
                    l.unlock();
                    f();
                    f = nullptr;
                    l.lock();
                }
            });
        }
    }
    void put(std::chrono::microseconds d, std::function<void()> f) {
        {
            std::unique_lock<std::mutex> l(m);
            q.emplace_back(std::chrono::steady_clock::now() + d, std::move(f));
        }
        cv.notify_all();
    }
    void finish() {
        {
            std::unique_lock<std::mutex> l(m);
            stop = true;
        }
        cv.notify_all();
        for(auto& t : ts) {
            t.join();
        }
        ts.clear();
    }
    ~later_pool() {
        finish();
    }
};
}
#endif
