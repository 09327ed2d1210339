// U05: the queue, thread pool and cache that hand work between threads.
#include "hinject.hpp"
#include "vh.hpp"

#include "util/common/blocking_queue.hpp"
#include "util/common/cache_set.hpp"
#include "util/common/thread_pool.hpp"

#include <condition_variable>
#include <deque>

using namespace cbdc;

static void jitter(vh::rng& r) {
    switch(r.below(12)) {
        case 0:
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(80)));
            break;
        case 1:
        case 2:
            std::this_thread::yield();
            break;
        default:
            break;
    }
}

// Producers and consumers; every element is popped exactly once, in the order its producer pushed it.
static void queue_case(vh::rng& r) {
    blocking_queue<uint64_t> q;
    auto rounds = r.in(1, 3);
    for(uint64_t round = 0; round < rounds; round++) {
        auto np = r.in(1, 4);
        auto nc = r.in(1, 4);
        auto per = r.in(1, 150);
        std::vector<std::vector<uint64_t>> got(nc);
        std::atomic<uint64_t> popped{0};
        std::atomic<uint64_t> released{0};
        std::vector<std::thread> cs;
        std::vector<std::thread> ps;
        auto seed = r.next();
        for(uint64_t c = 0; c < nc; c++) {
            cs.emplace_back([&, c] {
                vh::rng t(seed + 1000 + c);
                for(;;) {
                    uint64_t v = ~0ULL;
                    if(!q.pop(v)) {
                        released++;
                        return;
                    }
                    got[c].push_back(v);
                    popped++;
                    jitter(t);
                }
            });
        }
        std::atomic<bool> zero{false};
        for(uint64_t p = 0; p < np; p++) {
            ps.emplace_back([&, p] {
                vh::rng t(seed + p);
                for(uint64_t i = 0; i < per; i++) {
                    if(q.push((p << 32U) | i) == 0) {
                        zero = true;
                    }
                    jitter(t);
                }
            });
        }
        for(auto& t : ps) {
            t.join();
        }
        // nobody else wakes the consumers: each pushed element must reach one
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
        while(popped.load() < np * per && std::chrono::steady_clock::now() < end) {
            std::this_thread::yield();
        }
        VCHECK(popped.load() == np * per, "U05:queue:lost_wakeup", popped.load() << " of " << np * per << " elements popped, consumers sleep");
        VCHECK(!zero, "U05:queue:size", "push returned 0");
        VCHECK(released.load() == 0, "U05:queue:spurious", "pop was interrupted although nothing was cleared");
        vh::tick();
        q.clear();
        for(auto& t : cs) {
            t.join(); // a consumer left asleep shows as a hang
        }
        std::map<uint64_t, int> times;
        for(auto& g : got) {
            std::map<uint64_t, uint64_t> last;
            for(auto v : g) {
                times[v]++;
                auto p = v >> 32U;
                auto i = v & 0xffffffffU;
                VCHECK(last.count(p) == 0 || last[p] < i, "U05:queue:order", "producer " << p << " element " << i << " after " << last[p]);
                last[p] = i;
            }
        }
        if(nc == 1 && np == 1) {
            for(uint64_t i = 0; i < got[0].size(); i++) {
                VCHECK(got[0][i] == i, "U05:queue:fifo", i);
            }
        }
        VCHECK(times.size() == np * per, "U05:queue:set", times.size() << " different elements of " << np * per);
        for(auto& [v, n] : times) {
            VCHECK(n == 1, "U05:queue:twice", v << " popped " << n << " times");
        }
        q.reset();
        std::string o;
        for(auto& g : got) {
            o += std::to_string(g.size()) + "/";
            for(auto v : g) {
                o += std::to_string(v >> 32U);
            }
        }
        vh::distinct(vh::hashs(o));
        vh::count("queue_elements", np * per);
        vh::count("queue_releases", nc);
    }
}
// As many consumers as elements, each of which takes one: all of them get theirs
static void one_each_case(vh::rng& r) {
    blocking_queue<uint64_t> q;
    for(auto round = r.in(1, 4); round > 0; round--) {
        auto n = r.in(2, 6);
        std::atomic<uint64_t> got{0};
        std::atomic<uint64_t> sum{0};
        std::vector<std::thread> cs;
        for(uint64_t c = 0; c < n; c++) {
            auto s = r.next();
            cs.emplace_back([&, s] {
                vh::rng t(s);
                jitter(t);
                uint64_t v = 0;
                if(q.pop(v)) {
                    sum += v;
                    got++;
                }
            });
        }
        jitter(r);
        for(uint64_t i = 1; i <= n; i++) {
            q.push(i);
            jitter(r);
        }
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
        while(got.load() < n && std::chrono::steady_clock::now() < end) {
            std::this_thread::yield();
        }
        VCHECK(got.load() == n && sum.load() == n * (n + 1) / 2, "U05:queue:left_waiting", got.load() << " of " << n << " consumers were given one of " << n << " elements");
        q.clear();
        for(auto& t : cs) {
            t.join();
        }
        q.reset();
        vh::count("one_each", n);
    }
}
// clear() discards what is queued and releases everybody who waits, again and again
static void release_case(vh::rng& r) {
    blocking_queue<int> q;
    for(auto n = r.in(1, 6); n > 0; n--) {
        auto nc = r.in(1, 5);
        std::atomic<int> falses{0};
        std::atomic<int> trues{0};
        std::vector<std::thread> cs;
        auto queued = r.chance(30) ? r.below(3) : 0;
        for(uint64_t i = 0; i < queued; i++) {
            q.push(1);
        }
        for(uint64_t c = 0; c < nc; c++) {
            auto s = r.next();
            cs.emplace_back([&, s] {
                vh::rng t(s);
                jitter(t);
                int v = 0;
                while(q.pop(v)) {
                    trues++;
                }
                falses++;
            });
        }
        jitter(r);
        q.clear();
        for(auto& t : cs) {
            t.join();
        }
        VCHECK(falses.load() == static_cast<int>(nc) && trues.load() <= static_cast<int>(queued), "U05:queue:release", falses.load() << " of " << nc << " released, " << trues.load() << " popped");
        int v = 0;
        VCHECK(!q.pop(v), "U05:queue:cleared", "pop after clear returned an element");
        q.reset();
        q.push(7);
        VCHECK(q.pop(v) && v == 7, "U05:queue:reuse", "queue does not work again after reset");
        vh::count("releases", nc);
    }
}
// single thread against a model; FIFO and priority order
static void model_case(vh::rng& r) {
    blocking_queue<uint64_t> q;
    blocking_priority_queue<uint64_t> pq;
    blocking_priority_queue<uint64_t, std::greater<uint64_t>> mq;
    std::deque<uint64_t> m;
    std::multiset<uint64_t> s;
    std::string ops;
    for(auto n = r.in(5, 60); n > 0; n--) {
        if(m.empty() || r.chance(55)) {
            auto v = r.below(20);
            m.push_back(v);
            s.insert(v);
            ops += "+" + std::to_string(v);
            VCHECK(q.push(v) == m.size() && pq.push(v) == m.size() && mq.push(v) == m.size(), "U05:queue:push_size", ops);
        } else if(r.chance(4)) {
            q.clear();
            pq.clear();
            mq.clear();
            q.reset();
            pq.reset();
            mq.reset();
            m.clear();
            s.clear();
            ops += "C";
        } else {
            uint64_t v = 99;
            ops += "-";
            VCHECK(q.pop(v) && v == m.front(), "U05:queue:fifo", ops);
            m.pop_front();
            vh::count("model_pops");
        }
        // the priority queues hold the same number of elements
        while(s.size() > m.size()) {
            uint64_t a = 99;
            VCHECK(pq.pop(a) && a == *s.rbegin(), "U05:queue:priority", ops << " got " << a << " instead of " << *s.rbegin());
            // keep both priority queues equal in content: take the same value from the other
            std::vector<uint64_t> back;
            uint64_t b = 99;
            auto lowest = *s.begin();
            VCHECK(mq.pop(b) && b == lowest, "U05:queue:priority_min", ops << " got " << b << " instead of " << lowest);
            while(b != a) {
                back.push_back(b);
                auto prev = b;
                if(!mq.pop(b)) {
                    break;
                }
                VCHECK(prev <= b, "U05:queue:priority_min", ops);
            }
            for(auto x : back) {
                mq.push(x);
            }
            s.erase(std::prev(s.end()));
        }
    }
    vh::distinct(vh::hashs(ops));
}
// Every task runs once, none waits for another, and the pool ends only when its tasks have.
static void pool_case(vh::rng& r) {
    auto running = std::make_shared<std::atomic<int>>(0);
    auto done = std::make_shared<std::atomic<int>>(0);
    auto total = 0;
    {
        thread_pool pool;
        for(auto n = r.in(1, 4); n > 0; n--) {
            // tasks that need each other to be running
            auto k = static_cast<int>(r.in(1, 6));
            struct meet {
                std::mutex m;
                std::condition_variable cv;
                int here{0};
            };
            auto mt = std::make_shared<meet>();
            auto late = std::make_shared<std::atomic<int>>(0);
            std::vector<std::thread> pushers;
            auto np = r.in(1, 3);
            std::atomic<int> next{0};
            auto runs = std::make_shared<std::vector<std::atomic<int>>>(static_cast<size_t>(k));
            for(uint64_t p = 0; p < np; p++) {
                pushers.emplace_back([&] {
                    for(;;) {
                        auto i = next++;
                        if(i >= k) {
                            return;
                        }
                        pool.push([=] {
                            (*running)++;
                            (*runs)[static_cast<size_t>(i)]++;
                            std::unique_lock<std::mutex> l(mt->m);
                            mt->here++;
                            mt->cv.notify_all();
                            if(!mt->cv.wait_for(l, std::chrono::seconds(20), [&] {
                                   return mt->here == k;
                               })) {
                                (*late)++;
                            }
                            l.unlock();
                            (*running)--;
                            (*done)++;
                        });
                    }
                });
            }
            for(auto& t : pushers) {
                t.join();
            }
            total += k;
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
            while(done->load() < total && std::chrono::steady_clock::now() < end) {
                std::this_thread::yield();
            }
            VCHECK(late->load() == 0, "U05:pool:starved", late->load() << " of " << k << " tasks waited for another that never ran beside them");
            for(auto& x : *runs) {
                VCHECK(x.load() == 1, "U05:pool:times", "a task ran " << x.load() << " times");
            }
            VCHECK(done->load() == total, "U05:pool:lost", done->load() << " of " << total);
            vh::count("pool_tasks", static_cast<uint64_t>(k));
            vh::tick();
        }
        // end the pool while tasks run
        auto k = r.below(4);
        auto started = std::make_shared<std::atomic<int>>(0);
        for(uint64_t i = 0; i < k; i++) {
            auto us = r.below(400);
            pool.push([=] {
                (*running)++;
                (*started)++;
                std::this_thread::sleep_for(std::chrono::microseconds(us));
                (*running)--;
            });
        }
        if(r.chance(50)) {
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
            while(started->load() < static_cast<int>(k) && std::chrono::steady_clock::now() < end) {
                std::this_thread::yield();
            }
            VCHECK(started->load() == static_cast<int>(k), "U05:pool:not_started", started->load() << " of " << k);
        }
    }
    VCHECK(running->load() == 0, "U05:pool:outlived", running->load() << " tasks still ran after the pool was gone");
    vh::count("pools");
}
static void cache_case(vh::rng& r) {
    auto cap = r.in(1, 12);
    cache_set<uint64_t> c(cap);
    std::deque<uint64_t> m;
    std::string ops;
    for(auto n = r.in(5, 120); n > 0; n--) {
        auto v = r.below(cap * 2 + 3);
        auto in = std::find(m.begin(), m.end(), v) != m.end();
        if(r.chance(60)) {
            ops += "+" + std::to_string(v);
            VCHECK(c.add(v) == !in, "U05:cache:add", "capacity " << cap << " " << ops);
            if(!in) {
                m.push_back(v);
                if(m.size() > cap) {
                    m.pop_front();
                }
            }
        }
        for(uint64_t x = 0; x < cap * 2 + 3; x++) {
            VCHECK(c.contains(x) == (std::find(m.begin(), m.end(), x) != m.end()), "U05:cache:content", "capacity " << cap << " " << ops << " asked " << x);
        }
        vh::count("cache_lookups", cap * 2 + 3);
    }
    vh::distinct(vh::hashs(ops, cap));
}
static void cache_threads(vh::rng& r) {
    auto cap = r.in(1, 50);
    cache_set<uint64_t> c(cap);
    std::vector<std::thread> ts;
    auto k = r.in(2, 4);
    auto per = r.in(10, 200);
    std::atomic<uint64_t> added{0};
    for(uint64_t t = 0; t < k; t++) {
        ts.emplace_back([&, t] {
            for(uint64_t i = 0; i < per; i++) {
                added += c.add(i) ? 1 : 0;
                std::ignore = c.contains(i + t);
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
    if(cap >= per) {
        VCHECK(added.load() == per, "U05:cache:added", added.load() << " successful additions of " << per << " values");
    }
    uint64_t in = 0;
    for(uint64_t i = 0; i < per; i++) {
        in += c.contains(i) ? 1 : 0;
    }
    VCHECK(in == std::min(cap, per), "U05:cache:count", in << " values present, capacity " << cap << " of " << per);
    vh::count("cache_threads", k);
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("queue or pool");
    auto threads = vh::st().mode == "threads";
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(!threads) {
            for(int i = 0; i < 10; i++) {
                model_case(r);
                cache_case(r);
            }
        }
        queue_case(r);
        release_case(r);
        one_each_case(r);
        pool_case(r);
        cache_threads(r);
        static uint64_t was = 0;
        auto now = vi::slow_waits.load();
        vh::count("slow_waits", now - was);
        was = now;
    });
    return vh::finish();
}
