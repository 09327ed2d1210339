// P06: ticket numbers are handed out once each.
#include "hnet.hpp"
#include "huhs.hpp"

#include "parsec/ticket_machine/client.hpp"
#include "parsec/ticket_machine/impl.hpp"
#ifdef VERIF_CLUSTER
#include "parsec/ticket_machine/controller.hpp"
#include "parsec/ticket_machine/state_machine.hpp"

#include <filesystem>
#endif
#include "util/rpc/async_server.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"

using namespace cbdc;
namespace trpc = cbdc::parsec::ticket_machine::rpc;
using namespace cbdc::parsec::ticket_machine;
using range_t = interface::ticket_number_range_type;
using res_t = interface::get_ticket_number_return_type;
using err_t = interface::error_code;

// Every number anybody was given: no two ranges may overlap.
struct ledger {
    std::mutex m;
    std::map<uint64_t, uint64_t> got; // first -> end (exclusive)
    void give(uint64_t a, uint64_t b, const char* to) {
        std::unique_lock<std::mutex> l(m);
        VCHECK(a < b, "P06:empty_range", a << " to " << b);
        auto it = got.lower_bound(a);
        VCHECK(it == got.end() || it->first >= b, "P06:duplicate", "numbers " << a << " to " << b << " given to " << to << " overlap " << it->first);
        if(it != got.begin()) {
            auto p = std::prev(it);
            VCHECK(p->second <= a, "P06:duplicate", "numbers " << a << " to " << b << " given to " << to << " overlap " << p->first << " to " << p->second);
        }
        got[a] = b;
    }
    // all of them, without holes
    void whole(uint64_t n) {
        std::unique_lock<std::mutex> l(m);
        uint64_t at = 0;
        for(auto& [a, b] : got) {
            VCHECK(a == at, "P06:hole", "numbers from " << at << " to " << a << " were given to nobody");
            at = b;
        }
        VCHECK(at == n, "P06:hole", at << " numbers instead of " << n);
    }
};

static void local(vh::rng& r) {
    auto step = r.in(1, r.chance(50) ? 5 : 2000);
    impl tm(vu::logger(), step);
    ledger led;
    std::atomic<uint64_t> done_max{0}; // the end of the last range whose call has returned
    std::vector<std::thread> ts;
    auto n = r.in(1, 6);
    auto per = r.in(1, 200);
    for(size_t t = 0; t < n; t++) {
        ts.emplace_back([&] {
            for(size_t i = 0; i < per; i++) {
                auto floor = done_max.load();
                int calls = 0;
                range_t got{};
                auto ok = tm.get_ticket_number([&](res_t res) {
                    calls++;
                    if(std::holds_alternative<range_t>(res)) {
                        got = std::get<range_t>(res);
                    }
                });
                VCHECK(ok && calls == 1, "P06:local_callback", "ran " << calls << " times before returning " << ok);
                VCHECK(got.second - got.first == step, "P06:range_size", got.second - got.first << " instead of " << step);
                VCHECK(got.first >= floor, "P06:not_increasing", "a later call was given " << got.first << " after a range up to " << floor << " had been given");
                led.give(got.first, got.second, "a local caller");
                auto m = done_max.load();
                while(m < got.second && !done_max.compare_exchange_weak(m, got.second)) {}
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
    led.whole(n * per * step);
    vh::count("local_ranges", n * per);
}

// ---- clients of a remote ticket machine --------------------------------------
struct ask {
    std::atomic<int> n{0};
    std::mutex m;
    std::optional<res_t> got;
    bool first_second_same{true};
};
static std::shared_ptr<ask> request(trpc::client& c, bool& sent) {
    auto a = std::make_shared<ask>();
    sent = c.get_ticket_number([a](res_t res) {
        std::unique_lock<std::mutex> l(a->m);
        a->got = res;
        a->n++;
    });
    return a;
}
static void remote(vh::rng& r) {
    using server_t = cbdc::rpc::async_tcp_server<trpc::request, trpc::response>;
    auto ep = vn::endpoint();
    vn::later_pool lp(2);
    auto step = r.chance(30) ? r.in(1, 8) : r.in(9, 1500);
    auto im = std::make_shared<impl>(vu::logger(), step);
    auto srv = std::make_unique<server_t>(ep);
    auto failing = r.chance(50) ? r.in(5, 60) : 0;
    std::mutex rm;
    vh::rng q(r.next());
    std::atomic<uint64_t> ranges{0};
    std::atomic<uint64_t> failed{0};
    srv->register_handler_callback([&](trpc::request, server_t::response_callback_type cb) -> bool {
        std::unique_lock<std::mutex> l(rm);
        auto fail = q.chance(failing);
        auto how = q.below(3);
        auto d = std::chrono::microseconds(q.below(q.chance(20) ? 4000 : 300));
        l.unlock();
        if(fail) {
            failed++;
            switch(how) {
                case 0:
                    return false;
                case 1:
                    lp.put(d, [cb] {
                        cb(std::nullopt);
                    });
                    return true;
                default:
                    lp.put(d, [cb] {
                        cb(res_t{err_t{}});
                    });
                    return true;
            }
        }
        ranges++;
        return im->get_ticket_number([&, cb, d](res_t res) {
            lp.put(d, [cb, res] {
                cb(res);
            });
        });
    });
    if(!srv->init()) {
        vh::count("port_taken");
        return;
    }
    ledger led;
    std::vector<std::unique_ptr<trpc::client>> cs;
    std::vector<std::thread> ts;
    std::mutex am;
    std::vector<std::shared_ptr<ask>> all;
    auto per = r.in(1, step > 100 ? 1200 : 60);
    for(auto n = r.in(1, 3); n > 0; n--) {
        auto c = std::make_unique<trpc::client>(std::vector<network::endpoint_t>{ep});
        VCHECK(c->init(), "P06:connect", "");
        auto nt = r.in(1, 3);
        for(size_t t = 0; t < nt; t++) {
            auto sd = r.next();
            ts.emplace_back([&, sd, nt, p = c.get()] {
                vh::rng w(sd);
                std::vector<std::shared_ptr<ask>> mine;
                for(size_t i = 0; i < per; i++) {
                    bool sent = false;
                    mine.push_back(request(*p, sent));
                    VCHECK(sent, "P06:refused", "a connected client refused");
                    if(w.chance(3)) {
                        std::this_thread::sleep_for(std::chrono::microseconds(w.below(500)));
                    }
                    if(w.chance(10)) { // wait for it before the next
                        vn::wait([&] {
                            return mine.back()->n.load() != 0;
                        });
                    }
                }
                uint64_t last = 0;
                bool any = false;
                for(auto& a : mine) {
                    VCHECK(vn::wait([&] {
                               return a->n.load() != 0;
                           }),
                           "P06:unanswered", "a request for a ticket number was never answered");
                    std::unique_lock<std::mutex> l(a->m);
                    if(!a->got.has_value() || !std::holds_alternative<range_t>(*a->got)) {
                        continue;
                    }
                    auto g = std::get<range_t>(*a->got);
                    VCHECK(g.first == g.second, "P06:single", "a client was given " << g.first << " to " << g.second);
                    if(nt == 1) {
                        VCHECK(!any || g.first > last, "P06:client_order", "given " << g.first << " after " << last);
                    }
                    last = g.first;
                    any = true;
                }
                std::unique_lock<std::mutex> l(am);
                all.insert(all.end(), mine.begin(), mine.end());
            });
        }
        cs.push_back(std::move(c));
    }
    // someone else takes numbers directly
    ts.emplace_back([&] {
        for(int i = 0; i < 20; i++) {
            im->get_ticket_number([&](res_t res) {
                auto g = std::get<range_t>(res);
                led.give(g.first, g.second, "a direct user");
            });
            ranges++;
            std::this_thread::yield();
        }
    });
    for(auto& t : ts) {
        t.join();
    }
    uint64_t ok = 0;
    uint64_t errs = 0;
    for(auto& a : all) {
        std::unique_lock<std::mutex> l(a->m);
        VCHECK(a->n == 1, "P06:callback_times", "a callback ran " << a->n.load() << " times");
        if(a->got.has_value() && std::holds_alternative<range_t>(*a->got)) {
            auto g = std::get<range_t>(*a->got);
            led.give(g.first, g.first + 1, "a client");
            VCHECK(g.first < ranges.load() * step, "P06:invented", "number " << g.first << " was never assigned");
            ok++;
        } else {
            errs++;
        }
    }
    VCHECK(errs == 0 || failed.load() > 0, "P06:spurious_error", errs << " requests failed though the ticket machine never did");
    vh::count("client_tickets", ok);
    vh::count("client_errors", errs);
    vh::distinct(vh::mix(vh::mix(ok, errs), ranges.load()));
    // a client that goes while requests are outstanding
    if(r.chance(50)) {
        bool sent = false;
        for(auto& c : cs) {
            for(size_t i = 0; i < 5 + step; i++) {
                request(*c, sent);
            }
        }
        vh::count("clients_ended", cs.size());
    }
    if(r.chance(50)) {
        cs.clear();
        srv.reset();
    } else {
        srv.reset();
        cs.clear();
    }
    lp.finish();
}
#ifdef VERIF_CLUSTER
// ---- the replicated ticket machine --------------------------------------------
static void cluster(vh::rng& r, uint64_t n_case) {
    namespace fs = std::filesystem;
    auto dir = fs::path(vh::st().scratch) / ("tm" + std::to_string(n_case));
    fs::create_directories(dir);
    auto back = fs::current_path();
    fs::current_path(dir);
    auto n = r.chance(20) ? 1 : 3;
    std::vector<network::endpoint_t> reps;
    std::vector<network::endpoint_t> seps;
    std::string key;
    for(int i = 0; i < n; i++) {
        reps.push_back(vn::endpoint());
        seps.push_back(vn::endpoint());
        key += reps.back().first + ":" + std::to_string(reps.back().second) + ",";
    }
    ledger led;
    uint64_t answered = 0;
    {
        std::vector<std::unique_ptr<controller>> cs(static_cast<size_t>(n));
        auto start = [&](int i) {
            cs[static_cast<size_t>(i)] = std::make_unique<controller>(static_cast<size_t>(i), seps[static_cast<size_t>(i)], reps, vu::logger());
            VCHECK(cs[static_cast<size_t>(i)]->init(), "P06:cluster_init", "");
        };
        for(int i = 0; i < n; i++) {
            start(i);
        }
        auto c = nuraft::sim::get(key);
        for(auto phase = r.in(1, 6); phase > 0; phase--) {
            // somebody leads
            for(int tries = 0; tries < 50; tries++) {
                if(nuraft::sim::lead(c, static_cast<int>(r.in(1, static_cast<uint64_t>(n))))) {
                    break;
                }
            }
            vh::count("phases");
            std::vector<std::shared_ptr<ask>> mine;
            std::vector<std::unique_ptr<trpc::client>> cl;
            auto disturb = r.below(4); // while requests are under way
            for(auto k = r.in(1, 3); k > 0; k--) {
                auto t = std::make_unique<trpc::client>(seps);
                if(t->init()) {
                    cl.push_back(std::move(t));
                }
            }
            // hostile requests
            if(r.chance(30)) {
                auto s = vn::raw_connect(seps[static_cast<size_t>(std::max(0, c->leader - 1))].second);
                if(s >= 0) {
                    uint64_t len = r.in(8, 9);
                    std::string d(reinterpret_cast<char*>(&len), 8);
                    d += std::string(len, '\x05');
                    std::ignore = ::send(s, d.data(), d.size(), MSG_NOSIGNAL);
                    vh::count("malformed_requests");
                    // it goes through the log; wait until it is out of the way
                    char reply[64];
                    std::ignore = ::recv(s, reply, sizeof(reply), 0);
                    ::close(s);
                }
            }
            auto reqs = r.in(1, 1500);
            std::thread dist([&, sd = r.next()] {
                vh::rng w(sd);
                std::this_thread::sleep_for(std::chrono::microseconds(w.below(3000)));
                if(disturb == 1) {
                    nuraft::sim::depose(c);
                } else if(disturb == 2) {
                    nuraft::sim::lead(c, static_cast<int>(w.in(1, static_cast<uint64_t>(n))));
                }
            });
            for(size_t i = 0; i < reqs; i++) {
                for(auto& t : cl) {
                    bool sent = false;
                    auto a = request(*t, sent);
                    if(sent) {
                        mine.push_back(a);
                    } else {
                        VCHECK(a->n == 0, "P06:refused_answer", "");
                    }
                }
            }
            dist.join();
            if(disturb == 0 || disturb == 3) {
                for(auto& a : mine) {
                    VCHECK(vn::wait([&] {
                               return a->n.load() != 0;
                           }),
                           "P06:unanswered", "a request for a ticket number was never answered");
                }
            } else {
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(10)));
            }
            cl.clear(); // what was not answered by now never is
            for(auto& a : mine) {
                std::unique_lock<std::mutex> l(a->m);
                VCHECK(a->n <= 1, "P06:callback_times", "");
                if(a->got.has_value() && std::holds_alternative<range_t>(*a->got)) {
                    auto g = std::get<range_t>(*a->got);
                    led.give(g.first, g.first + 1, "a client of the cluster");
                    answered++;
                } else {
                    vh::count("cluster_unanswered");
                    VCHECK(disturb != 0 && disturb != 3, "P06:spurious_error", "a request to a healthy cluster failed");
                }
            }
            // nodes stop and come back, one after the other or all at once
            if(r.chance(60)) {
                auto all = r.chance(30);
                std::vector<int> down;
                for(int i = 0; i < n; i++) {
                    if(all || (down.empty() && r.chance(50))) {
                        down.push_back(i);
                    }
                }
                if(r.chance(50)) {
                    r.shuffle(down);
                }
                for(auto i : down) {
                    cs[static_cast<size_t>(i)].reset();
                    vh::count("restarts");
                }
                if(all) {
                    c->leader = -1;
                }
                for(auto i : down) {
                    start(i);
                }
            }
            vh::tick();
        }
        vh::distinct(vh::mix(answered, led.got.size()));
    }
    vh::count("cluster_tickets", answered);
    nuraft::sim::forget_all();
    fs::current_path(back);
    fs::remove_all(dir);
}
#endif
int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("tickets");
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, [[maybe_unused]] uint64_t n) {
#ifdef VERIF_CLUSTER
        if(mode == "cluster") {
            cluster(r, n);
            return;
        }
#endif
        local(r);
        remote(r);
    });
    return vh::finish();
}
