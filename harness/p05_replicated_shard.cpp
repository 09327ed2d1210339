// P05: a replicated shard keeps what it answered when its leader changes.
#include "hnet.hpp"
#include "hparsec.hpp"

#include "parsec/runtime_locking_shard/client.hpp"
#include "parsec/runtime_locking_shard/controller.hpp"

#include <filesystem>

using namespace cbdc;
namespace fs = std::filesystem;
namespace rls = cbdc::parsec::runtime_locking_shard;
using iface = rls::interface;
using client_t = rls::rpc::client;
using clk = std::chrono::steady_clock;

static std::atomic<uint64_t> g_clock{1};

// One request: answered at most once.
template<typename T>
struct answer {
    std::mutex m;
    std::condition_variable cv;
    int n{0};
    std::optional<T> v;
    std::atomic<bool>* interrupted{nullptr};
    void set(T r) {
        std::unique_lock<std::mutex> l(m);
        n++;
        VCHECK(n == 1, "P05:answered_twice", "a callback ran " << n << " times");
        v = std::move(r);
        cv.notify_all();
    }
    std::optional<T> wait(int ms) {
        std::unique_lock<std::mutex> l(m);
        cv.wait_for(l, std::chrono::milliseconds(ms), [&] {
            return v.has_value();
        });
        return v;
    }
};

// What a broker knows about a ticket of its own.
struct ticket_t {
    bool lock_sent{false};
    bool prepare_sent{false};
    bool prepared{false}; // answered
    bool commit_sent{false};
    bool committed{false};
    bool rollback_sent{false};
    bool finish_sent{false};
    bool gone{false};     // rollback or finish answered, or absent while nothing is under way
    bool unanswered{false}; // some request was lost, it may arrive yet
    size_t tx{};
};

struct world {
    std::vector<network::endpoint_t> seps;
    std::atomic<uint64_t> next_ticket{1};
    std::mutex m;
    std::vector<ser::tx> txs;
    std::vector<std::string> keys;
    std::atomic<bool> quiet{false};
    std::atomic<uint64_t> failovers_seen{0};
};

struct broker {
    world& w;
    size_t id;
    vh::rng r;
    std::unique_ptr<client_t> c;
    std::map<uint64_t, ticket_t> tickets; // not finished
    std::map<uint64_t, ticket_t> done;
    uint64_t n_committed{0};
    uint64_t n_recovered{0};
    uint64_t n_recommit{0};
    int patience{1200};
    // some brokers do not wait long
    int impatient{0};
    int wait_for() {
        return r.chance(static_cast<unsigned>(impatient)) ? static_cast<int>(r.below(12)) : patience;
    }

    broker(world& ww, size_t i, uint64_t seed) : w(ww), id(i), r(seed) {
        impatient = r.chance(50) ? static_cast<int>(r.below(30)) : 0;
    }

    bool connect() {
        c.reset();
        c = std::make_unique<client_t>(w.seps);
        if(!c->init()) {
            c.reset();
            return false;
        }
        return true;
    }
    using sh = std::optional<rls::shard_error>;
    template<typename T, typename F>
    std::optional<T> ask(F&& f, int ms, bool* sent = nullptr) {
        auto a = std::make_shared<answer<T>>();
        if(sent != nullptr) {
            *sent = true;
        }
        if(!c || !f([a](T v) {
               a->set(std::move(v));
           })) {
            return std::nullopt;
        }
        return a->wait(ms);
    }
    static bool lost(const sh& e) {
        return e.has_value() && e->m_error_code == rls::error_code::internal_error;
    }
    ser::tx& tx(size_t i) {
        return w.txs[i];
    }

    // One step of finishing a ticket; true if it was answered.
    bool do_rollback(uint64_t t) {
        auto& k = tickets.at(t);
        k.rollback_sent = true;
        auto a = ask<iface::rollback_return_type>(
            [&](auto cb) {
                return c->rollback(t, cb);
            },
            wait_for());
        if(!a.has_value() || lost(*a)) {
            k.unanswered = true;
            return false;
        }
        if(a->has_value()) {
            auto e = (*a)->m_error_code;
            VCHECK(e == rls::error_code::unknown_ticket, "P05:rollback_answer", "rollback of a ticket which was not committed answered " << static_cast<int>(e));
        }
        k.gone = true;
        std::unique_lock<std::mutex> l(w.m);
        auto& x = tx(k.tx);
        x.outcome = ser::tx::aborted;
        x.ret = g_clock++;
        return true;
    }
    bool do_commit(uint64_t t) {
        auto& k = tickets.at(t);
        if(k.commit_sent) {
            n_recommit++;
        }
        k.commit_sent = true;
        auto a = ask<iface::commit_return_type>(
            [&](auto cb) {
                return c->commit(t, cb);
            },
            wait_for());
        if(!a.has_value() || lost(*a)) {
            k.unanswered = true;
            return false;
        }
        if(a->has_value()) {
            // An earlier request to commit it got through meanwhile
            auto e = (*a)->m_error_code;
            VCHECK(k.unanswered && (e == rls::error_code::not_prepared || e == rls::error_code::unknown_ticket), "P05:commit_answer", "commit of a prepared ticket answered " << static_cast<int>(e));
            VCHECK(e == rls::error_code::not_prepared, "P05:prepared_lost", "ticket " << t << " was prepared but is unknown when committed");
        }
        set_committed(t);
        return true;
    }
    void set_committed(uint64_t t) {
        auto& k = tickets.at(t);
        if(!k.committed) {
            n_committed++;
            k.committed = true;
            std::unique_lock<std::mutex> l(w.m);
            auto& x = tx(k.tx);
            x.outcome = ser::tx::committed;
            x.ret = g_clock++;
        }
    }
    bool do_finish(uint64_t t) {
        auto& k = tickets.at(t);
        k.finish_sent = true;
        auto a = ask<iface::finish_return_type>(
            [&](auto cb) {
                return c->finish(t, cb);
            },
            wait_for());
        if(!a.has_value() || lost(*a)) {
            k.unanswered = true;
            return false;
        }
        if(a->has_value()) {
            auto e = (*a)->m_error_code;
            VCHECK(k.unanswered && e == rls::error_code::unknown_ticket, "P05:finish_answer", "finish of a committed ticket answered " << static_cast<int>(e));
        }
        k.gone = true;
        return true;
    }
    void retire(uint64_t t) {
        done[t] = tickets.at(t);
        tickets.erase(t);
    }

    // Ask for the tickets of this broker and bring each to its end.  False:
    // the shard could not be reached or did not answer.
    bool recover() {
        if(!c && !connect()) {
            return false;
        }
        auto before = tickets;
        auto a = ask<iface::get_tickets_return_type>(
            [&](auto cb) {
                return c->get_tickets(id, cb);
            },
            wait_for());
        if(!a.has_value()) {
            return false;
        }
        if(!std::holds_alternative<iface::get_tickets_success_type>(*a)) {
            return false;
        }
        auto& m = std::get<iface::get_tickets_success_type>(*a);
        n_recovered++;
        using st = iface::get_tickets_success_type;
        (void)sizeof(st);
        std::vector<uint64_t> todo;
        for(auto& [t, s] : m) {
            auto kd = done.find(t);
            if(kd != done.end()) {
                // came back: only by a request which was lost on the way
                VCHECK(kd->second.unanswered, "P05:finished_ticket_back", "ticket " << t << " was finished but the shard still has it in state " << static_cast<int>(s));
                VCHECK(!(s == rls::ticket_state::committed) || kd->second.commit_sent, "P05:committed_unasked", "ticket " << t << " is committed though nobody asked for it");
                tickets[t] = kd->second;
                done.erase(kd);
                tickets[t].gone = false;
            }
            auto it = tickets.find(t);
            VCHECK(it != tickets.end(), "P05:foreign_ticket", "broker " << id << " was given ticket " << t << " which is not its own");
            auto& k = it->second;
            switch(s) {
                case rls::ticket_state::committed:
                    VCHECK(k.commit_sent, "P05:committed_unasked", "ticket " << t << " is committed though nobody asked for it");
                    break;
                case rls::ticket_state::prepared:
                    VCHECK(k.prepare_sent, "P05:prepared_unasked", "ticket " << t << " is prepared though nobody asked for it");
                    VCHECK(!k.committed, "P05:commit_lost", "ticket " << t << " had been committed and is only prepared now");
                    break;
                default:
                    VCHECK(!k.committed, "P05:commit_lost", "ticket " << t << " had been committed and is in state " << static_cast<int>(s) << " now");
                    VCHECK(!k.prepared, "P05:prepared_lost", "ticket " << t << " had been prepared and is in state " << static_cast<int>(s) << " now");
                    break;
            }
            todo.push_back(t);
        }
        for(auto& [t, k] : before) {
            if(m.find(t) == m.end()) {
                VCHECK(!k.committed || k.finish_sent, "P05:commit_lost", "ticket " << t << " had been committed, was not finished, and is gone");
                VCHECK(!k.prepared || k.finish_sent || k.rollback_sent, "P05:prepared_lost", "ticket " << t << " had been prepared, was not finished or rolled back, and is gone");
                {
                    // Never prepared as far as the shard knows, or rolled back.
                    std::unique_lock<std::mutex> l(w.m);
                    auto& x = tx(k.tx);
                    if(!k.committed) {
                        VCHECK(!k.commit_sent || k.finish_sent, "P05:prepared_lost", "ticket " << t << " was being committed and is gone");
                        if(x.outcome != ser::tx::committed) {
                            x.outcome = ser::tx::aborted;
                            x.ret = g_clock++;
                        }
                    }
                }
                tickets[t].gone = true;
                retire(t);
            }
        }
        for(auto t : todo) {
            auto& k = tickets.at(t);
            auto s = m.at(t);
            if(s == rls::ticket_state::committed) {
                set_committed(t);
                if(!do_finish(t)) {
                    return false;
                }
                retire(t);
            } else if(s == rls::ticket_state::prepared && k.prepared && !k.rollback_sent && (k.commit_sent || r.chance(60))) {
                if(!do_commit(t) || !do_finish(t)) {
                    return false;
                }
                retire(t);
            } else {
                VCHECK(!k.commit_sent || s == rls::ticket_state::prepared, "P05:prepared_lost", "ticket " << t << " was being committed and is in state " << static_cast<int>(s));
                if(k.commit_sent) {
                    if(!do_commit(t) || !do_finish(t)) {
                        return false;
                    }
                } else if(!do_rollback(t)) {
                    return false;
                }
                retire(t);
            }
        }
        return true;
    }
    // until the shard knows no ticket of this broker
    bool settle(int tries) {
        for(int i = 0; i < tries; i++) {
            if(tickets.empty() && i > 0) {
                return true;
            }
            if(!recover()) {
                c.reset();
                std::this_thread::sleep_for(std::chrono::milliseconds(5));
            }
        }
        return false;
    }

    // One transaction; false: something was not answered.
    bool transaction() {
        auto t = w.next_ticket++;
        auto& k = tickets[t];
        std::map<std::string, bool> want; // key -> write
        for(auto n = r.in(1, std::min<uint64_t>(4, w.keys.size())); n > 0; n--) {
            want[w.keys[r.below(w.keys.size())]] |= r.chance(60);
        }
        {
            std::unique_lock<std::mutex> l(w.m);
            k.tx = w.txs.size();
            ser::tx x;
            x.id = t;
            x.invoke = g_clock++;
            w.txs.push_back(x);
        }
        bool first = true;
        std::map<std::string, std::string> seen;
        for(auto& [key, wr] : want) {
            k.lock_sent = true;
            auto a = ask<iface::try_lock_return_type>(
                [&, kk = vp::buf(key), lt = wr ? rls::lock_type::write : rls::lock_type::read](auto cb) {
                    return c->try_lock(t, id, kk, lt, first, cb);
                },
                wait_for());
            first = false;
            if(!a.has_value()) {
                k.unanswered = true;
                return false;
            }
            if(std::holds_alternative<rls::shard_error>(*a)) {
                auto e = std::get<rls::shard_error>(*a).m_error_code;
                VCHECK(e == rls::error_code::wounded || e == rls::error_code::unknown_ticket || e == rls::error_code::internal_error, "P05:lock_answer", "lock of " << key << " answered " << static_cast<int>(e));
                if(e == rls::error_code::internal_error) {
                    k.unanswered = true;
                    return false;
                }
                auto ok = do_rollback(t);
                if(ok) {
                    retire(t);
                }
                return ok;
            }
            seen[key] = vp::str(std::get<buffer>(*a));
        }
        rls::state_update_type up;
        {
            std::unique_lock<std::mutex> l(w.m);
            auto& x = tx(k.tx);
            x.reads = seen;
            for(auto& [key, wr] : want) {
                if(wr) {
                    auto v = std::to_string(t) + "." + std::string(r.chance(5) ? r.below(3000) : 1, 'v');
                    x.writes[key] = v;
                    up[vp::buf(key)] = vp::buf(v);
                }
            }
        }
        if(r.chance(10)) {
            auto ok = do_rollback(t);
            if(ok) {
                retire(t);
            }
            return ok;
        }
        k.prepare_sent = true;
        auto p = ask<iface::prepare_return_type>(
            [&](auto cb) {
                return c->prepare(t, id, up, cb);
            },
            wait_for());
        if(!p.has_value() || lost(*p)) {
            k.unanswered = true;
            if(p.has_value() && r.chance(50)) {
                // told that it failed: take it back right away
                vh::count("prepare_failed");
                auto ok = do_rollback(t);
                if(ok) {
                    retire(t);
                }
                return ok;
            }
            return false;
        }
        if(p->has_value()) {
            auto e = (*p)->m_error_code;
            VCHECK(e == rls::error_code::wounded || e == rls::error_code::unknown_ticket, "P05:prepare_answer", "prepare answered " << static_cast<int>(e));
            auto ok = do_rollback(t);
            if(ok) {
                retire(t);
            }
            return ok;
        }
        k.prepared = true;
        if(r.chance(10)) {
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        }
        if(r.chance(8)) {
            // this broker stops here, and finds its ticket again
            return false;
        }
        if(!do_commit(t)) {
            return false;
        }
        if(r.chance(8)) {
            return false;
        }
        if(!do_finish(t)) {
            return false;
        }
        retire(t);
        return true;
    }
};

static void cluster(vh::rng& r, uint64_t n_case) {
    auto dir = fs::path(vh::st().scratch) / ("rs" + std::to_string(n_case));
    fs::create_directories(dir);
    auto back = fs::current_path();
    fs::current_path(dir);
    auto n = r.chance(20) ? 1 : 3;
    world w;
    std::vector<network::endpoint_t> reps;
    std::string key;
    for(int i = 0; i < n; i++) {
        reps.push_back(vn::endpoint());
        w.seps.push_back(vn::endpoint());
        key += reps.back().first + ":" + std::to_string(reps.back().second) + ",";
    }
    for(auto k = r.in(2, 8); k > 0; k--) {
        w.keys.push_back("k" + std::to_string(k));
    }
    std::vector<std::unique_ptr<rls::controller>> cs(static_cast<size_t>(n));
    auto start = [&](int i) {
        auto& c = cs[static_cast<size_t>(i)];
        c = std::make_unique<rls::controller>(0, static_cast<size_t>(i), w.seps[static_cast<size_t>(i)], reps, vp::logger());
        VCHECK(c->init(), "P05:cluster_init", "");
    };
    for(int i = 0; i < n; i++) {
        start(i);
    }
    auto c = nuraft::sim::get(key);
    auto elect = [&](vh::rng& q) {
        for(int tries = 0; tries < 50; tries++) {
            if(nuraft::sim::lead(c, static_cast<int>(q.in(1, static_cast<uint64_t>(n))))) {
                return true;
            }
        }
        return false;
    };
    VCHECK(elect(r), "P05:harness", "nobody could be elected");
    std::vector<std::unique_ptr<broker>> bs;
    for(auto k = r.in(1, 4); k > 0; k--) {
        bs.push_back(std::make_unique<broker>(w, bs.size() + 1, r.next()));
    }
    auto per = r.in(5, 60);
    std::vector<std::thread> ts;
    std::atomic<size_t> running{bs.size()};
    for(auto& b : bs) {
        ts.emplace_back([&, p = b.get()] {
            bool clean = p->connect();
            for(size_t i = 0; i < per; i++) {
                if(clean) {
                    clean = p->transaction();
                    vh::count("transactions");
                }
                for(int tries = 0; !clean && tries < 100; tries++) {
                    if(p->r.chance(50)) {
                        p->c.reset(); // with requests outstanding
                    }
                    clean = p->recover();
                    if(!clean) {
                        p->c.reset();
                        std::this_thread::sleep_for(std::chrono::milliseconds(2));
                    }
                }
                vh::tick();
            }
            running--;
        });
    }
    // the replicas fail meanwhile
    uint64_t events = 0;
    auto calm = r.chance(15);
    while(running.load() != 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(r.chance(40) ? 3000 : 60000)));
        if(calm) {
            continue;
        }
        events++;
        switch(r.below(7)) {
            case 0:
                elect(r);
                vh::count("elections");
                break;
            case 1:
                nuraft::sim::depose(c);
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
                elect(r);
                vh::count("elections");
                break;
            case 2: { // the log takes its time
                auto id = static_cast<int>(r.in(1, static_cast<uint64_t>(n)));
                nuraft::sim::hold(c, id, true);
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(20000)));
                if(r.chance(30)) {
                    nuraft::sim::depose(c);
                }
                nuraft::sim::hold(c, id, false);
                elect(r);
                vh::count("held");
                break;
            }
            case 3: { // the leader cannot reach the others
                auto id = c->leader;
                if(n == 3 && id > 0) {
                    nuraft::sim::cut(c, id, true);
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(5000)));
                    elect(r);
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(5000)));
                    nuraft::sim::cut(c, id, false);
                    vh::count("partitions");
                }
                elect(r);
                break;
            }
            case 4: { // a node restarts
                auto i = static_cast<int>(r.below(static_cast<uint64_t>(n)));
                cs[static_cast<size_t>(i)].reset();
                vh::count("restarts");
                if(n == 1) {
                    c->leader = -1;
                    start(i);
                } else if(r.chance(50)) {
                    elect(r);
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(5000)));
                    start(i);
                } else {
                    start(i);
                }
                elect(r);
                break;
            }
            case 5: { // all of them
                for(auto& x : cs) {
                    x.reset();
                }
                vh::count("restarts", static_cast<uint64_t>(n));
                c->leader = -1;
                for(int i = 0; i < n; i++) {
                    start(i);
                }
                elect(r);
                break;
            }
            default:
                c->refuse = true;
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
                c->refuse = false;
                vh::count("refusals");
                break;
        }
    }
    for(auto& t : ts) {
        t.join();
    }
    elect(r);
    uint64_t committed = 0;
    for(auto& b : bs) {
        b->impatient = 0;
        VCHECK(b->settle(200), "P05:unresolved", "broker " << b->id << " could not bring " << b->tickets.size() << " tickets to their end in a healthy cluster");
        committed += b->n_committed;
        vh::count("recoveries", b->n_recovered);
        vh::count("commits_repeated", b->n_recommit);
    }
    // Nothing holds a lock any more, under whichever leader
    std::map<std::string, std::string> fin;
    for(int round = 0; round < 3; round++) {
        broker fb(w, 100 + static_cast<size_t>(round), r.next());
        fb.patience = 20000;
        fb.impatient = 0;
        // The leader listens once it has recovered.
        VCHECK(vn::wait([&] {
                   return fb.connect() && fb.ask<iface::get_tickets_return_type>(
                                              [&](auto cb) {
                                                  return fb.c->get_tickets(fb.id, cb);
                                              },
                                              1000)
                                              .has_value();
               }),
               "P05:unreachable", "");
        auto t = w.next_ticket++;
        bool first = true;
        for(auto& k : w.keys) {
            auto a = fb.ask<iface::try_lock_return_type>(
                [&](auto cb) {
                    return fb.c->try_lock(t, fb.id, vp::buf(k), rls::lock_type::write, first, cb);
                },
                20000);
            first = false;
            VCHECK(a.has_value(), "P05:lock_leaked", "key " << k << " cannot be locked although every ticket was finished");
            VCHECK(std::holds_alternative<buffer>(*a), "P05:final_lock", "key " << k << " answered " << static_cast<int>(std::get<rls::shard_error>(*a).m_error_code));
            if(!a.has_value() || !std::holds_alternative<buffer>(*a)) {
                continue;
            }
            auto v = vp::str(std::get<buffer>(*a));
            if(round > 0) {
                VCHECK(fin[k] == v, "P05:leaders_differ", "key " << k << " is " << v.substr(0, 20) << " under one leader and " << fin[k].substr(0, 20) << " under another");
            }
            fin[k] = v;
            vh::count("final_reads");
        }
        auto a = fb.ask<iface::rollback_return_type>(
            [&](auto cb) {
                return fb.c->rollback(t, cb);
            },
            20000);
        VCHECK(a.has_value() && !a->has_value(), "P05:final_rollback", "");
        fb.c.reset();
        if(n == 1) {
            cs[0].reset();
            c->leader = -1;
            start(0);
        }
        nuraft::sim::depose(c);
        elect(r);
    }
    std::vector<ser::tx> hist;
    for(auto& x : w.txs) {
        hist.push_back(x);
    }
    auto res = ser::check(hist, fin);
    VCHECK(res.key.empty(), "P05:history:" + res.key, res.detail.substr(0, 300));
    vh::count("committed", committed);
    vh::count("edges", res.edges);
    vh::distinct(vh::mix(vh::mix(committed, events), hist.size()));
    vh::sample("brokers=" + std::to_string(bs.size()) + " replicas=" + std::to_string(n) + " transactions=" + std::to_string(hist.size()) + " committed=" + std::to_string(committed) + " disturbances=" + std::to_string(events));
    bs.clear();
    cs.clear();
    nuraft::sim::forget_all();
    fs::current_path(back);
    fs::remove_all(dir);
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("replicated shard");
    nuraft::sim::auto_lead() = false;
    vh::run_cases([&](vh::rng& r, uint64_t n) {
        cluster(r, n);
    });
    return vh::finish();
}
