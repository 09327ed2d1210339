// Lock discipline of one programmable-part shard, checked after every call
// against a ledger of who holds what; plus (mode threads) concurrent
// transactions over several shards whose recorded history must be strictly
// serializable.
#include "hparsec.hpp"

#include <condition_variable>

using namespace vp;
using rls::lock_type;
using ticket_t = rls::ticket_number_type;
using EC = rls::error_code;

namespace {
    enum class ts { begun, wounded, prepared, committed };
    struct queued_req {
        std::string key;
        lock_type type;
        int tag;
    };
    struct tk {
        ts st{ts::begun};
        uint64_t broker{};
        std::map<std::string, lock_type> held;
        std::map<std::string, queued_req> queued;
        std::map<std::string, std::string> upd;
        ticket_t wounder{};
        std::string wkey;
    };
    struct fired {
        int tag;
        rls::interface::try_lock_return_type res;
    };
    std::string ecs(EC e) {
        return std::to_string(static_cast<int>(e));
    }

    struct sim {
        vh::rng& r;
        std::shared_ptr<rls::impl> sh;
        std::shared_ptr<rls::replicated_shard> repl;
        std::map<ticket_t, tk> T;
        std::map<std::string, std::string> V;
        std::vector<fired> fires;
        std::map<int, std::pair<ticket_t, std::string>> tags; // live tags
        int next_tag{1};
        uint64_t seq{};
        std::ostringstream log;
        uint64_t fp{7};
        bool failed{false};
        int reentrant{0};
        explicit sim(vh::rng& rr)
            : r(rr),
              sh(std::make_shared<rls::impl>(logger())),
              repl(std::make_shared<rls::replicated_shard>()) {}
        void bad(const std::string& k, const std::string& d) {
            failed = true;
            vh::report(k, d + " | " + log.str());
        }
        static bool conflict(lock_type a, lock_type b) {
            return a == lock_type::write || b == lock_type::write;
        }
        std::map<ticket_t, rls::ticket_state> states() {
            std::map<ticket_t, rls::ticket_state> s;
            for(uint64_t b = 0; b < 3; b++) {
                bool cb = false;
                sh->get_tickets(b, [&](rls::interface::get_tickets_return_type x) {
                    cb = true;
                    if(std::holds_alternative<rls::interface::get_tickets_success_type>(x)) {
                        for(auto& [t, st] : std::get<rls::interface::get_tickets_success_type>(x)) {
                            s[t] = st;
                            auto it = T.find(t);
                            if(it != T.end() && it->second.broker != b) {
                                bad("ticket-owner", "ticket listed for the wrong broker");
                            }
                        }
                    } else {
                        bad("get-tickets", "get_tickets failed");
                    }
                });
                if(!cb) {
                    bad("get-tickets", "no answer");
                }
            }
            return s;
        }
        rls::interface::try_lock_callback_type cbfor(int tag) {
            return [this, tag](rls::interface::try_lock_return_type x) {
                fires.push_back({tag, std::move(x)});
                if(reentrant > 0) {
                    reentrant--;
                    // the callback may use the shard again
                    sh->get_tickets(0, [](rls::interface::get_tickets_return_type) {});
                    vh::count("reentrant_calls");
                }
            };
        }
        // Applies wounds and grants seen after an operation and checks them.
        // req: requester and key when the operation was an accepted try_lock.
        void settle(std::optional<std::pair<ticket_t, std::string>> req,
                    std::optional<ticket_t> rolled_back,
                    const std::map<std::string, queued_req>& rb_queued) {
            auto s = states();
            // wounds
            for(auto& [t, m] : T) {
                auto it = s.find(t);
                if(it == s.end()) {
                    bad("ticket-lost", "ticket " + std::to_string(t) + " vanished from the shard");
                    return;
                }
                auto want = m.st;
                if(it->second == rls::ticket_state::wounded && m.st == ts::begun) {
                    if(!req) {
                        bad("wounded-without-request", "ticket " + std::to_string(t) + " wounded with no older request");
                        return;
                    }
                    auto [rt, rk] = *req;
                    auto q = T.at(rt).queued.find(rk);
                    auto h = m.held.find(rk);
                    if(!(rt < t)) {
                        bad("wounded-by-younger", "ticket " + std::to_string(t) + " wounded by " + std::to_string(rt));
                    } else if(q == T.at(rt).queued.end() || h == m.held.end() || !conflict(q->second.type, h->second)) {
                        bad("wounded-needlessly", "ticket " + std::to_string(t) + " wounded though it did not block " + std::to_string(rt) + " on " + rk);
                    }
                    m.st = ts::wounded;
                    m.wounder = rt;
                    m.wkey = rk;
                    m.held.clear();
                    want = ts::wounded;
                    vh::count("wounds");
                }
                static const std::map<ts, rls::ticket_state> mp{{ts::begun, rls::ticket_state::begun},
                                                                {ts::wounded, rls::ticket_state::wounded},
                                                                {ts::prepared, rls::ticket_state::prepared},
                                                                {ts::committed, rls::ticket_state::committed}};
                if(it->second != mp.at(want)) {
                    bad("ticket-state", "ticket " + std::to_string(t) + " is in state " + std::to_string(static_cast<int>(it->second)) + " expected "
                                            + std::to_string(static_cast<int>(mp.at(want))));
                    return;
                }
            }
            for(auto& [t, st] : s) {
                if(T.count(t) == 0) {
                    bad("ticket-invented", "ticket " + std::to_string(t) + " should not exist");
                    return;
                }
            }
            // answers
            std::map<int, size_t> abort_of; // tags answered 'wounded'
            for(auto& f : fires) {
                auto tg = tags.find(f.tag);
                if(tg == tags.end()) {
                    bad("answered-twice", "lock request answered more than once");
                    continue;
                }
                auto [t, k] = tg->second;
                tags.erase(tg);
                if(std::holds_alternative<rls::shard_error>(f.res)) {
                    auto& e = std::get<rls::shard_error>(f.res);
                    bool rb = rolled_back && *rolled_back == t;
                    if(e.m_error_code != EC::wounded || (!rb && T.at(t).st != ts::wounded)) {
                        bad("lock-answer", "queued request of " + std::to_string(t) + " failed with code " + ecs(e.m_error_code));
                    } else if(!rb
                              && (!e.m_wounded_details.has_value() || e.m_wounded_details->m_wounding_ticket != T.at(t).wounder
                                  || str(e.m_wounded_details->m_wounding_key) != T.at(t).wkey)) {
                        bad("wound-details", "wrong wound details for " + std::to_string(t));
                    }
                    if(!rb) {
                        T.at(t).queued.erase(k);
                    }
                    vh::count("queued_aborted");
                    continue;
                }
                if(T.count(t) == 0) {
                    bad("granted-to-dead", "lock granted to ended ticket");
                    continue;
                }
                auto& m = T.at(t);
                if(m.st != ts::begun) {
                    bad("granted-to-dead", "lock granted to a ticket that is not running");
                    continue;
                }
                auto q = m.queued.find(k);
                m.held[k] = q->second.type;
                m.queued.erase(q);
                auto v = str(std::get<buffer>(f.res));
                if(v != V[k]) {
                    bad("read-value", "ticket " + std::to_string(t) + " was given " + v + " for " + k + ", committed value is " + V[k]);
                }
                vh::count("grants");
                fp = vh::mix(fp, t * 31 + std::hash<std::string>{}(k));
            }
            fires.clear();
            // every queued request of a wounded ticket must have been answered
            for(auto& [t, m] : T) {
                if(m.st == ts::wounded && !m.queued.empty()) {
                    bad("queued-forgotten", "wounded ticket's queued request got no answer");
                }
            }
            if(rolled_back) {
                for(auto& [k, q] : rb_queued) {
                    if(tags.count(q.tag) != 0) {
                        bad("queued-forgotten", "rolled back ticket's queued request got no answer");
                    }
                }
            }
            invariants();
        }
        void invariants() {
            std::map<std::string, std::vector<std::pair<ticket_t, lock_type>>> holders;
            std::map<std::string, std::map<ticket_t, lock_type>> queue;
            for(auto& [t, m] : T) {
                if(m.st == ts::wounded || m.st == ts::committed) {
                    continue;
                }
                for(auto& [k, l] : m.held) {
                    holders[k].push_back({t, l});
                }
                for(auto& [k, q] : m.queued) {
                    queue[k][t] = q.type;
                }
            }
            for(auto& [k, hs] : holders) {
                for(size_t i = 0; i < hs.size(); i++) {
                    for(size_t j = i + 1; j < hs.size(); j++) {
                        if(conflict(hs[i].second, hs[j].second)) {
                            bad("conflicting-holders", "tickets " + std::to_string(hs[i].first) + " and " + std::to_string(hs[j].first) + " both hold " + k);
                        }
                    }
                }
            }
            for(auto& [k, q] : queue) {
                bool front = true;
                for(auto& [t, l] : q) {
                    bool blocked = false;
                    for(auto& [h, hl] : holders[k]) {
                        if(h == t || !conflict(l, hl)) {
                            continue;
                        }
                        blocked = true;
                        if(h > t && T.at(h).st != ts::prepared) {
                            bad("older-waits-on-younger",
                                "ticket " + std::to_string(t) + " waits for younger unprepared " + std::to_string(h) + " on " + k);
                        }
                    }
                    if(front && !blocked) {
                        bad("grant-missed", "ticket " + std::to_string(t) + " first in line for free key " + k + " was not granted");
                    }
                    front = false;
                    vh::count("waiting_checked");
                }
            }
        }
        void expect_err(const std::optional<rls::shard_error>& got, std::optional<EC> want, const char* op) {
            std::optional<EC> g;
            if(got) {
                g = got->m_error_code;
            }
            if(g != want) {
                bad(std::string(op) + "-answer",
                    std::string(op) + " answered " + (g ? ecs(*g) : "ok") + " expected " + (want ? ecs(*want) : "ok"));
            }
        }
        void try_lock(ticket_t t, const std::string& k, lock_type l, bool plain = false) {
            auto it = T.find(t);
            bool first = it == T.end();
            if(first && !plain && r.chance(10)) {
                first = false;
            }
            std::optional<EC> want;
            auto broker = it == T.end() ? r.below(3) : it->second.broker;
            if(it == T.end() && !first) {
                want = EC::unknown_ticket;
            } else if(it != T.end()) {
                auto& m = it->second;
                if(m.st == ts::prepared) {
                    want = EC::prepared;
                } else if(m.st == ts::committed) {
                    want = EC::committed;
                } else if(m.st == ts::wounded) {
                    want = EC::wounded;
                } else if(m.held.count(k) != 0 && m.held[k] >= l) {
                    want = EC::lock_held;
                } else if(m.queued.count(k) != 0) {
                    want = EC::lock_queued;
                }
            }
            log << " lock(" << t << "," << k << "," << (l == lock_type::write ? "W" : "R") << (first ? ",first" : "") << ")";
            int tag = next_tag++;
            reentrant = static_cast<int>(r.below(2));
            if(want) {
                auto ok = sh->try_lock(t, broker, buf(k), l, first, cbfor(tag));
                if(!ok || fires.size() != 1 || fires[0].tag != tag
                   || !std::holds_alternative<rls::shard_error>(fires[0].res)) {
                    bad("try_lock-answer", "refusable try_lock was not refused (expected code " + ecs(*want) + ")");
                    fires.clear();
                    return;
                }
                expect_err(std::get<rls::shard_error>(fires[0].res), want, "try_lock");
                if(*want == EC::wounded) {
                    auto& e = std::get<rls::shard_error>(fires[0].res);
                    if(!e.m_wounded_details || e.m_wounded_details->m_wounding_ticket != T.at(t).wounder) {
                        bad("wound-details", "wrong wound details");
                    }
                }
                fires.clear();
                settle({}, {}, {});
                vh::count("refusals");
                return;
            }
            if(first) {
                T[t].broker = broker;
            }
            T[t].queued[k] = queued_req{k, l, tag};
            tags[tag] = {t, k};
            sh->try_lock(t, broker, buf(k), l, first, cbfor(tag));
            vh::count("lock_requests");
            settle(std::make_pair(t, k), {}, {});
        }
        void prepare(ticket_t t) {
            auto it = T.find(t);
            rls::state_update_type u;
            std::map<std::string, std::string> mu;
            std::optional<EC> want;
            std::set<EC> either;
            if(it == T.end()) {
                want = EC::unknown_ticket;
            } else {
                auto& m = it->second;
                bool hostile = r.chance(15);
                for(int i = 0; i < 5; i++) {
                    std::string k = "k" + std::to_string(i);
                    auto h = m.held.find(k);
                    bool ok = h != m.held.end() && h->second == lock_type::write;
                    if((ok && r.chance(80)) || (hostile && r.chance(30))) {
                        auto v = "v" + std::to_string(t) + "." + std::to_string(seq++);
                        u.emplace(buf(k), buf(v));
                        mu[k] = v;
                        if(!ok) {
                            either.insert(h == m.held.end() ? EC::lock_not_held : EC::state_update_with_read_lock);
                        }
                    }
                }
                if(m.st == ts::prepared) {
                    want = EC::prepared;
                } else if(m.st == ts::committed) {
                    want = EC::committed;
                } else if(m.st == ts::wounded) {
                    want = EC::wounded;
                } else if(!m.queued.empty()) {
                    want = EC::lock_queued;
                }
            }
            log << " prepare(" << t << "," << mu.size() << ")";
            std::optional<rls::shard_error> got;
            int n = 0;
            auto uu = u;
            sh->prepare(t, it == T.end() ? 0 : it->second.broker, u, [&](rls::interface::prepare_return_type x) {
                n++;
                got = x;
            });
            if(n != 1) {
                bad("answered-twice", "prepare answered " + std::to_string(n) + " times");
                return;
            }
            if(!want && !either.empty()) {
                if(!got || either.count(got->m_error_code) == 0) {
                    bad("prepare-answer", "an update for a key without a write lock was accepted");
                }
                vh::count("prepare_refused");
            } else {
                expect_err(got, want, "prepare");
                if(want == EC::wounded && (!got->m_wounded_details || got->m_wounded_details->m_wounding_ticket != it->second.wounder)) {
                    bad("wound-details", "wrong wound details in prepare");
                }
                if(!want && !got) {
                    it->second.st = ts::prepared;
                    it->second.upd = mu;
                    repl->prepare(t, it->second.broker, uu, [&](rls::replicated_shard::return_type x) {
                        if(x) {
                            bad("replicated-prepare", "refused");
                        }
                    });
                    vh::count("prepared");
                }
            }
            settle({}, {}, {});
        }
        void commit(ticket_t t) {
            auto it = T.find(t);
            std::optional<EC> want;
            if(it == T.end()) {
                want = EC::unknown_ticket;
            } else if(it->second.st != ts::prepared) {
                want = EC::not_prepared;
            } else {
                for(auto& [k, v] : it->second.upd) {
                    V[k] = v;
                }
                it->second.st = ts::committed;
                it->second.held.clear();
                repl->commit(t, [&](rls::replicated_shard::return_type x) {
                    if(x) {
                        bad("replicated-commit", "refused");
                    }
                });
                vh::count("commits");
            }
            log << " commit(" << t << ")";
            int n = 0;
            std::optional<rls::shard_error> got;
            reentrant = static_cast<int>(r.below(2));
            sh->commit(t, [&](rls::interface::commit_return_type x) {
                n++;
                got = x;
            });
            if(n != 1) {
                bad("answered-twice", "commit answered " + std::to_string(n) + " times");
            }
            expect_err(got, want, "commit");
            settle({}, {}, {});
        }
        void rollback(ticket_t t) {
            auto it = T.find(t);
            std::optional<EC> want;
            std::map<std::string, queued_req> q;
            if(it == T.end()) {
                want = EC::unknown_ticket;
            } else {
                q = it->second.queued;
                T.erase(it);
                repl->finish(t, [](rls::replicated_shard::return_type) {});
                vh::count("rollbacks");
            }
            log << " rollback(" << t << ")";
            int n = 0;
            std::optional<rls::shard_error> got;
            reentrant = static_cast<int>(r.below(2));
            sh->rollback(t, [&](rls::interface::rollback_return_type x) {
                n++;
                got = x;
            });
            if(n != 1) {
                bad("answered-twice", "rollback answered " + std::to_string(n) + " times");
            }
            expect_err(got, want, "rollback");
            settle({}, t, q);
        }
        void finish(ticket_t t) {
            auto it = T.find(t);
            std::optional<EC> want;
            if(it == T.end()) {
                want = EC::unknown_ticket;
            } else if(it->second.st != ts::committed) {
                want = EC::not_committed;
            } else {
                T.erase(it);
                repl->finish(t, [](rls::replicated_shard::return_type) {});
                vh::count("finishes");
            }
            log << " finish(" << t << ")";
            int n = 0;
            std::optional<rls::shard_error> got;
            sh->finish(t, [&](rls::interface::finish_return_type x) {
                n++;
                got = x;
            });
            if(n != 1) {
                bad("answered-twice", "finish answered " + std::to_string(n) + " times");
            }
            expect_err(got, want, "finish");
            settle({}, {}, {});
        }
        // The shard dies; another takes over from what was replicated.
        void failover() {
            log << " failover()";
            rls::replicated_shard::tickets_type tks;
            repl->get_tickets([&](rls::replicated_shard_interface::get_tickets_return_type x) {
                tks = std::get<rls::replicated_shard::tickets_type>(x);
            });
            auto ns = std::make_shared<rls::impl>(logger());
            if(!ns->recover(repl->get_state(), tks)) {
                bad("recover", "recovery of an empty shard refused");
                return;
            }
            sh = ns;
            fires.clear();
            tags.clear();
            for(auto it = T.begin(); it != T.end();) {
                if(it->second.st == ts::begun || it->second.st == ts::wounded) {
                    it = T.erase(it);
                } else {
                    it->second.queued.clear();
                    it->second.held.clear();
                    if(it->second.st == ts::prepared) {
                        for(auto& [k, v] : it->second.upd) {
                            it->second.held[k] = lock_type::write;
                        }
                    }
                    ++it;
                }
            }
            vh::count("failovers");
            settle({}, {}, {});
        }
        void drain() {
            // all tickets end; afterwards every key must be free and hold V
            std::vector<ticket_t> ids;
            for(auto& [t, m] : T) {
                ids.push_back(t);
            }
            r.shuffle(ids);
            for(auto t : ids) {
                if(failed) {
                    return;
                }
                if(T.at(t).st == ts::prepared) {
                    if(r.chance(50)) {
                        commit(t);
                    } else {
                        rollback(t);
                        continue;
                    }
                }
                if(T.at(t).st == ts::committed) {
                    finish(t);
                } else {
                    rollback(t);
                }
            }
            for(int i = 0; i < 5 && !failed; i++) {
                try_lock(100000 + static_cast<ticket_t>(i), "k" + std::to_string(i), lock_type::write, true);
                if(!failed && T.at(100000 + static_cast<ticket_t>(i)).held.empty()) {
                    bad("lock-leak", "a key stayed locked after every ticket ended");
                }
            }
        }
    };

    void one(vh::rng& r, uint64_t) {
        vh::guard g("shard");
        sim s(r);
        size_t ops = 20 + r.below(120);
        ticket_t base = 1;
        for(size_t i = 0; i < ops && !s.failed; i++) {
            // six recent ticket numbers are in play
            if(r.chance(12)) {
                base++;
            }
            ticket_t t = base + r.below(6);
            if(!s.T.empty() && r.chance(50)) {
                auto it = s.T.begin();
                std::advance(it, static_cast<long>(r.below(s.T.size())));
                t = it->first;
            }
            std::string k = "k" + std::to_string(r.below(r.chance(50) ? 2 : 5));
            auto x = r.below(100);
            if(x < 55) {
                s.try_lock(t, k, r.chance(55) ? lock_type::write : lock_type::read);
            } else if(x < 72) {
                s.prepare(t);
            } else if(x < 84) {
                s.commit(t);
            } else if(x < 91) {
                s.rollback(t);
            } else if(x < 98) {
                s.finish(t);
            } else {
                s.failover();
            }
            vh::tick();
        }
        if(!s.failed) {
            s.drain();
        }
        vh::distinct(vh::hashs(s.log.str(), s.fp));
        vh::sample(s.log.str().substr(0, 400));
    }

    // ---- concurrent transactions over real shards --------------------------
    void threads_case(vh::rng& r, uint64_t) {
        vh::guard g("shard-threads");
        size_t ns = 1 + r.below(3);
        std::vector<std::shared_ptr<rls::impl>> shards;
        for(size_t i = 0; i < ns; i++) {
            shards.push_back(std::make_shared<rls::impl>(logger()));
        }
        size_t nk = 2 + r.below(5);
        size_t nt = 3 + r.below(4);
        std::atomic<uint64_t> clock{1};
        std::atomic<ticket_t> tickets{1};
        std::mutex hm;
        std::vector<ser::tx> hist;
        std::vector<std::thread> ths;
        std::atomic<uint64_t> commits{0}, aborts{0};
        for(size_t ti = 0; ti < nt; ti++) {
            auto seed = r.next();
            ths.emplace_back([&, seed] {
                vh::rng q(seed);
                size_t ntx = 6 + q.below(6);
                for(size_t n = 0; n < ntx; n++) {
                    auto t = tickets.fetch_add(1);
                    auto inv = clock++;
                    std::vector<std::pair<size_t, lock_type>> plan;
                    size_t len = 1 + q.below(4);
                    for(size_t i = 0; i < len; i++) {
                        plan.push_back({q.below(nk), q.chance(50) ? lock_type::write : lock_type::read});
                    }
                    for(int attempt = 0;; attempt++) {
                        struct one_res {
                            std::mutex m;
                            std::condition_variable c;
                            std::optional<rls::interface::try_lock_return_type> v;
                        };
                        ser::tx x;
                        x.id = t;
                        x.invoke = inv;
                        std::set<size_t> touched;
                        std::map<size_t, lock_type> have;
                        bool ok = true;
                        for(auto& [k, l] : plan) {
                            auto hv = have.find(k);
                            if(hv != have.end() && hv->second >= l) {
                                continue;
                            }
                            auto res = std::make_shared<one_res>();
                            auto si = k % ns;
                            auto kn = "k" + std::to_string(k);
                            shards[si]->try_lock(t, 0, buf(kn), l, touched.insert(si).second,
                                                 [res](rls::interface::try_lock_return_type v) {
                                                     std::unique_lock<std::mutex> lk(res->m);
                                                     res->v = std::move(v);
                                                     res->c.notify_all();
                                                 });
                            std::unique_lock<std::mutex> lk(res->m);
                            res->c.wait(lk, [&] { return res->v.has_value(); });
                            if(std::holds_alternative<rls::shard_error>(*res->v)) {
                                auto e = std::get<rls::shard_error>(*res->v).m_error_code;
                                if(e != EC::wounded) {
                                    vh::report("threads-lock-answer", "unexpected answer " + ecs(e));
                                }
                                ok = false;
                                break;
                            }
                            auto v = str(std::get<buffer>(*res->v));
                            auto old = x.reads.find(kn);
                            if(old != x.reads.end() && old->second != v) {
                                vh::report("upgrade-not-repeatable", "value changed while a read lock was held");
                            }
                            x.reads[kn] = v;
                            have[k] = l;
                            vh::tick();
                        }
                        if(ok && q.chance(6)) {
                            ok = false; // changes its mind
                            for(auto si : touched) {
                                shards[si]->rollback(t, [](rls::interface::rollback_return_type) {});
                            }
                            x.outcome = ser::tx::aborted;
                            std::unique_lock<std::mutex> lk(hm);
                            hist.push_back(x);
                            break;
                        }
                        if(ok) {
                            for(auto& [k, l] : have) {
                                if(l == lock_type::write) {
                                    x.writes["k" + std::to_string(k)] = "v" + std::to_string(t) + "a" + std::to_string(attempt);
                                }
                            }
                            for(auto si : touched) {
                                rls::state_update_type u;
                                for(auto& [k, v] : x.writes) {
                                    if(std::stoul(k.substr(1)) % ns == si) {
                                        u.emplace(buf(k), buf(v));
                                    }
                                }
                                shards[si]->prepare(t, 0, u, [&](rls::interface::prepare_return_type p) {
                                    if(p) {
                                        ok = false;
                                        if(p->m_error_code != EC::wounded) {
                                            vh::report("threads-prepare-answer", ecs(p->m_error_code));
                                        }
                                    }
                                });
                                if(!ok) {
                                    break;
                                }
                            }
                        }
                        if(!ok) {
                            for(auto si : touched) {
                                shards[si]->rollback(t, [](rls::interface::rollback_return_type) {});
                            }
                            aborts++;
                            if(!x.writes.empty()) {
                                x.outcome = ser::tx::aborted;
                                std::unique_lock<std::mutex> lk(hm);
                                hist.push_back(x);
                            }
                            continue;
                        }
                        for(auto si : touched) {
                            shards[si]->commit(t, [&](rls::interface::commit_return_type c) {
                                if(c) {
                                    vh::report("threads-commit-answer", ecs(c->m_error_code));
                                }
                            });
                        }
                        x.ret = clock++;
                        x.outcome = ser::tx::committed;
                        for(auto si : touched) {
                            shards[si]->finish(t, [&](rls::interface::finish_return_type c) {
                                if(c) {
                                    vh::report("threads-finish-answer", ecs(c->m_error_code));
                                }
                            });
                        }
                        commits++;
                        std::unique_lock<std::mutex> lk(hm);
                        hist.push_back(x);
                        break;
                    }
                }
            });
        }
        for(auto& t : ths) {
            t.join();
        }
        std::map<std::string, std::string> fin;
        for(size_t k = 0; k < nk; k++) {
            auto kn = "k" + std::to_string(k);
            bool got = false;
            shards[k % ns]->try_lock(1000000 + k, 0, buf(kn), lock_type::read, true,
                                     [&](rls::interface::try_lock_return_type v) {
                                         got = std::holds_alternative<buffer>(v);
                                         if(got) {
                                             fin[kn] = str(std::get<buffer>(v));
                                         }
                                     });
            if(!got) {
                vh::report("lock-leak", "key still locked after all transactions ended");
            }
        }
        auto c = ser::check(hist, fin);
        if(!c.key.empty()) {
            vh::report(c.key, c.detail);
        }
        vh::count("concurrent_commits", commits);
        vh::count("concurrent_restarts", aborts);
        vh::count("conflict_edges", c.edges);
        uint64_t f = 0;
        for(auto& x : hist) {
            f = vh::mix(f, x.id);
        }
        vh::distinct(f);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    if(vh::st().mode == "threads") {
        vh::run_cases(threads_case);
    } else {
        vh::run_cases(one);
    }
    return vh::finish();
}
