// One real broker over scripted shards that record every command they get.
//  mode ""       answers come back in any order (first-in first-out per shard)
//  mode sync     answers come back before the call returns
//  mode faults   shards also refuse, fail or cannot be reached
//  mode recover  a new broker takes over whatever tickets the shards report
//  mode threads  many clients and answering threads
#include "psim.hpp"

namespace {
    using namespace vp;
    using broker_t = cbdc::parsec::broker::impl;
    using bi = cbdc::parsec::broker::interface;
    using tn_t = rls::ticket_number_type;

    struct per_shard {
        std::set<std::string> asked;
        bool prep_sent{}, prep_ok{}, prep_bad{};
        bool com_sent{}, com_ok{};
        bool rb_sent{}, rb_ok{};
        bool fin_sent{}, fin_ok{};
        std::map<std::string, std::string> upd;
    };
    struct tstate {
        std::map<size_t, per_shard> sh;
        std::map<std::string, std::string> granted; // key -> value
        std::map<std::string, rls::lock_type> gtype;
        std::set<std::string> waiting; // asked, not granted
        std::map<std::string, std::string> updates;
        bool committing{};
        bool rolling{};
        bool recovery{};
        std::vector<std::function<void()>> parked; // queued lock answers by shard
        std::vector<size_t> parked_shard;
        std::ostringstream log;
    };
    struct mon {
        std::mutex m;
        std::map<tn_t, tstate> t;
        bool faults{};
        bool failed{};
        uint64_t order{3};
        std::atomic<uint64_t> prepares{}, commits{}, rollbacks{}, finishes{}, refused{};
        void bad(tn_t n, const std::string& k, const std::string& d) {
            failed = true;
            vh::report(k, d + " ticket " + std::to_string(n) + " |" + t[n].log.str());
        }
    };
    mon* M{nullptr};
    constexpr uint64_t my_id = 7;

    struct fshard : rls::interface {
        size_t idx;
        bus& b;
        size_t ch;
        bool sync;
        vh::rng r;
        std::mutex rm;
        bool threaded{false};
        rls::interface::get_tickets_success_type reported;
        bool deaf{false};
        fshard(size_t i, bus& bb, bool s, uint64_t seed) : idx(i), b(bb), ch(bb.add()), sync(s), r(seed) {}
        bool roll(unsigned pct) {
            std::unique_lock<std::mutex> l(rm);
            return r.chance(pct);
        }
        void answer(std::function<void()> f) {
            if(sync) {
                f();
            } else {
                b.push(ch, std::move(f));
            }
        }
        bool unreachable(unsigned pct) { return M->faults && roll(pct); }
        static rls::shard_error werr() { return rls::shard_error{rls::error_code::wounded, rls::wounded_details{1, {}}}; }

        bool try_lock(tn_t n, rls::broker_id_type br, rls::key_type k, rls::lock_type lt, bool first, try_lock_callback_type cb) override {
            auto key = str(k);
            std::unique_lock<std::mutex> l(M->m);
            auto& t = M->t[n];
            auto& s = t.sh[idx];
            t.log << " lock(" << idx << "," << key << "," << (lt == rls::lock_type::write ? "w" : "r") << ")";
            if(br != my_id) {
                M->bad(n, "wrong-broker-id", "lock request names broker " + std::to_string(br));
            }
            if(!M->faults && first != s.asked.empty()) {
                M->bad(n, "wrong-first-lock-flag", std::string("first_lock is ") + (first ? "true" : "false") + " for request number " + std::to_string(s.asked.size() + 1));
            }
            if(s.prep_sent || s.com_sent || (s.rb_sent && !s.rb_ok)) {
                M->bad(n, "lock-after-prepare", "lock request after prepare/commit/rollback");
            }
            s.asked.insert(key);
            t.waiting.insert(key);
            if(unreachable(5)) {
                return false;
            }
            bool wound = !s.asked.empty() && roll(8);
            bool park = !sync && roll(15);
            auto v = "val" + std::to_string(idx) + "-" + key + "-" + std::to_string(n);
            auto go = [this, n, key, lt, v, cb, wound] {
                if(!wound) {
                    std::unique_lock<std::mutex> g(M->m);
                    auto& tt = M->t[n];
                    tt.granted[key] = v;
                    tt.gtype[key] = lt;
                    tt.waiting.erase(key);
                }
                if(wound) {
                    cb(werr());
                } else {
                    cb(buf(v));
                }
            };
            if(park) {
                t.parked.push_back(go);
                t.parked_shard.push_back(idx);
                l.unlock();
                return true;
            }
            l.unlock();
            answer(go);
            return true;
        }
        bool prepare(tn_t n, rls::broker_id_type br, rls::state_update_type u, prepare_callback_type cb) override {
            std::unique_lock<std::mutex> l(M->m);
            M->prepares++;
            auto& t = M->t[n];
            auto& s = t.sh[idx];
            t.log << " prepare(" << idx << "," << u.size() << ")";
            if(br != my_id) {
                M->bad(n, "wrong-broker-id", "prepare names broker " + std::to_string(br));
            }
            if(!t.waiting.empty()) {
                M->bad(n, "prepare-while-waiting", "prepare while a lock was not granted");
            }
            if(s.rb_sent || s.com_sent || (s.prep_sent && !M->faults)) {
                M->bad(n, "prepare-out-of-order", "prepare sent after prepare, commit or rollback");
            }
            std::map<std::string, std::string> got, want;
            for(auto& [k, v] : u) {
                got[str(k)] = str(v);
            }
            for(auto& [k, v] : t.updates) {
                if(s.asked.count(k) != 0) {
                    want[k] = v;
                }
            }
            if(got != want) {
                M->bad(n, "prepare-wrong-updates", "shard " + std::to_string(idx) + " was asked to prepare updates other than those to its keys");
            }
            s.prep_sent = true;
            s.upd = got;
            if(unreachable(6)) {
                return false;
            }
            bool wound = roll(10);
            bool err = !wound && M->faults && roll(6);
            l.unlock();
            answer([=, this] {
                {
                    std::unique_lock<std::mutex> g(M->m);
                    auto& ss = M->t[n].sh[idx];
                    M->t[n].log << (wound || err ? " nack(" : " ack(") << idx << ")";
                    (wound || err ? ss.prep_bad : ss.prep_ok) = true;
                }
                if(wound) {
                    M->refused++;
                    cb(werr());
                } else if(err) {
                    M->refused++;
                    cb(rls::shard_error{rls::error_code::internal_error, std::nullopt});
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        bool commit(tn_t n, commit_callback_type cb) override {
            std::unique_lock<std::mutex> l(M->m);
            M->commits++;
            auto& t = M->t[n];
            auto& s = t.sh[idx];
            t.log << " commit(" << idx << ")";
            for(auto& [i, o] : t.sh) {
                if(!o.asked.empty() && !o.prep_ok) {
                    M->bad(n, "commit-before-prepared", "commit sent to shard " + std::to_string(idx) + " though shard " + std::to_string(i) + " has not prepared");
                }
                if(o.rb_sent) {
                    M->bad(n, "commit-after-rollback", "commit sent to shard " + std::to_string(idx) + " after a rollback was sent");
                }
            }
            if(!t.committing) {
                M->bad(n, "commit-not-asked", "commit sent to a shard though no commit is in progress");
            }
            if(s.com_ok && !M->faults) {
                M->bad(n, "commit-repeated", "commit sent again to a shard that committed");
            }
            s.com_sent = true;
            if(unreachable(6)) {
                return false;
            }
            bool err = M->faults && roll(6);
            l.unlock();
            answer([=, this] {
                {
                    std::unique_lock<std::mutex> g(M->m);
                    if(!err) {
                        M->t[n].sh[idx].com_ok = true;
                    }
                }
                if(err) {
                    cb(rls::shard_error{rls::error_code::internal_error, std::nullopt});
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        bool rollback(tn_t n, rollback_callback_type cb) override {
            std::unique_lock<std::mutex> l(M->m);
            M->rollbacks++;
            auto& t = M->t[n];
            auto& s = t.sh[idx];
            t.log << " rollback(" << idx << ")";
            for(auto& [i, o] : t.sh) {
                if(o.com_sent || o.com_ok) {
                    M->bad(n, "rollback-after-commit", "rollback sent to shard " + std::to_string(idx) + " after shard " + std::to_string(i) + " was told to commit");
                }
            }
            if(!t.rolling) {
                M->bad(n, "rollback-not-asked", "rollback sent to a shard though none was requested");
            }
            if(s.rb_ok && !M->faults) {
                M->bad(n, "rollback-repeated", "rollback sent again");
            }
            s.rb_sent = true;
            // requests still queued on this shard are told they lost
            std::vector<std::function<void()>> first;
            for(size_t i = 0; i < t.parked.size();) {
                if(t.parked_shard[i] == idx) {
                    first.push_back(t.parked[i]);
                    t.parked.erase(t.parked.begin() + static_cast<long>(i));
                    t.parked_shard.erase(t.parked_shard.begin() + static_cast<long>(i));
                } else {
                    i++;
                }
            }
            bool un = unreachable(6);
            bool err = M->faults && roll(6);
            l.unlock();
            for(auto& f : first) {
                answer(f);
            }
            if(un) {
                return false;
            }
            answer([=, this] {
                {
                    std::unique_lock<std::mutex> g(M->m);
                    if(!err) {
                        M->t[n].sh[idx].rb_ok = true;
                    }
                }
                if(err) {
                    cb(rls::shard_error{rls::error_code::internal_error, std::nullopt});
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        bool finish(tn_t n, finish_callback_type cb) override {
            std::unique_lock<std::mutex> l(M->m);
            M->finishes++;
            auto& t = M->t[n];
            auto& s = t.sh[idx];
            t.log << " finish(" << idx << ")";
            for(auto& [i, o] : t.sh) {
                if(!o.asked.empty() && !o.com_ok) {
                    M->bad(n, "finish-before-committed", "finish sent to shard " + std::to_string(idx) + " though shard " + std::to_string(i) + " has not committed");
                }
            }
            if(s.fin_ok && !M->faults) {
                M->bad(n, "finish-repeated", "finish sent again");
            }
            s.fin_sent = true;
            if(unreachable(6)) {
                return false;
            }
            bool err = M->faults && roll(6);
            l.unlock();
            answer([=, this] {
                {
                    std::unique_lock<std::mutex> g(M->m);
                    if(!err) {
                        M->t[n].sh[idx].fin_ok = true;
                    }
                }
                if(err) {
                    cb(rls::shard_error{rls::error_code::internal_error, std::nullopt});
                } else {
                    cb(std::nullopt);
                }
            });
            return true;
        }
        bool get_tickets(rls::broker_id_type br, get_tickets_callback_type cb) override {
            if(br != my_id) {
                std::unique_lock<std::mutex> l(M->m);
                M->bad(0, "wrong-broker-id", "get_tickets names broker " + std::to_string(br));
            }
            auto rep = reported;
            answer([cb, rep] {
                cb(rep);
            });
            return true;
        }
    };
    struct flaky_tm : cbdc::parsec::ticket_machine::interface {
        cbdc::parsec::ticket_machine::impl real;
        bus& b;
        size_t ch;
        bool sync;
        fshard* coin{};
        flaky_tm(bus& bb, bool s, uint64_t range) : real(logger(), range), b(bb), ch(bb.add()), sync(s) {}
        bool get_ticket_number(get_ticket_number_callback_type cb) override {
            if(M->faults && coin->roll(5)) {
                return false;
            }
            if(M->faults && coin->roll(5)) {
                cb(cbdc::parsec::ticket_machine::interface::error_code{});
                return true;
            }
            if(sync) {
                return real.get_ticket_number(cb);
            }
            b.push(ch, [this, cb] {
                (void)real.get_ticket_number(cb);
            });
            return true;
        }
    };

    enum class want { none, value, lockerr, ok, any };
    struct client {
        size_t id;
        std::optional<tn_t> n;
        enum { idle, begun, committed, aborted, finished } st{idle};
        int outstanding{0};      // unanswered lock requests
        bool op{false};          // an exclusive operation is unanswered
        bool lost{false};        // a lock or prepare was refused
        bool stuck{false};       // under faults: nothing more can be asked
        std::set<std::string> mine;
        std::map<std::string, rls::lock_type> mtype;
        int restarts{0};
    };
    struct sys {
        bus b;
        std::vector<std::shared_ptr<fshard>> sh;
        std::shared_ptr<flaky_tm> tm;
        std::shared_ptr<cbdc::parsec::directory::impl> dir;
        std::shared_ptr<broker_t> br;
        std::vector<client> cl;
        std::set<tn_t> given;
        std::string mode;
        std::ostringstream log;
        bool sync{};
        bool faults{};
    };
    std::string ename(const std::optional<std::variant<bi::error_code, rls::shard_error>>& r) {
        if(!r) {
            return "success";
        }
        if(std::holds_alternative<bi::error_code>(*r)) {
            return "broker-error-" + std::to_string(static_cast<int>(std::get<bi::error_code>(*r)));
        }
        return "shard-error-" + std::to_string(static_cast<int>(std::get<rls::shard_error>(*r).m_error_code));
    }
    void fail(sys&, client& c, const std::string& k, const std::string& d) {
        std::unique_lock<std::mutex> l(M->m);
        M->bad(c.n.value_or(0), k, d);
    }

    // One answer per request: the token complains about a second one.
    struct token {
        std::atomic<int> n{0};
    };
    std::string last_key(sys& s, vh::rng& r, size_t nk) {
        (void)s;
        return "key" + std::to_string(r.below(nk));
    }

    void do_lock(sys& s, client& c, const std::string& key, rls::lock_type lt) {
        c.outstanding++;
        auto tok = std::make_shared<token>();
        if(c.st == client::aborted) {
            c.restarts++;
            c.mine.clear();
            c.mtype.clear();
            c.st = client::begun;
            c.lost = false;
            std::unique_lock<std::mutex> l(M->m);
            auto& t = M->t[*c.n];
            t.log << " restart";
            t.sh.clear();
            t.granted.clear();
            t.gtype.clear();
            t.waiting.clear();
            t.updates.clear();
            t.committing = t.rolling = false;
        }
        c.mine.insert(key);
        auto* cp = &c;
        (void)s.br->try_lock(*c.n, buf(key), lt, [&s, cp, key, lt, tok](bi::try_lock_return_type res) {
            cp->outstanding--;
            if(++tok->n > 1) {
                fail(s, *cp, "answered-twice", "a lock request was answered twice");
                return;
            }
            if(std::holds_alternative<cbdc::parsec::broker::value_type>(res)) {
                auto v = str(std::get<cbdc::parsec::broker::value_type>(res));
                std::unique_lock<std::mutex> l(M->m);
                auto& t = M->t[*cp->n];
                auto g = t.granted.find(key);
                if(g == t.granted.end() || g->second != v) {
                    M->bad(*cp->n, "lock-wrong-value", "lock on " + key + " answered with " + v);
                } else if(static_cast<int>(t.gtype[key]) < static_cast<int>(lt)) {
                    M->bad(*cp->n, "lock-too-weak", "write lock on " + key + " answered from a read lock");
                }
                return;
            }
            cp->lost = true;
            if(!s.faults && !std::holds_alternative<rls::shard_error>(res) && !cp->op) {
                fail(s, *cp, "spurious-error", "lock request refused by the broker itself");
            }
        });
    }
    void do_commit(sys& s, client& c, vh::rng& r, bool hazard) {
        cbdc::parsec::broker::state_update_type u;
        bool waiting = false;
        bool touched = false;
        {
            std::unique_lock<std::mutex> l(M->m);
            auto& t = M->t[*c.n];
            waiting = !t.waiting.empty();
            t.updates.clear();
            for(auto& k : c.mine) {
                touched = true;
                if(t.gtype.count(k) != 0 && t.gtype[k] == rls::lock_type::write && r.chance(80)) {
                    t.updates[k] = "new" + std::to_string(r.below(1000));
                }
            }
            for(auto& [k, v] : t.updates) {
                u.emplace(buf(k), buf(v));
            }
            t.committing = !waiting && !hazard;
        }
        if(hazard) {
            u.emplace(buf("never-asked"), buf("x"));
        }
        c.op = true;
        auto tok = std::make_shared<token>();
        auto* cp = &c;
        (void)s.br->commit(*c.n, u, [&s, cp, tok, hazard, waiting, touched](bi::commit_return_type res) {
            (void)touched;
            auto first = ++tok->n == 1;
            if(!first && !s.faults) {
                fail(s, *cp, "answered-twice", "a commit was answered twice");
                return;
            }
            if(!res) {
                std::unique_lock<std::mutex> l(M->m);
                auto& t = M->t[*cp->n];
                if(waiting || hazard) {
                    M->bad(*cp->n, "commit-accepted", waiting ? "commit accepted while a lock was not granted" : "commit of a key never locked was accepted");
                }
                if(!first) {
                    // Under faults a repeated commit may be told again.
                    return;
                }
                for(auto& [i, p] : t.sh) {
                    if(!p.asked.empty() && !p.com_ok) {
                        M->bad(*cp->n, "commit-reported-early", "commit reported successful though shard " + std::to_string(i) + " has not committed");
                    }
                }
                std::map<std::string, std::string> all;
                for(auto& [i, p] : t.sh) {
                    for(auto& [k, v] : p.upd) {
                        all[k] = v;
                    }
                }
                if(all != t.updates) {
                    M->bad(*cp->n, "commit-lost-update", "the shards together prepared " + std::to_string(all.size()) + " of " + std::to_string(t.updates.size()) + " updates");
                }
                cp->st = client::committed;
            } else if(first) {
                auto want = hazard ? "broker-error-" + std::to_string(static_cast<int>(bi::error_code::commit_hazard)) : std::string();
                if(waiting) {
                    want = "broker-error-" + std::to_string(static_cast<int>(bi::error_code::waiting_for_locks));
                }
                if(!want.empty() && ename(res) != want) {
                    fail(s, *cp, "wrong-error", "commit answered " + ename(res) + " instead of " + want);
                }
                if(want.empty() && !s.faults && !std::holds_alternative<rls::shard_error>(*res)) {
                    fail(s, *cp, "spurious-error", "commit answered " + ename(res));
                }
                if(want.empty()) {
                    cp->lost = true;
                }
            }
            if(first) {
                cp->op = false;
            }
        });
    }
    void do_rollback(sys& s, client& c) {
        c.op = true;
        {
            std::unique_lock<std::mutex> l(M->m);
            M->t[*c.n].rolling = true;
        }
        auto tok = std::make_shared<token>();
        auto* cp = &c;
        (void)s.br->rollback(*c.n, [&s, cp, tok](bi::rollback_return_type res) {
            auto first = ++tok->n == 1;
            if(!first && !s.faults) {
                fail(s, *cp, "answered-twice", "a rollback was answered twice");
                return;
            }
            if(!res) {
                std::unique_lock<std::mutex> l(M->m);
                for(auto& [i, p] : M->t[*cp->n].sh) {
                    if(!p.asked.empty() && !p.rb_ok) {
                        M->bad(*cp->n, "rollback-reported-early", "rollback reported successful though shard " + std::to_string(i) + " has not rolled back");
                    }
                }
                cp->st = client::aborted;
            } else if(!s.faults) {
                fail(s, *cp, "spurious-error", "rollback of a begun ticket refused");
            } else {
                cp->lost = true;
            }
            if(first) {
                cp->op = false;
            }
        });
    }
    void do_finish(sys& s, client& c) {
        c.op = true;
        auto was = c.st;
        auto tok = std::make_shared<token>();
        auto* cp = &c;
        (void)s.br->finish(*c.n, [&s, cp, tok, was](bi::finish_return_type res) {
            auto first = ++tok->n == 1;
            if(!first && !s.faults) {
                fail(s, *cp, "answered-twice", "a finish was answered twice");
                return;
            }
            if(was == client::begun) {
                if(res != bi::error_code::begun && !(s.faults && res == bi::error_code::prepared)) {
                    fail(s, *cp, "wrong-error", "finish of a ticket that neither committed nor rolled back was not refused as such");
                }
            } else if(!res) {
                std::unique_lock<std::mutex> l(M->m);
                for(auto& [i, p] : M->t[*cp->n].sh) {
                    if(was == client::committed && !p.asked.empty() && !p.fin_ok) {
                        M->bad(*cp->n, "finish-reported-early", "finish reported successful though shard " + std::to_string(i) + " has not finished");
                    }
                }
                cp->st = client::finished;
            } else if(!s.faults) {
                fail(s, *cp, "spurious-error", "finish refused");
            }
            if(first) {
                cp->op = false;
            }
        });
    }
    // Requests that must be refused, and how.
    void do_illegal(sys& s, client& c, vh::rng& r) {
        tn_t n = c.n.value_or(1000000 + r.below(5));
        bi::error_code want = bi::error_code::unknown_ticket;
        if(!c.n || c.st == client::finished) {
        } else if(c.st == client::committed) {
            want = bi::error_code::committed;
        } else if(c.st == client::aborted) {
            want = bi::error_code::aborted;
        } else {
            return;
        }
        auto calls = std::make_shared<int>(0);
        std::optional<bi::error_code> got;
        std::string what;
        switch(r.below(4)) {
            case 0:
                what = "commit";
                (void)s.br->commit(n, {}, [&, calls](bi::commit_return_type x) {
                    ++*calls;
                    if(x && std::holds_alternative<bi::error_code>(*x)) {
                        got = std::get<bi::error_code>(*x);
                    }
                });
                break;
            case 1:
                what = "rollback";
                (void)s.br->rollback(n, [&, calls](bi::rollback_return_type x) {
                    ++*calls;
                    if(x && std::holds_alternative<bi::error_code>(*x)) {
                        got = std::get<bi::error_code>(*x);
                    }
                });
                break;
            case 2:
                if(want == bi::error_code::aborted) {
                    return;
                }
                what = "lock";
                (void)s.br->try_lock(n, buf("key1"), rls::lock_type::read, [&, calls](bi::try_lock_return_type x) {
                    ++*calls;
                    if(std::holds_alternative<bi::error_code>(x)) {
                        got = std::get<bi::error_code>(x);
                    }
                });
                break;
            default:
                if(want != bi::error_code::unknown_ticket) {
                    return;
                }
                what = "finish";
                (void)s.br->finish(n, [&, calls](bi::finish_return_type x) {
                    ++*calls;
                    if(x) {
                        got = *x;
                    }
                });
        }
        vh::count("illegal_requests");
        if(*calls != 1 || got != want) {
            fail(s, c, "illegal-request", what + " on a ticket that is " + (want == bi::error_code::unknown_ticket ? "unknown" : want == bi::error_code::committed ? "committed" : "rolled back") + " was not refused as such");
        }
    }
    void do_begin(sys& s, client& c) {
        c.op = true;
        auto* cp = &c;
        auto tok = std::make_shared<token>();
        (void)s.br->begin([&s, cp, tok](bi::ticketnum_or_errcode_type x) {
            if(++tok->n > 1) {
                fail(s, *cp, "answered-twice", "begin was answered twice");
            }
            cp->op = false;
            if(!std::holds_alternative<tn_t>(x)) {
                if(!s.faults) {
                    fail(s, *cp, "spurious-error", "begin refused");
                }
                return;
            }
            cp->n = std::get<tn_t>(x);
            cp->st = client::begun;
            std::unique_lock<std::mutex> l(M->m);
            if(!s.given.insert(*cp->n).second) {
                M->bad(*cp->n, "ticket-reused", "the same ticket number was handed out twice");
            }
            l.unlock();
            if(s.br->highest_ticket() < *cp->n) {
                fail(s, *cp, "highest-ticket", "highest ticket below a ticket in use");
            }
        });
    }
    bool one_client_step(sys& s, client& c, vh::rng& r, size_t nk) {
        if(c.op || c.stuck) {
            return false;
        }
        if(!c.n) {
            if(r.chance(5)) {
                do_illegal(s, c, r);
            }
            do_begin(s, c);
            return true;
        }
        switch(c.st) {
            case client::begun: {
                bool waiting = c.outstanding > 0;
                if(c.lost) {
                    do_rollback(s, c);
                    return true;
                }
                auto k = r.below(100);
                if(k < 55 && c.mine.size() < 5) {
                    auto key = last_key(s, r, nk);
                    {
                        std::unique_lock<std::mutex> l(M->m);
                        if(M->t[*c.n].waiting.count(key) != 0) {
                            return false;
                        }
                    }
                    do_lock(s, c, key, r.chance(60) ? rls::lock_type::write : rls::lock_type::read);
                } else if(k < 60) {
                    do_finish(s, c);
                } else if(k < 68) {
                    do_rollback(s, c);
                } else if(k < 72 && !waiting) {
                    do_commit(s, c, r, true);
                } else {
                    do_commit(s, c, r, false);
                }
                return true;
            }
            case client::committed:
                if(r.chance(30)) {
                    do_illegal(s, c, r);
                }
                do_finish(s, c);
                return true;
            case client::aborted:
                if(r.chance(30)) {
                    do_illegal(s, c, r);
                }
                if(c.outstanding == 0 && c.restarts < 4 && r.chance(60)) {
                    do_lock(s, c, last_key(s, r, nk), rls::lock_type::write);
                } else {
                    do_finish(s, c);
                }
                return true;
            case client::finished:
                if(r.chance(20)) {
                    do_illegal(s, c, r);
                }
                return false;
            default:
                return false;
        }
    }

    std::unique_ptr<sys> mk(vh::rng& r, mon& m, const std::string& mode) {
        M = &m;
        auto s = std::make_unique<sys>();
        s->mode = mode;
        s->sync = mode == "sync" || (mode == "recover" && r.chance(50)) || (mode == "faults" && r.chance(20));
        s->faults = m.faults = mode == "faults";
        auto ns = 1 + r.below(4);
        std::vector<std::shared_ptr<rls::interface>> v;
        for(size_t i = 0; i < ns; i++) {
            s->sh.push_back(std::make_shared<fshard>(i, s->b, s->sync, r.next()));
            v.push_back(s->sh.back());
        }
        s->tm = std::make_shared<flaky_tm>(s->b, s->sync, 1 + r.below(20));
        s->tm->coin = s->sh[0].get();
        s->dir = std::make_shared<cbdc::parsec::directory::impl>(ns);
        s->br = std::make_shared<broker_t>(my_id, v, s->tm, s->dir, logger());
        return s;
    }

    void release_parked(sys& s, vh::rng& r) {
        std::unique_lock<std::mutex> l(M->m);
        std::vector<std::pair<size_t, std::function<void()>>> go;
        for(auto& [n, t] : M->t) {
            for(size_t i = 0; i < t.parked.size();) {
                if(r.chance(50)) {
                    go.emplace_back(t.parked_shard[i], t.parked[i]);
                    t.parked.erase(t.parked.begin() + static_cast<long>(i));
                    t.parked_shard.erase(t.parked_shard.begin() + static_cast<long>(i));
                } else {
                    i++;
                }
            }
        }
        l.unlock();
        for(auto& [i, f] : go) {
            s.sh[i]->answer(f);
        }
    }

    void normal(vh::rng& r, const std::string& mode) {
        mon m;
        auto sp = mk(r, m, mode);
        auto& s = *sp;
        auto nk = 2 + r.below(8);
        auto nc = 1 + r.below(6);
        s.cl.resize(nc);
        vh::guard g("broker requests");
        auto steps = 40 + r.below(120);
        for(uint64_t i = 0; i < steps && !m.failed; i++) {
            if(r.chance(45)) {
                one_client_step(s, s.cl[r.below(nc)], r, nk);
            } else if(!s.b.step(r)) {
                one_client_step(s, s.cl[r.below(nc)], r, nk);
            }
            if(r.chance(10)) {
                release_parked(s, r);
            }
        }
        // everything still queued is answered
        for(int i = 0; i < 200 && !m.failed; i++) {
            while(s.b.step(r)) {
            }
            release_parked(s, r);
        }
        for(auto& c : s.cl) {
            if(m.failed) {
                break;
            }
            if((c.op || c.outstanding > 0) && !s.faults) {
                fail(s, c, "never-answered", std::string(c.op ? "an operation" : "a lock request") + " was never answered though every shard answered");
            }
            vh::count("finished", c.st == client::finished ? 1 : 0);
            vh::count("committed", c.st == client::committed ? 1 : 0);
            vh::count("restarts", static_cast<uint64_t>(c.restarts));
        }
        vh::count("prepares", m.prepares);
        vh::count("commits", m.commits);
        vh::count("rollbacks", m.rollbacks);
        vh::count("finishes", m.finishes);
        vh::count("prepares_refused", m.refused);
        uint64_t h = s.b.order;
        for(auto& [n, t] : m.t) {
            h = vh::mix(h, vh::hashs(t.log.str()));
        }
        vh::distinct(h);
        if(!m.t.empty()) {
            vh::sample(mode + " shards=" + std::to_string(s.sh.size()) + " ticket" + m.t.begin()->second.log.str());
        }
        static std::vector<std::unique_ptr<sys>> grave;
        if(m.failed) {
            grave.push_back(std::move(sp));
        }
    }

    // A broker that starts over what an earlier one left on the shards.
    void recover(vh::rng& r) {
        mon m;
        auto sp = mk(r, m, "recover");
        auto& s = *sp;
        auto ns = s.sh.size();
        auto nt = r.chance(15) ? 0 : 1 + r.below(6);
        std::map<tn_t, int> kind; // 0 rollback, 1 commit the rest, 2 finish only
        std::ostringstream d;
        for(uint64_t i = 0; i < nt; i++) {
            tn_t n = 1 + r.below(1000);
            if(kind.count(n) != 0) {
                continue;
            }
            std::vector<size_t> on;
            for(size_t k = 0; k < ns; k++) {
                if(r.chance(60)) {
                    on.push_back(k);
                }
            }
            if(on.empty()) {
                on.push_back(r.below(ns));
            }
            auto kd = static_cast<int>(r.below(3));
            if(kd == 1 && on.size() < 2) {
                kd = 2;
            }
            kind[n] = kd;
            auto ncommitted = kd == 2 ? on.size() : kd == 1 ? 1 + r.below(on.size() - 1) : 0;
            r.shuffle(on);
            d << " t" << n << "{";
            for(size_t k = 0; k < on.size(); k++) {
                auto st = k < ncommitted ? rls::ticket_state::committed : rls::ticket_state::prepared;
                if(kd == 0) {
                    auto x = r.below(3);
                    st = x == 0 ? rls::ticket_state::begun : x == 1 ? rls::ticket_state::prepared : rls::ticket_state::wounded;
                }
                s.sh[on[k]]->reported[n] = st;
                auto& ps = m.t[n].sh[on[k]];
                ps.asked.insert("k");
                ps.prep_sent = ps.prep_ok = st == rls::ticket_state::prepared || st == rls::ticket_state::committed;
                ps.com_ok = st == rls::ticket_state::committed;
                d << on[k] << ":" << static_cast<int>(st) << " ";
            }
            d << "}";
            m.t[n].committing = kd == 1;
            m.t[n].rolling = kd == 0;
        }
        vh::guard g("broker recovery");
        int answered = 0;
        bool okres = true;
        bool early = false;
        auto all_done = [&] {
            std::unique_lock<std::mutex> l(m.m);
            for(auto& [n, k] : kind) {
                for(auto& [i, p] : m.t[n].sh) {
                    if(k == 0 ? !p.rb_ok : !(p.com_ok && p.fin_ok)) {
                        return false;
                    }
                }
            }
            return true;
        };
        auto rec = [&](broker_t& br) {
            answered = 0;
            auto ok = br.recover([&](bi::recover_return_type x) {
                answered++;
                okres = okres && !x;
                early = early || !all_done();
            });
            while(s.b.step(r)) {
            }
            return ok;
        };
        if(!rec(*s.br)) {
            m.bad(0, "recover-refused", "recovery did not start:" + d.str());
        }
        if(!m.failed) {
            if(answered == 0) {
                m.bad(0, "recover-never-answered", "recovery did not report its end:" + d.str());
            } else if(!okres) {
                m.bad(0, "recover-error", "recovery reported an error:" + d.str());
            } else if(early) {
                m.bad(0, "recover-early", "recovery reported its end before every ticket was finished:" + d.str());
            } else if(!all_done()) {
                m.bad(0, "recover-incomplete", "a ticket was left behind:" + d.str());
            } else if(nt == 0 && answered > static_cast<int>(ns)) {
                m.bad(0, "recover-answered-often", "recovery reported its end repeatedly");
            }
            for(auto& [n, k] : kind) {
                for(auto& [i, p] : m.t[n].sh) {
                    if((k == 0 && p.com_sent) || (k != 0 && p.rb_sent)) {
                        m.bad(n, "recover-wrong-decision", "recovery decided wrongly:" + d.str());
                    }
                }
            }
        }
        // A second recovery sees what the shards report then.
        if(!m.failed && r.chance(50)) {
            m.t.clear();
            kind.clear();
            for(auto& x : s.sh) {
                x->reported.clear();
            }
            tn_t n = 2000 + r.below(100);
            auto com = r.chance(50);
            kind[n] = com ? 2 : 0;
            d << " again t" << n << (com ? "committed" : "prepared");
            for(auto& x : s.sh) {
                x->reported[n] = com ? rls::ticket_state::committed : rls::ticket_state::prepared;
                auto& ps = m.t[n].sh[x->idx];
                ps.asked.insert("k");
                ps.prep_ok = true;
                ps.com_ok = com;
            }
            m.t[n].rolling = !com;
            okres = true;
            early = false;
            if(!rec(*s.br)) {
                m.bad(0, "recover-refused", "second recovery did not start:" + d.str());
            } else if(answered == 0 || !okres || early || !all_done()) {
                m.bad(0, "recover-again", "a second recovery did not take care of what the shards reported (answers " + std::to_string(answered) + "):" + d.str());
            }
            vh::count("second_recoveries");
        }
        vh::count("recoveries");
        vh::count("recovered_tickets", kind.size());
        vh::distinct(vh::mix(s.b.order, vh::hashs(d.str())));
        vh::sample("recover" + d.str());
        static std::vector<std::unique_ptr<sys>> grave;
        if(m.failed) {
            grave.push_back(std::move(sp));
        }
    }

    void threads(vh::rng& r) {
        mon m;
        auto sp = mk(r, m, "threads");
        auto& s = *sp;
        for(auto& x : s.sh) {
            x->threaded = true;
        }
        auto nc = 2 + r.below(4);
        s.cl.resize(nc);
        auto nk = 2 + r.below(8);
        std::atomic<bool> stop{false};
        std::vector<std::thread> th;
        vh::guard g("broker requests from threads");
        for(int i = 0; i < 3; i++) {
            th.emplace_back([&, q = r.next()] {
                vh::rng rr(q);
                while(!stop) {
                    if(s.b.step(rr)) {
                        vh::tick();
                    } else {
                        std::this_thread::yield();
                    }
                }
            });
        }
        std::vector<std::thread> ct;
        std::atomic<uint64_t> done{0}, comm{0};
        for(size_t i = 0; i < nc; i++) {
            ct.emplace_back([&, q = r.next()] {
                vh::rng rr(q);
                for(int k = 0; k < 3; k++) {
                    // begin, locks, commit, finish with blocking waits
                    auto wait = [&](std::atomic<int>& f) {
                        while(f.load() == 0) {
                            std::this_thread::yield();
                        }
                    };
                    std::atomic<int> f{0};
                    tn_t n{};
                    (void)s.br->begin([&](bi::ticketnum_or_errcode_type x) {
                        n = std::get<tn_t>(x);
                        f = 1;
                    });
                    wait(f);
                    (void)s.br->highest_ticket();
                    bool lost = false;
                    std::set<std::string> keys;
                    auto cnt = 1 + rr.below(3);
                    for(uint64_t j = 0; j < cnt && !lost; j++) {
                        auto key = "key" + std::to_string(rr.below(nk));
                        keys.insert(key);
                        f = 0;
                        (void)s.br->try_lock(n, buf(key), rls::lock_type::write, [&](bi::try_lock_return_type x) {
                            lost = !std::holds_alternative<cbdc::parsec::broker::value_type>(x);
                            f = 1;
                        });
                        // queued requests are granted by somebody
                        while(f.load() == 0) {
                            std::vector<std::function<void()>> go;
                            std::vector<size_t> wh;
                            {
                                std::unique_lock<std::mutex> l(m.m);
                                auto& t = m.t[n];
                                go.swap(t.parked);
                                wh.swap(t.parked_shard);
                            }
                            for(size_t x = 0; x < go.size(); x++) {
                                s.sh[wh[x]]->answer(go[x]);
                            }
                            std::this_thread::yield();
                        }
                    }
                    bool ok = false;
                    if(!lost) {
                        cbdc::parsec::broker::state_update_type u;
                        {
                            std::unique_lock<std::mutex> l(m.m);
                            m.t[n].committing = true;
                            for(auto& x : keys) {
                                u.emplace(buf(x), buf("n"));
                                m.t[n].updates[x] = "n";
                            }
                        }
                        f = 0;
                        (void)s.br->commit(n, u, [&](bi::commit_return_type x) {
                            ok = !x;
                            f = 1;
                        });
                        wait(f);
                        if(ok) {
                            std::unique_lock<std::mutex> l(m.m);
                            for(auto& [i2, p] : m.t[n].sh) {
                                if(!p.asked.empty() && !p.com_ok) {
                                    m.bad(n, "commit-reported-early", "commit reported before every shard committed");
                                }
                            }
                            comm++;
                        }
                    }
                    if(!ok) {
                        {
                            std::unique_lock<std::mutex> l(m.m);
                            m.t[n].rolling = true;
                        }
                        f = 0;
                        (void)s.br->rollback(n, [&](bi::rollback_return_type) {
                            f = 1;
                        });
                        wait(f);
                    }
                    f = 0;
                    (void)s.br->finish(n, [&](bi::finish_return_type) {
                        f = 1;
                    });
                    wait(f);
                    done++;
                }
            });
        }
        for(auto& t : ct) {
            t.join();
        }
        stop = true;
        for(auto& t : th) {
            t.join();
        }
        vh::count("threaded_tickets", done);
        vh::count("threaded_commits", comm);
        vh::distinct(s.b.order);
    }

    void one(vh::rng& r, uint64_t) {
        auto& mode = vh::st().mode;
        if(mode == "recover") {
            recover(r);
        } else if(mode == "threads") {
            threads(r);
        } else {
            normal(r, mode);
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::run_cases(one);
    return vh::finish();
}
