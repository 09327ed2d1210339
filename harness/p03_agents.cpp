// Agents executing random programs against brokers and shards.
//  mode ""       chosen message orders, no faults
//  mode direct   same-process shards (synchronous answers)
//  mode threads  the same deployment with the messages delivered by threads
//  mode crash    brokers (with their agents) or the whole system stop at a
//                random point; survivors recover
#include "psim.hpp"

namespace {
    using namespace vp;
    using cbdc::parsec::agent::interface;
    struct step_t {
        std::string key;
        rls::lock_type type;
    };
    struct program {
        uint64_t id{};
        std::vector<step_t> steps;
        bool throws_at_end{false};
        bool readonly{false};
        int bad_update{0}; // writes a key it never locked
        std::string fn;
        size_t broker{};
    };
    struct world;
    world* W{nullptr};
}

// The runner interface only lets classes of this name see its inputs; the
// real Lua runner is not linked here.
namespace cbdc::parsec::agent::runner {
    class lua_runner : public interface {
      public:
        using interface::interface;
        [[nodiscard]] auto run() -> bool override;
        void next(size_t i);
        std::shared_ptr<ser::tx> x{std::make_shared<ser::tx>()};
        const program* p{};
        uint64_t attempt{};
    };
}

namespace {
    using runner_t = cbdc::parsec::agent::runner::lua_runner;
    struct ag {
        program p;
        std::shared_ptr<cbdc::parsec::agent::impl> a;
        size_t chan{};
        std::shared_ptr<std::atomic<bool>> alive{std::make_shared<std::atomic<bool>>(true)};
        uint64_t invoke{}, ret{};
        bool done{false};
        bool committed{false};
        bool failed{false};
        uint64_t retries{};
        std::vector<std::shared_ptr<ser::tx>> attempts;
    };
    struct world {
        bus b;
        std::mutex m;
        std::vector<std::shared_ptr<shard_node>> nodes;
        std::vector<std::shared_ptr<rls::impl>> direct;
        std::vector<std::shared_ptr<cbdc::parsec::broker::impl>> brokers;
        std::vector<std::vector<std::shared_ptr<remote_shard>>> links;
        std::shared_ptr<cbdc::parsec::ticket_machine::impl> tm;
        std::vector<std::unique_ptr<ag>> agents;
        std::atomic<uint64_t> clock{1};
        std::vector<std::function<void()>> keep; // things that outlive a crash
        std::shared_ptr<secp256k1_context> secp{};
        std::ostringstream log;
        bool failed{false};
        bool isdirect{false};
        bool threaded{false};
        uint64_t wounds{};

        void bad(const std::string& k, const std::string& d) {
            std::unique_lock<std::mutex> l(m);
            failed = true;
            auto h = log.str();
            l.unlock();
            vh::report(k, d + " | " + h);
        }
        std::shared_ptr<cbdc::parsec::broker::impl> mk_broker(size_t i) {
            std::vector<std::shared_ptr<rls::interface>> sh;
            if(links.size() <= i) {
                links.resize(i + 1);
            }
            links[i].clear();
            if(isdirect) {
                for(auto& d : direct) {
                    sh.push_back(std::make_shared<direct_shard>(d));
                }
            } else {
                for(auto& n : nodes) {
                    auto l = std::make_shared<remote_shard>(b, n);
                    l->bad = [this](const std::string& s) {
                        bad("shard-answer", s);
                    };
                    links[i].push_back(l);
                    sh.push_back(l);
                }
            }
            return std::make_shared<cbdc::parsec::broker::impl>(i, sh, tm, std::make_shared<cbdc::parsec::directory::impl>(sh.size()), logger());
        }
        void setup(vh::rng& r, size_t ns, size_t nb) {
            tm = std::make_shared<cbdc::parsec::ticket_machine::impl>(logger(), 1 + r.below(3));
            for(size_t i = 0; i < ns; i++) {
                if(isdirect) {
                    direct.push_back(std::make_shared<rls::impl>(logger()));
                } else {
                    nodes.push_back(std::make_shared<shard_node>(b));
                    nodes.back()->start(false);
                }
            }
            for(size_t i = 0; i < nb; i++) {
                brokers.push_back(mk_broker(i));
            }
        }
        ag& add_agent(program p) {
            std::unique_lock<std::mutex> l(m);
            agents.push_back(std::make_unique<ag>());
            auto& a = *agents.back();
            l.unlock();
            a.p = p;
            a.chan = b.add();
            buffer param;
            param.append(&p.id, sizeof(p.id));
            auto* ap = &a;
            a.a = std::make_shared<cbdc::parsec::agent::impl>(
                logger(),
                cbdc::parsec::config{},
                [](std::shared_ptr<cbdc::logging::log> lg,
                   const cbdc::parsec::config& cfg,
                   rls::value_type function,
                   cbdc::parsec::agent::parameter_type prm,
                   bool ro,
                   cbdc::parsec::agent::runner::interface::run_callback_type rc,
                   cbdc::parsec::agent::runner::interface::try_lock_callback_type lc,
                   std::shared_ptr<secp256k1_context> s,
                   std::shared_ptr<cbdc::thread_pool> tp,
                   rls::ticket_number_type tn) -> std::unique_ptr<cbdc::parsec::agent::runner::interface> {
                    return std::make_unique<runner_t>(lg, cfg, function, prm, ro, rc, lc, s, tp, tn);
                },
                brokers[p.broker],
                p.fn.empty() ? buffer() : buf(p.fn),
                param,
                [this, ap](interface::exec_return_type res) {
                    on_result(*ap, std::move(res));
                },
                rls::lock_type::read,
                p.readonly,
                secp,
                nullptr);
            return a;
        }
        void launch(ag& a) {
            auto* ap = &a;
            auto al = a.alive;
            b.push(a.chan, [this, ap, al] {
                if(!*al) {
                    return;
                }
                ap->invoke = clock++;
                ap->a->exec();
            });
        }
        void on_result(ag& a, interface::exec_return_type res) {
            auto al = a.alive;
            auto* ap = &a;
            if(std::holds_alternative<interface::error_code>(res)) {
                auto e = std::get<interface::error_code>(res);
                if(e == interface::error_code::retry) {
                    {
                        std::unique_lock<std::mutex> l(m);
                        a.retries++;
                    }
                    if(a.done) {
                        bad("result-twice", "agent reported retry after its final result");
                    }
                    b.push(a.chan, [ap, al] {
                        if(*al) {
                            ap->a->exec();
                        }
                    });
                    return;
                }
                std::unique_lock<std::mutex> l(m);
                bool twice = a.done;
                a.done = true;
                a.failed = true;
                a.ret = clock++;
                bool legit = (e == interface::error_code::function_execution && a.p.throws_at_end)
                          || (e == interface::error_code::commit_error && a.p.bad_update != 0);
                l.unlock();
                if(twice) {
                    bad("result-twice", "agent reported two final results");
                }
                if(!legit) {
                    bad("spurious-failure", "agent failed with code " + std::to_string(static_cast<int>(e)) + " though no fault was injected");
                }
                return;
            }
            std::unique_lock<std::mutex> l(m);
            bool twice = a.done;
            a.done = true;
            a.committed = true;
            a.ret = clock++;
            auto upd = std::get<rls::state_update_type>(res);
            std::map<std::string, std::string> got;
            for(auto& [k, v] : upd) {
                got[str(k)] = str(v);
            }
            bool same = !a.attempts.empty() && got == a.attempts.back()->writes;
            l.unlock();
            if(twice) {
                bad("result-twice", "agent reported two final results");
            }
            if(a.p.throws_at_end || a.p.bad_update != 0) {
                bad("failed-program-committed", "a program that failed was reported as committed");
            } else if(!same && !a.p.readonly) {
                bad("result-content", "agent reported a result that is not what its last execution produced");
            }
        }
        bool all_done() {
            std::unique_lock<std::mutex> l(m);
            for(auto& a : agents) {
                if(*a->alive && !a->done) {
                    return false;
                }
            }
            return true;
        }
        std::vector<ser::tx> history() {
            std::vector<ser::tx> h;
            for(auto& a : agents) {
                for(size_t i = 0; i < a->attempts.size(); i++) {
                    auto x = *a->attempts[i];
                    x.invoke = a->invoke;
                    bool last = i + 1 == a->attempts.size();
                    if(a->p.readonly) {
                        x.writes.clear();
                    }
                    if(last && a->done && a->committed) {
                        x.outcome = ser::tx::committed;
                        x.ret = a->ret;
                    } else if(last && !a->done && !a->p.throws_at_end && a->p.bad_update == 0) {
                        x.outcome = ser::tx::unknown;
                    } else {
                        x.outcome = ser::tx::aborted;
                    }
                    h.push_back(std::move(x));
                }
            }
            return h;
        }
        std::map<std::string, std::string> final_state(const std::set<std::string>& keys) {
            std::map<std::string, std::string> f;
            auto dir = cbdc::parsec::directory::impl(isdirect ? direct.size() : nodes.size());
            std::set<size_t> seen;
            for(auto& k : keys) {
                dir.key_location(buf(k), [&](uint64_t s) {
                    auto& im = isdirect ? direct[s] : nodes[s]->impl;
                    bool got = false;
                    im->try_lock(1ULL << 40, 77, buf(k), rls::lock_type::write, seen.insert(s).second, [&](rls::interface::try_lock_return_type v) {
                        got = std::holds_alternative<buffer>(v);
                        if(got) {
                            f[k] = str(std::get<buffer>(v));
                        }
                    });
                    if(!got) {
                        bad("lock-leak", "key " + k + " stayed locked after everything ended");
                    }
                });
            }
            return f;
        }
    };
}

auto cbdc::parsec::agent::runner::lua_runner::run() -> bool {
    uint64_t id{};
    std::memcpy(&id, m_param.data(), sizeof(id));
    std::unique_lock<std::mutex> l(W->m);
    auto& a = *W->agents[id];
    p = &a.p;
    attempt = a.attempts.size();
    x->id = m_ticket_number;
    if(p->fn.size() > 1) {
        x->reads[p->fn] = str(m_function);
    }
    a.attempts.push_back(x);
    l.unlock();
    next(0);
    return true;
}
void cbdc::parsec::agent::runner::lua_runner::next(size_t i) {
    if(i == p->steps.size()) {
        if(p->throws_at_end) {
            m_result_callback(interface::error_code::exec_error);
            return;
        }
        rls::state_update_type u;
        {
            std::unique_lock<std::mutex> l(W->m);
            std::set<std::string> wk;
            for(auto& s : p->steps) {
                if(s.type == rls::lock_type::write) {
                    wk.insert(s.key);
                }
            }
            for(auto& k : wk) {
                x->writes[k] = "v" + std::to_string(p->id) + "a" + std::to_string(attempt);
            }
            for(auto& [k, v] : x->writes) {
                u.emplace(buf(k), buf(v));
            }
        }
        if(p->readonly && p->id % 2 == 0) {
            // whatever it returns, a read-only run changes nothing
            for(auto& st : p->steps) {
                u.emplace(buf(st.key), buf("changed"));
            }
        }
        if(p->bad_update != 0) {
            u.emplace(buf("never-locked" + std::to_string(p->id)), buf("x"));
        }
        m_result_callback(std::move(u));
        return;
    }
    auto& s = p->steps[i];
    auto ok = m_try_lock_callback(buf(s.key), s.type, [this, i](cbdc::parsec::broker::interface::try_lock_return_type r) {
        if(std::holds_alternative<cbdc::parsec::broker::value_type>(r)) {
            auto v = str(std::get<cbdc::parsec::broker::value_type>(r));
            bool rep = true;
            std::string old;
            {
                std::unique_lock<std::mutex> l(W->m);
                auto it = x->reads.find(p->steps[i].key);
                if(it != x->reads.end() && it->second != v) {
                    rep = false;
                    old = it->second;
                }
                x->reads[p->steps[i].key] = v;
            }
            if(!rep) {
                W->bad("unrepeatable-read", "key " + p->steps[i].key + " read as " + old + " then " + v + " in one execution");
            }
            next(i + 1);
            return;
        }
        if(std::holds_alternative<rls::shard_error>(r) && std::get<rls::shard_error>(r).m_error_code == rls::error_code::wounded) {
            {
                std::unique_lock<std::mutex> l(W->m);
                W->wounds++;
            }
            m_result_callback(interface::error_code::wounded);
            return;
        }
        std::string d = "lock request failed: ";
        if(std::holds_alternative<rls::shard_error>(r)) {
            d += "shard code " + std::to_string(static_cast<int>(std::get<rls::shard_error>(r).m_error_code));
        } else {
            d += "broker code " + std::to_string(static_cast<int>(std::get<cbdc::parsec::broker::interface::error_code>(r)));
        }
        W->bad("lock-request-failed", d);
        m_result_callback(interface::error_code::lock_error);
    });
    if(!ok) {
        W->bad("lock-request-failed", "lock request refused");
        m_result_callback(interface::error_code::internal_error);
    }
}

namespace {
    program mk_program(vh::rng& r, uint64_t id, size_t nk, size_t nb) {
        program p;
        p.id = id;
        p.broker = r.below(nb);
        p.fn = r.chance(70) ? "fn" + std::to_string(r.below(2)) : "k" + std::to_string(r.below(nk));
        p.readonly = r.chance(8);
        auto n = r.chance(5) ? 0 : 1 + r.below(4);
        for(uint64_t i = 0; i < n; i++) {
            auto k = "k" + std::to_string(r.below(nk));
            auto t = !p.readonly && r.chance(60) ? rls::lock_type::write : rls::lock_type::read;
            p.steps.push_back({k, t});
        }
        p.throws_at_end = r.chance(7);
        if(!p.throws_at_end && !p.readonly) {
            p.bad_update = r.chance(4) ? 1 : 0;
        }
        return p;
    }
    std::string desc(const program& p) {
        std::string s = " A" + std::to_string(p.id) + "@b" + std::to_string(p.broker) + (p.readonly ? "ro" : "") + "{" + p.fn;
        for(auto& x : p.steps) {
            s += (x.type == rls::lock_type::write ? ",w" : ",r") + x.key;
        }
        return s + (p.throws_at_end ? ",throw" : "") + (p.bad_update != 0 ? ",badupd" : "") + "}";
    }

    void recover_broker(world& w, vh::rng& r, size_t i) {
        w.brokers[i] = w.mk_broker(i);
        int n = 0;
        bool ok = false;
        auto acc = w.brokers[i]->recover([&](cbdc::parsec::broker::interface::recover_return_type e) {
            n++;
            ok = !e.has_value();
        });
        if(!acc) {
            w.bad("recover-refused", "broker with no tickets refused to recover");
            return;
        }
        size_t steps = 0;
        while(n == 0 && w.b.step(r)) {
            if(++steps > 100000) {
                break;
            }
        }
        if(n == 0) {
            w.bad("recover-no-answer", "recovery never reported");
            return;
        }
        if(!ok) {
            w.bad("recover-failed", "recovery of a broker failed with every shard up");
        }
        // let stragglers arrive; the answer must not be given twice
        for(size_t k = 0; k < 40 && w.b.step(r); k++) {}
        if(n > 1) {
            w.bad("recover-answered-twice", "recovery reported " + std::to_string(n) + " times");
        }
        for(size_t s = 0; s < (w.isdirect ? w.direct.size() : w.nodes.size()); s++) {
            auto& im = w.isdirect ? w.direct[s] : w.nodes[s]->impl;
            im->get_tickets(i, [&](rls::interface::get_tickets_return_type t) {
                auto& m = std::get<rls::interface::get_tickets_success_type>(t);
                if(!m.empty()) {
                    w.bad("recover-leftover", "shard still has tickets of a recovered broker");
                }
            });
        }
        vh::count("broker_recoveries");
    }

    void one(vh::rng& r, uint64_t) {
        vh::guard g("agents");
        auto wp = std::make_unique<world>();
        auto& w = *wp;
        W = &w;
        auto mode = vh::st().mode;
        bool crash = mode == "crash";
        w.isdirect = mode == "direct" || (crash && r.chance(25));
        w.threaded = mode == "threads";
        size_t ns = 1 + r.below(3);
        size_t nb = 1 + r.below(3);
        size_t nk = 2 + r.below(5);
        w.setup(r, ns, nb);
        size_t na = 2 + r.below(w.threaded ? 8 : 7);
        w.log << "shards=" << ns << " brokers=" << nb << (w.isdirect ? " direct" : "");
        auto add = [&](size_t n) {
            for(size_t i = 0; i < n; i++) {
                auto p = mk_program(r, w.agents.size(), nk, nb);
                w.log << desc(p);
                w.launch(w.add_agent(p));
            }
        };
        add(na);
        size_t rounds = crash ? 1 + r.below(3) : 0;
        for(size_t cr = 0; cr < rounds && !w.failed; cr++) {
            size_t at = r.below(cr == 0 ? 160 : 80);
            size_t k = 0;
            for(; k < at && w.b.step(r); k++) {}
            std::set<size_t> dead;
            bool all = r.chance(40);
            for(size_t i = 0; i < nb; i++) {
                if(all || r.chance(50)) {
                    dead.insert(i);
                }
            }
            if(dead.empty()) {
                dead.insert(r.below(nb));
            }
            if(w.isdirect) {
                all = false;
            }
            w.log << " CRASH@" << k << (all ? "all" : "");
            for(auto i : dead) {
                for(auto& a : w.agents) {
                    if(a->p.broker == i && *a->alive) {
                        *a->alive = false;
                        if(!a->done) {
                            vh::count("agents_killed");
                            auto st = a->a->get_state();
                            vh::count("killed_in_state_" + std::to_string(static_cast<int>(st)));
                        }
                        // its destructor insists on a finished execution
                        static std::vector<std::shared_ptr<cbdc::parsec::agent::impl>> graveyard;
                        graveyard.push_back(a->a);
                    }
                }
                for(auto& l : w.links[i]) {
                    // some of what was sent arrives, nothing comes back
                    *l->alive = false;
                    auto n = w.b.len(l->to);
                    w.b.drain_some(l->to, r.below(n + 1));
                    w.b.clear(l->to);
                    w.b.clear(l->from);
                }
            }
            if(all) {
                for(auto& n : w.nodes) {
                    // part of the log gets replicated, the rest is lost
                    auto len = w.b.len(n->rto);
                    w.b.drain_some(n->rto, r.below(len + 1));
                    w.b.clear(n->rto);
                    w.b.clear(n->rfrom);
                    static std::vector<std::shared_ptr<rls::rpc::server>> old;
                    old.push_back(n->server);
                    if(!n->start(true)) {
                        w.bad("shard-recover", "a fresh shard refused to recover");
                    }
                    vh::count("shard_recoveries");
                }
            } else if(!w.isdirect) {
                // commands already accepted by the shards complete first
                for(bool more = true; more;) {
                    more = false;
                    for(auto& n : w.nodes) {
                        for(auto c : {n->rto, n->rfrom}) {
                            if(w.b.len(c) > 0) {
                                w.b.drain_some(c, 1);
                                more = true;
                            }
                        }
                    }
                }
            }
            for(auto i : dead) {
                static std::vector<std::shared_ptr<cbdc::parsec::broker::impl>> oldb;
                static std::vector<std::shared_ptr<remote_shard>> oldl;
                oldb.push_back(w.brokers[i]);
                for(auto& l : w.links[i]) {
                    oldl.push_back(l);
                }
                recover_broker(w, r, i);
                if(w.failed) {
                    break;
                }
            }
            if(!w.failed) {
                add(1 + r.below(4));
            }
        }
        // run to the end
        bool quiet = false;
        if(w.threaded) {
            w.b.run_threads(4, r.next(), [&] {
                return w.all_done();
            });
            quiet = true;
        } else {
            for(size_t k = 0; k < 60000; k++) {
                if(!w.b.step(r)) {
                    quiet = true;
                    break;
                }
                if(w.failed) {
                    break;
                }
            }
        }
        vh::tick();
        if(!w.failed) {
            if(!quiet) {
                w.bad("no-progress", "executions keep restarting each other");
            } else if(!w.all_done()) {
                std::string who;
                for(auto& a : w.agents) {
                    if(*a->alive && !a->done) {
                        who += " A" + std::to_string(a->p.id) + ":state" + std::to_string(static_cast<int>(a->a->get_state()));
                    }
                }
                w.bad("stuck", "nothing left to deliver but executions did not finish:" + who);
            }
        }
        ser::result c;
        if(!w.failed) {
            std::set<std::string> keys;
            for(size_t i = 0; i < nk; i++) {
                keys.insert("k" + std::to_string(i));
            }
            auto fin = w.final_state(keys);
            if(!w.failed) {
                c = ser::check(w.history(), fin);
                if(!c.key.empty()) {
                    w.bad(c.key, c.detail);
                }
                vh::count("conflict_edges", c.edges);
                // the replicated copy agrees with what the shards serve
                for(auto& [k, v] : fin) {
                    if(w.isdirect) {
                        break;
                    }
                    cbdc::parsec::directory::impl(w.nodes.size()).key_location(buf(k), [&](uint64_t s) {
                        auto st = w.nodes[s]->repl->get_state();
                        auto it = st.find(buf(k));
                        auto rv = it == st.end() ? std::string() : str(it->second);
                        if(rv != v) {
                            w.bad("replica-differs", "key " + k + " is " + v + " on the shard and " + rv + " in the replicated state");
                        }
                    });
                }
                for(auto& n : w.nodes) {
                    n->repl->get_tickets([&](rls::replicated_shard_interface::get_tickets_return_type x) {
                        if(!std::get<rls::replicated_shard::tickets_type>(x).empty()) {
                            w.bad("replicated-ticket-leak", "replicated state keeps tickets after everything finished");
                        }
                    });
                }
            }
        }
        for(auto& a : w.agents) {
            vh::count("restarts", a->retries);
            vh::count("executions", a->done && a->committed ? 1 : 0);
            vh::count("failed_programs", a->done && a->failed ? 1 : 0);
        }
        vh::count("messages", w.b.delivered);
        vh::count("wounded_answers", w.wounds);
        vh::distinct(vh::mix(w.b.order, vh::hashs(w.log.str())));
        vh::sample(w.log.str().substr(0, 500));
        if(w.failed) {
            wp.release(); // agents that never finished must not be destroyed
            return;
        }
        for(auto& a : w.agents) {
            if(!a->done) {
                static std::vector<std::shared_ptr<cbdc::parsec::agent::impl>> graveyard2;
                graveyard2.push_back(a->a);
            }
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::run_cases(one);
    return vh::finish();
}
