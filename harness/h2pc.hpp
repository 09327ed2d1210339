// Two-phase commit: what was submitted, answered, and in the end holds.
#ifndef VERIF_H2PC_HPP
#define VERIF_H2PC_HPP
#include "hnet.hpp"
#include "huhs.hpp"

#include "libnuraft/nuraft.hxx"
#include "uhs/transaction/transaction.hpp"

#include <filesystem>

namespace v2 {
    using cbdc::hash_t;
    using cbdc::transaction::compact_tx;
    namespace fs = std::filesystem;

    enum ans : int { silent = -1, no = 0, yes = 1, none = 2, invalid = 3 };
    struct sub {
        compact_tx c;
        bool bad{false};      // must never be accepted
        std::atomic<uint64_t> t_sub{0};
        std::atomic<uint64_t> t_ans{0};
        std::atomic<int> a{silent};
        std::atomic<int> answers{0};
        size_t times{1}; // how often it was submitted
        bool first{true};
    };
    using subp = std::shared_ptr<sub>;

    struct books {
        std::mutex m;
        std::atomic<uint64_t> clock{1};
        std::vector<subp> subs;
        std::map<hash_t, subp> creator;             // output -> transaction
        std::map<hash_t, std::vector<subp>> claims; // output -> submissions spending it
        std::map<hash_t, std::vector<subp>> by_id;
        std::vector<hash_t> pool; // outputs to spend

        subp enter(const compact_tx& c, bool bad) {
            auto s = std::make_shared<sub>();
            s->c = c;
            s->bad = bad;
            std::unique_lock<std::mutex> l(m);
            auto& b = by_id[c.m_id];
            s->first = b.empty();
            b.push_back(s);
            for(auto& o : b) {
                o->times = b.size();
            }
            subs.push_back(s);
            for(auto& i : c.m_inputs) {
                claims[i].push_back(s);
            }
            if(s->first) {
                auto early = subs.size() % 8 == 0;
                for(auto& o : c.m_uhs_outputs) {
                    creator[o] = s;
                    if(early) {
                        pool.push_back(o);
                    }
                }
            }
            s->t_sub = clock++;
            return s;
        }
        void answer(const subp& s, ans a) {
            s->t_ans = clock++;
            s->a = a;
            s->answers++;
            if(a == yes && s->first) {
                std::unique_lock<std::mutex> l(m);
                for(auto& o : s->c.m_uhs_outputs) {
                    pool.push_back(o);
                }
            }
        }
        // Whether the system said yes to any submission of it.
        bool confirmed(const hash_t& id) {
            for(auto& s : by_id[id]) {
                if(s->a == yes) {
                    return true;
                }
            }
            return false;
        }
        // Given what the shards say in the end, was every answer true, is
        // every output spent once, and none lost or invented?
        void audit(const std::string& P,
                   const std::function<bool(const hash_t&)>& done,
                   const std::function<bool(const hash_t&)>& unspent) {
            std::unique_lock<std::mutex> l(m);
            std::set<hash_t> T;
            for(auto& [id, v] : by_id) {
                if(done(id)) {
                    T.insert(id);
                }
            }
            vh::count("completed", T.size());
            std::map<hash_t, hash_t> spender;
            for(auto& id : T) {
                auto& s = by_id[id].front();
                VCHECK(!s->bad, P + ":accepted-bad", vu::hx(id) << " was completed");
                for(auto& i : s->c.m_inputs) {
                    auto [it, fresh] = spender.emplace(i, id);
                    VCHECK(fresh, P + ":double-spend", "output " << vu::hx(i) << " spent by " << vu::hx(it->second) << " and " << vu::hx(id));
                    auto cr = creator.find(i);
                    VCHECK(cr != creator.end() && T.count(cr->second->c.m_id) != 0, P + ":spent-unknown", "output " << vu::hx(i) << " spent by " << vu::hx(id) << " was never created");
                }
            }
            for(auto& [o, s] : creator) {
                auto want = T.count(s->c.m_id) != 0 && spender.count(o) == 0;
                auto is = unspent(o);
                if(want && !is) {
                    vh::report(P + ":lost", "output " + vu::hx(o) + " of completed " + vu::hx(s->c.m_id) + " is not unspent");
                }
                if(!want && is) {
                    vh::report(P + (spender.count(o) != 0 ? ":spent-still-unspent" : ":invented"), "output " + vu::hx(o) + " of " + vu::hx(s->c.m_id) + " is unspent");
                }
                vh::count("outputs");
            }
            for(auto& s : subs) {
                auto in = T.count(s->c.m_id) != 0;
                auto a = s->a.load();
                VCHECK(s->answers <= 1, P + ":answered-twice", s->answers);
                if(a == yes) {
                    vh::count("confirmed");
                    VCHECK(in, P + ":false-confirmation", vu::hx(s->c.m_id) << " was confirmed but is not complete");
                    VCHECK(!s->bad, P + ":confirmed-bad", vu::hx(s->c.m_id));
                } else if(a == no) {
                    vh::count("rejected");
                    VCHECK(s->times > 1 || !in, P + ":false-rejection", vu::hx(s->c.m_id) << " was rejected but is complete");
                    if(s->bad) {
                        vh::count("rejected_bad");
                    } else if(s->times == 1) {
                        rightly(P, s);
                    }
                } else if(a == invalid) {
                    vh::count("invalid");
                    VCHECK(s->bad, P + ":rejected-good", vu::hx(s->c.m_id));
                } else {
                    vh::count(a == none ? "failed" : "unanswered");
                    if(in) {
                        vh::count("completed_without_answer");
                    }
                }
            }
        }
        // A rejection needs a reason: an input that was not there, or that
        // somebody else wanted at the time.
        void rightly(const std::string& P, const subp& s) {
            for(auto& i : s->c.m_inputs) {
                auto cr = creator.find(i);
                if(cr == creator.end()) {
                    vh::count("rejected_unknown_input");
                    return;
                }
                bool before = false;
                for(auto& c : by_id[cr->second->c.m_id]) {
                    before = before || (c->a == yes && c->t_ans < s->t_sub);
                }
                if(!before) {
                    vh::count("rejected_unconfirmed_input");
                    return;
                }
                for(auto& o : claims[i]) {
                    if(o != s && o->t_sub < s->t_ans) {
                        vh::count("rejected_contended");
                        return;
                    }
                }
            }
            vh::report(P + ":unfounded-rejection", "nobody else wanted the confirmed inputs of " + vu::hx(s->c.m_id));
        }
    };
    // Picks inputs: mostly outputs that may be there, sometimes whatever.
    inline std::vector<hash_t> inputs(vh::rng& r, books& b) {
        std::unique_lock<std::mutex> l(b.m);
        std::vector<hash_t> v;
        if(b.pool.empty()) {
            return v;
        }
        auto n = r.chance(15) ? 0 : r.in(1, 3);
        for(size_t i = 0; i < n; i++) {
            auto recent = std::min<size_t>(b.pool.size(), 40);
            auto k = r.chance(70) ? b.pool.size() - 1 - r.below(recent) : r.below(b.pool.size());
            auto u = b.pool[k];
            if(std::find(v.begin(), v.end(), u) == v.end()) {
                v.push_back(u);
            }
            if(r.chance(85)) {
                b.pool.erase(b.pool.begin() + static_cast<long>(k));
                if(b.pool.empty()) {
                    break;
                }
            }
        }
        return v;
    }
    inline std::string key_of(const std::vector<cbdc::network::endpoint_t>& v) {
        std::string k;
        for(auto& e : v) {
            k += e.first + ":" + std::to_string(e.second) + ",";
        }
        return k;
    }
    // Some node that can lead does.
    inline bool elect(vh::rng& r, const nuraft::ptr<nuraft::sim::cluster>& c, size_t n) {
        for(int i = 0; i < 100; i++) {
            if(nuraft::sim::lead(c, static_cast<int>(r.in(1, n)))) {
                return true;
            }
        }
        return false;
    }
}
#endif
