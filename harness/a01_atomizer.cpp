// A01: the atomizer's blocks never double-spend, against a record of the
// chain kept here.  Attestations are truthful: an input is attested at height
// h only when no block up to h spends it.
#include "huhs.hpp"

#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "util/serialization/buffer_serializer.hpp"

#include <algorithm>

using namespace cbdc;
using transaction::compact_tx;
namespace wt = cbdc::watchtower;

namespace {
    std::string name(const wt::tx_error& e) {
        return std::to_string(e.info().index()) + ":" + vu::hx(e.tx_id());
    }
    struct world {
        vh::rng& r;
        size_t depth;
        uint64_t best;
        std::unique_ptr<atomizer::atomizer> a;
        std::vector<hash_t> outs;               // ids that exist
        std::map<hash_t, uint64_t> spent;       // id -> block that spends it
        std::set<hash_t> pending;               // ids spent in the next block
        std::vector<compact_tx> next;           // the next block
        std::vector<compact_tx> offered;
        // insert(): bucket height -> tx -> attestations
        std::map<uint64_t, std::map<hash_t, std::set<uint32_t>>> buckets;
        std::set<hash_t> failed;
        std::string log;
        uint64_t fp{3};

        explicit world(vh::rng& rr) : r(rr), depth(r.below(6)), best(r.chance(50) ? 0 : r.in(1, 50)) {
            a = std::make_unique<atomizer::atomizer>(best, depth);
            for(int i = 0; i < 6; i++) {
                outs.push_back(vu::rhash(r));
            }
        }
        void note(const std::string& s) {
            log += s + "; ";
            fp = vh::hashs(s, fp);
        }
        // block in which the id is spent; UINT64_MAX when it is not
        uint64_t when(const hash_t& h) {
            if(pending.count(h) != 0) {
                return best + 1;
            }
            auto it = spent.find(h);
            return it == spent.end() ? UINT64_MAX : it->second;
        }
        compact_tx make() {
            compact_tx t;
            t.m_id = vu::rhash(r);
            if(!r.chance(12)) {
                auto n = r.in(1, 4);
                for(size_t i = 0; i < n; i++) {
                    // recent ids more often, so that spends compete
                    auto& h = r.chance(70) && outs.size() > 8 ? outs[outs.size() - 1 - r.below(8)] : r.pick(outs);
                    if(std::find(t.m_inputs.begin(), t.m_inputs.end(), h) == t.m_inputs.end()) {
                        t.m_inputs.push_back(h);
                    }
                }
            }
            auto n = r.below(4);
            for(size_t i = 0; i < n; i++) {
                t.m_uhs_outputs.push_back(vu::rhash(r));
            }
            return t;
        }
        void complete(const compact_tx& t) {
            for(auto& i : t.m_inputs) {
                VCHECK(when(i) == UINT64_MAX, "atomizer:double-spend", vu::hx(i) << " " << log);
                pending.insert(i);
            }
            next.push_back(t);
            vh::count("completed");
        }
        void expect_spent(const std::optional<wt::tx_error>& e, const compact_tx& t, const std::set<hash_t>& want) {
            if(!e.has_value()) {
                vh::report("atomizer:spent-input-accepted", log);
                return;
            }
            VCHECK(e->tx_id() == t.m_id, "atomizer:error-names-other-tx", name(*e) << " " << log);
            auto info = e->info();
            auto* s = std::get_if<wt::tx_error_inputs_spent>(&info);
            if(s == nullptr) {
                vh::report("atomizer:wrong-error", name(*e) + " " + log);
                return;
            }
            auto ids = s->input_uhs_ids();
            VCHECK(std::set<hash_t>(ids.begin(), ids.end()) == want, "atomizer:wrong-spent-inputs", log);
            vh::count("double_spends_refused");
        }
        void complete_op() {
            auto t = !offered.empty() && r.chance(20) ? r.pick(offered) : make();
            offered.push_back(t);
            auto h = best - std::min(best, r.below(depth + 2));
            if(r.chance(8)) {
                h = r.chance(50) ? best + r.in(1, 3) : r.next();
            }
            if(r.chance(60) && h <= best) {
                // make it truthful
                for(auto& i : t.m_inputs) {
                    auto w = when(i);
                    if(w <= h) {
                        h = w - 1;
                    }
                }
            }
            note("complete " + vu::hx(t.m_id) + "@" + std::to_string(h) + "/" + std::to_string(t.m_inputs.size()));
            vh::guard g("insert_complete");
            auto e = a->insert_complete(h, compact_tx(t));
            if(!t.m_inputs.empty() && (h > best || best - h > depth)) {
                VCHECK(e.has_value() && std::holds_alternative<wt::tx_error_stxo_range>(e->info()) && e->tx_id() == t.m_id,
                       "atomizer:out-of-range-accepted", log);
                vh::count("range_refused");
                return;
            }
            std::set<hash_t> bad;
            for(auto& i : t.m_inputs) {
                auto w = when(i);
                if(w != UINT64_MAX && w > h) {
                    bad.insert(i);
                } else if(w != UINT64_MAX) {
                    // attested after it was spent: a lie the atomizer cannot see;
                    // what it does then is not judged, so undo by leaving
                    if(!e.has_value()) {
                        lied = true;
                    }
                }
            }
            if(!bad.empty()) {
                expect_spent(e, t, bad);
            } else {
                VCHECK(!e.has_value(), "atomizer:refused", name(*e) << " " << log);
                if(!e.has_value() && !lied) {
                    complete(t);
                }
            }
        }
        bool lied{false};
        void attest_op() {
            auto t = !offered.empty() && r.chance(60) ? offered[offered.size() - 1 - r.below(std::min<size_t>(offered.size(), 5))] : make();
            offered.push_back(t);
            auto h = best - std::min(best, r.below(depth + 1));
            if(t.m_inputs.empty() && r.chance(40)) {
                h = r.chance(50) ? best + r.in(1, 5) : best - std::min(best, r.below(20));
            } else if(r.chance(8)) {
                h = r.chance(50) ? best + 1 : best - std::min(best, depth + 1);
            }
            bool inrange = h <= best && best - h <= depth;
            std::unordered_set<uint32_t> att;
            for(uint32_t i = 0; i < t.m_inputs.size(); i++) {
                if(r.chance(60) && when(t.m_inputs[i]) > h) {
                    att.insert(i);
                }
            }
            if(att.empty() && !t.m_inputs.empty()) {
                return;
            }
            note("attest " + vu::hx(t.m_id) + "@" + std::to_string(h) + "+" + std::to_string(att.size()) + "/" + std::to_string(t.m_inputs.size()));
            vh::guard g("insert");
            auto e = a->insert(h, t, att);
            if(!inrange && !t.m_inputs.empty()) {
                VCHECK(e.has_value() && std::holds_alternative<wt::tx_error_stxo_range>(e->info()) && e->tx_id() == t.m_id,
                       "atomizer:out-of-range-accepted", log);
                vh::count("range_refused");
                return;
            }
            std::set<uint32_t> all(att.begin(), att.end());
            if(!t.m_inputs.empty()) {
                auto& b = buckets[h][t.m_id];
                b.insert(att.begin(), att.end());
            }
            for(auto& [bh, m] : buckets) {
                auto it = m.find(t.m_id);
                if(it != m.end()) {
                    all.insert(it->second.begin(), it->second.end());
                }
            }
            std::set<hash_t> bad;
            for(auto& i : t.m_inputs) {
                if(when(i) != UINT64_MAX) {
                    bad.insert(i);
                }
            }
            if(all.size() < t.m_inputs.size()) {
                VCHECK(!e.has_value(), "atomizer:refused-partial", name(*e) << " " << log);
                vh::count("partial");
                return;
            }
            if(!bad.empty()) {
                expect_spent(e, t, bad);
                failed.insert(t.m_id);
                return;
            }
            VCHECK(!e.has_value(), "atomizer:refused", name(*e) << " " << log);
            if(!e.has_value()) {
                complete(t);
                vh::count("assembled");
                for(auto& [bh, m] : buckets) {
                    m.erase(t.m_id);
                }
            }
        }
        void block_op() {
            VCHECK(a->pending_transactions() == next.size(), "atomizer:pending", a->pending_transactions() << " not " << next.size() << " " << log);
            auto [blk, errs] = a->make_block();
            note("block " + std::to_string(blk.m_height));
            best++;
            VCHECK(blk.m_height == best && a->height() == best, "atomizer:height", blk.m_height << " not " << best);
            std::multiset<hash_t> got;
            for(auto& t : blk.m_transactions) {
                got.insert(t.m_id);
            }
            std::multiset<hash_t> want;
            for(auto& t : next) {
                want.insert(t.m_id);
            }
            VCHECK(got == want, "atomizer:block-content", got.size() << " transactions, expected " << want.size() << " " << log);
            for(auto& t : blk.m_transactions) {
                for(auto& n : next) {
                    if(n.m_id == t.m_id) {
                        VCHECK(n.m_inputs == t.m_inputs && n.m_uhs_outputs == t.m_uhs_outputs, "atomizer:block-tx-changed", log);
                    }
                }
            }
            for(auto& t : next) {
                for(auto& i : t.m_inputs) {
                    spent[i] = best;
                }
                outs.insert(outs.end(), t.m_uhs_outputs.begin(), t.m_uhs_outputs.end());
            }
            next.clear();
            pending.clear();
            // what fell out of the window incomplete
            std::multiset<hash_t> gone;
            std::multiset<hash_t> optional;
            while(!buckets.empty() && best - buckets.begin()->first > depth) {
                for(auto& [id, s] : buckets.begin()->second) {
                    if(failed.count(id) != 0) {
                        optional.insert(id);
                    } else {
                        gone.insert(id);
                    }
                }
                buckets.erase(buckets.begin());
            }
            for(auto& e : errs) {
                VCHECK(std::holds_alternative<wt::tx_error_incomplete>(e.info()), "atomizer:block-error-kind", name(e));
                if(auto it = gone.find(e.tx_id()); it != gone.end()) {
                    gone.erase(it);
                } else if(auto it2 = optional.find(e.tx_id()); it2 != optional.end()) {
                    optional.erase(it2);
                } else {
                    vh::report("atomizer:false-incomplete", name(e) + " " + log);
                }
                vh::count("incomplete_reported");
            }
            VCHECK(gone.empty(), "atomizer:incomplete-not-reported", log);
        }
        void copy_op() {
            auto buf = a->serialize();
            auto b = std::make_unique<atomizer::atomizer>(r.below(100), r.below(4));
            if(r.chance(50)) {
                (void)b->insert_complete(b->height(), make());
            }
            auto s = buffer_serializer(buf);
            b->deserialize(s);
            VCHECK(*a == *b && b->height() == best && b->pending_transactions() == next.size(), "atomizer:state-copy", log);
            a = std::move(b);
            note("copy");
            vh::count("copies");
        }
        void run() {
            auto n = r.in(5, 60);
            for(size_t i = 0; i < n && !lied; i++) {
                auto o = r.below(100);
                if(o < 35) {
                    complete_op();
                } else if(o < 70) {
                    attest_op();
                } else if(o < 95) {
                    block_op();
                } else {
                    copy_op();
                }
            }
            vh::distinct(fp);
            vh::sample(log.substr(0, 500));
        }
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 15000;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        world w(r);
        w.run();
    });
    return vh::finish();
}
