// A05: what the watchtower says about transactions, judged against the chain
// and the errors it was given.
#include "hnet.hpp"
#include "huhs.hpp"

#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/client.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/util.hpp"

#include <algorithm>
#include <deque>

using namespace cbdc;
using transaction::compact_tx;
namespace wt = cbdc::watchtower;
using st = wt::search_status;

namespace {
    // The chain and the errors.
    struct model {
        vh::rng& r;
        size_t kb;
        size_t ke;
        uint64_t best{0};
        std::deque<atomizer::block> blocks; // those in the cache
        std::deque<wt::tx_error> errs;
        std::vector<hash_t> live; // unspent, by the whole chain
        std::vector<compact_tx> txs;
        std::vector<hash_t> ids;
        std::string log;
        uint64_t fp{5};
        model(vh::rng& rr, size_t b, size_t e) : r(rr), kb(b), ke(e) {}
        void note(const std::string& s) {
            log += s + "; ";
            fp = vh::hashs(s, fp);
        }
        compact_tx make() {
            compact_tx t;
            t.m_id = vu::rhash(r);
            if(!r.chance(25)) {
                auto n = r.in(1, 3);
                for(size_t i = 0; i < n && !live.empty(); i++) {
                    auto& h = r.pick(live);
                    if(std::find(t.m_inputs.begin(), t.m_inputs.end(), h) == t.m_inputs.end()) {
                        t.m_inputs.push_back(h);
                    }
                }
            }
            auto n = r.below(4);
            for(size_t i = 0; i < n; i++) {
                t.m_uhs_outputs.push_back(vu::rhash(r));
                ids.push_back(t.m_uhs_outputs.back());
            }
            txs.push_back(t);
            return t;
        }
        atomizer::block make_block() {
            atomizer::block b;
            b.m_height = best + 1;
            auto n = r.below(5);
            std::set<hash_t> used;
            std::vector<hash_t> fresh;
            for(size_t i = 0; i < n; i++) {
                // one that was offered before (and maybe refused), or a new one
                auto t = !txs.empty() && r.chance(40) ? r.pick(txs) : make();
                bool ok = true;
                for(auto& in : t.m_inputs) {
                    if(used.count(in) != 0 || std::find(live.begin(), live.end(), in) == live.end()) {
                        ok = false;
                    }
                }
                if(!ok || done.count(t.m_id) != 0) {
                    continue;
                }
                done.insert(t.m_id);
                used.insert(t.m_inputs.begin(), t.m_inputs.end());
                fresh.insert(fresh.end(), t.m_uhs_outputs.begin(), t.m_uhs_outputs.end());
                b.m_transactions.push_back(t);
            }
            std::erase_if(live, [&](auto& h) { return used.count(h) != 0; });
            live.insert(live.end(), fresh.begin(), fresh.end());
            return b;
        }
        std::set<hash_t> done;
        void push(const atomizer::block& b) {
            blocks.push_back(b);
            if(kb != 0 && blocks.size() > kb) {
                blocks.pop_front();
            }
            best = std::max(best, b.m_height);
        }
        const compact_tx* creator(const hash_t& h, uint64_t& height) const {
            for(auto& b : blocks) {
                for(auto& t : b.m_transactions) {
                    if(std::find(t.m_uhs_outputs.begin(), t.m_uhs_outputs.end(), h) != t.m_uhs_outputs.end()) {
                        height = b.m_height;
                        return &t;
                    }
                }
            }
            return nullptr;
        }
        const compact_tx* spender(const hash_t& h, uint64_t& height) const {
            for(auto& b : blocks) {
                for(auto& t : b.m_transactions) {
                    if(std::find(t.m_inputs.begin(), t.m_inputs.end(), h) != t.m_inputs.end()) {
                        height = b.m_height;
                        return &t;
                    }
                }
            }
            return nullptr;
        }
        static std::vector<hash_t> named(const wt::tx_error& e) {
            auto info = e.info();
            if(auto* d = std::get_if<wt::tx_error_inputs_dne>(&info)) {
                return d->input_uhs_ids();
            }
            if(auto* s = std::get_if<wt::tx_error_inputs_spent>(&info)) {
                auto u = s->input_uhs_ids();
                return {u.begin(), u.end()};
            }
            return {};
        }
        static bool names(const wt::tx_error& e, const hash_t& h) {
            auto v = named(e);
            return std::find(v.begin(), v.end(), h) != v.end();
        }
        // an error about a transaction that is in the chain after all
        bool repeated(const wt::tx_error& e) const {
            uint64_t height{};
            for(auto& h : named(e)) {
                auto* s = spender(h, height);
                if(s != nullptr) {
                    if(s->m_id == e.tx_id()) {
                        return true;
                    }
                    continue;
                }
                auto* c = creator(h, height);
                if(c != nullptr && c->m_id == e.tx_id()) {
                    return true;
                }
            }
            return false;
        }
        void push(const wt::tx_error& e) {
            errs.push_back(e);
            if(ke != 0 && errs.size() > ke) {
                errs.pop_front();
            }
        }
        const wt::tx_error* error_of(const hash_t& id) const {
            for(auto it = errs.rbegin(); it != errs.rend(); it++) {
                if(it->tx_id() == id) {
                    return &*it;
                }
            }
            return nullptr;
        }
        bool any_names(const hash_t& h) const {
            return std::any_of(errs.begin(), errs.end(), [&](auto& e) { return names(e, h); });
        }
        wt::tx_error make_error() {
            auto t = !txs.empty() && r.chance(80) ? txs[txs.size() - 1 - r.below(std::min<size_t>(txs.size(), 8))] : make();
            auto n = r.below(100);
            std::vector<hash_t> bad;
            for(auto& i : t.m_inputs) {
                if(r.chance(50)) {
                    bad.push_back(i);
                }
            }
            if(n < 15) {
                return {t.m_id, wt::tx_error_sync{}};
            }
            if(n < 30) {
                return {t.m_id, wt::tx_error_stxo_range{}};
            }
            if(n < 45) {
                return {t.m_id, wt::tx_error_incomplete{}};
            }
            if(n < 75) {
                return {t.m_id, wt::tx_error_inputs_dne{bad}};
            }
            return {t.m_id, wt::tx_error_inputs_spent{std::unordered_set<hash_t, hashing::null>(bad.begin(), bad.end())}};
        }
        hash_t rid() {
            return ids.empty() || r.chance(10) ? vu::rhash(r) : r.chance(60) ? ids[ids.size() - 1 - r.below(std::min<size_t>(ids.size(), 12))] : r.pick(ids);
        }
        wt::tx_id_uhs_ids question() {
            wt::tx_id_uhs_ids q;
            auto n = r.in(1, 4);
            for(size_t i = 0; i < n; i++) {
                auto t = !txs.empty() && r.chance(95) ? txs[txs.size() - 1 - r.below(std::min<size_t>(txs.size(), r.chance(70) ? 10 : 200))] : compact_tx();
                std::vector<hash_t> v = t.m_inputs;
                v.insert(v.end(), t.m_uhs_outputs.begin(), t.m_uhs_outputs.end());
                while(r.chance(30)) {
                    v.push_back(rid());
                }
                r.shuffle(v);
                q[t.m_id] = v;
            }
            return q;
        }
        void judge(const wt::tx_id_uhs_ids& q, const wt::tx_id_states& a) {
            VCHECK(q.size() == a.size(), "watchtower:answer-transactions", q.size() << " asked " << a.size() << " answered " << log);
            for(auto& [id, hs] : q) {
                auto it = a.find(id);
                if(it == a.end()) {
                    vh::report("watchtower:transaction-missing", log);
                    continue;
                }
                auto& ss = it->second;
                bool same = ss.size() == hs.size();
                for(size_t i = 0; same && i < hs.size(); i++) {
                    same = ss[i].uhs_id() == hs[i];
                }
                VCHECK(same, "watchtower:states-do-not-match-ids", ss.size() << " states for " << hs.size() << " ids; " << log);
                if(!same) {
                    continue;
                }
                for(size_t i = 0; i < hs.size(); i++) {
                    one(id, hs[i], ss[i]);
                }
            }
        }
        void one(const hash_t& id, const hash_t& h, const wt::status_update_state& s) {
            vh::count("states");
            uint64_t sh{};
            uint64_t ch{};
            auto* sp = spender(h, sh);
            auto* cr = creator(h, ch);
            std::ostringstream o;
            o << "status " << static_cast<int>(s.status()) << "@" << s.block_height() << " for " << vu::hx(h) << " of " << vu::hx(id)
              << " best=" << best << " spent@" << sh << " created@" << ch << "; " << log;
            auto where = o.str();
            if(sp != nullptr && sp->m_id == id) {
                VCHECK(s.status() == st::spent && s.block_height() == sh, "watchtower:spent-not-reported", where);
                vh::count("spent");
                return;
            }
            if(sp == nullptr && cr != nullptr && cr->m_id == id) {
                VCHECK(s.status() == st::unspent && s.block_height() == ch, "watchtower:unspent-not-reported", where);
                vh::count("unspent");
                return;
            }
            if(cr != nullptr && cr->m_id == id && s.status() == st::spent) {
                return; // created by it, spent by another since
            }
            auto* e = error_of(id);
            if(e == nullptr) {
                VCHECK(s.status() == st::no_history, "watchtower:no-history-expected", where);
                vh::count("no_history");
            } else {
                auto info = e->info();
                vh::count("error_states");
                if(std::holds_alternative<wt::tx_error_sync>(info) || std::holds_alternative<wt::tx_error_stxo_range>(info)) {
                    VCHECK(s.status() == st::internal_error, "watchtower:internal-error-expected", where);
                } else if(names(*e, h)) {
                    VCHECK(s.status() == st::invalid_input, "watchtower:invalid-input-expected", where);
                } else if(any_names(h)) {
                    VCHECK(s.status() == st::invalid_input || s.status() == st::tx_rejected, "watchtower:rejection-expected", where);
                } else {
                    VCHECK(s.status() == st::tx_rejected, "watchtower:tx-rejected-expected", where);
                }
            }
            VCHECK(s.block_height() == best, "watchtower:height", where);
        }
    };

    template<typename F>
    void ask(model& m, F&& f) {
        auto q = m.question();
        f(q);
    }

    void direct(vh::rng& r) {
        // a cache of k blocks reserves room for 2k million ids
        auto kb = r.chance(60) ? 0 : r.in(1, 2);
        auto ke = r.below(6);
        model m(r, kb, ke);
        wt::watchtower w(kb, ke);
        m.note("cache " + std::to_string(kb) + "/" + std::to_string(ke));
        auto n = kb == 0 ? r.in(5, 60) : r.in(100, 300);
        for(size_t i = 0; i < n; i++) {
            auto o = r.below(100);
            vh::tick();
            if(o < 30) {
                auto b = m.make_block();
                m.push(b);
                m.note("block " + std::to_string(b.m_height) + "/" + std::to_string(b.m_transactions.size()));
                w.add_block(atomizer::block(b));
                vh::count("blocks");
            } else if(o < 60) {
                std::vector<wt::tx_error> v;
                auto k = r.below(4);
                for(size_t j = 0; j < k; j++) {
                    v.push_back(m.make_error());
                }
                for(auto& e : v) {
                    m.note("error " + vu::hx(e.tx_id()) + " " + std::to_string(e.info().index()));
                    if(m.repeated(e)) {
                        vh::count("repeats_dropped");
                        continue;
                    }
                    m.push(e);
                    vh::count("errors");
                }
                w.add_errors(std::move(v));
            } else {
                auto q = m.question();
                auto res = w.handle_status_update_request(wt::status_update_request(q));
                // over the wire and back
                auto buf = make_buffer(*res);
                auto des = buffer_serializer(buf);
                auto back = wt::response(des);
                VCHECK(back == *res, "watchtower:answer-round-trip", m.log);
                auto pl = back.payload();
                auto* ok = std::get_if<wt::status_request_check_success>(&pl);
                if(ok == nullptr) {
                    vh::report("watchtower:answer-kind", m.log);
                    continue;
                }
                m.judge(q, ok->states());
                auto bb = w.handle_best_block_height_request({})->payload();
                auto* h = std::get_if<wt::best_block_height_response>(&bb);
                VCHECK(h != nullptr && h->height() == m.best, "watchtower:best-height", m.log);
            }
            if(m.log.size() > 4000) {
                m.log.erase(0, 2000);
            }
        }
        vh::distinct(m.fp);
        vh::sample(m.log.substr(0, 400));
    }

    // The caches alone.
    void caches(vh::rng& r) {
        auto ke = r.below(5);
        model m(r, 0, ke);
        wt::error_cache c(ke);
        m.make_block();
        auto n = r.in(5, 80);
        for(size_t i = 0; i < n; i++) {
            if(r.chance(40)) {
                (void)m.make();
            }
            std::vector<wt::tx_error> v;
            auto k = r.below(3);
            for(size_t j = 0; j < k; j++) {
                v.push_back(m.make_error());
                m.push(v.back());
                m.note(vu::hx(v.back().tx_id()) + " " + std::to_string(v.back().info().index()));
            }
            c.push_errors(std::move(v));
            for(size_t j = 0; j < 4 && !m.txs.empty(); j++) {
                auto& t = r.pick(m.txs);
                auto got = c.check_tx_id(t.m_id);
                auto* want = m.error_of(t.m_id);
                VCHECK(got.has_value() == (want != nullptr), "error-cache:tx", got.has_value() << " " << m.log);
                if(got.has_value() && want != nullptr) {
                    VCHECK(*got == *want, "error-cache:tx-error", m.log);
                }
                for(auto& h : t.m_inputs) {
                    auto g = c.check_uhs_id(h);
                    VCHECK(g.has_value() == m.any_names(h), "error-cache:uhs", g.has_value() << " " << m.log);
                    if(g.has_value()) {
                        VCHECK(model::names(*g, h) && std::count(m.errs.begin(), m.errs.end(), *g) > 0, "error-cache:uhs-error", m.log);
                    }
                }
                vh::count("cache_lookups");
            }
            if(r.chance(20)) {
                m.push(m.make_block());
            }
        }
        vh::distinct(m.fp);
    }

    // Several threads; each asks about what it added itself.
    void threads(vh::rng& r) {
        wt::watchtower w(0, 0);
        constexpr size_t nt = 4;
        std::mutex hm;
        uint64_t height{0};
        std::vector<std::thread> ts;
        std::vector<uint64_t> seeds;
        for(size_t i = 0; i < nt; i++) {
            seeds.push_back(r.next());
        }
        for(size_t i = 0; i < nt; i++) {
            ts.emplace_back([&, i] {
                vh::rng q(seeds[i]);
                std::vector<hash_t> outs;
                uint64_t seen{0};
                for(size_t n = 0; n < 40; n++) {
                    compact_tx t;
                    t.m_id = vu::rhash(q);
                    if(!outs.empty()) {
                        t.m_inputs.push_back(outs.back());
                        outs.pop_back();
                    }
                    t.m_uhs_outputs = {vu::rhash(q), vu::rhash(q)};
                    auto fails = q.chance(40);
                    uint64_t at{0};
                    if(fails) {
                        std::vector<wt::tx_error> v{{t.m_id, wt::tx_error_inputs_dne{t.m_inputs}}};
                        w.add_errors(std::move(v));
                        outs.insert(outs.end(), t.m_inputs.begin(), t.m_inputs.end());
                    } else {
                        std::unique_lock<std::mutex> l(hm);
                        atomizer::block b;
                        b.m_height = at = ++height;
                        b.m_transactions.push_back(t);
                        w.add_block(std::move(b));
                        outs.insert(outs.end(), t.m_uhs_outputs.begin(), t.m_uhs_outputs.end());
                    }
                    wt::tx_id_uhs_ids qu;
                    auto& v = qu[t.m_id];
                    v = t.m_inputs;
                    v.insert(v.end(), t.m_uhs_outputs.begin(), t.m_uhs_outputs.end());
                    auto res = w.handle_status_update_request(wt::status_update_request(qu));
                    auto pl = res->payload();
                    auto& states = std::get<wt::status_request_check_success>(pl).states();
                    auto& ss = states.at(t.m_id);
                    VCHECK(ss.size() == v.size(), "watchtower:states-do-not-match-ids", ss.size());
                    for(size_t k = 0; k < ss.size() && k < v.size(); k++) {
                        auto in = k < t.m_inputs.size();
                        auto want = fails ? (in ? st::invalid_input : st::tx_rejected) : (in ? st::spent : st::unspent);
                        VCHECK(ss[k].status() == want && ss[k].uhs_id() == v[k], "watchtower:concurrent-status", static_cast<int>(ss[k].status()) << " not " << static_cast<int>(want));
                        VCHECK(fails ? ss[k].block_height() >= seen : ss[k].block_height() == at, "watchtower:concurrent-height", ss[k].block_height() << " not " << at);
                    }
                    auto bb = w.handle_best_block_height_request({})->payload();
                    auto h = std::get<wt::best_block_height_response>(bb).height();
                    VCHECK(h >= seen && h >= at, "watchtower:best-height-went-back", h << " < " << seen);
                    seen = h;
                    vh::tick();
                    vh::count("threaded_questions");
                }
            });
        }
        for(auto& t : ts) {
            t.join();
        }
        vh::distinct(r.next());
    }

    // The controller over the network, fed by an atomizer and an archiver
    // played here: blocks go missing, come late or twice.
    void served(vh::rng& r) {
        config::options o;
        o.m_watchtower_block_cache_size = 0;
        o.m_watchtower_error_cache_size = 0;
        auto two = r.chance(50);
        o.m_atomizer_endpoints = {vn::endpoint()};
        if(two) {
            o.m_atomizer_endpoints.push_back(vn::endpoint());
        }
        o.m_archiver_endpoints = {vn::endpoint()};
        o.m_watchtower_client_endpoints = {vn::endpoint()};
        o.m_watchtower_internal_endpoints = {vn::endpoint()};
        model m(r, 0, 0);
        std::mutex am;
        std::map<uint64_t, atomizer::block> archive;
        uint64_t refuse{0};
        network::connection_manager atm[2];
        network::connection_manager arc;
        std::vector<std::thread> ts;
        for(size_t i = 0; i < o.m_atomizer_endpoints.size(); i++) {
            auto t = atm[i].start_server(o.m_atomizer_endpoints[i], [](auto&&) -> std::optional<buffer> { return std::nullopt; });
            if(!t) {
                vh::count("ports_taken");
                _exit(92);
            }
            ts.push_back(std::move(*t));
        }
        auto at = arc.start_server(o.m_archiver_endpoints[0], [&](network::message_t&& p) -> std::optional<buffer> {
            auto h = from_buffer<archiver::request>(*p.m_pkt);
            std::unique_lock<std::mutex> l(am);
            archiver::response res;
            if(h.has_value() && archive.count(*h) != 0 && refuse == 0) {
                res = archive[*h];
                vh::count("archive_blocks");
            } else {
                refuse = refuse == 0 ? 0 : refuse - 1;
            }
            return make_buffer(res);
        });
        if(!at) {
            _exit(92);
        }
        ts.push_back(std::move(*at));
        std::vector<atomizer::block> chain;
        {
            auto c = std::make_unique<wt::controller>(0, o, vu::logger());
            vh::guard g("watchtower-controller");
            VCHECK(c->init(), "watchtower:controller-init", "");
            wt::blocking_client cl(o.m_watchtower_client_endpoints[0]);
            (void)cl.init();
            network::connection_manager shard;
            (void)shard.cluster_connect(o.m_watchtower_internal_endpoints);
            for(size_t i = 0; i < o.m_atomizer_endpoints.size(); i++) {
                vn::wait([&] { return atm[i].peer_count() > 0; });
            }
            auto n = r.in(3, 25);
            std::vector<atomizer::block> late;
            for(size_t i = 0; i < n; i++) {
                auto b = m.make_block();
                m.push(b);
                {
                    std::unique_lock<std::mutex> l(am);
                    archive[b.m_height] = b;
                    if(r.chance(20)) {
                        refuse = r.in(1, 2);
                    }
                }
                chain.push_back(b);
                auto last = i + 1 == n;
                auto which = two ? r.below(2) : 0;
                if(last || r.chance(65)) {
                    atm[which].broadcast(b);
                    m.note("block " + std::to_string(b.m_height));
                } else if(r.chance(60)) {
                    late.push_back(b);
                    m.note("delay " + std::to_string(b.m_height));
                }
                if(r.chance(25)) {
                    auto& x = !late.empty() ? r.pick(late) : r.pick(chain);
                    if(&x != &chain.back() || last) {
                        atm[two ? r.below(2) : 0].broadcast(x);
                        m.note("again " + std::to_string(x.m_height));
                        vh::count("late_blocks");
                    }
                }
                if(r.chance(30)) {
                    std::vector<wt::tx_error> v{m.make_error()};
                    // only errors that are no repeats, however the blocks arrive
                    if(model::named(v[0]).empty()) {
                        m.push(v[0]);
                        shard.broadcast(v);
                        m.note("error " + vu::hx(v[0].tx_id()));
                    }
                }
            }
            // everything is seen in the end
            auto ok = vn::wait([&] {
                auto h = cl.request_best_block_height();
                return h != nullptr && h->height() == m.best;
            });
            VCHECK(ok, "watchtower:does-not-catch-up", m.log);
            ok = ok && vn::wait([&] {
                for(auto& e : m.errs) {
                    wt::tx_id_uhs_ids q;
                    q[e.tx_id()] = {hash_t{}};
                    auto a = cl.request_status_update(wt::status_update_request(q));
                    if(a == nullptr || a->states().at(e.tx_id())[0].status() == st::no_history) {
                        return false;
                    }
                }
                return true;
            });
            VCHECK(ok, "watchtower:errors-lost", m.log);
            for(size_t i = 0; ok && i < 6; i++) {
                auto q = m.question();
                auto a = cl.request_status_update(wt::status_update_request(q));
                VCHECK(a != nullptr, "watchtower:no-answer", m.log);
                if(a != nullptr) {
                    m.judge(q, a->states());
                }
            }
            shard.close();
            if(!ok) {
                // it may never stop either
                vh::die("watchtower:stuck", m.log);
            }
        }
        for(auto& a : atm) {
            a.close();
        }
        arc.close();
        for(auto& t : ts) {
            t.join();
        }
        vh::count("served");
        vh::distinct(m.fp);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 60000;
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(mode == "threads") {
            threads(r);
        } else if(mode == "served") {
            served(r);
        } else {
            direct(r);
            caches(r);
        }
    });
    return vh::finish();
}
