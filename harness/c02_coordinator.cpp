// C02: coordinators against shards that record every step, with failures of
// the coordinator at chosen requests.
#include "h2pc.hpp"

#include "uhs/twophase/coordinator/client.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/tcp_server.hpp"

using namespace cbdc;
using namespace v2;
namespace ls = cbdc::locking_shard;

struct step_t {
    std::vector<compact_tx> txs;
    std::optional<std::vector<bool>> res;
    std::optional<std::vector<bool>> flags;
    size_t locks{0};
    size_t applies{0};
    size_t discards{0};
    uint64_t born{0};
};

struct rig {
    vh::rng& r;
    config::options o;
    books b;
    std::vector<std::unique_ptr<ls::locking_shard>> shards;
    using srv_t = cbdc::rpc::blocking_tcp_server<ls::rpc::request, ls::rpc::response>;
    std::vector<std::unique_ptr<srv_t>> srvs;
    std::mutex m;
    std::map<hash_t, std::map<size_t, step_t>> trace; // dtx -> shard
    std::atomic<int64_t> countdown{-1};
    enum class fail { crash_before, crash_after, refuse_after, lose_before, lose_after };
    std::atomic<fail> how{fail::crash_before};
    std::atomic<bool> crash{false};   // the driver is to stop the coordinator
    std::atomic<uint64_t> epoch{1};   // which changes when it did
    std::atomic<bool> closing{false};
    std::atomic<int> slow{0};
    size_t nc{};
    size_t nn{};
    std::vector<std::vector<std::unique_ptr<coordinator::controller>>> cs;
    std::vector<nuraft::ptr<nuraft::sim::cluster>> sims;
    std::vector<std::unique_ptr<coordinator::rpc::client>> cl;
    std::vector<vu::key> keys;
    fs::path dir;
    fs::path back;
    vh::rng fr;
    std::mutex fm;

    static bool in(const hash_t& h, const config::shard_range_t& g) {
        return h[0] >= g.first && h[0] <= g.second;
    }
    [[nodiscard]] bool concerns(const compact_tx& c, size_t s) const {
        auto g = o.m_shard_ranges[s];
        if(in(c.m_id, g)) {
            return true;
        }
        for(auto& i : c.m_inputs) {
            if(in(i, g)) {
                return true;
            }
        }
        for(auto& i : c.m_uhs_outputs) {
            if(in(i, g)) {
                return true;
            }
        }
        return false;
    }
    [[nodiscard]] size_t home(const hash_t& h) const {
        for(size_t s = 0; s < o.m_shard_ranges.size(); s++) {
            if(in(h, o.m_shard_ranges[s])) {
                return s;
            }
        }
        _exit(93);
    }

    rig(vh::rng& rr, uint64_t n_case) : r(rr), fr(rr.next()) {
        dir = fs::path(vh::st().scratch) / ("c02." + std::to_string(n_case));
        fs::remove_all(dir);
        fs::create_directories(dir);
        back = fs::current_path();
        fs::current_path(dir);
        nc = r.in(1, 2);
        nn = r.chance(60) ? 1 : 3;
        auto ns = r.in(1, 4);
        size_t at = 0;
        for(size_t s = 0; s < ns; s++) {
            auto end = s + 1 == ns ? 255 : r.in(at, 254 - (ns - s));
            o.m_shard_ranges.emplace_back(static_cast<uint8_t>(at), static_cast<uint8_t>(end));
            at = end + 1;
        }
        o.m_attestation_threshold = r.in(0, 2);
        for(size_t i = 0; i < 3; i++) {
            keys.push_back(vu::make_key(r));
            o.m_sentinel_public_keys.insert(keys.back().pk);
        }
        o.m_batch_size = r.chance(50) ? r.in(1, 5) : r.in(6, 200);
        o.m_coordinator_max_threads = r.in(1, 8);
        o.m_shard_completed_txs_cache_size = 10000000;
        for(size_t s = 0; s < ns; s++) {
            shards.push_back(std::make_unique<ls::locking_shard>(o.m_shard_ranges[s], vu::logger(), o.m_shard_completed_txs_cache_size, "", o));
            o.m_locking_shard_endpoints.push_back({vn::endpoint()});
            srvs.push_back(std::make_unique<srv_t>(o.m_locking_shard_endpoints.back()[0]));
            srvs.back()->register_handler_callback([this, s](ls::rpc::request q) {
                return serve(s, std::move(q));
            });
            if(!srvs.back()->init()) {
                _exit(92);
            }
        }
        for(size_t c = 0; c < nc; c++) {
            o.m_coordinator_endpoints.emplace_back();
            o.m_coordinator_raft_endpoints.emplace_back();
            for(size_t n = 0; n < nn; n++) {
                o.m_coordinator_endpoints.back().push_back(vn::endpoint());
                o.m_coordinator_raft_endpoints.back().push_back(vn::endpoint());
            }
            sims.push_back(nuraft::sim::get(key_of(o.m_coordinator_raft_endpoints.back())));
        }
        cs.resize(nc);
        for(size_t c = 0; c < nc; c++) {
            cs[c].resize(nn);
            for(size_t n = 0; n < nn; n++) {
                start(c, n);
            }
            cl.emplace_back();
        }
    }
    ~rig() {
        closing = true;
        cl.clear();
        cs.clear();
        srvs.clear();
        nuraft::sim::forget_all();
        fs::current_path(back);
        fs::remove_all(dir);
    }
    void start(size_t c, size_t n) {
        cs[c][n] = std::make_unique<coordinator::controller>(n, c, o, vu::logger());
        VCHECK(cs[c][n]->init(), "coordinator:init", "");
    }
    void connect(size_t c) {
        cl[c] = std::make_unique<coordinator::rpc::client>(o.m_coordinator_endpoints[c]);
        (void)cl[c]->init();
    }

    // ---- a shard is asked to do something
    std::optional<ls::rpc::response> serve(size_t s, ls::rpc::request q) {
        if(slow.load() > 0) {
            uint64_t us{};
            {
                std::unique_lock<std::mutex> l(fm);
                us = fr.below(static_cast<uint64_t>(slow.load()));
            }
            std::this_thread::sleep_for(std::chrono::microseconds(us));
        }
        auto fault = false;
        if(countdown.load() > 0 && countdown.fetch_sub(1) == 1) {
            fault = true;
        }
        auto h = how.load();
        if(fault && (h == fail::crash_before || h == fail::lose_before)) {
            if(h == fail::crash_before) {
                wait_crash();
            }
            vh::count("lost_requests");
            return std::nullopt;
        }
        auto res = step(s, std::move(q));
        if(fault) {
            if(h == fail::refuse_after) {
                // the coordinator cannot record what comes next
                for(auto& c : sims) {
                    std::unique_lock<std::mutex> l(c->m);
                    c->refuse = true;
                }
                crash = true;
                vh::count("refused_records");
                return res;
            }
            if(h == fail::crash_after) {
                wait_crash();
            }
            vh::count("lost_answers");
            return std::nullopt;
        }
        return res;
    }
    void wait_crash() {
        auto e = epoch.load();
        crash = true;
        vn::wait([&] {
            return epoch.load() != e || closing.load();
        });
    }
    ls::rpc::response step(size_t s, ls::rpc::request q) {
        std::unique_lock<std::mutex> l(m);
        auto d = q.m_dtx_id;
        auto& all = trace[d];
        auto& t = all[s];
        auto name = vu::hx(d) + " on shard " + std::to_string(s);
        return std::visit(
            overloaded{
                [&](ls::rpc::lock_params&& p) -> ls::rpc::response {
                    std::vector<compact_tx> txs;
                    for(auto& x : p) {
                        txs.push_back(x.m_tx);
                        VCHECK(concerns(x.m_tx, s), "dtx:wrong-shard", name << " was sent a transaction it has no part of");
                    }
                    VCHECK(!txs.empty(), "dtx:empty", name);
                    if(t.applies != 0 || t.discards != 0) {
                        // A request of a coordinator that lost the lead may
                        // still be under way; the shards are assumed not to
                        // get it after those of its successor.
                        VCHECK(t.born != epoch.load(), "dtx:lock-late", name << " was asked to lock after applying");
                        vh::count("stale_requests");
                        return *t.res;
                    }
                    if(t.locks == 0) {
                        t.born = epoch.load();
                    }
                    if(t.locks != 0) {
                        VCHECK(t.txs == txs, "dtx:lock-differs", name << " was asked to lock something else than before");
                        vh::count("repeated_locks");
                    }
                    t.locks++;
                    t.txs = txs;
                    auto res = shards[s]->lock_outputs(std::move(p), d);
                    VCHECK(res.has_value() && res->size() == txs.size(), "dtx:lock-result", name);
                    VCHECK(!t.res.has_value() || *t.res == *res, "dtx:lock-replay", name << " gave another answer");
                    t.res = res;
                    vh::count("locks");
                    return *res;
                },
                [&](ls::rpc::apply_params&& p) -> ls::rpc::response {
                    VCHECK(t.locks != 0, "dtx:apply-unlocked", name << " was asked to apply before locking");
                    if(t.discards != 0) {
                        VCHECK(t.born != epoch.load(), "dtx:apply-late", name << " was asked to apply after discarding");
                        vh::count("stale_requests");
                        return ls::rpc::apply_response{};
                    }
                    VCHECK(p.size() == t.txs.size(), "dtx:apply-size", name << ": " << p.size() << " decisions for " << t.txs.size());
                    if(t.applies != 0) {
                        VCHECK(*t.flags == p, "dtx:apply-differs", name << " was told to decide differently than before");
                        vh::count("repeated_applies");
                    }
                    // every shard a transaction concerns has locked, and the
                    // decision is what they all said
                    for(size_t i = 0; i < t.txs.size() && i < p.size(); i++) {
                        auto want = true;
                        for(size_t o2 = 0; o2 < shards.size(); o2++) {
                            if(!concerns(t.txs[i], o2)) {
                                continue;
                            }
                            auto f = all.find(o2);
                            auto found = false;
                            if(f != all.end() && f->second.res.has_value()) {
                                for(size_t j = 0; j < f->second.txs.size(); j++) {
                                    if(f->second.txs[j] == t.txs[i]) {
                                        found = true;
                                        want = want && (*f->second.res)[j];
                                    }
                                }
                            }
                            VCHECK(found, "dtx:apply-early", name << " was told to decide before shard " << o2 << " had locked");
                        }
                        VCHECK(p[i] == want, "dtx:decision", name << " was told " << p[i] << " about a transaction the shards decided " << want << " on");
                        vh::count("decisions");
                    }
                    t.applies++;
                    t.flags = p;
                    VCHECK(shards[s]->apply_outputs(std::move(p), d), "dtx:apply-result", name);
                    return ls::rpc::apply_response{};
                },
                [&](ls::rpc::discard_params&& /* p */) -> ls::rpc::response {
                    for(auto& [o2, f] : all) {
                        if(o2 != s || f.locks != 0) {
                            VCHECK(f.locks == 0 || f.applies != 0, "dtx:discard-early", name << " was told to forget before shard " << o2 << " had applied");
                        }
                    }
                    if(t.discards != 0) {
                        vh::count("repeated_discards");
                    }
                    t.discards++;
                    VCHECK(shards[s]->discard_dtx(d), "dtx:discard-result", name);
                    return ls::rpc::discard_response{};
                }},
            std::move(q.m_params));
    }

    // ---- workload
    compact_tx make(bool& bad) {
        compact_tx c;
        c.m_id = vu::rhash(r);
        c.m_inputs = inputs(r, b);
        if(r.chance(4)) {
            c.m_inputs.push_back(vu::rhash(r));
        }
        for(auto n = r.in(1, 3); n > 0; n--) {
            c.m_uhs_outputs.push_back(vu::rhash(r));
        }
        auto th = o.m_attestation_threshold;
        bad = false;
        auto ks = keys;
        r.shuffle(ks);
        auto n = th + r.below(4 - th);
        if(th > 0 && r.chance(6)) {
            bad = true;
            n = r.below(th);
        }
        for(size_t i = 0; i < n; i++) {
            c.m_attestations.insert(c.sign(vu::secp(), ks[i].sk));
        }
        if(bad && r.chance(50)) { // of something else
            auto x = c;
            x.m_id = vu::rhash(r);
            for(auto& k : keys) {
                auto a = x.sign(vu::secp(), k.sk);
                c.m_attestations[a.first] = a.second;
            }
        }
        return c;
    }
    bool submit(size_t c, const compact_tx& t, bool bad) {
        auto s = b.enter(t, bad);
        auto ok = cl[c]->execute_transaction(t, [this, s](std::optional<bool> a) {
            b.answer(s, !a.has_value() ? none : *a ? yes : no);
        });
        if(!ok) {
            s->a = none; // it was not sent
        }
        return ok;
    }
    void load(size_t n) {
        for(size_t i = 0; i < n; i++) {
            auto c = r.below(nc);
            if(r.chance(6)) {
                std::optional<compact_tx> again;
                {
                    std::unique_lock<std::mutex> l(b.m);
                    if(!b.subs.empty()) {
                        auto& s = b.subs[b.subs.size() - 1 - r.below(std::min<size_t>(b.subs.size(), 30))];
                        if(!s->c.m_inputs.empty() && !s->bad) {
                            again = s->c;
                        }
                    }
                }
                if(again) {
                    (void)submit(c, *again, false);
                    vh::count("resubmitted");
                    continue;
                }
            }
            bool bad{};
            auto t = make(bad);
            (void)submit(c, t, bad);
            if(r.chance(10)) {
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
            }
        }
    }
    size_t open() {
        std::unique_lock<std::mutex> l(b.m);
        size_t k = 0;
        for(size_t i = since; i < b.subs.size(); i++) {
            k += b.subs[i]->a == silent ? 1 : 0;
        }
        return k;
    }
    // The coordinators stop leading, possibly stop altogether, and somebody
    // leads again.
    void fail_over() {
        auto kill = r.chance(40);
        for(size_t c = 0; c < nc; c++) {
            nuraft::sim::depose(sims[c]);
        }
        epoch++;
        crash = false;
        if(kill) {
            for(size_t c = 0; c < nc; c++) {
                for(size_t n = 0; n < nn; n++) {
                    if(nn == 1 || r.chance(60)) {
                        cs[c][n].reset();
                        vh::count("stopped");
                    }
                }
            }
        }
        for(auto& c : sims) {
            std::unique_lock<std::mutex> l(c->m);
            c->refuse = false;
        }
        if(!kill && r.chance(50)) {
            std::this_thread::sleep_for(std::chrono::milliseconds(r.below(5)));
        }
        arm();
        for(size_t c = 0; c < nc; c++) {
            for(size_t n = 0; n < nn; n++) {
                if(!cs[c][n]) {
                    start(c, n);
                }
            }
            VCHECK(elect(r, sims[c], nn), "coordinator:no-leader", "nodes " << sims[c]->nodes.size() << " total " << sims[c]->total << " leader " << sims[c]->leader);
        }
        vh::count("fail_overs");
    }
    int left{0};
    size_t since{0}; // first submission of this phase
    void arm() {
        if(left <= 0) {
            countdown = -1;
            return;
        }
        left--;
        auto x = r.below(100);
        how = x < 30 ? fail::crash_before : x < 60 ? fail::crash_after : x < 90 ? fail::refuse_after : x < 95 ? fail::lose_before : fail::lose_after;
        countdown = static_cast<int64_t>(r.in(1, r.chance(50) ? 6 : 60));
    }
    void run() {
        for(size_t c = 0; c < nc; c++) {
            VCHECK(elect(r, sims[c], nn), "coordinator:no-leader", "nodes " << sims[c]->nodes.size() << " total " << sims[c]->total << " leader " << sims[c]->leader);
            connect(c);
        }
        slow = r.chance(40) ? static_cast<int>(r.in(1, 3000)) : 0;
        for(auto phase = r.in(1, 3); phase > 0; phase--) {
            left = r.chance(75) ? static_cast<int>(r.in(1, 3)) : 0;
            auto faulty = left > 0;
            arm();
            ready();
            {
                std::unique_lock<std::mutex> l(b.m);
                since = b.subs.size();
            }
            load(r.in(5, 150));
            if(!faulty) {
                VCHECK(vn::wait([&] {
                           return open() == 0;
                       }),
                       "dtx:unanswered",
                       open() << " transactions were not answered");
            }
            // until all armed failures have happened or nothing more comes
            for(int idle = 0; idle < 40 && faulty;) {
                if(crash.load()) {
                    fail_over();
                    idle = 0;
                    continue;
                }
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                idle = open() == 0 ? idle + 20 : idle + 1;
            }
            countdown = -1;
            left = 0;
            if(crash.load() || r.chance(20)) {
                fail_over();
            }
            ready();
            vh::tick();
        }
        quiet();
        for(auto& c : cl) {
            c.reset();
        }
        b.audit(
            "dtx",
            [&](const hash_t& id) {
                return *shards[home(id)]->check_tx_id(id);
            },
            [&](const hash_t& u) {
                return *shards[home(u)]->check_unspent(u);
            });
        std::unique_lock<std::mutex> l(m);
        uint64_t fp = 3;
        for(auto& [d, t] : trace) {
            for(auto& [s, x] : t) {
                fp = vh::mix(fp, x.locks * 7 + x.applies * 3 + x.discards + x.txs.size());
            }
        }
        vh::count("batches", trace.size());
        vh::distinct(fp);
    }
    // Each coordinator takes transactions again; so it has finished what its
    // predecessors left.
    void ready() {
        for(size_t c = 0; c < nc; c++) {
            connect(c);
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
            auto ok = false;
            while(!ok && std::chrono::steady_clock::now() < end) {
                if(crash.load()) {
                    fail_over();
                    connect(c);
                }
                bool bad{};
                auto t = make(bad);
                t.m_inputs.clear();
                t.m_attestations.clear();
                for(size_t i = 0; i < o.m_attestation_threshold; i++) {
                    t.m_attestations.insert(t.sign(vu::secp(), keys[i].sk));
                }
                auto s = b.enter(t, false);
                if(!cl[c]->execute_transaction(t, [this, s](std::optional<bool> a) {
                       b.answer(s, !a.has_value() ? none : *a ? yes : no);
                   })) {
                    {
                        std::unique_lock<std::mutex> l(b.m);
                        b.subs.pop_back();
                    }
                    std::this_thread::sleep_for(std::chrono::milliseconds(20));
                    connect(c);
                    continue;
                }
                ok = vn::wait(
                    [&] {
                        return s->a != silent || crash.load();
                    },
                    1500);
                if(ok) {
                    ok = s->a == yes;
                    if(!ok && !crash.load()) {
                        std::this_thread::sleep_for(std::chrono::milliseconds(5));
                    }
                } else {
                    connect(c);
                }
            }
            VCHECK(ok, "coordinator:unavailable", "a coordinator did not take transactions again, last answer " << b.subs.back()->a);
        }
    }
    // Nothing is half done any more.
    void quiet() {
        auto complete = [&] {
            std::unique_lock<std::mutex> l(m);
            for(auto& [d, t] : trace) {
                for(auto& [s, x] : t) {
                    if(x.locks != 0 && (x.applies == 0 || x.discards == 0)) {
                        return false;
                    }
                }
            }
            return true;
        };
        if(!vn::wait(complete)) {
            std::unique_lock<std::mutex> l(m);
            for(auto& [d, t] : trace) {
                for(auto& [s, x] : t) {
                    if(x.locks != 0 && (x.applies == 0 || x.discards == 0)) {
                        vh::report(x.applies == 0 ? "dtx:never-decided" : "dtx:never-discarded", vu::hx(d) + " on shard " + std::to_string(s));
                    }
                }
            }
        }
    }
};

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 90000;
    nuraft::sim::auto_lead() = false;
    vh::run_cases([&](vh::rng& r, uint64_t n) {
        rig g(r, n);
        g.run();
        vh::count("histories");
    });
    return vh::finish();
}
