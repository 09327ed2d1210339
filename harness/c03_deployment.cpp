// C10 (mode shard): replicated clusters of two-phase shards whose leaders and
// nodes change and stop, driven by several coordinators' worth of requests.
// C03: whole two-phase deployments, from sentinels to replicated shards.
#include "h2pc.hpp"

#include "uhs/sentinel/client.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/twophase/coordinator/client.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "uhs/twophase/locking_shard/controller.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "uhs/twophase/sentinel_2pc/controller.hpp"
#include "util/common/config.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/serialization/format.hpp"

using namespace cbdc;
using namespace v2;
namespace ls = cbdc::locking_shard;
using transaction::full_tx;

struct coin {
    transaction::input in;
    vu::key k;
};

struct rig {
    vh::rng& r;
    bool system;
    fs::path dir, back;
    config::options o;
    size_t ns{}, sn{}, nc{}, cn{}, nsent{};
    books b;
    std::vector<vu::key> keys;
    std::vector<nuraft::ptr<nuraft::sim::cluster>> ssim, csim;
    std::vector<std::vector<std::unique_ptr<ls::controller>>> sh;
    std::vector<std::vector<std::unique_ptr<coordinator::controller>>> cc;
    std::vector<std::unique_ptr<sentinel_2pc::controller>> se;
    // one per node: changes when it stops
    std::vector<std::vector<std::unique_ptr<std::atomic<uint64_t>>>> gen;
    std::mutex cm;
    std::map<hash_t, coin> coins;
    std::mutex dm;
    std::set<hash_t> decided; // transactions whose effects may be seen

    static bool in(const hash_t& h, const config::shard_range_t& g) { return h[0] >= g.first && h[0] <= g.second; }
    [[nodiscard]] bool concerns(const compact_tx& c, size_t s) const {
        auto& g = o.m_shard_ranges[s];
        auto any = in(c.m_id, g);
        for(auto& i : c.m_inputs) {
            any = any || in(i, g);
        }
        for(auto& i : c.m_uhs_outputs) {
            any = any || in(i, g);
        }
        return any;
    }

    rig(vh::rng& rr, uint64_t n_case, bool sys) : r(rr), system(sys) {
        dir = fs::path(vh::st().scratch) / ("c03." + std::to_string(n_case));
        fs::remove_all(dir);
        fs::create_directories(dir);
        back = fs::current_path();
        fs::current_path(dir);
        o.m_twophase_mode = true;
        sn = r.chance(30) ? 1 : 3;
        ns = r.in(1, sn == 1 ? 3 : 2);
        size_t at = 0;
        for(size_t s = 0; s < ns; s++) {
            auto end = s + 1 == ns ? 255 : r.in(at, 254 - (ns - s));
            o.m_shard_ranges.emplace_back(static_cast<uint8_t>(at), static_cast<uint8_t>(end));
            at = end + 1;
        }
        auto nkeys = system ? r.in(1, 3) : 3;
        o.m_attestation_threshold = r.in(0, std::min<size_t>(nkeys, 2));
        for(size_t i = 0; i < nkeys; i++) {
            keys.push_back(vu::make_key(r));
            o.m_sentinel_public_keys.insert(keys.back().pk);
            if(system) {
                o.m_sentinel_private_keys[i] = keys[i].sk;
                o.m_sentinel_endpoints.push_back(vn::endpoint());
            }
        }
        nsent = nkeys;
        o.m_shard_completed_txs_cache_size = 10000000;
        for(size_t s = 0; s < ns; s++) {
            o.m_locking_shard_endpoints.emplace_back();
            o.m_locking_shard_raft_endpoints.emplace_back();
            o.m_locking_shard_readonly_endpoints.emplace_back();
            for(size_t k = 0; k < sn; k++) {
                o.m_locking_shard_endpoints.back().push_back(vn::endpoint());
                o.m_locking_shard_raft_endpoints.back().push_back(vn::endpoint());
                o.m_locking_shard_readonly_endpoints.back().push_back(vn::endpoint());
            }
            ssim.push_back(nuraft::sim::get(key_of(o.m_locking_shard_raft_endpoints.back())));
        }
        if(system) {
            nc = r.in(1, 2);
            cn = r.chance(50) ? 1 : 3;
            o.m_batch_size = r.chance(50) ? r.in(1, 5) : r.in(6, 100);
            o.m_coordinator_max_threads = r.in(1, 6);
            for(size_t c = 0; c < nc; c++) {
                o.m_coordinator_endpoints.emplace_back();
                o.m_coordinator_raft_endpoints.emplace_back();
                for(size_t k = 0; k < cn; k++) {
                    o.m_coordinator_endpoints.back().push_back(vn::endpoint());
                    o.m_coordinator_raft_endpoints.back().push_back(vn::endpoint());
                }
                csim.push_back(nuraft::sim::get(key_of(o.m_coordinator_raft_endpoints.back())));
            }
        }
        sh.resize(ns);
        gen.resize(ns);
        for(size_t s = 0; s < ns; s++) {
            sh[s].resize(sn);
            for(size_t k = 0; k < sn; k++) {
                gen[s].push_back(std::make_unique<std::atomic<uint64_t>>(0));
                start_shard(s, k);
            }
            VCHECK(elect(r, ssim[s], sn), "shard:no-leader", "");
        }
        if(system) {
            cc.resize(nc);
            for(size_t c = 0; c < nc; c++) {
                cc[c].resize(cn);
                for(size_t k = 0; k < cn; k++) {
                    start_coord(c, k);
                }
                VCHECK(elect(r, csim[c], cn), "coordinator:no-leader", "");
            }
            se.resize(nsent);
            for(size_t i = 0; i < nsent; i++) {
                start_sentinel(i);
            }
        }
    }
    ~rig() {
        se.clear();
        cc.clear();
        sh.clear();
        nuraft::sim::forget_all();
        fs::current_path(back);
        fs::remove_all(dir);
    }
    void start_shard(size_t s, size_t k) {
        sh[s][k] = std::make_unique<ls::controller>(s, k, o, vu::logger());
        VCHECK(sh[s][k]->init(), "shard:init", "");
    }
    void start_coord(size_t c, size_t k) {
        cc[c][k] = std::make_unique<coordinator::controller>(k, c, o, vu::logger());
        VCHECK(cc[c][k]->init(), "coordinator:init", "");
    }
    void start_sentinel(size_t i) {
        se[i] = std::make_unique<sentinel_2pc::controller>(static_cast<uint32_t>(i), o, vu::logger());
        VCHECK(se[i]->init(), "sentinel:init", "");
    }

    // ---- what happens to the shard clusters
    void shard_event(vh::rng& q) {
        auto s = q.below(ns);
        auto& c = ssim[s];
        auto k = q.below(sn);
        switch(q.below(sn == 1 ? 2 : 5)) {
            case 0: // another leads (or the same again)
                nuraft::sim::depose(c);
                vh::count("leader_changes");
                VCHECK(elect(q, c, sn), "shard:no-leader", "");
                break;
            case 1: // a node stops and comes back
                gen[s][k]->fetch_add(1);
                sh[s][k].reset();
                vh::count("nodes_stopped");
                if(sn > 1) {
                    if(q.chance(70)) {
                        (void)elect(q, c, sn);
                        std::this_thread::sleep_for(std::chrono::milliseconds(q.below(30)));
                    }
                }
                start_shard(s, k);
                gen[s][k]->fetch_add(1);
                if(c->leader == -1) {
                    VCHECK(elect(q, c, sn), "shard:no-leader", "");
                }
                break;
            case 2: // cut off for a while
                nuraft::sim::cut(c, static_cast<int>(k + 1), true);
                if(c->leader == static_cast<int>(k + 1)) {
                    nuraft::sim::depose(c);
                    VCHECK(elect(q, c, sn), "shard:no-leader", "");
                }
                std::this_thread::sleep_for(std::chrono::milliseconds(q.below(40)));
                nuraft::sim::cut(c, static_cast<int>(k + 1), false);
                vh::count("cuts");
                break;
            case 3: // slow
                nuraft::sim::hold(c, static_cast<int>(k + 1), true);
                std::this_thread::sleep_for(std::chrono::milliseconds(q.below(40)));
                nuraft::sim::hold(c, static_cast<int>(k + 1), false);
                vh::count("slow_nodes");
                break;
            default: // the leader stops
                if(auto l = c->leader; l > 0) {
                    auto x = static_cast<size_t>(l - 1);
                    gen[s][x]->fetch_add(1);
                    sh[s][x].reset();
                    vh::count("leaders_stopped");
                    VCHECK(elect(q, c, sn), "shard:no-leader", "");
                    std::this_thread::sleep_for(std::chrono::milliseconds(q.below(30)));
                    start_shard(s, x);
                    gen[s][x]->fetch_add(1);
                }
                break;
        }
    }
    // Nothing a coordinator sent is still on its way to a shard.
    void drain() {
        auto sum = [&] {
            uint64_t n = 0;
            for(auto& c : ssim) {
                std::unique_lock<std::mutex> l(c->m);
                n += c->appends;
            }
            return n;
        };
        auto last = sum();
        for(int same = 0; same < 40;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(10));
            auto n = sum();
            same = n == last ? same + 1 : 0;
            last = n;
        }
    }
    void coord_event(vh::rng& q) {
        auto c = q.below(nc);
        nuraft::sim::depose(csim[c]);
        if(q.chance(50)) {
            for(size_t k = 0; k < cn; k++) {
                if(cn == 1 || q.chance(50)) {
                    cc[c][k].reset();
                    vh::count("coordinators_stopped");
                }
            }
        }
        // The protocol takes it that requests of a coordinator that lost the
        // lead are not overtaken by its successor's.
        drain();
        for(size_t k = 0; k < cn; k++) {
            if(!cc[c][k]) {
                start_coord(c, k);
            }
        }
        VCHECK(elect(q, csim[c], cn), "coordinator:no-leader", "");
        vh::count("coordinator_changes");
    }
    void sentinel_event(vh::rng& q) {
        auto i = q.below(nsent);
        se[i].reset();
        if(q.chance(50)) {
            std::this_thread::sleep_for(std::chrono::milliseconds(q.below(20)));
        }
        start_sentinel(i);
        vh::count("sentinel_restarts");
    }

    // ---- compact transactions for the shards alone
    compact_tx make(vh::rng& q, bool& bad) {
        compact_tx c;
        c.m_id = vu::rhash(q);
        c.m_inputs = inputs(q, b);
        if(q.chance(4)) {
            c.m_inputs.push_back(vu::rhash(q));
        }
        for(auto n = q.in(1, 3); n > 0; n--) {
            c.m_uhs_outputs.push_back(vu::rhash(q));
        }
        auto th = o.m_attestation_threshold;
        bad = th > 0 && q.chance(5);
        attest(c, bad ? th - 1 : th);
        return c;
    }
    void attest(compact_tx& c, size_t n) {
        for(size_t i = 0; i < n; i++) {
            c.m_attestations.insert(c.sign(vu::secp(), keys[i].sk));
        }
    }
    using cl_t = cbdc::rpc::tcp_client<ls::rpc::request, ls::rpc::response>;
    struct driver {
        vh::rng q;
        std::vector<std::unique_ptr<cl_t>> cl;
        std::vector<std::unique_ptr<ls::rpc::client>> slow;
        explicit driver(uint64_t s) : q(s) {}
    };
    std::atomic<bool> stop{false};
    template<typename T>
    std::optional<ls::rpc::response> ask(driver& d, size_t s, const hash_t& id, const T& params) {
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        while(std::chrono::steady_clock::now() < end) {
            auto res = d.cl[s]->call(ls::rpc::request{id, params}, std::chrono::milliseconds(700));
            if(res.has_value()) {
                vh::count("shard_answers");
                return res;
            }
            vh::count("repeated_requests");
            std::this_thread::sleep_for(std::chrono::milliseconds(3));
            // (the old connection would be tried again every 3 s)
            d.cl[s] = std::make_unique<cl_t>(o.m_locking_shard_endpoints[s]);
            while(!d.cl[s]->init() && std::chrono::steady_clock::now() < end) {
                std::this_thread::sleep_for(std::chrono::milliseconds(3));
                d.cl[s] = std::make_unique<cl_t>(o.m_locking_shard_endpoints[s]);
            }
        }
        vh::report("shard:unavailable", "no answer for 60 s");
        return std::nullopt;
    }
    template<typename T>
    std::optional<ls::rpc::response> ask_often(driver& d, size_t s, const hash_t& id, const T& params) {
        auto a = ask(d, s, id, params);
        while(a && d.q.chance(12)) {
            auto x = ask(d, s, id, params);
            if(x) {
                vh::count("asked_again");
                VCHECK(x->index() == a->index(), "shard:repeat-differs", "");
                if(auto* l = std::get_if<ls::rpc::lock_response>(&*a)) {
                    VCHECK(*l == std::get<ls::rpc::lock_response>(*x), "shard:repeat-differs", "a repeated lock request got another answer");
                }
            }
        }
        return a;
    }
    void drive(driver& d, size_t n) {
        for(; n > 0; n--) {
            vh::tick();
            auto id = vu::rhash(d.q);
            std::vector<compact_tx> txs;
            std::vector<subp> subs;
            for(auto k = d.q.in(1, 5); k > 0; k--) {
                bool bad{};
                auto t = make(d.q, bad);
                subs.push_back(b.enter(t, bad));
                txs.push_back(t);
            }
            std::vector<bool> ok(txs.size(), true);
            std::vector<std::vector<size_t>> idx(ns);
            for(size_t s = 0; s < ns; s++) {
                ls::rpc::lock_params p;
                for(size_t i = 0; i < txs.size(); i++) {
                    if(concerns(txs[i], s)) {
                        idx[s].push_back(i);
                        p.push_back({txs[i]});
                    }
                }
                if(p.empty()) {
                    continue;
                }
                auto a = ask_often(d, s, id, p);
                if(!a) {
                    return;
                }
                auto* l = std::get_if<ls::rpc::lock_response>(&*a);
                VCHECK(l != nullptr && l->size() == p.size(), "shard:lock-answer", "a lock request got an answer of another kind or size");
                if(l == nullptr || l->size() != p.size()) {
                    return;
                }
                for(size_t i = 0; i < p.size(); i++) {
                    ok[idx[s][i]] = ok[idx[s][i]] && (*l)[i];
                }
            }
            {
                std::unique_lock<std::mutex> l(dm);
                for(size_t i = 0; i < txs.size(); i++) {
                    if(ok[i]) {
                        decided.insert(txs[i].m_id);
                    }
                }
            }
            for(size_t s = 0; s < ns; s++) {
                if(idx[s].empty()) {
                    continue;
                }
                ls::rpc::apply_params p;
                for(auto i : idx[s]) {
                    p.push_back(ok[i]);
                }
                auto a = ask_often(d, s, id, p);
                VCHECK(!a || std::holds_alternative<ls::rpc::apply_response>(*a), "shard:apply-answer", "");
            }
            for(size_t s = 0; s < ns; s++) {
                if(!idx[s].empty()) {
                    auto a = ask_often(d, s, id, ls::rpc::discard_params{});
                    VCHECK(!a || std::holds_alternative<ls::rpc::discard_response>(*a), "shard:discard-answer", "");
                }
            }
            for(size_t i = 0; i < txs.size(); i++) {
                b.answer(subs[i], ok[i] ? yes : no);
            }
            vh::count("batches");
        }
    }
    [[nodiscard]] size_t home(const hash_t& h) const {
        for(size_t s = 0; s < ns; s++) {
            if(in(h, o.m_shard_ranges[s])) {
                return s;
            }
        }
        _exit(93);
    }
    std::unique_ptr<ls::rpc::status_client> status(size_t k) {
        std::vector<std::vector<network::endpoint_t>> e;
        for(size_t s = 0; s < ns; s++) {
            e.push_back({o.m_locking_shard_readonly_endpoints[s][k]});
        }
        auto c = std::make_unique<ls::rpc::status_client>(e, o.m_shard_ranges, std::chrono::milliseconds(4000));
        if(!c->init()) {
            return nullptr;
        }
        return c;
    }
    // Somebody keeps asking one replica of each cluster.
    void watch(uint64_t seed) {
        vh::rng q(seed);
        while(!stop) {
            auto k = q.below(sn);
            auto c = status(k);
            if(!c) {
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                continue;
            }
            std::map<hash_t, std::pair<uint64_t, int>> seen; // 1 there, 2 gone, 3 complete
            for(int i = 0; i < 300 && !stop; i++) {
                hash_t id{};
                hash_t tx{};
                bool out = q.chance(60);
                {
                    std::unique_lock<std::mutex> l(b.m);
                    if(b.subs.empty()) {
                        break;
                    }
                    auto& s = b.subs[b.subs.size() - 1 - q.below(std::min<size_t>(b.subs.size(), 60))];
                    tx = s->c.m_id;
                    id = out && !s->c.m_uhs_outputs.empty() ? s->c.m_uhs_outputs[q.below(s->c.m_uhs_outputs.size())] : tx;
                    out = id != tx;
                }
                auto& g = *gen[home(id)][k];
                auto before = g.load();
                auto a = out ? c->check_unspent(id) : c->check_tx_id(id);
                if(g.load() != before || !a) {
                    if(!a) {
                        break;
                    }
                    continue;
                }
                vh::count("status_answers");
                if(*a) {
                    std::unique_lock<std::mutex> l(dm);
                    VCHECK(decided.count(tx) != 0 || system, "status:premature", vu::hx(tx) << (out ? " has outputs" : " is reported complete") << " before it was decided");
                }
                auto& x = seen[id];
                if(x.first != before) {
                    x = {before, 0};
                }
                if(out) {
                    VCHECK(!(*a && x.second == 2), "status:returned", "a spent output is back");
                    if(*a) {
                        x.second = 1;
                    } else if(x.second == 1) {
                        x.second = 2;
                    }
                } else {
                    VCHECK(*a || x.second != 3, "status:forgot", vu::hx(id) << " is no longer complete");
                    if(*a) {
                        x.second = 3;
                    }
                }
            }
        }
    }
    // What was under way when nobody waited any longer is brought to its end.
    void audit_all(const std::string& P) {
        vh::eventually(30, [&] {
            audit_now(P);
        });
    }
    void audit_now(const std::string& P) {
        for(auto& c : ssim) {
            nuraft::sim::settle(c);
        }
        for(size_t k = 0; k < sn; k++) {
            auto c = status(k);
            VCHECK(c, "status:unreachable", "");
            if(!c) {
                continue;
            }
            auto sure = [&](auto&& f) {
                for(int i = 0; i < 5; i++) {
                    if(auto a = f()) {
                        return *a;
                    }
                }
                vh::report("status:unanswered", "");
                return false;
            };
            b.audit(
                P,
                [&](const hash_t& id) {
                    return sure([&] {
                        return c->check_tx_id(id);
                    });
                },
                [&](const hash_t& u) {
                    return sure([&] {
                        return c->check_unspent(u);
                    });
                });
            vh::count("replicas_compared");
            if(system) {
                supply(*c);
            }
        }
    }
    void restart_all() {
        for(size_t s = 0; s < ns; s++) {
            nuraft::sim::depose(ssim[s]);
            for(size_t k = 0; k < sn; k++) {
                sh[s][k].reset();
            }
        }
        for(size_t s = 0; s < ns; s++) {
            for(size_t k = 0; k < sn; k++) {
                start_shard(s, k);
            }
            VCHECK(elect(r, ssim[s], sn), "shard:no-leader", "");
        }
        vh::count("full_restarts");
    }
    void run_shards() {
        std::vector<std::unique_ptr<driver>> ds;
        for(auto n = r.in(1, 4); n > 0; n--) {
            ds.push_back(std::make_unique<driver>(r.next()));
            for(size_t s = 0; s < ns; s++) {
                ds.back()->cl.push_back(std::make_unique<cl_t>(o.m_locking_shard_endpoints[s]));
                VCHECK(ds.back()->cl.back()->init(), "shard:connect", "");
            }
        }
        std::vector<std::thread> th;
        std::atomic<size_t> left{ds.size()};
        auto each = r.in(3, 25);
        for(auto& d : ds) {
            th.emplace_back([&, p = d.get()] {
                drive(*p, each);
                left--;
            });
        }
        std::thread w([&, x = r.next()] {
            watch(x);
        });
        for(int k = 0; left > 0 && k < 25; k++) {
            std::this_thread::sleep_for(std::chrono::milliseconds(r.below(25)));
            if(r.chance(70)) {
                shard_event(r);
            }
        }
        for(auto& t : th) {
            t.join();
        }
        stop = true;
        w.join();
        audit_all("shards");
        if(r.chance(40)) {
            restart_all();
            audit_all("shards-replayed");
        }
        uint64_t f = 1;
        for(auto& s : b.subs) {
            f = vh::mix(f, static_cast<uint64_t>(s->a.load()));
        }
        vh::distinct(f);
    }

    // ---- full transactions for the whole deployment
    void own(const full_tx& t, const std::vector<vu::key>& ks) {
        std::unique_lock<std::mutex> l(cm);
        auto id = transaction::tx_id(t);
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            auto in = transaction::input_from_output(t, i, id);
            if(!in) {
                vh::report("system:no-input", "");
                continue;
            }
            coins[in->hash()] = {*in, ks[i]};
        }
    }
    struct deal {
        full_tx t;
        bool bad{};
    };
    std::optional<deal> pay(vh::rng& q) {
        auto ins = inputs(q, b);
        if(ins.empty()) {
            return std::nullopt;
        }
        deal d;
        std::vector<vu::key> ks;
        uint64_t sum = 0;
        {
            std::unique_lock<std::mutex> l(cm);
            for(auto& h : ins) {
                auto it = coins.find(h);
                if(it == coins.end()) {
                    return std::nullopt;
                }
                d.t.m_inputs.push_back(it->second.in);
                ks.push_back(it->second.k);
                sum += it->second.in.m_prevout_data.m_value;
            }
        }
        auto flaw = q.chance(15) ? q.in(1, 5) : 0;
        if(flaw == 1) { // claims more than the output is worth
            d.t.m_inputs[0].m_prevout_data.m_value += 5;
            sum += 5;
        }
        std::vector<vu::key> oks;
        auto left = sum;
        auto outs = std::min<uint64_t>(q.in(1, 3), sum);
        for(uint64_t i = 0; i < outs; i++) {
            auto v = i + 1 == outs ? left : q.in(1, left - (outs - i - 1));
            left -= v;
            oks.push_back(vu::make_key(q));
            d.t.m_outputs.push_back({transaction::validation::get_p2pk_witness_commitment(oks.back().pk), v});
        }
        if(flaw == 2) {
            d.t.m_outputs[0].m_value += q.in(1, 10);
        }
        auto id = transaction::tx_id(d.t);
        for(auto& x : ks) {
            d.t.m_witness.push_back(witness(x, id));
        }
        if(flaw == 3) {
            d.t.m_witness[0] = witness(vu::make_key(q), id);
        } else if(flaw == 4) {
            d.t.m_witness[0][40 + q.below(50)] ^= std::byte(1);
        } else if(flaw == 5) {
            d.t.m_witness.pop_back();
        }
        d.bad = flaw >= 2;
        own(d.t, oks);
        return d;
    }
    static witness_t witness(const vu::key& x, const hash_t& id) {
        secp256k1_keypair kp{};
        signature_t sig{};
        if(secp256k1_keypair_create(vu::secp(), &kp, x.sk.data()) != 1 || secp256k1_schnorrsig_sign(vu::secp(), sig.data(), id.data(), &kp, nullptr, nullptr) != 1) {
            _exit(93);
        }
        witness_t w(transaction::validation::p2pk_witness_len);
        w[0] = std::byte(0);
        std::memcpy(&w[1], x.pk.data(), 32);
        std::memcpy(&w[33], sig.data(), 64);
        return w;
    }
    full_tx coinage(vh::rng& q) {
        full_tx t;
        std::vector<vu::key> ks;
        for(auto n = q.in(1, 4); n > 0; n--) {
            ks.push_back(vu::make_key(q));
            t.m_outputs.push_back({transaction::validation::get_p2pk_witness_commitment(ks.back().pk), q.in(1, 1000)});
        }
        own(t, ks);
        return t;
    }
    // The mint asks a coordinator itself, until it works.
    bool mint(vh::rng& q, size_t c) {
        auto cl = std::make_unique<coordinator::rpc::client>(o.m_coordinator_endpoints[c]);
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        auto done = false;
        (void)cl->init();
        while(!done && std::chrono::steady_clock::now() < end) {
            vh::tick();
            auto t = coinage(q);
            auto ct = compact_tx(t);
            attest(ct, o.m_attestation_threshold);
            auto s = b.enter(ct, false);
            if(!cl->execute_transaction(ct, [this, s](std::optional<bool> a) {
                   b.answer(s, !a.has_value() ? none : *a ? yes : no);
               })) {
                s->a = none;
                std::this_thread::sleep_for(std::chrono::milliseconds(20));
                cl = std::make_unique<coordinator::rpc::client>(o.m_coordinator_endpoints[c]);
                (void)cl->init();
                continue;
            }
            done = vn::wait(
                       [&] {
                           return s->a != silent;
                       },
                       6000)
                && s->a == yes;
        }
        VCHECK(done, "system:unavailable", "coordinator " << c << " took no mint for 60 s");
        return done;
    }
    void client(uint64_t seed, size_t n) {
        vh::rng q(seed);
        std::vector<std::shared_ptr<sentinel::rpc::client>> cl(nsent);
        auto fresh = [&](size_t i) {
            cl[i] = std::make_shared<sentinel::rpc::client>(std::vector<network::endpoint_t>{o.m_sentinel_endpoints[i]}, vu::logger());
            (void)cl[i]->init(false);
        };
        for(size_t i = 0; i < nsent; i++) {
            fresh(i);
        }
        std::vector<full_tx> old;
        for(; n > 0; n--) {
            vh::tick();
            if(q.chance(10)) {
                auto i = q.below(nsent);
                fresh(i);
            }
            auto i = q.below(nsent);
            deal d;
            if(!old.empty() && q.chance(8)) {
                d.t = old[q.below(old.size())];
                vh::count("resubmitted");
            } else {
                auto x = pay(q);
                if(!x) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(3));
                    continue;
                }
                d = *x;
                if(!d.bad) {
                    old.push_back(d.t);
                }
            }
            auto s = b.enter(compact_tx(d.t), d.bad);
            auto ok = cl[i]->execute_transaction(d.t, [this, s](std::optional<sentinel::execute_response> a) {
                if(!a) {
                    b.answer(s, none);
                    return;
                }
                VCHECK((a->m_tx_status == sentinel::tx_status::static_invalid) == a->m_tx_error.has_value(), "system:error", "an error without an invalid transaction or the reverse");
                switch(a->m_tx_status) {
                    case sentinel::tx_status::confirmed:
                        b.answer(s, yes);
                        break;
                    case sentinel::tx_status::state_invalid:
                        b.answer(s, no);
                        break;
                    case sentinel::tx_status::static_invalid:
                        b.answer(s, invalid);
                        break;
                    default:
                        vh::report("system:status", "a two-phase sentinel answered " + std::to_string(static_cast<int>(a->m_tx_status)));
                }
            });
            if(!ok) {
                s->a = none;
                vh::count("not_sent");
                fresh(i);
            }
            if(q.chance(40)) {
                vn::wait(
                    [&] {
                        return s->a != silent;
                    },
                    static_cast<int>(q.below(60)));
            }
        }
        // time for the last answers
        vn::wait(
            [&] {
                return open() == 0;
            },
            300);
        for(auto& c : cl) {
            c.reset();
        }
    }
    size_t open() {
        std::unique_lock<std::mutex> l(b.m);
        size_t k = 0;
        for(auto& s : b.subs) {
            k += s->a == silent ? 1 : 0;
        }
        return k;
    }
    // All value that was ever minted, and no more, is there.
    void supply(ls::rpc::status_client& c) {
        std::unique_lock<std::mutex> l(b.m);
        uint64_t minted = 0;
        uint64_t have = 0;
        for(auto& [h, x] : coins) {
            auto cr = b.creator.find(h);
            if(cr == b.creator.end()) {
                continue;
            }
            if(cr->second->c.m_inputs.empty()) {
                auto a = c.check_tx_id(cr->second->c.m_id);
                if(a && *a) {
                    minted += x.in.m_prevout_data.m_value;
                }
            }
            auto u = c.check_unspent(h);
            if(u && *u) {
                have += x.in.m_prevout_data.m_value;
            }
        }
        VCHECK(minted == have, "system:supply", minted << " minted, " << have << " there");
        vh::count("supply_checks");
    }
    void alive() {
        for(size_t c = 0; c < nc; c++) {
            mint(r, c);
        }
        for(size_t i = 0; i < nsent; i++) {
            auto cl = std::make_unique<sentinel::rpc::client>(std::vector<network::endpoint_t>{o.m_sentinel_endpoints[i]}, vu::logger());
            VCHECK(cl->init(), "system:sentinel-unreachable", "");
            auto done = false;
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
            while(!done && std::chrono::steady_clock::now() < end) {
                // coins nobody else uses
                auto t = coinage(r);
                auto ct = compact_tx(t);
                attest(ct, o.m_attestation_threshold);
                coordinator::rpc::client mc(o.m_coordinator_endpoints[r.below(nc)]);
                (void)mc.init();
                auto s = b.enter(ct, false);
                if(!mc.execute_transaction(ct, [this, s](std::optional<bool> a) {
                       s->a = !a ? none : *a ? yes : no;
                       s->answers++;
                       s->t_ans = b.clock++;
                   })) {
                    s->a = none;
                    continue;
                }
                if(!vn::wait(
                       [&] {
                           return s->a != silent;
                       },
                       6000)
                   || s->a != yes) {
                    continue;
                }
                full_tx p;
                uint64_t sum = 0;
                std::vector<vu::key> ks;
                for(auto& u : ct.m_uhs_outputs) {
                    std::unique_lock<std::mutex> l(cm);
                    p.m_inputs.push_back(coins[u].in);
                    ks.push_back(coins[u].k);
                    sum += coins[u].in.m_prevout_data.m_value;
                }
                auto k = vu::make_key(r);
                p.m_outputs.push_back({transaction::validation::get_p2pk_witness_commitment(k.pk), sum});
                auto id = transaction::tx_id(p);
                for(auto& x : ks) {
                    p.m_witness.push_back(witness(x, id));
                }
                own(p, {k});
                auto sp = b.enter(compact_tx(p), false);
                auto a = cl->execute_transaction(p, [this, sp](std::optional<sentinel::execute_response> x) {
                    sp->a = !x ? none : x->m_tx_status == sentinel::tx_status::confirmed ? yes : x->m_tx_status == sentinel::tx_status::state_invalid ? no : invalid;
                    sp->answers++;
                    sp->t_ans = b.clock++;
                });
                if(!a) {
                    sp->a = none;
                }
                done = vn::wait(
                           [&] {
                               return sp->a != silent;
                           },
                           6000)
                    && sp->a == yes;
                if(!done) {
                    vh::count("tried_again");
                }
            }
            VCHECK(done, "system:unavailable", "sentinel " << i << " could not get a payment done for 60 s");
        }
    }
    void run_system() {
        for(size_t c = 0; c < nc; c++) {
            for(auto n = r.in(2, 8); n > 0; n--) {
                mint(r, c);
            }
        }
        for(auto phase = r.in(1, 2); phase > 0; phase--) {
            std::vector<std::thread> th;
            std::atomic<size_t> left{0};
            auto each = r.in(5, 40);
            for(auto n = r.in(1, 4); n > 0; n--) {
                left++;
                th.emplace_back([&, x = r.next()] {
                    client(x, each);
                    left--;
                });
            }
            stop = false;
            std::thread w([&, x = r.next()] {
                watch(x);
            });
            auto calm = r.chance(25);
            for(auto k = r.in(1, 3); left > 0 && k > 0 && !calm; k--) {
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(40)));
                auto x = r.below(100);
                if(x < 30) {
                    shard_event(r);
                } else if(x < 60) {
                    coord_event(r);
                } else if(x < 75) {
                    sentinel_event(r);
                }
            }
            for(auto& t : th) {
                t.join();
            }
            stop = true;
            w.join();
            alive();
        }
        drain();
        // No answer comes after this, so what was answered stays as it is.
        se.clear();
        audit_all("system");
        uint64_t f = 1;
        for(auto& s : b.subs) {
            f = vh::mix(f, static_cast<uint64_t>(s->a.load()));
        }
        vh::distinct(f);
    }
};

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 120000;
    nuraft::sim::auto_lead() = false;
    vh::run_cases([&](vh::rng& r, uint64_t n) {
        auto sys = vh::st().mode != "shard";
        rig g(r, n, sys);
        if(sys) {
            g.run_system();
        } else {
            g.run_shards();
        }
        vh::count("histories");
    });
    return vh::finish();
}
