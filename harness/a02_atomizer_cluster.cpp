// A02: a replicated atomizer cluster, its only inputs truthful attestations.
// Mode machine: the state machine alone, restored from snapshots.
#include "hatm.hpp"

#include "uhs/atomizer/atomizer/controller.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/network/tcp_socket.hpp"
#include "util/serialization/buffer_serializer.hpp"

#include <filesystem>
#include <libnuraft/nuraft.hxx>

using namespace cbdc;
using va::compact_tx;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
namespace fs = std::filesystem;

struct entry {
    compact_tx t;
    bool good{};
    std::vector<std::vector<uint64_t>> at; // heights sent for each input
    uint64_t asked{0};                     // complete sets sent (of no inputs)
    uint64_t in{0};                        // times in the chain
    uint64_t where{0};
    uint64_t range_errs{0}, spent_errs{0};
    bool complete() const {
        return std::all_of(at.begin(), at.end(), [](auto& v) {
            return !v.empty();
        });
    }
};
struct life {
    uint64_t born{}, spent{};
    hash_t by{};
};

#if defined(__SANITIZE_THREAD__) || __has_feature(thread_sanitizer)
static const uint64_t slow = 8; // each block clears 4 MB on each node
#else
static const uint64_t slow = 1;
#endif

struct world {
    vh::rng& r;
    config::options o;
    size_t n, np;
    std::vector<vu::key> keys;
    std::string dir, back;
    nuraft::ptr<nuraft::sim::cluster> sim;
    std::vector<std::unique_ptr<at::controller>> at_;

    std::mutex m;
    std::map<uint64_t, at::block> blocks;
    uint64_t tip{0};  // all blocks up to here are known
    uint64_t most{0}; // the highest known
    uint64_t pruned{0};
    std::map<hash_t, std::shared_ptr<entry>> txs;
    std::map<hash_t, life> outs;
    std::vector<hash_t> all;
    struct err_ {
        std::shared_ptr<entry> x;
        std::set<hash_t> in;
        uint64_t oldest;
        bool range;
    };
    std::vector<err_> errs;

    // Stays connected to whoever listens.
    struct peer {
        std::thread th;
        std::atomic<bool> stop{false};
        std::atomic<uint64_t> got{0};
        std::mutex m;
        std::vector<uint64_t> hist;
        std::mutex sm;
        std::shared_ptr<network::tcp_socket> k;
        void send(const at::request& q) {
            raw(make_buffer(q));
        }
        void raw(const buffer& b) {
            std::unique_lock<std::mutex> l(sm);
            if(!k || !k->send(b)) {
                vh::count("sent_to_nobody");
            }
        }
        void run(world& w) {
            size_t i = 0;
            while(!stop) {
                auto c = std::make_shared<network::tcp_socket>();
                if(!c->connect(w.o.m_atomizer_endpoints[i++ % w.n])) {
                    if(i % w.n == 0) {
                        std::this_thread::sleep_for(std::chrono::milliseconds(2));
                    }
                    continue;
                }
                {
                    std::unique_lock<std::mutex> l(sm);
                    k = c;
                }
                buffer p;
                while(!stop && c->receive(p)) {
                    auto b = from_buffer<at::block>(p);
                    if(!b) {
                        vh::report("atomizer:message", "something else than a block");
                        continue;
                    }
                    w.learn(*b);
                    {
                        std::unique_lock<std::mutex> l(m);
                        hist.push_back(b->m_height);
                    }
                    got++;
                }
                std::unique_lock<std::mutex> l(sm);
                k.reset();
            }
        }
        void end() {
            stop = true;
            {
                std::unique_lock<std::mutex> l(sm);
                if(k) {
                    k->shutdown();
                }
            }
            th.join();
        }
    };
    std::vector<std::unique_ptr<peer>> ps;
    network::connection_manager wat;
    std::thread wth;

    explicit world(vh::rng& q) : r(q), n(r.chance(70) ? 3 : 1), np(r.in(1, 3)) {
        dir = vh::st().scratch + "/a02." + std::to_string(vh::st().cur_case);
        fs::remove_all(dir);
        fs::create_directories(dir);
        back = vh::st().scratch;
        fs::current_path(dir);
        o.m_attestation_threshold = r.below(3);
        for(auto k = o.m_attestation_threshold + r.below(2); k > 0; k--) {
            keys.push_back(vu::make_key(r));
            o.m_sentinel_public_keys.insert(keys.back().pk);
        }
        std::string key;
        for(size_t i = 0; i < n; i++) {
            o.m_atomizer_endpoints.push_back(vn::endpoint());
            o.m_atomizer_raft_endpoints.push_back(vn::endpoint());
            auto& e = o.m_atomizer_raft_endpoints.back();
            key += e.first + ":" + std::to_string(e.second) + ",";
        }
        sim = nuraft::sim::get(key);
        o.m_watchtower_internal_endpoints.push_back(vn::endpoint());
        o.m_stxo_cache_depth = r.in(1, 5);
        o.m_target_block_interval = std::max<uint64_t>(r.in(10, 40), 120 / o.m_stxo_cache_depth) * slow;
        o.m_snapshot_distance = r.chance(15) ? 0 : r.in(3, 40);
        auto w = wat.start_server(o.m_watchtower_internal_endpoints[0], [this](network::message_t&& p) -> std::optional<buffer> {
            refused(*p.m_pkt);
            return std::nullopt;
        });
        if(!w) {
            _exit(92);
        }
        wth = std::move(*w);
        at_.resize(n);
        for(size_t i = 0; i < n; i++) {
            start(i);
        }
        elect();
        for(size_t i = 0; i < np; i++) {
            ps.push_back(std::make_unique<peer>());
            auto* p = ps.back().get();
            p->th = std::thread([this, p] {
                p->run(*this);
            });
        }
    }
    ~world() {
        for(auto& p : ps) {
            p->end();
        }
        at_.clear();
        wat.close();
        wth.join();
        nuraft::sim::forget_all();
        fs::current_path(back);
        fs::remove_all(dir);
    }
    void start(size_t i) {
        at_[i] = std::make_unique<at::controller>(static_cast<uint32_t>(i), o, vu::logger());
        VCHECK(at_[i]->init(), "atomizer:init", "");
    }
    bool elect() {
        for(int i = 0; i < 400; i++) {
            if(nuraft::sim::lead(sim, static_cast<int>(r.below(n) + 1))) {
                return true;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(5));
        }
        vh::report("atomizer:no-leader", "");
        return false;
    }

    // ---- what is learned
    void learn(const at::block& b) {
        std::unique_lock<std::mutex> l(m);
        auto it = blocks.find(b.m_height);
        if(it != blocks.end()) {
            vh::count("blocks_again");
            VCHECK(va::same(it->second, b), "atomizer:two-blocks", "at height " << b.m_height);
            return;
        }
        VCHECK(b.m_height >= 1 && b.m_height > tip, "atomizer:height", b.m_height);
        vh::count("blocks");
        blocks[b.m_height] = b;
        most = std::max(most, b.m_height);
        while((it = blocks.find(tip + 1)) != blocks.end()) {
            tip++;
            apply(it->second);
        }
    }
    void apply(const at::block& b) {
        auto h = b.m_height;
        for(auto& t : b.m_transactions) {
            auto f = txs.find(t.m_id);
            if(f == txs.end()) {
                vh::report("atomizer:invented", vu::hx(t.m_id));
                continue;
            }
            auto& x = *f->second;
            VCHECK(va::same(t, x.t), "atomizer:changed-tx", vu::hx(t.m_id));
            VCHECK(x.good, "atomizer:unattested", vu::hx(t.m_id) << " without enough attestations of sentinels");
            VCHECK(x.complete(), "atomizer:incomplete", vu::hx(t.m_id) << " without attestations to all inputs");
            x.in++;
            x.where = h;
            vh::count(t.m_inputs.empty() ? "mints_confirmed" : "confirmed");
            if(t.m_inputs.empty()) {
                VCHECK(x.in <= x.asked, "atomizer:mint-twice", vu::hx(t.m_id) << " " << x.in << " times, asked " << x.asked);
            }
            auto o_ = std::numeric_limits<uint64_t>::max();
            for(auto& v : x.at) {
                if(!v.empty()) {
                    o_ = std::min(o_, *std::max_element(v.begin(), v.end()));
                }
            }
            VCHECK(t.m_inputs.empty() || o_ + o.m_stxo_cache_depth + 1 >= h, "atomizer:too-old", "in block " << h << " on an attestation of height " << o_);
            for(auto& i : t.m_inputs) {
                auto& f2 = outs[i];
                VCHECK(f2.born != 0 && f2.born < h, "atomizer:from-nowhere", vu::hx(i));
                VCHECK(f2.spent == 0, "atomizer:double-spend", vu::hx(i) << " in block " << f2.spent << " by " << vu::hx(f2.by) << " and in block " << h << " by " << vu::hx(t.m_id));
                f2.spent = h;
                f2.by = t.m_id;
            }
            for(auto& i : t.m_uhs_outputs) {
                outs[i].born = h;
                all.push_back(i);
            }
        }
    }
    void refused(buffer& p) {
        auto v = from_buffer<std::vector<wt::tx_error>>(p);
        if(!v) {
            vh::report("atomizer:message", "the watchtower got something else than errors");
            return;
        }
        std::unique_lock<std::mutex> l(m);
        for(auto& e : *v) {
            auto f = txs.find(e.tx_id());
            if(f == txs.end()) {
                vh::report("atomizer:unasked-error", vu::hx(e.tx_id()));
                continue;
            }
            auto& x = *f->second;
            VCHECK(x.good && x.complete(), "atomizer:error-unattested", vu::hx(e.tx_id()));
            auto info = e.info();
            err_ y{f->second, {}, std::numeric_limits<uint64_t>::max(), false};
            for(auto& h : x.at) {
                if(!h.empty()) {
                    y.oldest = std::min(y.oldest, *std::min_element(h.begin(), h.end()));
                }
            }
            if(std::holds_alternative<wt::tx_error_stxo_range>(info)) {
                y.range = true;
                x.range_errs++;
                vh::count("errors_too_old");
            } else if(auto* d = std::get_if<wt::tx_error_inputs_spent>(&info)) {
                auto s = d->input_uhs_ids();
                y.in = {s.begin(), s.end()};
                x.spent_errs++;
                vh::count("errors_spent");
            } else {
                vh::report("atomizer:error-kind", "");
                continue;
            }
            VCHECK(!x.t.m_inputs.empty(), "atomizer:error-mint", "");
            errs.push_back(std::move(y));
        }
    }

    // ---- what is sent
    std::shared_ptr<entry> make(vh::rng& q, std::vector<hash_t> in, bool honest = false) {
        auto x = std::make_shared<entry>();
        x->t.m_id = vu::rhash(q);
        x->t.m_inputs = std::move(in);
        for(auto k = q.in(x->t.m_inputs.empty() ? 1 : 0, 4); k > 0; k--) {
            x->t.m_uhs_outputs.push_back(vu::rhash(q));
        }
        auto th = o.m_attestation_threshold;
        auto bad = th > 0 && !honest && q.chance(6);
        for(size_t i = 0; i < (bad ? th - 1 : th); i++) {
            x->t.m_attestations.insert(x->t.sign(vu::secp(), keys[i].sk));
        }
        if(bad && q.chance(50)) {
            x->t.m_attestations.insert(x->t.sign(vu::secp(), vu::make_key(q).sk));
        }
        x->good = !bad;
        x->at.resize(x->t.m_inputs.size());
        std::unique_lock<std::mutex> l(m);
        txs[x->t.m_id] = x;
        return x;
    }
    // As known, unspent at that height.
    bool there(const hash_t& i, uint64_t h) { // m held
        auto f = outs.find(i);
        return h >= 1 && h <= tip && f != outs.end() && f->second.born != 0 && f->second.born <= h && (f->second.spent == 0 || f->second.spent > h);
    }
    std::vector<hash_t> choose(vh::rng& q, size_t k, bool fresh) {
        std::unique_lock<std::mutex> l(m);
        std::vector<hash_t> v;
        for(size_t i = 0; i < k * 20 && v.size() < k && !all.empty(); i++) {
            auto x = all[all.size() - 1 - q.below(std::min<size_t>(all.size(), fresh ? 200 : 40))];
            auto& f = outs[x];
            if((f.spent == 0 || (!fresh && f.spent + 2 > tip)) && std::find(v.begin(), v.end(), x) == v.end()) {
                v.push_back(x);
            }
        }
        return v;
    }
    // One shard's word about some inputs at height h; false if untrue.
    bool attest(vh::rng& q, const std::shared_ptr<entry>& x, const std::vector<uint64_t>& idx, uint64_t h) {
        at::tx_notify_request a;
        {
            std::unique_lock<std::mutex> l(m);
            for(auto i : idx) {
                if(!there(x->t.m_inputs[i], h)) {
                    return false;
                }
            }
            for(auto i : idx) {
                x->at[i].push_back(h);
                a.m_attestations.insert(i);
            }
            if(x->t.m_inputs.empty()) {
                x->asked++;
            }
        }
        a.m_tx = x->t;
        a.m_block_height = h;
        ps[q.below(np)]->send(a);
        vh::count("notifications");
        return true;
    }
    std::vector<std::vector<uint64_t>> split(vh::rng& q, size_t k) {
        std::vector<std::vector<uint64_t>> v(q.in(1, 3));
        for(size_t i = 0; i < k; i++) {
            v[q.below(v.size())].push_back(i);
        }
        q.shuffle(v);
        return v;
    }
    uint64_t now() {
        std::unique_lock<std::mutex> l(m);
        return tip;
    }
    void drive(vh::rng q, std::atomic<bool>& stop) {
        std::vector<std::shared_ptr<entry>> mine;
        while(!stop) {
            vh::tick();
            auto c = q.below(100);
            if(c < 12 || now() < 2) {
                auto x = make(q, {});
                attest(q, x, {}, q.chance(50) ? now() : q.below(now() + 1));
                mine.push_back(x);
            } else if(c < 85) {
                auto x = make(q, choose(q, q.in(1, 4), false));
                if(x->t.m_inputs.empty()) {
                    attest(q, x, {}, now());
                    continue;
                }
                for(auto& p : split(q, x->t.m_inputs.size())) {
                    if(p.empty() && q.chance(80)) {
                        continue;
                    }
                    if(q.chance(5)) {
                        vh::count("withheld");
                        continue;
                    }
                    auto k = now();
                    auto h = k - std::min(k - 1, q.chance(70) ? q.below(2) : q.below(o.m_stxo_cache_depth + 3));
                    if(attest(q, x, p, h) && q.chance(10)) {
                        attest(q, x, p, h);
                        vh::count("repeated");
                    }
                }
                mine.push_back(x);
            } else if(c < 95 && !mine.empty()) { // again
                auto x = mine[mine.size() - 1 - q.below(std::min<size_t>(mine.size(), 20))];
                if(!x->t.m_inputs.empty()) {
                    for(auto& p : split(q, x->t.m_inputs.size())) {
                        if(!p.empty()) {
                            auto k = now();
                            attest(q, x, p, k - std::min(k - 1, q.below(o.m_stxo_cache_depth + 2)));
                        }
                    }
                    vh::count("asked_again");
                }
            } else if(c < 97) {
                std::vector<unsigned char> g(q.below(60));
                q.bytes(g.data(), g.size());
                buffer b;
                b.append(g.data(), g.size());
                if(!from_buffer<at::request>(b)) {
                    ps[q.below(np)]->raw(b);
                }
                vh::count("garbage");
            } else {
                ask(q, q.in(1, now() + 1));
            }
            std::this_thread::sleep_for(std::chrono::microseconds(q.below(4000)));
        }
    }
    void ask(vh::rng& q, uint64_t h) {
        ps[q.below(np)]->send(at::get_block_request{h});
        vh::count("questions");
    }
    void missing(vh::rng& q) {
        std::vector<uint64_t> v;
        {
            std::unique_lock<std::mutex> l(m);
            for(auto h = tip + 1; h < most && v.size() < 50; h++) {
                if(blocks.count(h) == 0) {
                    v.push_back(h);
                }
            }
        }
        for(auto h : v) {
            ask(q, h);
        }
    }
    // Like an archiver: asks for what is missing.
    void fetch(vh::rng q, std::atomic<bool>& stop) {
        while(!stop) {
            uint64_t a{}, b{};
            {
                std::unique_lock<std::mutex> l(m);
                a = tip;
                b = most;
            }
            if(b > a) {
                missing(q);
                vh::count("gaps");
            } else if(q.chance(8) && a > 12) {
                prune(q, a - q.in(5, 10));
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(q.in(10, 40)));
        }
    }
    void prune(vh::rng& q, uint64_t h) {
        {
            std::unique_lock<std::mutex> l(m);
            pruned = std::max(pruned, h);
        }
        ps[q.below(np)]->send(at::prune_request{h});
        vh::count("prunes");
    }
    void fault() {
        auto k = r.below(n);
        auto id = static_cast<int>(k + 1);
        switch(r.below(n == 1 ? 2 : 6)) {
            case 0:
                nuraft::sim::depose(sim);
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(20)));
                elect();
                vh::count("leader_changes");
                break;
            case 1:
                at_[k].reset();
                vh::count("nodes_stopped");
                if(n > 1 && r.chance(70)) {
                    elect();
                    std::this_thread::sleep_for(std::chrono::milliseconds(r.below(400)));
                }
                start(k);
                if(sim->leader == -1) {
                    elect();
                }
                break;
            case 2:
            case 3:
                nuraft::sim::cut(sim, id, true);
                if(sim->leader == id) {
                    nuraft::sim::depose(sim);
                    elect();
                }
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(400)));
                nuraft::sim::cut(sim, id, false);
                vh::count("cuts");
                break;
            case 4:
                nuraft::sim::hold(sim, id, true);
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(60)));
                nuraft::sim::hold(sim, id, false);
                vh::count("slow_nodes");
                break;
            default: { // straight over to another
                elect();
                vh::count("leader_changes");
                break;
            }
        }
    }
    // ---- with a leader that stays
    bool heard() {
        std::vector<uint64_t> was;
        for(auto& p : ps) {
            was.push_back(p->got);
        }
        return vn::wait(
            [&] {
                vh::tick();
                for(size_t i = 0; i < np; i++) {
                    if(ps[i]->got < was[i] + 2) {
                        return false;
                    }
                }
                return true;
            },
            20000);
    }
    bool whole() {
        int k = 0;
        return vn::wait(
            [&] {
                vh::tick();
                uint64_t a{}, b{};
                {
                    std::unique_lock<std::mutex> l(m);
                    a = tip;
                    b = most;
                }
                if(b > a && k++ % 50 == 0) {
                    missing(r);
                }
                return a == b;
            },
            20000);
    }
    // Each of these ends in the chain or in an error.
    bool resolved(const std::vector<std::shared_ptr<entry>>& v) {
        return vn::wait(
            [&] {
                vh::tick();
                std::unique_lock<std::mutex> l(m);
                for(auto& x : v) {
                    if(x->in == 0 && x->range_errs + x->spent_errs == 0) {
                        return false;
                    }
                }
                return true;
            },
            15000);
    }
    void stable() {
        if(!heard()) {
            vh::report("atomizer:silent", "no blocks from a leader that stays");
            return;
        }
        VCHECK(whole(), "atomizer:lost-block", "block " << now() + 1 << " of " << most);
        // mints
        std::vector<std::shared_ptr<entry>> v;
        for(int i = 0; i < 6; i++) {
            v.push_back(make(r, {}, true));
            attest(r, v.back(), {}, r.chance(50) ? 0 : now());
        }
        VCHECK(resolved(v), "atomizer:mint-lost", "");
        (void)whole();
        // spends of outputs nobody else wants
        bool any = false;
        int fast = 0;
        for(int t = 0; t < 30 && !any && fast < 5; t++) {
            auto t0 = std::chrono::steady_clock::now();
            v.clear();
            std::set<hash_t> used;
            for(int i = 0; i < 6; i++) {
                std::vector<hash_t> in;
                for(auto& h : choose(r, r.in(1, 3), true)) {
                    if(used.insert(h).second && quiet(h)) {
                        in.push_back(h);
                    }
                }
                if(in.empty()) {
                    continue;
                }
                auto x = make(r, in, true);
                auto ok = true;
                for(auto& p : split(r, in.size())) {
                    if(!p.empty()) {
                        ok = attest(r, x, p, now()) && ok;
                    }
                }
                if(ok) {
                    v.push_back(x);
                }
            }
            VCHECK(resolved(v), "atomizer:tx-lost", v.size() << " fully attested");
            fast += quick(t0) ? 1 : 0;
            std::unique_lock<std::mutex> l(m);
            for(auto& x : v) {
                any = any || x->in == 1;
                VCHECK(x->spent_errs == 0, "atomizer:wrongly-spent", vu::hx(x->t.m_id));
            }
            vh::count("stable_spends", v.size());
            if(v.empty()) {
                return;
            }
        }
        VCHECK(any || fast < 5, "atomizer:refuses", "every current transaction is called too old");
        // a word given long ago does not spoil a later one
        any = false;
        fast = 0;
        for(int t = 0; t < 30 && !any && fast < 5; t++) {
            (void)whole();
            std::vector<hash_t> in;
            for(auto& h : choose(r, 2, true)) {
                if(quiet(h)) {
                    in.push_back(h);
                }
            }
            if(in.size() < 2) {
                any = true;
                break;
            }
            auto x = make(r, in, true);
            if(!attest(r, x, {0}, now())) {
                continue;
            }
            auto h0 = now();
            (void)vn::wait([&] {
                return now() > h0 + o.m_stxo_cache_depth + 1;
            });
            auto t0 = std::chrono::steady_clock::now();
            if(!attest(r, x, {0}, now()) || !attest(r, x, {1}, now())) {
                continue;
            }
            VCHECK(resolved({x}), "atomizer:tx-lost", "attested twice");
            fast += quick(t0) ? 1 : 0;
            std::unique_lock<std::mutex> l(m);
            any = x->in == 1;
            vh::count("late_halves");
        }
        VCHECK(any || fast < 5, "atomizer:old-word", "a transaction fully attested just now is called too old because of an earlier attestation");
        // two want the same
        for(int t = 0; t < 3; t++) {
            (void)whole();
            auto in = choose(r, 1, true);
            if(in.empty() || !quiet(in[0])) {
                continue;
            }
            auto h = now();
            auto a = make(r, in, true);
            auto b = make(r, in, true);
            if(!attest(r, a, {0}, h) || !attest(r, b, {0}, h)) {
                continue;
            }
            VCHECK(resolved({a, b}), "atomizer:tx-lost", "rivals");
            std::unique_lock<std::mutex> l(m);
            VCHECK(a->in + b->in <= 1, "atomizer:double-spend", "rivals");
            VCHECK(a->in + b->in == 1 || a->range_errs + b->range_errs > 0, "atomizer:neither", "");
            vh::count("rivals");
        }
        (void)whole();
        // blocks
        std::map<uint64_t, size_t> seen;
        auto lo = std::max<uint64_t>(pruned, 1);
        auto hi = now();
        auto p0 = ps[0].get();
        for(auto h = lo; h <= hi; h++) {
            auto want = [&] {
                std::unique_lock<std::mutex> l(p0->m);
                return std::count(p0->hist.begin(), p0->hist.end(), h);
            };
            auto was = want();
            auto ok = false;
            for(int t = 0; t < 3 && !ok; t++) {
                p0->send(at::get_block_request{h});
                ok = vn::wait(
                    [&] {
                        vh::tick();
                        return want() > was;
                    },
                    8000);
            }
            VCHECK(ok, "atomizer:block-forgotten", "block " << h << " of " << lo << ".." << hi);
            vh::count("blocks_asked");
            if(hi - lo > 60 && r.chance(70)) {
                h += 3;
            }
        }
        // what may be forgotten is
        if(hi > lo + 4 && r.chance(70)) {
            auto p = r.in(lo + 2, hi - 1);
            {
                std::unique_lock<std::mutex> l(m);
                pruned = std::max(pruned, p);
            }
            size_t from{};
            {
                std::unique_lock<std::mutex> l(p0->m);
                from = p0->hist.size();
            }
            for(auto& q : {at::request(at::prune_request{p}), at::request(at::get_block_request{p - 1}), at::request(at::get_block_request{p})}) {
                p0->send(q);
            }
            auto got = [&](uint64_t h) {
                std::unique_lock<std::mutex> l(p0->m);
                return std::count(p0->hist.begin() + static_cast<ptrdiff_t>(from), p0->hist.end(), h) > 0;
            };
            VCHECK(vn::wait(
                       [&] {
                           vh::tick();
                           return got(p);
                       },
                       15000),
                   "atomizer:block-forgotten",
                   "block " << p << " when those before could be");
            VCHECK(!got(p - 1), "atomizer:not-pruned", "");
            vh::count("prunes");
        }
    }
    // Too soon after for an attestation at the last block to have become too old.
    bool quick(std::chrono::steady_clock::time_point t0) {
        return std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(o.m_stxo_cache_depth * o.m_target_block_interval / 2);
    }
    // No unresolved transaction wants it.
    bool quiet(const hash_t& h) {
        std::unique_lock<std::mutex> l(m);
        for(auto& [id, x] : txs) {
            if(x->in == 0 && std::find(x->t.m_inputs.begin(), x->t.m_inputs.end(), h) != x->t.m_inputs.end()) {
                return false;
            }
        }
        return true;
    }
    void audit() {
        std::unique_lock<std::mutex> l(m);
        for(auto& e : errs) {
            if(e.range) {
                VCHECK(e.oldest + o.m_stxo_cache_depth < most, "atomizer:wrongly-old", "attested at " << e.oldest << " and more, now at " << most);
                continue;
            }
            VCHECK(!e.in.empty(), "atomizer:wrongly-spent", "no input named");
            for(auto& i : e.in) {
                VCHECK(std::find(e.x->t.m_inputs.begin(), e.x->t.m_inputs.end(), i) != e.x->t.m_inputs.end(), "atomizer:wrongly-spent", "not an input");
                VCHECK(outs[i].spent != 0, "atomizer:wrongly-spent", vu::hx(i) << " is unspent");
            }
        }
        vh::count("errors_checked", errs.size());
        errs.clear();
    }
    void run() {
        for(auto phase = r.in(1, 2); phase > 0; phase--) {
            std::atomic<bool> stop{false};
            std::vector<std::thread> th;
            for(auto k = r.in(1, 3); k > 0; k--) {
                th.emplace_back([&, q = vh::rng(r.next())] {
                    drive(q, stop);
                });
            }
            th.emplace_back([&, q = vh::rng(r.next())] {
                fetch(q, stop);
            });
            std::this_thread::sleep_for(std::chrono::milliseconds(r.below(200)));
            for(auto k = r.in(1, 6); k > 0; k--) {
                fault();
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(150)));
                if(r.chance(40)) { // long enough for clients to reconnect
                    (void)heard();
                }
            }
            stop = true;
            for(auto& t : th) {
                t.join();
            }
            stable();
            audit();
            if(r.chance(50)) { // all stop at once and start from disk
                for(auto i : {0, 1, 2}) {
                    if(static_cast<size_t>(i) < n) {
                        at_[static_cast<size_t>(i)].reset();
                    }
                }
                for(size_t i = 0; i < n; i++) {
                    start(i);
                }
                elect();
                vh::count("full_restarts");
                stable();
                audit();
            }
        }
        uint64_t f = vh::mix(most, n);
        for(auto& [id, x] : txs) {
            f = vh::mix(f, x->where);
        }
        vh::distinct(f);
        vh::count("histories");
    }
};

// ---- the state machine by itself
using sm = at::state_machine;
struct machine {
    std::string dir;
    std::unique_ptr<sm> s;
    void open() {
        s = std::make_unique<sm>(depth, dir);
    }
    size_t depth{};
};
static std::string text(const nuraft::ptr<nuraft::buffer>& b) {
    if(!b) {
        return "-";
    }
    b->pos(0);
    auto v = from_buffer<sm::response>(*b);
    if(!v) {
        return "?";
    }
    std::ostringstream o;
    auto blk = [&](const at::block& x) {
        o << "b" << x.m_height;
        for(auto& t : x.m_transactions) {
            o << "," << to_string(t.m_id) << t.m_inputs.size() << "/" << t.m_uhs_outputs.size();
            for(auto& i : t.m_inputs) {
                o << to_string(i);
            }
            for(auto& i : t.m_uhs_outputs) {
                o << to_string(i);
            }
        }
    };
    auto er = [&](const at::errors& v2) {
        for(auto& e : v2) {
            o << ";" << to_string(e.tx_id());
            auto i = e.info();
            o << "k" << i.index();
            if(auto* d = std::get_if<wt::tx_error_inputs_spent>(&i)) {
                auto u = d->input_uhs_ids();
                std::set<hash_t> w(u.begin(), u.end());
                for(auto& x : w) {
                    o << to_string(x);
                }
            }
        }
    };
    std::visit(overloaded{[&](at::make_block_response& x) {
                              blk(x.m_blk);
                              er(x.m_errs);
                          },
                          [&](at::get_block_response& x) {
                              o << "g";
                              blk(x.m_blk);
                          },
                          [&](at::errors& x) {
                              er(x);
                          }},
               *v);
    return o.str();
}
static void machines(vh::rng& r) {
    auto dir = vh::st().scratch + "/a02m." + std::to_string(vh::st().cur_case);
    fs::remove_all(dir);
    fs::create_directories(dir);
    auto depth = r.below(5);
    std::vector<machine> ms(3);
    for(size_t i = 0; i < ms.size(); i++) {
        ms[i].dir = dir + "/" + std::to_string(i);
        ms[i].depth = depth;
        ms[i].open();
    }
    std::vector<std::pair<nuraft::ptr<nuraft::buffer>, std::string>> log; // entry, answer of the first
    std::map<uint64_t, std::string> bl;                                   // blocks that must be there
    uint64_t height = 0;
    uint64_t snap_at = 0;
    std::vector<hash_t> pool;
    auto conf = nuraft::cs_new<nuraft::cluster_config>();
    auto feed = [&](machine& x, uint64_t idx) {
        auto b = nuraft::buffer::clone(*log[idx - 1].first);
        b->pos(0);
        return text(x.s->commit(idx, *b));
    };
    auto catch_up = [&](machine& x) {
        while(x.s->last_commit_index() < log.size()) {
            auto i = x.s->last_commit_index() + 1;
            auto a = feed(x, i);
            VCHECK(a == log[i - 1].second, "atomizer:replica-differs", "at log entry " << i << ": " << a.substr(0, 200) << " not " << log[i - 1].second.substr(0, 200));
            vh::count("entries_compared");
        }
    };
    auto save = [&](machine& x) {
        auto idx = x.s->last_commit_index();
        if(idx == 0) {
            return;
        }
        nuraft::snapshot s(idx, 1, conf);
        bool ok = false;
        nuraft::async_result<bool>::handler_type h = [&](bool& b, nuraft::ptr<std::exception>&) {
            ok = b;
        };
        x.s->create_snapshot(s, h);
        VCHECK(ok, "atomizer:snapshot", "");
        auto l = x.s->last_snapshot();
        VCHECK(l && l->get_last_log_idx() == idx, "atomizer:last-snapshot", "");
        vh::count("snapshots");
    };
    for(auto k = r.in(10, 150); k > 0; k--) {
        sm::request q;
        auto c = r.below(100);
        uint64_t get = 0;
        if(c < 55) {
            at::aggregate_tx_notify_request a;
            for(auto j = r.in(0, 5); j > 0; j--) {
                at::aggregate_tx_notification t;
                t.m_tx.m_id = vu::rhash(r);
                for(auto i = r.below(4); i > 0; i--) {
                    if(pool.size() < 4 || r.chance(50)) {
                        pool.push_back(vu::rhash(r));
                    }
                    t.m_tx.m_inputs.push_back(r.pick(pool));
                }
                for(auto i = r.below(3); i > 0; i--) {
                    t.m_tx.m_uhs_outputs.push_back(vu::rhash(r));
                }
                t.m_oldest_attestation = height - std::min(height, r.below(depth + 2));
                a.m_agg_txs.push_back(t);
            }
            q = a;
        } else if(c < 80) {
            q = at::make_block_request{};
        } else if(c < 92) {
            get = r.below(height + 2);
            q = at::get_block_request{get};
        } else {
            q = at::prune_request{r.below(height + 2)};
        }
        log.emplace_back(make_buffer<sm::request, nuraft::ptr<nuraft::buffer>>(q), "");
        log.back().second = feed(ms[0], log.size());
        auto& ans = log.back().second;
        if(std::holds_alternative<at::make_block_request>(q)) {
            height++;
            VCHECK(ans.rfind("b" + std::to_string(height), 0) == 0, "atomizer:height", ans.substr(0, 20) << " not " << height);
            bl[height] = ans.substr(0, ans.find(';'));
        } else if(std::holds_alternative<at::get_block_request>(q)) {
            auto it = bl.find(get);
            VCHECK(ans == (it == bl.end() ? "-" : "g" + it->second), "atomizer:get-block", "height " << get);
        } else if(auto* p = std::get_if<at::prune_request>(&q)) {
            bl.erase(bl.begin(), bl.lower_bound(p->m_block_height));
            VCHECK(ans == "-", "atomizer:prune-answer", "");
        }
        vh::count("entries");
        if(r.chance(10)) {
            save(ms[0]);
            snap_at = log.size();
        }
        if(r.chance(10)) {
            catch_up(ms[1]);
            if(r.chance(60)) {
                save(ms[1]);
            }
        }
        if(r.chance(10)) { // from disk: the last snapshot, then the log
            ms[1].s.reset();
            ms[1].open();
            catch_up(ms[1]);
            vh::count("reopened");
        }
        if(snap_at > 0 && r.chance(10)) { // sent over
            auto s = ms[0].s->last_snapshot();
            if(s && s->get_last_log_idx() > ms[2].s->last_commit_index()) {
                void* ctx = nullptr;
                nuraft::ulong obj = 0;
                bool last = false;
                bool first = true;
                auto ok = true;
                while(!last && ok) {
                    nuraft::ptr<nuraft::buffer> d;
                    ok = ms[0].s->read_logical_snp_obj(*s, ctx, obj, d, last) == 0;
                    if(ok) {
                        auto cp = nuraft::buffer::clone(*d);
                        cp->pos(0);
                        ms[2].s->save_logical_snp_obj(*s, obj, *cp, first, last);
                        first = false;
                    }
                }
                VCHECK(ok, "atomizer:snapshot-read", "");
                VCHECK(ms[2].s->apply_snapshot(*s), "atomizer:snapshot-apply", "");
                VCHECK(ms[2].s->last_commit_index() == s->get_last_log_idx(), "atomizer:snapshot-index", "");
                vh::count("installed");
            }
            if(r.chance(50)) {
                catch_up(ms[2]);
            }
            if(r.chance(20)) {
                save(ms[2]);
            }
            if(r.chance(20)) {
                ms[2].s.reset();
                ms[2].open();
            }
        }
    }
    for(auto& x : ms) {
        catch_up(x);
    }
    // all that is left is the same
    for(uint64_t h = 0; h <= height + 1; h++) {
        auto it = bl.find(h);
        log.emplace_back(make_buffer<sm::request, nuraft::ptr<nuraft::buffer>>(sm::request(at::get_block_request{h})), it == bl.end() ? "-" : "g" + it->second);
    }
    for(auto& x : ms) {
        catch_up(x);
    }
    vh::distinct(vh::hashs(std::to_string(log.size()) + std::to_string(height), pool.empty() ? 1 : vu::fp(pool[0])));
    vh::count("machine_histories");
    ms.clear();
    fs::remove_all(dir);
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 60000;
    nuraft::sim::auto_lead() = false;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(vh::st().mode == "machine") {
            machines(r);
        } else {
            world w(r);
            w.run();
        }
    });
    return vh::finish();
}
