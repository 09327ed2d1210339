// C01: no unspent output is ever consumed twice or lost by the two-phase
// commit shards, whatever the interleaving of distributed transactions.
#include "huhs.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"

#include <algorithm>
#include <fstream>
#include <thread>

using namespace cbdc;
using locking_shard::tx;
using vu::hx;

namespace {
    struct cluster {
        std::vector<std::pair<uint8_t, uint8_t>> ranges;
        std::vector<std::shared_ptr<locking_shard::locking_shard>> shards;
    };
    std::vector<vu::key> sentinels;
    size_t threshold{0};

    cluster make_cluster(vh::rng& r, size_t n) {
        cluster c;
        auto opts = config::options();
        for(auto& k : sentinels) {
            opts.m_sentinel_public_keys.insert(k.pk);
        }
        opts.m_attestation_threshold = threshold;
        std::vector<int> cuts;
        while(cuts.size() + 1 < n) {
            int x = static_cast<int>(r.in(1, 255));
            if(std::find(cuts.begin(), cuts.end(), x) == cuts.end()) {
                cuts.push_back(x);
            }
        }
        std::sort(cuts.begin(), cuts.end());
        int lo = 0;
        for(size_t i = 0; i < n; i++) {
            int hi = i + 1 < n ? cuts[i] - 1 : 255;
            c.ranges.emplace_back(static_cast<uint8_t>(lo),
                                  static_cast<uint8_t>(hi));
            lo = hi + 1;
        }
        for(auto& rg : c.ranges) {
            c.shards.push_back(std::make_shared<locking_shard::locking_shard>(
                rg,
                vu::logger(),
                10000000,
                "",
                opts));
        }
        return c;
    }

    size_t owner(const cluster& c, const hash_t& h) {
        for(size_t i = 0; i < c.ranges.size(); i++) {
            if(h[0] >= c.ranges[i].first && h[0] <= c.ranges[i].second) {
                return i;
            }
        }
        return 999;
    }

    void attest(transaction::compact_tx& t, size_t n) {
        for(size_t i = 0; i < n && i < sentinels.size(); i++) {
            t.m_attestations.insert(t.sign(vu::secp(), sentinels[i].sk));
        }
    }

    enum class u { none, unspent, locked, spent };

    struct mtx {
        transaction::compact_tx t;
        bool attested{true};
    };
    struct dtx {
        hash_t id{};
        std::vector<mtx> txs;
        std::vector<std::vector<size_t>> idx; // per shard
        std::vector<bool> locked, applied, discarded;
        std::vector<std::vector<bool>> results; // per shard
        std::vector<bool> decision;
        int phase{0}; // 0 lock 1 apply 2 discard 3 done
    };

    struct world {
        cluster& c;
        std::map<hash_t, u> st;
        std::map<hash_t, std::pair<size_t, size_t>> lock_owner; // dtx, tx
        std::map<hash_t, bool> completed; // tx ids known -> completed
        std::vector<dtx> dtxs;
        std::string log;
        bool bad{false};

        void fail(const std::string& k, const std::string& d) {
            if(!bad) {
                vh::report(k, d + " | history: " + log);
            }
            bad = true;
        }
        void note(const std::string& x) {
            if(log.size() < 5000) {
                log += x + "; ";
            }
        }

        void verify_all() {
            for(auto& [id, s] : st) {
                auto& sh = c.shards[owner(c, id)];
                auto got = sh->check_unspent(id);
                auto want = s == u::unspent || s == u::locked;
                if(!got.has_value() || *got != want) {
                    const char* nm = s == u::none      ? "never-created"
                                   : s == u::unspent   ? "unspent"
                                   : s == u::locked    ? "locked"
                                                       : "spent";
                    fail(std::string("uhs-status:") + nm,
                         "uhs id " + hx(id) + " is " + nm
                             + " but shard says unspent="
                             + (got.has_value() ? std::to_string(*got) : "?"));
                    return;
                }
            }
            for(auto& [id, done] : completed) {
                auto got = c.shards[owner(c, id)]->check_tx_id(id);
                if(!got.has_value() || *got != done) {
                    fail(std::string("txid-status:")
                             + (done ? "completed-not-reported"
                                     : "reported-not-completed"),
                         "tx " + hx(id));
                    return;
                }
            }
            vh::count("status_checks", st.size() + completed.size());
        }

        void do_lock(size_t di, size_t s) {
            auto& d = dtxs[di];
            std::vector<tx> v;
            for(auto i : d.idx[s]) {
                tx t;
                t.m_tx = d.txs[i].t;
                v.push_back(std::move(t));
            }
            auto res = c.shards[s]->lock_outputs(std::move(v), d.id);
            if(!res.has_value() || res->size() != d.idx[s].size()) {
                fail("lock-no-answer", "lock returned no or short answer");
                return;
            }
            if(d.locked[s]) {
                vh::count("lock_replays");
                if(*res != d.results[s]) {
                    fail("lock-replay-differs",
                         "repeated prepare gave other results");
                }
                return;
            }
            d.locked[s] = true;
            d.results[s] = *res;
            std::string rs;
            for(size_t k = 0; k < d.idx[s].size(); k++) {
                auto ti = d.idx[s][k];
                bool want = d.txs[ti].attested;
                for(auto& in : d.txs[ti].t.m_inputs) {
                    if(owner(c, in) == s) {
                        auto it = st.find(in);
                        want = want
                            && it != st.end() && it->second == u::unspent;
                    }
                }
                rs += want ? '1' : '0';
                if(want != static_cast<bool>((*res)[k])) {
                    fail(want ? "lock-refused-spendable"
                              : "lock-granted-unspendable",
                         "dtx " + std::to_string(di) + " tx "
                             + std::to_string(ti) + " shard "
                             + std::to_string(s));
                    return;
                }
                if(want) {
                    for(auto& in : d.txs[ti].t.m_inputs) {
                        if(owner(c, in) == s) {
                            st[in] = u::locked;
                            lock_owner[in] = {di, ti};
                            vh::count("locks");
                        }
                    }
                } else {
                    vh::count("lock_refusals");
                }
            }
            note("lock d" + std::to_string(di) + "@" + std::to_string(s) + "="
                 + rs);
        }

        void decide(size_t di) {
            auto& d = dtxs[di];
            d.decision.assign(d.txs.size(), true);
            for(size_t s = 0; s < d.idx.size(); s++) {
                for(size_t k = 0; k < d.idx[s].size(); k++) {
                    if(!d.results[s][k]) {
                        d.decision[d.idx[s][k]] = false;
                    }
                }
            }
            d.phase = 1;
        }

        void do_apply(size_t di, size_t s) {
            auto& d = dtxs[di];
            std::vector<bool> flags;
            std::string rs;
            for(auto i : d.idx[s]) {
                flags.push_back(d.decision[i]);
                rs += d.decision[i] ? '1' : '0';
            }
            auto ok = c.shards[s]->apply_outputs(std::move(flags), d.id);
            if(!ok) {
                fail("apply-failed", "apply returned false");
                return;
            }
            if(d.applied[s]) {
                vh::count("apply_replays");
                return;
            }
            d.applied[s] = true;
            note("apply d" + std::to_string(di) + "@" + std::to_string(s) + "="
                 + rs);
            for(auto i : d.idx[s]) {
                auto& t = d.txs[i].t;
                bool done = d.decision[i];
                for(auto& in : t.m_inputs) {
                    if(owner(c, in) != s) {
                        continue;
                    }
                    auto lo = lock_owner.find(in);
                    if(lo != lock_owner.end()
                       && lo->second == std::make_pair(di, i)) {
                        lock_owner.erase(lo);
                        st[in] = done ? u::spent : u::unspent;
                        vh::count(done ? "spends" : "unlocks");
                    }
                }
                if(done) {
                    for(auto& o : t.m_uhs_outputs) {
                        if(owner(c, o) == s) {
                            st[o] = u::unspent;
                            vh::count("creates");
                        }
                    }
                    if(owner(c, t.m_id) == s) {
                        completed[t.m_id] = true;
                    }
                }
            }
        }

        void add_dtx(vh::rng& r, std::vector<mtx> txs) {
            dtx d;
            d.id = vu::rhash(r);
            d.txs = std::move(txs);
            size_t n = c.shards.size();
            d.idx.resize(n);
            d.locked.assign(n, false);
            d.applied.assign(n, false);
            d.discarded.assign(n, false);
            d.results.resize(n);
            for(size_t i = 0; i < d.txs.size(); i++) {
                auto& t = d.txs[i].t;
                for(size_t s = 0; s < n; s++) {
                    bool in = owner(c, t.m_id) == s;
                    for(auto& x : t.m_inputs) {
                        in = in || owner(c, x) == s;
                    }
                    for(auto& x : t.m_uhs_outputs) {
                        in = in || owner(c, x) == s;
                    }
                    if(in) {
                        d.idx[s].push_back(i);
                    }
                }
                for(auto& o : t.m_uhs_outputs) {
                    st.emplace(o, u::none);
                }
                for(auto& o : t.m_inputs) {
                    st.emplace(o, u::none);
                }
                completed.emplace(t.m_id, false);
            }
            dtxs.push_back(std::move(d));
        }
    };

    mtx make_tx(vh::rng& r,
                const std::vector<hash_t>& inputs,
                size_t n_out,
                unsigned bad_att_pct) {
        mtx m;
        m.t.m_id = vu::rhash(r);
        m.t.m_inputs = inputs;
        for(size_t i = 0; i < n_out; i++) {
            m.t.m_uhs_outputs.push_back(vu::rhash(r));
        }
        if(threshold > 0) {
            size_t have = threshold;
            if(r.chance(bad_att_pct)) {
                switch(r.below(3)) {
                    case 0: // too few
                        have = threshold - 1;
                        m.attested = false;
                        attest(m.t, have);
                        return m;
                    case 1: { // one signature by an unknown key
                        attest(m.t, threshold - 1);
                        auto k = vu::make_key(r);
                        m.t.m_attestations.insert(m.t.sign(vu::secp(), k.sk));
                        m.attested = false;
                        return m;
                    }
                    default: { // signed, then altered
                        attest(m.t, threshold);
                        if(r.chance(50) || m.t.m_uhs_outputs.empty()) {
                            m.t.m_id[3] ^= 1;
                        } else {
                            m.t.m_uhs_outputs[0][9] ^= 4;
                        }
                        m.attested = false;
                        return m;
                    }
                }
            }
            attest(m.t, have);
        }
        return m;
    }

    void run_model_case(cluster& c, vh::rng& r) {
        world w{c, {}, {}, {}, {}, {}, false};
        size_t n_init = r.in(2, 10);
        // Mint.
        std::vector<hash_t> pool;
        {
            std::vector<mtx> ms;
            while(pool.size() < n_init) {
                auto m = make_tx(r, {}, r.in(1, 4), 0);
                for(auto& o : m.t.m_uhs_outputs) {
                    pool.push_back(o);
                }
                ms.push_back(std::move(m));
            }
            w.add_dtx(r, std::move(ms));
            for(size_t s = 0; s < c.shards.size(); s++) {
                if(!w.dtxs[0].idx[s].empty()) {
                    w.do_lock(0, s);
                }
            }
            w.decide(0);
            for(size_t s = 0; s < c.shards.size(); s++) {
                if(!w.dtxs[0].idx[s].empty()) {
                    w.do_apply(0, s);
                }
            }
            w.dtxs[0].phase = 3;
            w.verify_all();
        }
        // Competing distributed transactions over few outputs.
        size_t n_dtx = r.in(2, 7);
        for(size_t i = 0; i < n_dtx; i++) {
            std::vector<mtx> ms;
            size_t n_tx = r.in(1, 5);
            for(size_t j = 0; j < n_tx; j++) {
                std::vector<hash_t> ins;
                size_t n_in = r.in(1, 3);
                for(size_t k = 0; k < n_in; k++) {
                    hash_t h;
                    if(r.chance(8)) {
                        h = vu::rhash(r); // never existed
                    } else {
                        h = r.pick(pool);
                    }
                    if(std::find(ins.begin(), ins.end(), h) == ins.end()) {
                        ins.push_back(h);
                    }
                }
                auto m = make_tx(r, ins, r.in(0, 3), 12);
                for(auto& o : m.t.m_uhs_outputs) {
                    if(r.chance(60)) {
                        pool.push_back(o); // may be spent before it exists
                    }
                }
                ms.push_back(std::move(m));
            }
            w.add_dtx(r, std::move(ms));
        }
        // Interleave.
        size_t guard = 0;
        uint64_t shape = 7;
        while(!w.bad && guard++ < 4000) {
            std::vector<size_t> live;
            for(size_t i = 1; i < w.dtxs.size(); i++) {
                if(w.dtxs[i].phase < 3) {
                    live.push_back(i);
                }
            }
            if(live.empty()) {
                break;
            }
            auto di = r.pick(live);
            auto& d = w.dtxs[di];
            std::vector<size_t> todo, done;
            for(size_t s = 0; s < c.shards.size(); s++) {
                if(d.idx[s].empty()) {
                    continue;
                }
                bool dn = d.phase == 0   ? d.locked[s]
                        : d.phase == 1   ? d.applied[s]
                                         : d.discarded[s];
                (dn ? done : todo).push_back(s);
            }
            if(todo.empty()) {
                if(d.phase == 0) {
                    w.decide(di);
                } else {
                    d.phase++;
                }
                continue;
            }
            // A coordinator that lost the answer repeats the command.
            bool replay = !done.empty() && r.chance(15);
            auto s = replay ? r.pick(done) : r.pick(todo);
            shape = vh::mix(shape, di * 131 + s * 7 + static_cast<size_t>(d.phase) + (replay ? 1000 : 0));
            if(d.phase == 0) {
                w.do_lock(di, s);
            } else if(d.phase == 1) {
                w.do_apply(di, s);
            } else {
                if(!c.shards[s]->discard_dtx(d.id)) {
                    w.fail("discard-failed", "discard returned false");
                }
                d.discarded[s] = true;
                // replay of discard must also be harmless
                if(r.chance(20)) {
                    c.shards[s]->discard_dtx(d.id);
                }
            }
            w.verify_all();
        }
        // Quiescent: nothing may stay locked; every unspent output must be
        // spendable, every other one must not be.
        if(!w.bad) {
            std::vector<hash_t> all;
            for(auto& [id, s] : w.st) {
                all.push_back(id);
            }
            for(auto& id : all) {
                auto before = w.st[id];
                if(before == u::locked) {
                    w.fail("left-locked", "id " + hx(id));
                    break;
                }
                std::vector<mtx> ms;
                ms.push_back(make_tx(r, {id}, 1, 0));
                w.add_dtx(r, std::move(ms));
                auto di = w.dtxs.size() - 1;
                for(size_t s = 0; s < c.shards.size() && !w.bad; s++) {
                    if(!w.dtxs[di].idx[s].empty()) {
                        w.do_lock(di, s);
                    }
                }
                if(w.bad) {
                    break;
                }
                w.decide(di);
                for(size_t s = 0; s < c.shards.size(); s++) {
                    if(!w.dtxs[di].idx[s].empty()) {
                        w.do_apply(di, s);
                        c.shards[s]->discard_dtx(w.dtxs[di].id);
                    }
                }
                vh::count("quiescent_spend_probes");
            }
            w.verify_all();
            // and a second round: what was just spent is gone
            for(auto& id : all) {
                if(w.bad) {
                    break;
                }
                std::vector<mtx> ms;
                ms.push_back(make_tx(r, {id}, 0, 0));
                w.add_dtx(r, std::move(ms));
                auto di = w.dtxs.size() - 1;
                auto s = owner(c, id);
                w.do_lock(di, s);
                if(!w.bad && w.dtxs[di].results[s][0]) {
                    w.fail("double-spend", "id " + hx(id));
                }
            }
        }
        for(auto& [id, s] : w.st) {
            shape = vh::mix(shape, static_cast<uint64_t>(s));
        }
        vh::distinct(shape);
        if(vh::st().cur_case < 2) {
            vh::sample(w.log);
        }
    }

    // Threads drive whole distributed transactions over the same outputs.
    void run_threads_case(cluster& c, vh::rng& r) {
        std::vector<hash_t> pool;
        std::vector<tx> mint(1);
        mint[0].m_tx = make_tx(r, {}, r.in(3, 12), 0).t;
        pool = mint[0].m_tx.m_uhs_outputs;
        auto whole = [&](const std::vector<tx>& txs,
                         const hash_t& id,
                         vh::rng& rr) -> std::vector<bool> {
            std::vector<bool> dec(txs.size(), true);
            std::vector<size_t> order;
            for(size_t s = 0; s < c.shards.size(); s++) {
                order.push_back(s);
            }
            rr.shuffle(order);
            for(auto s : order) {
                auto v = txs;
                auto res = c.shards[s]->lock_outputs(std::move(v), id);
                if(!res.has_value() || res->size() != txs.size()) {
                    vh::report("lock-no-answer", "threads");
                    return dec;
                }
                for(size_t i = 0; i < dec.size(); i++) {
                    dec[i] = dec[i] && (*res)[i];
                }
            }
            if(rr.chance(30)) {
                std::this_thread::yield();
            }
            rr.shuffle(order);
            for(auto s : order) {
                auto d2 = dec;
                c.shards[s]->apply_outputs(std::move(d2), id);
            }
            for(auto s : order) {
                c.shards[s]->discard_dtx(id);
            }
            return dec;
        };
        whole(mint, vu::rhash(r), r);
        constexpr size_t n_threads = 4;
        struct job {
            hash_t id;
            std::vector<tx> txs;
            std::vector<bool> res;
        };
        std::vector<std::vector<job>> jobs(n_threads);
        std::vector<hash_t> wanted = pool;
        for(auto& js : jobs) {
            size_t n = r.in(2, 5);
            for(size_t i = 0; i < n; i++) {
                job j;
                j.id = vu::rhash(r);
                size_t nt = r.in(1, 3);
                for(size_t k = 0; k < nt; k++) {
                    std::vector<hash_t> ins;
                    for(size_t q = 0; q < r.in(1, 2); q++) {
                        auto h = r.pick(wanted);
                        if(std::find(ins.begin(), ins.end(), h) == ins.end()) {
                            ins.push_back(h);
                        }
                    }
                    tx t;
                    t.m_tx = make_tx(r, ins, r.in(1, 2), 0).t;
                    for(auto& o : t.m_tx.m_uhs_outputs) {
                        wanted.push_back(o);
                    }
                    j.txs.push_back(std::move(t));
                }
                js.push_back(std::move(j));
            }
        }
        std::atomic<bool> stop{false};
        std::vector<std::thread> ts;
        for(size_t i = 0; i < n_threads; i++) {
            ts.emplace_back([&, i, seed = r.next()] {
                vh::rng rr(seed);
                for(auto& j : jobs[i]) {
                    j.res = whole(j.txs, j.id, rr);
                }
            });
        }
        std::thread q([&, seed = r.next()] {
            vh::rng rr(seed);
            size_t n = 0;
            while(!stop) {
                auto h = wanted[rr.below(wanted.size())];
                auto s = owner(c, h);
                c.shards[s]->check_unspent(h);
                c.shards[s]->check_tx_id(h);
                n++;
            }
            vh::count("concurrent_queries", n);
        });
        for(auto& t : ts) {
            t.join();
        }
        stop = true;
        q.join();
        std::map<hash_t, int> spent, created;
        for(auto& p : pool) {
            created[p]++;
        }
        size_t done = 0;
        size_t refused = 0;
        for(auto& js : jobs) {
            for(auto& j : js) {
                for(size_t i = 0; i < j.txs.size(); i++) {
                    if(!j.res.empty() && j.res[i]) {
                        done++;
                        for(auto& in : j.txs[i].m_tx.m_inputs) {
                            spent[in]++;
                        }
                        for(auto& o : j.txs[i].m_tx.m_uhs_outputs) {
                            created[o]++;
                        }
                    } else {
                        refused++;
                    }
                }
            }
        }
        vh::count("concurrent_completed", done);
        vh::count("concurrent_refused", refused);
        uint64_t shape = vh::mix(done, refused);
        for(auto& h : wanted) {
            auto s = spent.count(h) != 0 ? spent[h] : 0;
            auto cr = created.count(h) != 0 ? created[h] : 0;
            if(s > 1) {
                vh::report("double-spend-concurrent", hx(h));
            }
            if(s > cr) {
                vh::report("spend-of-uncreated-concurrent", hx(h));
            }
            auto got = c.shards[owner(c, h)]->check_unspent(h);
            if(!got.has_value() || *got != (cr == 1 && s == 0)) {
                vh::report("uhs-status-concurrent",
                           hx(h) + " created=" + std::to_string(cr) + " spent="
                               + std::to_string(s));
            }
            shape = vh::mix(shape, static_cast<uint64_t>(s * 2 + cr));
        }
        vh::distinct(shape);
    }

    // Outputs pre-seeded from a file are spendable exactly like others.
    void run_preseed(vh::rng& r) {
        auto path = vh::st().scratch + "/preseed.dat";
        std::unordered_set<hash_t, hashing::null> ids;
        size_t n = r.in(1, 300);
        for(size_t i = 0; i < n; i++) {
            ids.insert(vu::rhash(r));
        }
        {
            auto buf = make_buffer(ids);
            std::ofstream f(path, std::ios::binary | std::ios::trunc);
            f.write(buf.c_str(), static_cast<std::streamsize>(buf.size()));
        }
        auto opts = config::options();
        opts.m_attestation_threshold = 0;
        auto sh = locking_shard::locking_shard({0, 255},
                                               vu::logger(),
                                               1000,
                                               path,
                                               opts);
        for(auto& id : ids) {
            auto got = sh.check_unspent(id);
            VCHECK(got.has_value() && *got, "preseed-missing", hx(id));
        }
        auto id = *ids.begin();
        for(int round = 0; round < 2; round++) {
            std::vector<tx> v(1);
            v[0].m_tx.m_id = vu::rhash(r);
            v[0].m_tx.m_inputs = {id};
            auto did = vu::rhash(r);
            auto res = sh.lock_outputs(std::move(v), did);
            bool ok = res.has_value() && res->size() == 1 && (*res)[0];
            VCHECK(ok == (round == 0), "preseed-spend", "round " << round);
            sh.apply_outputs({ok}, did);
        }
        VCHECK(!sh.check_unspent(vu::rhash(r)).value_or(true), "preseed-extra", "");
        sh.stop();
        std::vector<tx> v(1);
        VCHECK(!sh.lock_outputs(std::move(v), vu::rhash(r)).has_value(),
               "answers-after-stop",
               "lock");
        VCHECK(!sh.apply_outputs({true}, vu::rhash(r)), "answers-after-stop", "apply");
        VCHECK(!sh.discard_dtx(vu::rhash(r)), "answers-after-stop", "discard");
        vh::count("preseeded", ids.size());
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    auto r0 = vh::case_rng(1000000);
    threshold = vh::st().shard % 3;
    for(size_t i = 0; i < 3; i++) {
        sentinels.push_back(vu::make_key(r0));
    }
    auto c = make_cluster(r0, 1 + vh::st().shard % 4);
    bool threads = vh::st().mode == "threads";
    if(!threads) {
        run_preseed(r0);
    }
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(threads) {
            run_threads_case(c, r);
        } else {
            run_model_case(c, r);
        }
    });
    return vh::finish();
}
