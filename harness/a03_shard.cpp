// A03: an atomizer shard against a chain known to the monitor.
// A04 (mode archiver): an archiver likewise.
#include "hatm.hpp"

#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/shard/controller.hpp"
#include "util/network/tcp_socket.hpp"

#include <filesystem>
#include <leveldb/db.h>

using namespace cbdc;
using va::chain;
using va::compact_tx;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;

struct stub {
    network::endpoint_t ep;
    std::unique_ptr<network::connection_manager> net;
    std::thread th;
    network::packet_handler_t h;
    bool up{false};
    void start() {
        net = std::make_unique<network::connection_manager>();
        auto t = net->start_server(ep, h);
        if(!t) {
            _exit(92);
        }
        th = std::move(*t);
        up = true;
    }
    void stop() {
        if(!up) {
            return;
        }
        net->close();
        th.join();
        net.reset();
        up = false;
    }
    ~stub() {
        stop();
    }
};

struct world {
    vh::rng& r;
    chain c;
    config::options o;
    std::vector<vu::key> keys;
    size_t na;
    std::vector<std::unique_ptr<stub>> atm;
    stub arc, wat;
    std::string dir;

    explicit world(vh::rng& q) : r(q), na(r.in(1, 2)) {
        dir = vh::st().scratch + "/a03." + std::to_string(vh::st().cur_case);
        std::filesystem::remove_all(dir);
        std::filesystem::create_directories(dir);
        std::filesystem::current_path(dir);
        o.m_attestation_threshold = r.below(3);
        for(auto n = o.m_attestation_threshold + r.below(2); n > 0; n--) {
            keys.push_back(vu::make_key(r));
            o.m_sentinel_public_keys.insert(keys.back().pk);
        }
        for(size_t i = 0; i < na; i++) {
            atm.push_back(std::make_unique<stub>());
            atm.back()->ep = vn::endpoint();
            o.m_atomizer_endpoints.push_back(atm.back()->ep);
        }
        arc.ep = vn::endpoint();
        wat.ep = vn::endpoint();
        o.m_archiver_endpoints.push_back(arc.ep);
        o.m_watchtower_internal_endpoints.push_back(wat.ep);
    }
    ~world() {
        for(auto& a : atm) {
            a->stop();
        }
        arc.stop();
        wat.stop();
        std::filesystem::current_path(vh::st().scratch);
        std::filesystem::remove_all(dir);
    }
    void tell(const at::block& b) {
        auto p = std::make_shared<buffer>(make_buffer(b));
        for(auto& a : atm) {
            if(a->up) {
                a->net->broadcast(p);
            }
        }
    }
};

// ---------------------------------------------------------------- the shard
struct sent {
    compact_tx t;
    bool good{};
    uint64_t lo{};
    std::atomic<int> answers{0};
    std::atomic<int> kind{0}; // 1 attested, 2 dne, 3 sync
    std::atomic<uint64_t> at{0};
};

struct shard_world : world {
    std::pair<uint8_t, uint8_t> range;
    std::mutex m;
    std::map<hash_t, std::shared_ptr<sent>> txs;
    std::atomic<uint64_t> seen{0}; // the shard is at least here
    std::atomic<int> archive{0};   // 0 answers, 1 has nothing yet, 2 lags
    std::unique_ptr<shard::controller> s;
    std::string db;

    explicit shard_world(vh::rng& q) : world(q) {
        auto a = static_cast<uint8_t>(r.below(256));
        auto b = static_cast<uint8_t>(r.below(256));
        range = r.chance(25) ? std::make_pair<uint8_t, uint8_t>(0, 255) : std::make_pair(std::min(a, b), std::max(a, b));
        if(r.chance(50)) { // not too narrow
            range.first = static_cast<uint8_t>(range.first / 2);
            range.second = static_cast<uint8_t>(255 - (255 - range.second) / 2);
        }
        o.m_shard_ranges.push_back(range);
        o.m_shard_endpoints.push_back(vn::endpoint());
        db = dir + "/db";
        o.m_shard_db_dirs.push_back(db);
        for(auto& x : atm) {
            x->h = [this](network::message_t&& p) -> std::optional<buffer> {
                notified(*p.m_pkt);
                return std::nullopt;
            };
        }
        wat.h = [this](network::message_t&& p) -> std::optional<buffer> {
            refused(*p.m_pkt);
            return std::nullopt;
        };
        arc.h = [this](network::message_t&& p) -> std::optional<buffer> {
            auto h = from_buffer<uint64_t>(*p.m_pkt);
            if(!h) {
                vh::report("shard:archive-request", "");
                return std::nullopt;
            }
            auto tip = c.tip();
            vh::count("archive_requests");
            std::optional<at::block> b;
            if(*h >= 1 && *h <= tip && archive != 1 && (archive == 0 || *h + 2 <= tip)) {
                b = c.at_height(*h);
            }
            return make_buffer(b);
        };
    }
    bool mine(const hash_t& x) const {
        return x[0] >= range.first && x[0] <= range.second;
    }
    std::shared_ptr<sent> find(const hash_t& id, const char* what) {
        std::unique_lock<std::mutex> l(m);
        auto it = txs.find(id);
        if(it == txs.end()) {
            vh::report(std::string("shard:unasked-") + what, vu::hx(id));
            return nullptr;
        }
        return it->second;
    }
    void notified(buffer& p) {
        auto q = from_buffer<at::request>(p);
        if(!q || !std::holds_alternative<at::tx_notify_request>(*q)) {
            vh::report("shard:message", "the atomizer got something else than a notification");
            return;
        }
        auto& n = std::get<at::tx_notify_request>(*q);
        auto x = find(n.m_tx.m_id, "notification");
        if(!x) {
            return;
        }
        auto tip = c.tip();
        VCHECK(va::same(n.m_tx, x->t), "shard:changed-tx", vu::hx(n.m_tx.m_id));
        VCHECK(x->good, "shard:unattested", vu::hx(n.m_tx.m_id) << " went on without enough attestations of sentinels");
        VCHECK(n.m_block_height >= std::max<uint64_t>(1, x->lo) && n.m_block_height <= tip, "shard:height", "attested at " << n.m_block_height << " not in " << x->lo << ".." << tip);
        std::unordered_set<uint64_t> want;
        for(size_t i = 0; i < x->t.m_inputs.size(); i++) {
            if(mine(x->t.m_inputs[i])) {
                want.insert(i);
                VCHECK(c.unspent_at(n.m_block_height, x->t.m_inputs[i]), "shard:false-attestation", "input " << i << " of " << vu::hx(n.m_tx.m_id) << " does not exist at height " << n.m_block_height);
            }
        }
        VCHECK(n.m_attestations == want, "shard:attested-inputs", n.m_attestations.size() << " inputs attested, " << want.size() << " are on the shard");
        VCHECK(!x->t.m_inputs.empty(), "shard:no-inputs", "");
        x->kind = 1;
        x->at = n.m_block_height;
        raise(n.m_block_height);
        vh::count(want.empty() ? "notifications_elsewhere" : "notifications");
        VCHECK(++x->answers == 1, "shard:answered-twice", "");
    }
    void raise(uint64_t h) {
        auto s0 = seen.load();
        while(s0 < h && !seen.compare_exchange_weak(s0, h)) {
        }
    }
    void refused(buffer& p) {
        auto v = from_buffer<std::vector<wt::tx_error>>(p);
        if(!v) {
            vh::report("shard:message", "the watchtower got something else than errors");
            return;
        }
        auto tip = c.tip();
        for(auto& e : *v) {
            auto x = find(e.tx_id(), "error");
            if(!x) {
                continue;
            }
            VCHECK(x->good, "shard:unattested", "an error for a transaction without enough attestations");
            auto info = e.info();
            if(std::holds_alternative<wt::tx_error_sync>(info)) {
                VCHECK(x->lo == 0, "shard:sync-error", "not in sync though it was at height " << x->lo);
                x->kind = 3;
                vh::count("sync_errors");
            } else if(auto* d = std::get_if<wt::tx_error_inputs_dne>(&info)) {
                x->kind = 2;
                auto got = d->input_uhs_ids();
                bool ok = x->t.m_inputs.empty() && got.empty();
                for(auto h = std::max<uint64_t>(1, x->lo); h <= tip && !ok; h++) {
                    std::vector<hash_t> miss;
                    for(auto& i : x->t.m_inputs) {
                        if(mine(i) && !c.unspent_at(h, i)) {
                            miss.push_back(i);
                        }
                    }
                    ok = !miss.empty() && miss == got;
                }
                VCHECK(ok, "shard:false-error", vu::hx(e.tx_id()) << ": " << got.size() << " of " << x->t.m_inputs.size() << " inputs said to be missing, at no height " << x->lo << ".." << tip << " so");
                vh::count("missing_inputs");
            } else {
                vh::report("shard:error-kind", "");
            }
            VCHECK(++x->answers == 1, "shard:answered-twice", "");
        }
    }
    bool start() {
        s = std::make_unique<shard::controller>(0, o, vu::logger());
        auto ok = s->init();
        VCHECK(ok, "shard:init", "");
        return ok;
    }
    std::unique_ptr<network::tcp_socket> dial() {
        for(int i = 0; i < 100; i++) {
            auto k = std::make_unique<network::tcp_socket>();
            if(k->connect(o.m_shard_endpoints[0])) {
                return k;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
        }
        return nullptr;
    }
    std::shared_ptr<sent> make(vh::rng& q) {
        auto x = std::make_shared<sent>();
        auto& t = x->t;
        t.m_id = vu::rhash(q);
        for(auto n = q.chance(3) ? 0 : q.in(1, 4); n > 0; n--) {
            auto h = c.some(q);
            if(q.chance(60)) { // one the shard has
                for(int k = 0; k < 8 && !(mine(h) && c.unspent_at(seen, h)); k++) {
                    h = c.some(q);
                }
            }
            t.m_inputs.push_back(h);
        }
        for(auto n = q.below(3); n > 0; n--) {
            t.m_uhs_outputs.push_back(vu::rhash(q));
        }
        auto th = o.m_attestation_threshold;
        auto bad = th > 0 && q.chance(8);
        for(size_t i = 0; i < (bad ? th - 1 : th); i++) {
            t.m_attestations.insert(t.sign(vu::secp(), keys[i].sk));
        }
        if(bad && q.chance(50)) { // a stranger's instead
            t.m_attestations.insert(t.sign(vu::secp(), vu::make_key(q).sk));
        }
        x->good = !bad;
        x->lo = seen;
        std::unique_lock<std::mutex> l(m);
        txs[t.m_id] = x;
        return x;
    }
    void ask(vh::rng& q, network::tcp_socket& k) {
        if(q.chance(2)) {
            buffer g;
            auto n = q.below(60);
            std::vector<unsigned char> b(n);
            q.bytes(b.data(), n);
            g.append(b.data(), n);
            (void)k.send(g);
            vh::count("garbage");
            return;
        }
        auto x = make(q);
        (void)k.send(make_buffer(x->t));
        vh::count("asked");
    }
    // Until the shard attests at the tip.
    bool caught_up(vh::rng& q, int ms) {
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        auto k = dial();
        if(!k) {
            vh::report("shard:unreachable", "");
            return false;
        }
        while(std::chrono::steady_clock::now() < end) {
            vh::tick();
            // an input elsewhere is attested without a look
            auto x = std::make_shared<sent>();
            x->t.m_id = vu::rhash(q);
            auto h = vu::rhash(q);
            if(range.first > 0) {
                h[0] = 0;
            } else if(range.second < 255) {
                h[0] = 255;
            } else { // everything is here
                auto any = [&] {
                    std::unique_lock<std::mutex> l(c.m);
                    for(auto& [o_, f] : c.outs) {
                        if(f.spent == 0) {
                            h = o_;
                            return true;
                        }
                    }
                    return false;
                };
                while(!any()) {
                    tell(c.grow(q, 4));
                }
            }
            x->t.m_inputs.push_back(h);
            for(size_t i = 0; i < o.m_attestation_threshold; i++) {
                x->t.m_attestations.insert(x->t.sign(vu::secp(), keys[i].sk));
            }
            x->good = true;
            x->lo = seen;
            {
                std::unique_lock<std::mutex> l(m);
                txs[x->t.m_id] = x;
            }
            if(!k->send(make_buffer(x->t))) {
                k = dial();
                if(!k) {
                    break;
                }
                continue;
            }
            if(vn::wait(
                   [&] {
                       return x->answers > 0;
                   },
                   1000)
               && seen >= c.tip()) {
                return true;
            }
            if(c.tip() > 0 && q.chance(20)) {
                tell(c.at_height(c.tip()));
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(10));
        }
        return false;
    }
    void audit() {
        leveldb::DB* p{};
        leveldb::Options lo;
        auto st = leveldb::DB::Open(lo, db, &p);
        std::unique_ptr<leveldb::DB> d(p);
        if(!st.ok()) {
            vh::report("shard:db", st.ToString());
            return;
        }
        std::string v;
        st = d->Get(leveldb::ReadOptions(), "bestBlockHeight", &v);
        uint64_t best{};
        if(!st.ok() || v.size() != sizeof(best)) {
            vh::report("shard:db-height", "");
            return;
        }
        std::memcpy(&best, v.data(), sizeof(best));
        VCHECK(best >= seen && best <= c.tip(), "shard:db-behind", "stored at " << best << ", attested at " << seen << " of " << c.tip());
        raise(best);
        std::set<std::string> want;
        {
            std::unique_lock<std::mutex> l(c.m);
            for(auto& [h, f] : c.outs) {
                if(mine(h) && f.born <= best && (f.spent == 0 || f.spent > best)) {
                    want.emplace(reinterpret_cast<const char*>(h.data()), h.size());
                }
            }
        }
        auto n = want.size();
        std::unique_ptr<leveldb::Iterator> it(d->NewIterator(leveldb::ReadOptions()));
        size_t extra = 0;
        for(it->SeekToFirst(); it->Valid(); it->Next()) {
            auto k = it->key().ToString();
            if(k == "bestBlockHeight") {
                continue;
            }
            extra += want.erase(k) == 0 ? 1 : 0;
        }
        VCHECK(extra == 0, "shard:db-extra", extra << " outputs that do not exist at height " << best);
        VCHECK(want.empty(), "shard:db-lost", want.size() << " of " << n << " outputs missing at height " << best);
        vh::count("databases_compared");
        vh::count("outputs_compared", n);
    }
    void run() {
        for(auto& a : atm) {
            if(atm.size() == 1 || r.chance(85)) {
                a->start();
            }
        }
        wat.start();
        if(r.chance(85)) {
            arc.start();
        }
        for(auto n = r.below(4); n > 0; n--) {
            c.grow(r, 6);
        }
        auto most = r.in(1, 12);
        for(auto phase = r.in(1, 3); phase > 0; phase--) {
            std::atomic<bool> stop{false};
            std::thread miner([&, q = vh::rng(r.next())]() mutable {
                while(!stop) {
                    auto b = c.grow(q, most);
                    auto x = q.below(100);
                    if(x < 75) {
                        tell(b);
                    }
                    if(x > 68 && x < 80) {
                        tell(b);
                        vh::count("repeated_blocks");
                    } else if(x >= 80) {
                        vh::count("lost_blocks");
                    }
                    if(q.chance(10)) {
                        tell(c.at_height(q.in(1, c.tip())));
                        vh::count("old_blocks");
                    }
                    if(q.chance(4)) {
                        buffer g;
                        auto n = q.below(30);
                        std::vector<unsigned char> by(n);
                        q.bytes(by.data(), n);
                        g.append(by.data(), n);
                        for(auto& a : atm) {
                            if(a->up) {
                                a->net->broadcast(std::make_shared<buffer>(g));
                            }
                        }
                    }
                    vh::count("blocks");
                    std::this_thread::sleep_for(std::chrono::milliseconds(q.in(0, 20)));
                }
            });
            auto ok = start();
            std::vector<std::thread> cl;
            for(auto n = r.in(1, 3); n > 0 && ok; n--) {
                cl.emplace_back([&, q = vh::rng(r.next())]() mutable {
                    auto k = dial();
                    if(!k) {
                        vh::report("shard:unreachable", "");
                        return;
                    }
                    for(auto i = q.in(20, 120); i > 0; i--) {
                        ask(q, *k);
                        vh::tick();
                        if(q.chance(50)) {
                            std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
                        }
                    }
                    k->disconnect();
                });
            }
            for(auto n = r.below(4); n > 0; n--) {
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(60)));
                switch(r.below(3)) {
                    case 0:
                        archive = static_cast<int>(r.in(1, 2));
                        vh::count("archive_lags");
                        break;
                    case 1:
                        arc.stop();
                        vh::count("archive_stops");
                        std::this_thread::sleep_for(std::chrono::milliseconds(r.below(40)));
                        if(r.chance(80)) {
                            arc.start();
                        }
                        break;
                    default:
                        archive = 0;
                        break;
                }
            }
            for(auto& t : cl) {
                t.join();
            }
            auto abrupt = r.chance(45);
            if(abrupt) {
                std::this_thread::sleep_for(std::chrono::milliseconds(r.below(30)));
            }
            stop = true;
            miner.join();
            if(!abrupt) {
                archive = 0;
                if(!arc.up) {
                    arc.start();
                }
                for(auto& a : atm) {
                    if(!a->up) {
                        a->start();
                    }
                }
            }
            if(!abrupt && ok) {
                VCHECK(caught_up(r, 30000), "shard:behind", "attests at " << seen << " of " << c.tip() << " 30 s after the last block");
                vh::count("caught_up");
                settle();
            }
            auto t0 = std::chrono::steady_clock::now();
            s.reset();
            auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
            vh::count(ms > 1500 ? "slow_stops" : "stops");
            audit();
            archive = 0;
            if(!arc.up) {
                arc.start();
            }
        }
        uint64_t f = 1;
        for(auto& [id, x] : txs) {
            f = vh::mix(f, static_cast<uint64_t>(x->kind.load()) * 1000 + x->at);
        }
        vh::distinct(f);
    }
    // Everything that was asked while all could be reached got its answer.
    void settle() {
        std::vector<std::shared_ptr<sent>> v;
        auto k = dial();
        if(!k) {
            return;
        }
        for(int i = 0; i < 30; i++) {
            v.push_back(make(r));
            (void)k->send(make_buffer(v.back()->t));
        }
        auto done = vn::wait(
            [&] {
                for(auto& x : v) {
                    if(x->good && x->answers == 0) {
                        return false;
                    }
                }
                return true;
            },
            10000);
        VCHECK(done, "shard:unanswered", "");
        // nothing may come twice
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        k->disconnect();
    }
};

// ------------------------------------------------------------- the archiver
struct archiver_world : world {
    std::atomic<uint64_t> pruned{0}; // asked to forget what is below
    std::atomic<uint64_t> stored{0}; // known to be served
    std::unique_ptr<archiver::controller> a;
    std::atomic<int> lossy{0};
    std::mutex qm;
    vh::rng hq;
    std::mutex am;
    std::vector<std::unique_ptr<archiver::client>> cls;

    explicit archiver_world(vh::rng& q) : world(q), hq(q.next()) {
        o.m_archiver_db_dirs.push_back(dir + "/db");
        for(auto& x : atm) {
            x->h = [this](network::message_t&& p) -> std::optional<buffer> {
                return handle(*p.m_pkt);
            };
        }
    }
    bool chance(uint64_t p) {
        std::unique_lock<std::mutex> l(qm);
        return hq.chance(p);
    }
    std::optional<buffer> handle(buffer& p) {
        auto q = from_buffer<at::request>(p);
        if(!q) {
            vh::report("archiver:message", "");
            return std::nullopt;
        }
        if(auto* x = std::get_if<at::prune_request>(&*q)) {
            auto h = x->m_block_height;
            VCHECK(h <= c.tip(), "archiver:prune-future", h << " of " << c.tip());
            auto s = pruned.load();
            while(s < h && !pruned.compare_exchange_weak(s, h)) {
            }
            vh::count("prunes");
            return std::nullopt;
        }
        if(auto* x = std::get_if<at::get_block_request>(&*q)) {
            auto h = x->m_block_height;
            VCHECK(h >= 1 && h < c.tip(), "archiver:requested", h << " of " << c.tip());
            VCHECK(na > 1 || h >= pruned, "archiver:wants-pruned", "block " << h << " is asked for after all below " << pruned << " could be forgotten");
            vh::count("requests");
            if(lossy > 0 && chance(30)) {
                vh::count("lost_requests");
                return std::nullopt;
            }
            if(h < pruned || h < 1 || h > c.tip()) {
                return std::nullopt;
            }
            return make_buffer(c.at_height(h));
        }
        vh::report("archiver:message", "");
        return std::nullopt;
    }
    void raise(uint64_t h) {
        auto s = stored.load();
        while(s < h && !stored.compare_exchange_weak(s, h)) {
        }
    }
    // One question by a client.
    bool ask(archiver::client& cl, uint64_t h) {
        auto lo = std::max<uint64_t>(stored, pruned.load());
        auto b = cl.get_block(h);
        auto tip = c.tip();
        if(b) {
            vh::count("blocks_served");
            if(h < 1 || h > tip) {
                vh::report("archiver:invented", std::to_string(h));
                return false;
            }
            VCHECK(va::same(*b, c.at_height(h)), "archiver:other-block", "at height " << h);
            raise(h);
            return true;
        }
        return !(h >= 1 && h <= lo);
    }
    bool start() {
        a = std::make_unique<archiver::controller>(0, o, vu::logger(), 0);
        auto ok = a->init();
        VCHECK(ok, "archiver:init", "");
        return ok;
    }
    std::unique_ptr<archiver::client> dial() {
        for(int i = 0; i < 100; i++) {
            auto k = std::make_unique<archiver::client>(o.m_archiver_endpoints[0], vu::logger());
            if(k->init()) {
                return k;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
        }
        return nullptr;
    }
    void everything(const char* when) {
        auto k = dial();
        if(!k) {
            vh::report("archiver:unreachable", "");
            return;
        }
        auto top = std::max<uint64_t>(stored, pruned.load());
        for(uint64_t h = 1; h <= top; h++) {
            VCHECK(ask(*k, h), std::string("archiver:lost-") + when, "block " << h << " of " << top);
        }
        // what it has is without gaps
        bool gone = false;
        for(auto h = top + 1; h <= c.tip() + 1; h++) {
            auto had = k->get_block(h).has_value();
            VCHECK(!(had && gone), "archiver:gap", "block " << h << " but not all before");
            gone = gone || !had;
        }
        (void)k->get_block(0);
        vh::count("archives_compared");
    }
    void run() {
        for(auto& x : atm) {
            if(atm.size() == 1 || r.chance(85)) {
                x->start();
            }
        }
        auto most = r.in(0, 8);
        for(auto phase = r.in(1, 3); phase > 0; phase--) {
            std::atomic<bool> stop{false};
            lossy = r.chance(60) ? 1 : 0;
            for(auto n = r.below(5); n > 0; n--) {
                c.grow(r, most);
            }
            std::thread miner([&, q = vh::rng(r.next())]() mutable {
                std::vector<at::block> late;
                while(!stop) {
                    auto b = c.grow(q, most);
                    auto x = q.below(100);
                    if(x < 70) {
                        tell(b);
                    } else if(x < 85) {
                        late.push_back(b);
                        vh::count("late_blocks");
                    } else {
                        vh::count("lost_blocks");
                    }
                    if(q.chance(10)) {
                        tell(c.at_height(q.in(1, c.tip())));
                        vh::count("old_blocks");
                    }
                    if(!late.empty() && q.chance(30)) {
                        auto i = q.below(late.size());
                        tell(late[i]);
                        late.erase(late.begin() + static_cast<ptrdiff_t>(i));
                    }
                    vh::count("blocks");
                    std::this_thread::sleep_for(std::chrono::milliseconds(q.in(0, 12)));
                }
            });
            auto ok = start();
            std::vector<std::thread> cl;
            for(auto n = r.in(1, 3); n > 0 && ok; n--) {
                cl.emplace_back([&, q = vh::rng(r.next())]() mutable {
                    auto k = dial();
                    if(!k) {
                        vh::report("archiver:unreachable", "");
                        return;
                    }
                    for(auto i = q.in(20, 100); i > 0; i--) {
                        vh::tick();
                        auto h = q.chance(60) ? q.in(0, c.tip() + 2) : std::max<uint64_t>(stored, 3) - q.below(3) + q.below(2);
                        VCHECK(ask(*k, h), "archiver:lost", "block " << h << " which it had");
                        if(q.chance(30)) {
                            std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000)));
                        }
                    }
                });
            }
            for(auto& t : cl) {
                t.join();
            }
            auto abrupt = r.chance(40);
            stop = true;
            miner.join();
            if(!abrupt && ok) {
                lossy = 0;
                for(auto& x : atm) {
                    if(!x->up) {
                        x->start();
                    }
                }
                auto k = dial();
                auto up = k != nullptr && vn::wait(
                              [&] {
                                  vh::tick();
                                  tell(c.grow(r, most));
                                  for(int i = 0; i < 6; i++) {
                                      std::this_thread::sleep_for(std::chrono::milliseconds(5));
                                      if(ask(*k, c.tip()) && stored >= c.tip()) {
                                          return true;
                                      }
                                  }
                                  return false;
                              },
                              20000);
                VCHECK(up, "archiver:behind", "serves " << stored << " of " << c.tip());
                vh::count("caught_up");
                everything("running");
            }
            a.reset();
            vh::count("stops");
            if(r.chance(60)) {
                // back without news
                std::vector<bool> was;
                for(auto& x : atm) {
                    was.push_back(x->up);
                    x->stop();
                }
                if(start()) {
                    everything("restarted");
                    vh::count("restarts");
                }
                a.reset();
                for(size_t i = 0; i < atm.size(); i++) {
                    if(was[i]) {
                        atm[i]->start();
                    }
                }
            }
        }
        vh::distinct(vh::mix(c.tip(), vh::mix(stored, pruned)));
    }
};

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 60000;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(vh::st().mode == "archiver") {
            archiver_world w(r);
            w.run();
        } else {
            shard_world w(r);
            w.run();
        }
        vh::count("histories");
    });
    return vh::finish();
}
