// C09: what a client believes it holds, against a ledger of what happened.
#include "hnet.hpp"
#include "huhs.hpp"

#include "bech32/bech32.h"
#include "bech32/util/strencodings.h"
#include "uhs/atomizer/atomizer/block.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/client/atomizer_client.hpp"
#include "uhs/client/twophase_client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/util.hpp"

#include <filesystem>

using namespace cbdc;
using namespace cbdc::transaction;
namespace vd = cbdc::transaction::validation;
namespace fs = std::filesystem;
using opk = std::pair<hash_t, uint64_t>;
static opk key_of(const input& i) {
    return {i.m_prevout.m_tx_id, i.m_prevout.m_index};
}

enum class plan { confirm, pending, reject, lost, lost_applied };

// What the processing system did.  Used by one client operation at a time.
struct world {
    std::mutex m;
    bool atomizer{false};
    std::set<hash_t> unspent;
    std::set<hash_t> known;   // ids of confirmed transactions
    std::map<hash_t, full_tx> queue; // accepted, not processed yet
    plan next{plan::confirm};
    std::optional<full_tx> last; // what the sentinel was sent last
    std::optional<compact_tx> last_mint;
    std::function<void()> on_request;
    int silent{0}; // status requests to fail
    size_t requests{0};
    std::unique_ptr<watchtower::watchtower> wt;
    uint64_t height{0};
    size_t threshold{0};
    std::vector<privkey_t> keys;

    bool apply(const compact_tx& c, bool mint) {
        for(auto& i : c.m_inputs) {
            if(unspent.count(i) == 0) {
                if(wt) {
                    std::vector<watchtower::tx_error> e;
                    e.emplace_back(c.m_id, watchtower::tx_error_inputs_dne{{i}});
                    wt->add_errors(std::move(e));
                }
                return false;
            }
        }
        if(known.count(c.m_id) != 0) {
            return !mint;
        }
        for(auto& i : c.m_inputs) {
            unspent.erase(i);
        }
        for(auto& o : c.m_uhs_outputs) {
            unspent.insert(o);
        }
        known.insert(c.m_id);
        if(wt) {
            atomizer::block b;
            b.m_height = ++height;
            b.m_transactions.push_back(c);
            wt->add_block(std::move(b));
        }
        return true;
    }
    bool apply(const full_tx& t) {
        return apply(compact_tx(t), false);
    }
};

struct person {
    std::string name;
    std::string wf;
    std::string cf;
    std::unique_ptr<client> c;
    std::vector<pubkey_t> addrs;
    std::set<hash_t> payees; // commitments of our addresses
    std::map<opk, input> avail;
    std::map<hash_t, full_tx> ptx;
    std::map<hash_t, input> pin; // by UHS id
    std::map<opk, input> pspend;
    std::set<hash_t> change;  // commitments of change outputs
    [[nodiscard]] unsigned __int128 sum() const {
        unsigned __int128 b = 0;
        for(auto& [k, i] : avail) {
            b += i.m_prevout_data.m_value;
        }
        return b;
    }
    [[nodiscard]] bool owns(const output& o) const {
        return payees.count(o.m_witness_program_commitment) != 0 || change.count(o.m_witness_program_commitment) != 0;
    }
    bool confirm(const hash_t& id) {
        bool any = false;
        auto it = ptx.find(id);
        if(it != ptx.end()) {
            for(size_t i = 0; i < it->second.m_outputs.size(); i++) {
                if(owns(it->second.m_outputs[i])) {
                    auto in = input_from_output(it->second, i);
                    avail[key_of(*in)] = *in;
                }
            }
            for(auto& i : it->second.m_inputs) {
                pspend.erase(key_of(i));
            }
            ptx.erase(it);
            any = true;
        }
        for(auto p = pin.begin(); p != pin.end();) {
            if(p->second.m_prevout.m_tx_id == id) {
                avail[key_of(p->second)] = p->second;
                p = pin.erase(p);
                any = true;
            } else {
                ++p;
            }
        }
        return any;
    }
    bool abandon(const hash_t& id) {
        auto it = ptx.find(id);
        if(it == ptx.end()) {
            return false;
        }
        auto t = it->second;
        ptx.erase(it);
        for(auto& i : t.m_inputs) {
            auto used = false;
            for(auto& [o, u] : ptx) {
                for(auto& x : u.m_inputs) {
                    used = used || x == i;
                }
            }
            if(!used && pspend.count(key_of(i)) != 0) {
                pspend.erase(key_of(i));
                avail[key_of(i)] = i;
            }
        }
        return true;
    }
};

struct system_t {
    vh::rng& r;
    world w;
    config::options o;
    std::string dir;
    std::vector<person> ps;
    std::string log;
    uint64_t fp{11};
    bool clean{true}; // no transaction was abandoned that went through
    unsigned __int128 minted{0};

    using sent_t = cbdc::rpc::blocking_tcp_server<sentinel::request, sentinel::response>;
    using stat_t = cbdc::rpc::blocking_tcp_server<locking_shard::rpc::status_request, locking_shard::rpc::status_response>;
    using coord_t = cbdc::rpc::async_tcp_server<coordinator::rpc::request, coordinator::rpc::response>;
    std::vector<std::unique_ptr<sent_t>> sents;
    std::vector<std::unique_ptr<stat_t>> stats;
    std::unique_ptr<coord_t> coord;
    network::connection_manager wnet;
    network::connection_manager anet;
    std::vector<std::thread> ts;
    std::unique_ptr<vn::later_pool> lp;

    system_t(vh::rng& rr, bool atm) : r(rr) {
        w.atomizer = atm;
        dir = vh::st().scratch + "/c09." + std::to_string(getpid());
        fs::remove_all(dir);
        fs::create_directories(dir);
        lp = std::make_unique<vn::later_pool>(1);
        w.threshold = r.in(0, 3);
        o.m_attestation_threshold = w.threshold;
        for(size_t i = 0; i < w.threshold; i++) {
            auto k = vu::make_key(r);
            w.keys.push_back(k.sk);
            o.m_sentinel_private_keys[i] = k.sk;
            o.m_sentinel_public_keys.insert(k.pk);
        }
        auto ns = r.in(1, 2);
        for(size_t i = 0; i < ns; i++) {
            o.m_sentinel_endpoints.push_back(vn::endpoint());
            sents.push_back(std::make_unique<sent_t>(o.m_sentinel_endpoints.back()));
            sents.back()->register_handler_callback([this](sentinel::request q) {
                return sentinel_call(std::move(q));
            });
            need(sents.back()->init());
        }
        if(!atm) {
            auto nsh = r.in(1, 3);
            auto at = 0;
            for(size_t i = 0; i < nsh; i++) {
                auto end = i + 1 == nsh ? 255 : static_cast<int>(r.in(at, 254 - static_cast<int>(nsh - i)));
                o.m_shard_ranges.emplace_back(at, end);
                o.m_locking_shard_readonly_endpoints.push_back({vn::endpoint()});
                stats.push_back(std::make_unique<stat_t>(o.m_locking_shard_readonly_endpoints.back()[0]));
                auto a = at;
                stats.back()->register_handler_callback([this, a, end](locking_shard::rpc::status_request q) {
                    return status_call(q, a, end);
                });
                need(stats.back()->init());
                at = end + 1;
            }
            o.m_coordinator_endpoints.push_back({vn::endpoint()});
            coord = std::make_unique<coord_t>(o.m_coordinator_endpoints[0][0]);
            coord->register_handler_callback([this](coordinator::rpc::request q, coord_t::response_callback_type cb) {
                return mint_call(q, std::move(cb));
            });
            need(coord->init());
        } else {
            w.wt = std::make_unique<watchtower::watchtower>(0, 0);
            o.m_watchtower_client_endpoints.push_back(vn::endpoint());
            o.m_atomizer_endpoints.push_back(vn::endpoint());
            auto t = wnet.start_server(o.m_watchtower_client_endpoints[0], [this](network::message_t&& p) -> std::optional<buffer> {
                auto deser = buffer_serializer(*p.m_pkt);
                auto req = watchtower::request(deser);
                std::unique_ptr<watchtower::response> res;
                std::unique_lock<std::mutex> l(w.m);
                if(std::holds_alternative<watchtower::status_update_request>(req.payload())) {
                    res = w.wt->handle_status_update_request(std::get<watchtower::status_update_request>(req.payload()));
                } else {
                    res = w.wt->handle_best_block_height_request(std::get<watchtower::best_block_height_request>(req.payload()));
                }
                return make_buffer(*res);
            });
            need(t.has_value());
            ts.push_back(std::move(*t));
            auto a = anet.start_server(o.m_atomizer_endpoints[0], [this](network::message_t&& p) -> std::optional<buffer> {
                auto q = from_buffer<atomizer::request>(*p.m_pkt);
                if(q.has_value() && std::holds_alternative<atomizer::tx_notify_request>(*q)) {
                    auto& n = std::get<atomizer::tx_notify_request>(*q);
                    std::unique_lock<std::mutex> l(w.m);
                    VCHECK(n.m_block_height == w.height, "client:mint-height", n.m_block_height << " not " << w.height);
                    check_mint(n.m_tx);
                    w.last_mint = n.m_tx;
                } else {
                    vh::report("client:atomizer-message", "a message the atomizer cannot read");
                }
                return std::nullopt;
            });
            need(a.has_value());
            ts.push_back(std::move(*a));
        }
        for(size_t i = 0; i < 2; i++) {
            ps.emplace_back();
            ps[i].name = i == 0 ? "A" : "B";
            ps[i].wf = dir + "/wallet" + ps[i].name;
            ps[i].cf = dir + "/client" + ps[i].name;
            start(ps[i]);
        }
    }
    static void need(bool ok) {
        if(!ok) {
            vh::count("ports_taken");
            _exit(92);
        }
    }
    ~system_t() {
        for(auto& p : ps) {
            p.c.reset();
        }
        lp->finish();
        sents.clear();
        stats.clear();
        coord.reset();
        wnet.close();
        anet.close();
        for(auto& t : ts) {
            t.join();
        }
        fs::remove_all(dir);
    }
    void check_mint(const compact_tx& c) {
        VCHECK(c.m_inputs.empty(), "client:mint-inputs", "");
        std::set<pubkey_t> who;
        for(auto& a : c.m_attestations) {
            VCHECK(c.verify(vu::secp(), a), "client:mint-attestation", "");
            who.insert(a.first);
        }
        VCHECK(who.size() == w.threshold, "client:mint-attestations", who.size() << " of " << w.threshold);
    }
    std::optional<sentinel::response> sentinel_call(sentinel::request q) {
        VCHECK(std::holds_alternative<sentinel::execute_request>(q), "client:sentinel-request", "");
        full_tx t = std::get<sentinel::execute_request>(q);
        auto e = vd::check_tx(t);
        VCHECK(!e.has_value(), "client:invalid-tx-sent", vd::to_string(*e) << " after " << log);
        std::unique_lock<std::mutex> l(w.m);
        w.last = t;
        w.requests++;
        if(w.on_request) {
            w.on_request();
        }
        sentinel::execute_response res;
        switch(w.next) {
            case plan::confirm:
                res.m_tx_status = w.apply(t) ? sentinel::tx_status::confirmed : sentinel::tx_status::state_invalid;
                return res;
            case plan::pending:
                w.queue[tx_id(t)] = t;
                res.m_tx_status = sentinel::tx_status::pending;
                return res;
            case plan::reject:
                res.m_tx_status = sentinel::tx_status::state_invalid;
                return res;
            case plan::lost_applied:
                (void)w.apply(t);
                return std::nullopt;
            default:
                return std::nullopt;
        }
    }
    std::optional<bool> status_call(const locking_shard::rpc::status_request& q, int a, int e) {
        std::unique_lock<std::mutex> l(w.m);
        vh::count("status_requests");
        if(w.silent > 0) {
            w.silent--;
            return std::nullopt;
        }
        if(std::holds_alternative<locking_shard::rpc::tx_status_request>(q)) {
            auto id = std::get<locking_shard::rpc::tx_status_request>(q).m_tx_id;
            VCHECK(id[0] >= a && id[0] <= e, "client:status-shard", "id starting " << int(id[0]) << " asked of " << a << " to " << e);
            return w.known.count(id) != 0;
        }
        auto id = std::get<locking_shard::rpc::uhs_status_request>(q).m_uhs_id;
        VCHECK(id[0] >= a && id[0] <= e, "client:status-shard", "id starting " << int(id[0]) << " asked of " << a << " to " << e);
        return w.unspent.count(id) != 0;
    }
    bool mint_call(const compact_tx& c, coord_t::response_callback_type cb) {
        std::unique_lock<std::mutex> l(w.m);
        check_mint(c);
        w.last_mint = c;
        switch(w.next) {
            case plan::confirm: {
                auto ok = w.apply(c, true);
                lp->put(std::chrono::microseconds(500), [cb, ok] {
                    cb(ok);
                });
                return true;
            }
            case plan::pending: // too late for the client
                (void)w.apply(c, true);
                lp->put(std::chrono::milliseconds(5600), [cb] {
                    cb(true);
                });
                return true;
            case plan::reject:
                cb(false);
                return true;
            case plan::lost_applied:
                (void)w.apply(c, true);
                cb(std::nullopt);
                return true;
            default:
                return false;
        }
    }
    void start(person& p) {
        if(w.atomizer) {
            p.c = std::make_unique<atomizer_client>(o, vu::logger(), p.wf, p.cf);
        } else {
            p.c = std::make_unique<twophase_client>(o, vu::logger(), p.wf, p.cf);
        }
        vh::guard g("client-init");
        VCHECK(p.c->init(), "client:init", "");
    }
    void note(const std::string& s) {
        log += s + "; ";
        if(log.size() > 3000) {
            log.erase(0, 1000);
        }
        fp = vh::hashs(s, fp);
    }
    void verify(person& p) {
        VCHECK(p.c->balance() == p.sum(), "client:balance", p.name << " has " << p.c->balance() << " not " << uint64_t(p.sum()) << " after " << log);
        VCHECK(p.c->utxo_count() == p.avail.size(), "client:count", p.name << " has " << p.c->utxo_count() << " not " << p.avail.size() << " after " << log);
        VCHECK(p.c->pending_tx_count() == p.ptx.size(), "client:pending", p.name << " has " << p.c->pending_tx_count() << " not " << p.ptx.size() << " pending transactions after " << log);
        VCHECK(p.c->pending_input_count() == p.pin.size(), "client:pending-inputs", p.name << " has " << p.c->pending_input_count() << " not " << p.pin.size() << " pending inputs after " << log);
        vh::count("states");
        fp = vh::mix(fp, static_cast<uint64_t>(p.sum()) + p.avail.size() * 31 + p.ptx.size() * 7 + p.pin.size());
    }
    pubkey_t address(person& p) {
        if(p.addrs.empty() || r.chance(30)) {
            auto a = p.c->new_address();
            p.addrs.push_back(a);
            p.payees.insert(vd::get_p2pk_witness_commitment(a));
            return a;
        }
        return r.pick(p.addrs);
    }
    // what a spend uses leaves the wallet and becomes pending
    void take(person& p, const full_tx& t, size_t n, uint64_t v, const pubkey_t& payee) {
        unsigned __int128 in = 0;
        unsigned __int128 out = 0;
        std::set<opk> seen;
        for(auto& i : t.m_inputs) {
            auto k = key_of(i);
            VCHECK(seen.insert(k).second, "client:input-twice", "after " << log);
            auto a = p.avail.find(k);
            VCHECK(a != p.avail.end() && a->second == i, "client:spends-unavailable", p.name << " spends an output it does not have after " << log);
            p.pspend[k] = i;
            p.avail.erase(k);
            in += i.m_prevout_data.m_value;
        }
        auto pc = vd::get_p2pk_witness_commitment(payee);
        size_t paid = 0;
        for(auto& x : t.m_outputs) {
            out += x.m_value;
            if(x.m_witness_program_commitment == pc && x.m_value == v && paid < n) {
                paid++;
            } else {
                p.change.insert(x.m_witness_program_commitment);
            }
        }
        VCHECK(in == out, "client:value", "spends " << uint64_t(in) << " to make " << uint64_t(out) << " after " << log);
        VCHECK(paid == n, "client:payment", "pays " << paid << " of " << n << " outputs after " << log);
        VCHECK(t.m_outputs.size() <= n + 1, "client:outputs", "");
        p.ptx[tx_id(t)] = t;
    }
    // Stops the client as if at the moment the request left it.
    void crash(person& p) {
        p.c.reset();
        fs::copy_file(p.wf + ".then", p.wf, fs::copy_options::overwrite_existing);
        fs::copy_file(p.cf + ".then", p.cf, fs::copy_options::overwrite_existing);
        start(p);
        vh::count("crashes");
        note("crash " + p.name);
    }
    void arm(person& p) {
        w.on_request = [&p] {
            fs::copy_file(p.wf, p.wf + ".then", fs::copy_options::overwrite_existing);
            fs::copy_file(p.cf, p.cf + ".then", fs::copy_options::overwrite_existing);
        };
    }
    std::vector<std::pair<input, size_t>> mail; // exported, and to whom
    void pay(person& p, person& q) {
        auto self = r.chance(15);
        auto& to = self ? p : q;
        auto payee = address(to);
        auto fan = r.chance(40);
        auto n = fan ? r.in(1, 5) : 1;
        auto v = r.chance(10) ? r.in(1, 1000000) : r.in(1, static_cast<uint64_t>(p.sum()) / n + 2);
        if(v > 0xffffffffULL) {
            v = 1;
        }
        static const plan plans[] = {plan::confirm, plan::confirm, plan::confirm, plan::pending, plan::pending, plan::reject, plan::lost, plan::lost_applied};
        w.next = plans[r.below(8)];
        w.last.reset();
        auto dies = r.chance(12);
        if(dies) {
            arm(p);
        }
        note(p.name + (fan ? " fans " : " sends ") + std::to_string(n) + "x" + std::to_string(v) + " to " + to.name + " plan " + std::to_string(int(w.next)));
        auto reqs = w.requests;
        std::pair<std::optional<full_tx>, std::optional<sentinel::execute_response>> got;
        {
            vh::guard g("client-send");
            got = fan ? p.c->fan(static_cast<uint32_t>(n), static_cast<uint32_t>(v), payee) : p.c->send(static_cast<uint32_t>(v), payee);
        }
        w.on_request = nullptr;
        auto enough = p.sum() >= static_cast<unsigned __int128>(n) * v;
        if(w.requests == reqs) {
            VCHECK(!got.first.has_value() && !got.second.has_value(), "client:send-result", "a transaction nobody was sent");
            VCHECK(!enough, "client:send-refused", p.name << " has " << uint64_t(p.sum()) << " after " << log);
            vh::count("insufficient");
            return;
        }
        VCHECK(enough && w.requests == reqs + 1, "client:send-count", w.requests - reqs << " requests after " << log);
        auto t = *w.last;
        auto id = tx_id(t);
        vh::count("payments");
        take(p, t, n, v, payee);
        auto answered = w.next == plan::confirm || w.next == plan::pending || w.next == plan::reject;
        VCHECK(got.second.has_value() == answered && got.first.has_value() == answered, "client:send-result", "answered " << answered);
        if(answered) {
            VCHECK(*got.first == t, "client:send-result", "another transaction than the one sent");
        }
        auto confirmed = answered && got.second->m_tx_status == sentinel::tx_status::confirmed;
        if(answered) {
            auto want = w.next == plan::pending ? sentinel::tx_status::pending
                      : w.next == plan::confirm && w.known.count(id) != 0 ? sentinel::tx_status::confirmed
                                                                          : sentinel::tx_status::state_invalid;
            VCHECK(got.second->m_tx_status == want, "client:send-status", int(got.second->m_tx_status));
        }
        if(dies) {
            crash(p);
        } else if(confirmed) {
            (void)p.confirm(id);
            vh::count("confirmed_at_once");
        }
        // the sender hands the recipient its inputs
        auto ex = client::export_send_inputs(t, payee);
        std::vector<input> want;
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            if(t.m_outputs[i].m_witness_program_commitment == vd::get_p2pk_witness_commitment(payee)) {
                want.push_back(*input_from_output(t, i));
            }
        }
        VCHECK(ex == want, "client:export", "exported " << ex.size() << " inputs of " << want.size());
        if(!self) {
            for(auto& e : ex) {
                mail.emplace_back(e, &q - ps.data());
            }
        }
    }
    void mint(person& p) {
        auto n = r.in(1, 6);
        auto v = r.in(1, r.chance(20) ? 0xffffffffULL : 1000);
        static const plan plans[] = {plan::confirm, plan::confirm, plan::confirm, plan::confirm, plan::reject, plan::lost, plan::lost_applied};
        w.next = plans[r.below(7)];
        if(vh::st().mode == "late" && r.chance(60)) {
            w.next = plan::pending;
        }
        note(p.name + " mints " + std::to_string(n) + "x" + std::to_string(v) + " plan " + std::to_string(int(w.next)));
        w.last_mint.reset();
        full_tx t;
        {
            vh::guard g("client-mint");
            t = p.c->mint(n, static_cast<uint32_t>(v));
        }
        if(w.atomizer) {
            VCHECK(vn::wait([&] {
                       std::unique_lock<std::mutex> l(w.m);
                       return w.last_mint.has_value();
                   }),
                   "client:mint-sent",
                   "the atomizer was not told about a mint");
        }
        auto id = tx_id(t);
        VCHECK(w.last_mint.has_value() && *w.last_mint == compact_tx(t), "client:mint-sent", "");
        VCHECK(t.m_inputs.empty() && t.m_outputs.size() == n, "client:mint-shape", t.m_outputs.size() << " outputs");
        for(auto& x : t.m_outputs) {
            VCHECK(x.m_value == v, "client:mint-value", x.m_value << " not " << v);
            p.change.insert(x.m_witness_program_commitment);
        }
        p.ptx[id] = t;
        vh::count("mints");
        auto applied = w.known.count(id) != 0;
        if(w.atomizer) {
            if(w.next != plan::reject && w.next != plan::lost) {
                applied = w.apply(compact_tx(t), true);
            }
        } else if(w.next == plan::confirm) {
            (void)p.confirm(id);
        }
        if(applied) {
            minted += static_cast<unsigned __int128>(n) * v;
        }
        if(!w.atomizer && w.next == plan::pending) {
            vh::count("late_mints");
        }
    }
    void deliver() {
        if(mail.empty()) {
            return;
        }
        auto k = r.below(mail.size());
        auto [in, who] = mail[k];
        auto& q = ps[who];
        if(!r.chance(10)) {
            mail.erase(mail.begin() + static_cast<long>(k));
        }
        // The data may arrive again, but not after its output has been used.
        if(q.avail.count(key_of(in)) != 0 || q.pspend.count(key_of(in)) != 0 || imported.count(in.hash()) != 0) {
            if(q.pin.count(in.hash()) == 0) {
                return;
            }
        }
        imported.insert(in.hash());
        note(q.name + " imports " + std::to_string(in.m_prevout_data.m_value));
        q.c->import_send_input(in);
        q.pin[in.hash()] = in;
        vh::count("imports");
        // not for anyone else
        auto& p = ps[1 - who];
        if(r.chance(30)) {
            p.c->import_send_input(in);
            vh::count("foreign_imports");
            verify(p);
        }
    }
    std::set<hash_t> imported;
    void sync(person& p) {
        auto missing = 0;
        if(!w.atomizer && r.chance(15)) {
            w.silent = static_cast<int>(r.in(1, 2));
        }
        auto before = w.silent;
        note(p.name + " syncs");
        std::set<hash_t> ids;
        for(auto& [i, t] : p.ptx) {
            ids.insert(i);
        }
        for(auto& [u, i] : p.pin) {
            ids.insert(i.m_prevout.m_tx_id);
        }
        bool ok{};
        {
            vh::guard g("client-sync");
            ok = p.c->sync();
        }
        missing = before - w.silent;
        w.silent = 0;
        if(missing != 0) {
            // which ones were not answered is up to the client's order: ask again
            VCHECK(!ok, "client:sync-result", "sync succeeded although a shard failed");
            vh::count("failed_syncs");
            vh::guard g("client-sync");
            ok = p.c->sync();
        }
        size_t conf = 0;
        for(auto& i : ids) {
            if(w.known.count(i) != 0) {
                (void)p.confirm(i);
                conf++;
            }
        }
        vh::count("synced", conf);
        if(w.atomizer) {
            VCHECK(ok == (conf == ids.size()), "client:sync-result", ok << " with " << conf << " of " << ids.size() << " confirmed");
        } else {
            VCHECK(ok, "client:sync-result", "sync failed");
        }
    }
    void process() {
        if(w.queue.empty()) {
            return;
        }
        auto it = w.queue.begin();
        std::advance(it, static_cast<long>(r.below(w.queue.size())));
        auto t = it->second;
        w.queue.erase(it);
        std::unique_lock<std::mutex> l(w.m);
        if(r.chance(80)) {
            (void)w.apply(t);
            note("processed");
        } else {
            note("dropped");
        }
    }
    bool dead(const hash_t& id) {
        return w.known.count(id) == 0 && w.queue.count(id) == 0;
    }
    void abandon(person& p, bool hostile) {
        std::vector<hash_t> ids;
        for(auto& [i, t] : p.ptx) {
            if(hostile || dead(i)) {
                ids.push_back(i);
            }
        }
        if(ids.empty()) {
            VCHECK(!p.c->abandon_transaction(vu::rhash(r)), "client:abandon-unknown", "");
            return;
        }
        auto id = r.pick(ids);
        if(!dead(id)) {
            clean = false;
        }
        note(p.name + " abandons");
        VCHECK(p.c->abandon_transaction(id) == p.abandon(id), "client:abandon", "");
        vh::count("abandoned");
    }
    // the same transaction once more
    void resend(person& p) {
        if(p.ptx.empty()) {
            return;
        }
        auto it = p.ptx.begin();
        std::advance(it, static_cast<long>(r.below(p.ptx.size())));
        auto t = it->second;
        if(t.m_inputs.empty()) {
            return;
        }
        w.next = r.chance(50) ? plan::confirm : plan::lost;
        note(p.name + " resends plan " + std::to_string(int(w.next)));
        vh::guard g("client-resend");
        auto was = w.known.count(tx_id(t)) != 0;
        auto res = p.c->send_transaction(t);
        w.queue.erase(tx_id(t));
        VCHECK(res.has_value() == (w.next == plan::confirm), "client:resend", "");
        if(res.has_value() && res->m_tx_status == sentinel::tx_status::confirmed) {
            (void)p.confirm(tx_id(t));
        }
        (void)was;
        vh::count("resends");
    }
    void run() {
        auto steps = r.in(10, 60);
        auto hostile = r.chance(25);
        for(size_t i = 0; i < steps; i++) {
            auto k = r.below(2);
            auto& p = ps[k];
            auto& q = ps[1 - k];
            auto x = r.below(100);
            if(p.ptx.empty() && p.avail.empty()) {
                x = r.below(100) < 60 ? 0 : x;
            }
            if(x < 10) {
                mint(p);
            } else if(x < 45) {
                pay(p, q);
            } else if(x < 60) {
                deliver();
            } else if(x < 72) {
                process();
            } else if(x < 84) {
                sync(p);
            } else if(x < 90) {
                abandon(p, hostile);
            } else if(x < 94) {
                resend(p);
            } else if(x < 98) {
                note("restart " + p.name);
                p.c.reset();
                start(p);
                vh::count("restarts");
            } else {
                VCHECK(!p.c->confirm_transaction(vu::rhash(r)), "client:confirm-unknown", "");
            }
            verify(p);
            verify(q);
            vh::tick();
        }
        settle();
    }
    // Once everything has been processed and everybody told, the clients
    // hold all the money, and nothing that cannot be spent.
    void settle() {
        for(auto& [i, t] : w.queue) {
            (void)w.apply(t);
        }
        w.queue.clear();
        while(!mail.empty()) {
            deliver();
        }
        for(auto& p : ps) {
            sync(p);
            while(!p.ptx.empty()) {
                auto id = p.ptx.begin()->first;
                VCHECK(p.c->abandon_transaction(id) && p.abandon(id), "client:abandon", "");
            }
            verify(p);
            p.c.reset();
            start(p);
            verify(p);
        }
        if(!clean) {
            vh::count("unclean");
            return;
        }
        unsigned __int128 all = 0;
        for(auto& p : ps) {
            all += p.c->balance();
            for(auto& [k, i] : p.avail) {
                VCHECK(w.unspent.count(i.hash()) != 0, "client:holds-spent", p.name << " holds an output that is not unspent after " << log);
            }
        }
        VCHECK(all == minted, "client:conservation", "clients hold " << uint64_t(all) << " of " << uint64_t(minted) << " after " << log);
        vh::count("settled");
    }
};

static std::string address_text(const std::vector<uint8_t>& payload, const std::string& hrp) {
    std::vector<uint8_t> data;
    ConvertBits<address::bits_per_byte, address::bech32_bits_per_symbol, true>(
        [&](uint8_t c) {
            data.push_back(c);
        },
        payload.begin(),
        payload.end());
    return bech32::Encode(hrp, data);
}
static void addresses(vh::rng& r) {
    std::cout.setstate(std::ios::failbit);
    for(int i = 0; i < 60; i++) {
        auto k = vu::rhash(r);
        std::vector<uint8_t> v{0};
        v.insert(v.end(), k.begin(), k.end());
        auto t = address_text(v, config::bech32_hrp);
        auto d = address::decode(t);
        VCHECK(d.has_value() && *d == k, "address:round-trip", t);
        auto bad = v;
        auto hrp = config::bech32_hrp;
        std::string text;
        switch(r.below(6)) {
            case 0:
                bad.resize(r.below(33));
                text = address_text(bad, hrp);
                break;
            case 1:
                bad.resize(33 + r.in(1, 15));
                text = address_text(bad, hrp);
                break;
            case 2:
                bad[0] = static_cast<uint8_t>(r.in(1, 255));
                text = address_text(bad, hrp);
                break;
            case 3:
                text = address_text(bad, r.chance(50) ? "bc" : hrp + "x");
                break;
            case 4: {
                text = t;
                auto at = r.below(text.size());
                auto c = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1b"[r.below(34)];
                if(text[at] == c) {
                    continue;
                }
                text[at] = c;
                break;
            }
            default: {
                auto n = r.below(100);
                for(size_t j = 0; j < n; j++) {
                    text += static_cast<char>(r.chance(80) ? r.in(33, 126) : r.below(256));
                }
            }
        }
        auto b = address::decode(text);
        VCHECK(!b.has_value(), "address:accepts", text);
        vh::count("addresses");
    }
    std::cout.clear();
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 60000;
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(mode == "address") {
            addresses(r);
            return;
        }
        system_t s(r, mode == "atomizer");
        if(mode == "late") {
            for(int i = 0; i < 3; i++) {
                s.mint(s.ps[0]);
                s.pay(s.ps[0], s.ps[1]);
                s.verify(s.ps[0]);
                if(r.chance(50)) {
                    s.ps[0].c.reset();
                    s.start(s.ps[0]);
                }
            }
            s.settle();
        } else {
            s.run();
        }
        vh::count("histories");
        vh::distinct(s.fp);
    });
    return vh::finish();
}
