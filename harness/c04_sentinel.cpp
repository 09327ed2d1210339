// C04, A06: one real sentinel among stub sentinels that attest, refuse or
// misbehave, in front of a stub coordinator or stub shards that record what
// they are sent.
#include "hnet.hpp"
#include "huhs.hpp"

#include "uhs/sentinel/client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/wallet.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/rpc/async_server.hpp"
#ifdef ATOMIZER
#include "uhs/atomizer/sentinel/controller.hpp"
#else
#include "uhs/twophase/sentinel_2pc/controller.hpp"
#endif

using namespace cbdc;
using transaction::compact_tx;
using transaction::full_tx;

enum class act { honest, refuse, fail, bad_sig, other_key, mine_key, wrong_kind, silent };
enum class verdict { yes, no, none, refuse, silent };

struct job {
    full_tx tx;
    compact_tx ctx;
    hash_t id{};
    bool valid{};
    bool exec{};
    // what happened to it
    std::vector<std::pair<size_t, std::pair<act, transaction::sentinel_attestation>>> asked;
    std::vector<compact_tx> sent;        // to the coordinator
    std::map<size_t, size_t> shards;     // atomizer: received by
    std::optional<verdict> v;
    int answers{0};
    std::optional<sentinel::execute_response> er;
    std::optional<sentinel::validate_response> vr;
    bool submitted{false};
    bool uncertain{false}; // was under way when the sentinel stopped
};

struct rig {
    vh::rng& r;
    config::options o;
    size_t n{};
    uint32_t me{};
    std::vector<vu::key> keys;
    std::mutex m;
    std::map<hash_t, std::shared_ptr<job>> jobs;
    using ssrv = cbdc::rpc::async_tcp_server<sentinel::request, sentinel::response>;
    using csrv = cbdc::rpc::async_tcp_server<coordinator::rpc::request, coordinator::rpc::response>;
    std::vector<std::unique_ptr<ssrv>> stubs;
    std::unique_ptr<csrv> coord;
    std::vector<std::unique_ptr<network::connection_manager>> shards;
    std::vector<std::thread> shard_thr;
    std::vector<std::vector<int>> mood; // per stub, weights of act
    std::unique_ptr<vn::later_pool> later;
    bool calm{};
    std::atomic<bool> has_key{true};

    act pick(size_t s) {
        auto& w = mood[s];
        int sum = 0;
        for(auto x : w) {
            sum += x;
        }
        auto k = static_cast<int>(r.below(static_cast<uint64_t>(sum)));
        for(size_t i = 0; i < w.size(); i++) {
            if(k < w[i]) {
                return static_cast<act>(i);
            }
            k -= w[i];
        }
        return act::honest;
    }
    std::shared_ptr<job> find(const hash_t& id, const char* who) {
        auto it = jobs.find(id);
        if(it == jobs.end()) {
            vh::report("sentinel:invented", std::string(who) + " was sent a transaction nobody submitted");
            return nullptr;
        }
        return it->second;
    }
    bool on_stub(size_t s, sentinel::request req, std::function<void(std::optional<sentinel::response>)> cb) {
        std::optional<sentinel::response> resp;
        act a{};
        uint64_t delay{};
        {
            std::unique_lock<std::mutex> l(m);
            auto* v = std::get_if<sentinel::validate_request>(&req);
            VCHECK(v != nullptr, "sentinel:asked-to-execute", "another sentinel was asked to execute");
            if(v == nullptr) {
                return false;
            }
            full_tx tx = *v;
            auto j = find(transaction::tx_id(tx), "another sentinel");
            if(!j) {
                return false;
            }
            VCHECK(j->tx == tx, "sentinel:altered", "another sentinel was asked about a different transaction");
            VCHECK(j->exec && j->valid, "sentinel:asked-invalid", "another sentinel was asked about a transaction that is invalid or only to be validated");
            for(auto& [x, y] : j->asked) {
                VCHECK(x != s, "sentinel:asked-twice", "a sentinel was asked twice about one transaction");
            }
            a = pick(s);
            transaction::sentinel_attestation att;
            att = j->ctx.sign(vu::secp(), keys[s].sk);
            if(a == act::bad_sig) {
                att.second[r.below(64)] ^= 1;
            } else if(a == act::other_key) {
                att = j->ctx.sign(vu::secp(), keys[(s + 1 + r.below(n)) % n].sk);
            } else if(a == act::mine_key) {
                att.first = keys[me].pk;
            }
            j->asked.push_back({s, {a, att}});
            vh::count("asked");
            resp = att;
            if(a == act::wrong_kind) {
                resp = sentinel::execute_response{sentinel::tx_status::confirmed, std::nullopt};
            } else if(a == act::refuse) {
                resp = std::nullopt;
            }
            delay = r.chance(30) ? r.below(4000) : 0;
        }
        if(a == act::fail) {
            return false;
        }
        if(a == act::silent) {
            return true;
        }
        if(delay == 0) {
            cb(resp);
        } else {
            later->put(std::chrono::microseconds(delay), [cb, resp] {
                cb(resp);
            });
        }
        return true;
    }
    bool on_coord(compact_tx c, std::function<void(std::optional<bool>)> cb) {
        verdict v{};
        uint64_t delay{};
        {
            std::unique_lock<std::mutex> l(m);
            auto j = find(c.m_id, "the coordinator");
            if(!j) {
                return false;
            }
            j->sent.push_back(c);
            vh::count("sent");
            auto x = r.below(100);
            v = x < 45 ? verdict::yes : x < 80 ? verdict::no : x < 88 ? verdict::none : x < 96 ? verdict::refuse : verdict::silent;
            j->v = v;
            delay = r.chance(30) ? r.below(5000) : 0;
        }
        if(v == verdict::refuse) {
            return false;
        }
        if(v == verdict::silent) {
            return true;
        }
        auto f = [cb, v] {
            cb(v == verdict::none ? std::nullopt : std::optional<bool>(v == verdict::yes));
        };
        if(delay == 0) {
            f();
        } else {
            later->put(std::chrono::microseconds(delay), f);
        }
        return true;
    }
    std::optional<buffer> on_shard(size_t s, network::message_t&& msg) {
        auto c = from_buffer<compact_tx>(*msg.m_pkt);
        std::unique_lock<std::mutex> l(m);
        VCHECK(c.has_value(), "sentinel:garbled", "a shard was sent something else than a transaction");
        if(!c) {
            return std::nullopt;
        }
        auto j = find(c->m_id, "a shard");
        if(!j) {
            return std::nullopt;
        }
        j->sent.push_back(*c);
        j->shards[s]++;
        vh::count("sent");
        return std::nullopt;
    }

    rig(vh::rng& rr) : r(rr) {
        n = r.in(1, 5);
        me = static_cast<uint32_t>(r.below(n));
        o.m_attestation_threshold = r.in(0, n);
#ifdef ATOMIZER
        if(n == 1) { // it needs somebody to ask, or nobody
            o.m_attestation_threshold = r.below(2);
        }
#endif
        calm = r.chance(30);
        later = std::make_unique<vn::later_pool>(2);
        for(size_t i = 0; i < n; i++) {
            keys.push_back(vu::make_key(r));
            o.m_sentinel_public_keys.insert(keys.back().pk);
            o.m_sentinel_endpoints.push_back(vn::endpoint());
            if(calm) {
                mood.push_back({1, 0, 0, 0, 0, 0, 0, 0});
            } else {
                mood.push_back({static_cast<int>(r.in(4, 40)), r.chance(40) ? 3 : 0, r.chance(20) ? 2 : 0, r.chance(30) ? 4 : 0, r.chance(40) ? 6 : 0, r.chance(30) ? 6 : 0, r.chance(20) ? 2 : 0, r.chance(20) ? 1 : 0});
            }
        }
#ifndef ATOMIZER
        if(o.m_attestation_threshold == 0 && r.chance(60)) {
            has_key = false;
        }
#endif
        if(has_key) {
            o.m_sentinel_private_keys[me] = keys[me].sk;
        }
        for(size_t i = 0; i < n; i++) {
            stubs.emplace_back();
            if(i == me) {
                continue;
            }
            stubs.back() = std::make_unique<ssrv>(o.m_sentinel_endpoints[i]);
            stubs.back()->register_handler_callback([this, i](sentinel::request q, std::function<void(std::optional<sentinel::response>)> cb) {
                return on_stub(i, std::move(q), std::move(cb));
            });
            if(!stubs.back()->init()) {
                _exit(92);
            }
        }
#ifdef ATOMIZER
        auto ns = r.in(1, 5);
        auto copies = r.chance(45) ? 2U : 1U;
        size_t at = 0;
        for(size_t s = 0; s < ns; s++) {
            auto end = s + 1 == ns ? 255 : r.in(at, 254 - (ns - s));
            for(size_t c = 0; c < copies; c++) {
                o.m_shard_ranges.emplace_back(static_cast<uint8_t>(at), static_cast<uint8_t>(end));
            }
            at = end + 1;
        }
        // one of the copies of a range may not run
        auto absent = copies == 2 && r.chance(60) ? r.below(o.m_shard_ranges.size()) : SIZE_MAX;
        for(size_t s = 0; s < o.m_shard_ranges.size(); s++) {
            o.m_shard_endpoints.push_back(vn::endpoint());
            if(s == absent) {
                vh::count("absent_copies");
                continue;
            }
            shards.push_back(std::make_unique<network::connection_manager>());
            auto t = shards.back()->start_server(o.m_shard_endpoints.back(), [this, s](network::message_t&& msg) {
                return on_shard(s, std::move(msg));
            });
            if(!t) {
                _exit(92);
            }
            shard_thr.push_back(std::move(*t));
        }
#else
        o.m_coordinator_endpoints.push_back({vn::endpoint()});
        coord = std::make_unique<csrv>(o.m_coordinator_endpoints[0][0]);
        coord->register_handler_callback([this](compact_tx c, std::function<void(std::optional<bool>)> cb) {
            return on_coord(std::move(c), std::move(cb));
        });
        if(!coord->init()) {
            _exit(92);
        }
#endif
    }
    ~rig() {
        later->finish();
        stubs.clear();
        coord.reset();
        for(auto& s : shards) {
            s->close();
        }
        for(auto& t : shard_thr) {
            t.join();
        }
    }

    // ---- transactions
    hash_t commitment(const vu::key& k) {
        return transaction::validation::get_p2pk_witness_commitment(k.pk);
    }
    std::shared_ptr<job> make() {
        auto j = std::make_shared<job>();
        auto& t = j->tx;
        std::vector<vu::key> ks;
        uint64_t sum = 0;
        for(auto i = r.in(1, 4); i > 0; i--) {
            ks.push_back(vu::make_key(r));
            transaction::input in;
            in.m_prevout.m_tx_id = vu::rhash(r);
            in.m_prevout.m_index = r.below(5);
            in.m_prevout_data.m_value = r.in(2, 100000);
            in.m_prevout_data.m_witness_program_commitment = commitment(ks.back());
            sum += in.m_prevout_data.m_value;
            t.m_inputs.push_back(in);
        }
        auto k = r.in(1, sum - 1);
        t.m_outputs.push_back({vu::rhash(r), k});
        t.m_outputs.push_back({vu::rhash(r), sum - k});
        auto flaw = r.chance(25) ? r.in(1, 6) : 0;
        if(flaw == 1) {
            t.m_outputs[0].m_value++;
        } else if(flaw == 2) {
            t.m_outputs[0].m_value = 0;
            t.m_outputs[1].m_value = sum;
        } else if(flaw == 3) {
            t.m_inputs.push_back(t.m_inputs.back());
            ks.push_back(ks.back());
            t.m_outputs[0].m_value += t.m_inputs.back().m_prevout_data.m_value;
        }
        auto id = transaction::tx_id(t);
        for(auto& x : ks) {
            secp256k1_keypair kp{};
            if(secp256k1_keypair_create(vu::secp(), &kp, x.sk.data()) != 1) {
                _exit(93);
            }
            signature_t sig{};
            if(secp256k1_schnorrsig_sign(vu::secp(), sig.data(), id.data(), &kp, nullptr, nullptr) != 1) {
                _exit(93);
            }
            transaction::validation::witness_program_type ty = transaction::validation::witness_program_type::p2pk;
            witness_t w(transaction::validation::p2pk_witness_len);
            w[0] = std::byte(ty);
            std::memcpy(&w[1], x.pk.data(), 32);
            std::memcpy(&w[33], sig.data(), 64);
            t.m_witness.push_back(w);
        }
        if(flaw == 4) {
            t.m_witness[r.below(t.m_witness.size())][33 + r.below(64)] ^= std::byte(4);
        } else if(flaw == 5) {
            t.m_witness.pop_back();
        } else if(flaw == 6) {
            t.m_outputs[0].m_witness_program_commitment = vu::rhash(r); // after signing
        }
        j->valid = flaw == 0;
        j->id = transaction::tx_id(t);
        j->ctx = compact_tx(t);
        j->exec = r.chance(80);
        return j;
    }
    using witness_t = std::decay_t<decltype(full_tx().m_witness[0])>;

    void run() {
#ifdef ATOMIZER
        auto real = std::make_unique<sentinel::controller>(me, o, vu::logger());
#else
        auto real = std::make_unique<sentinel_2pc::controller>(me, o, vu::logger());
#endif
        if(!real->init()) {
            vh::report("sentinel:init", "");
            return;
        }
        auto nc = r.in(1, 3);
        std::vector<std::unique_ptr<sentinel::rpc::client>> cl;
        for(size_t i = 0; i < nc; i++) {
            cl.push_back(std::make_unique<sentinel::rpc::client>(std::vector<network::endpoint_t>{o.m_sentinel_endpoints[me]}, vu::logger()));
            if(!cl.back()->init()) {
                vh::report("sentinel:unreachable", "");
                return;
            }
        }
        auto abrupt = r.chance(30);
        std::vector<std::vector<std::shared_ptr<job>>> work(nc);
        for(auto& w : work) {
            for(auto k = r.in(2, 25); k > 0; k--) {
                w.push_back(make());
                jobs[w.back()->id] = w.back();
            }
        }
        std::vector<std::thread> th;
        std::atomic<size_t> at{0};
        auto stop = r.below(work[0].size() * nc + 1);
        auto pause = r.below(3000);
        for(size_t c = 0; c < nc; c++) {
            th.emplace_back([&, c] {
                for(auto& j : work[c]) {
                    {
                        std::unique_lock<std::mutex> l(m);
                        j->submitted = true;
                    }
                    auto ok = j->exec ? cl[c]->execute_transaction(j->tx, [this, j](sentinel::rpc::client::execute_result_type e) {
                        std::unique_lock<std::mutex> l(m);
                        j->answers++;
                        j->er = e;
                    })
                                      : cl[c]->validate_transaction(j->tx, [this, j](sentinel::rpc::client::validate_result_type e) {
                                            std::unique_lock<std::mutex> l(m);
                                            j->answers++;
                                            j->vr = e;
                                        });
                    VCHECK(ok || abrupt, "sentinel:not-taken", "a request could not be sent");
                    at++;
                }
            });
        }
        if(abrupt) {
            vn::wait([&] {
                return at >= stop;
            });
            std::this_thread::sleep_for(std::chrono::microseconds(pause));
            real.reset();
            vh::count("stopped_at_work");
        }
        for(auto& t : th) {
            t.join();
        }
        if(!abrupt) {
            auto ok = vn::wait([&] {
                std::unique_lock<std::mutex> l(m);
                for(auto& [id, j] : jobs) {
                    if(!settled(*j)) {
                        return false;
                    }
                }
                return true;
            });
            if(!ok) {
                std::unique_lock<std::mutex> l(m);
                for(auto& [id, j] : jobs) {
                    if(!settled(*j)) {
                        vh::report("sentinel:unanswered", std::string(j->exec ? "execute" : "validate") + (j->valid ? " valid" : " invalid") + " asked " + std::to_string(j->asked.size()) + " sent " + std::to_string(j->sent.size()));
                        break;
                    }
                }
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(3)); // for what must not come
        }
        cl.clear();
        real.reset();
        uint64_t fp = n * 31 + o.m_attestation_threshold;
        std::unique_lock<std::mutex> l(m);
        for(auto& [id, j] : jobs) {
            judge(*j, abrupt);
            fp = vh::mix(fp, j->asked.size() * 5 + j->sent.size() + (j->v ? static_cast<uint64_t>(*j->v) * 100 : 0));
        }
        vh::distinct(fp);
        vh::count("histories");
    }
    // What the sentinels asked so far lead to: true enough attestations, false
    // a refusal, nothing not known yet.
    enum class gather { enough, refused, stuck, open };
    gather gathered(const job& j, std::map<pubkey_t, signature_t>* out = nullptr) {
        std::map<pubkey_t, signature_t> a;
#ifdef ATOMIZER
        a.insert(j.ctx.sign(vu::secp(), keys[me].sk));
#else
        if(o.m_attestation_threshold > 0) {
            a.insert({keys[me].pk, signature_t{}});
        }
#endif
        for(auto& [s, x] : j.asked) {
            if(x.first == act::silent) {
                return gather::stuck;
            }
            if(x.first == act::refuse || x.first == act::fail || x.first == act::wrong_kind) {
                return gather::refused;
            }
            a.insert(x.second);
        }
        if(out != nullptr) {
            *out = a;
        }
        if(a.size() >= o.m_attestation_threshold) {
            return gather::enough;
        }
        return j.asked.size() + 1 == n ? gather::refused : gather::open;
    }
    bool settled(const job& j) {
        if(!j.exec || !j.valid) {
            return j.answers > 0;
        }
        auto g = gathered(j);
#ifdef ATOMIZER
        if(j.answers == 0 || g == gather::open) {
            return false;
        }
        if(g != gather::enough) {
            return true;
        }
        for(auto& i : j.ctx.m_inputs) {
            if(!covered(j, i)) {
                return false;
            }
        }
        return true;
#else
        if(g == gather::stuck) {
            return true;
        }
        if(g == gather::refused) {
            return j.answers > 0;
        }
        if(g == gather::open || !j.v) {
            return false;
        }
        return *j.v == verdict::silent || j.answers > 0;
#endif
    }
    bool covered(const job& j, const hash_t& i) {
        for(auto& [s, k] : j.shards) {
            if(i[0] >= o.m_shard_ranges[s].first && i[0] <= o.m_shard_ranges[s].second) {
                return true;
            }
        }
        return false;
    }
    void judge(const job& j, bool abrupt) {
        auto name = vu::hx(j.id);
        VCHECK(j.answers <= 1, "sentinel:answered-twice", name);
        if(!j.exec) {
            vh::count("validations");
            VCHECK(j.sent.empty(), "sentinel:validated-sent", name << " was only to be validated but was sent on");
            if(j.answers == 0) {
                VCHECK(abrupt, "sentinel:unanswered", name);
                return;
            }
            if(!j.valid || !has_key) {
                VCHECK(!j.vr, "sentinel:attested-invalid", name << " is invalid but was attested");
            } else {
                VCHECK(j.vr.has_value(), "sentinel:not-attested", name << " is valid but was not attested");
                if(j.vr) {
                    VCHECK(j.vr->first == keys[me].pk && j.ctx.verify(vu::secp(), *j.vr), "sentinel:attestation", name << " was attested wrongly");
                    vh::count("attested");
                }
            }
            return;
        }
        vh::count("executions");
        if(!j.valid) {
            VCHECK(j.sent.empty() && j.asked.empty(), "sentinel:forwarded-invalid", name << " is invalid but was sent on");
            if(j.answers == 0) {
                VCHECK(abrupt, "sentinel:unanswered", name);
                return;
            }
            VCHECK(j.er.has_value() && j.er->m_tx_status == sentinel::tx_status::static_invalid && j.er->m_tx_error.has_value(), "sentinel:invalid-answer", name << " is invalid but was answered otherwise");
            if(j.er && j.er->m_tx_error) {
                VCHECK(j.er->m_tx_error == transaction::validation::check_tx(j.tx), "sentinel:invalid-reason", name << " was rejected for another reason than the rules give");
            }
            vh::count("static_invalid");
            return;
        }
        std::map<pubkey_t, signature_t> a;
        auto g = gathered(j, &a);
        for(auto& c : j.sent) {
            VCHECK(g == gather::enough, "sentinel:sent-unattested", name << " was sent on without enough attestations");
            VCHECK(c.m_id == j.ctx.m_id && c.m_inputs == j.ctx.m_inputs && c.m_uhs_outputs == j.ctx.m_uhs_outputs, "sentinel:sent-altered", name << " was sent on with other content");
            VCHECK(c.m_attestations.size() >= o.m_attestation_threshold, "sentinel:too-few", name << " was sent on with " << c.m_attestations.size() << " attestations");
            VCHECK(c.m_attestations.size() == a.size(), "sentinel:attestations", name << " was sent on with " << c.m_attestations.size() << " attestations of " << a.size());
            for(auto& [pk, sig] : c.m_attestations) {
                auto it = a.find(pk);
                VCHECK(it != a.end(), "sentinel:attestations", name << " has an attestation nobody gave");
                if(pk == keys[me].pk) {
                    VCHECK(j.ctx.verify(vu::secp(), {pk, sig}), "sentinel:own-attestation", name << " was not attested properly by the sentinel itself");
                } else if(it != a.end()) {
                    VCHECK(it->second == sig, "sentinel:attestations", name << " has another attestation than was given");
                }
            }
        }
#ifdef ATOMIZER
        for(auto& [s, k] : j.shards) {
            VCHECK(k == 1, "sentinel:sent-twice", name << " was sent to a shard " << k << " times");
            auto any = false;
            for(auto& i : j.ctx.m_inputs) {
                any = any || (i[0] >= o.m_shard_ranges[s].first && i[0] <= o.m_shard_ranges[s].second);
            }
            VCHECK(any, "sentinel:wrong-shard", name << " was sent to a shard which has none of its inputs");
        }
        if(j.answers > 0) {
            VCHECK(j.er.has_value() && j.er->m_tx_status == sentinel::tx_status::pending && !j.er->m_tx_error, "sentinel:answer", name << " is valid but was not answered as pending");
            vh::count("pending");
        } else {
            VCHECK(abrupt, "sentinel:unanswered", name);
        }
        if(!abrupt && g == gather::enough) {
            for(auto& i : j.ctx.m_inputs) {
                VCHECK(covered(j, i), "sentinel:not-sent", name << " was not sent to a shard of one of its inputs");
            }
        }
#else
        VCHECK(j.sent.size() <= 1, "sentinel:sent-twice", name << " was sent to the coordinator " << j.sent.size() << " times");
        if(j.answers == 0) {
            auto silent = g == gather::stuck || (j.v && *j.v == verdict::silent);
            VCHECK(abrupt || silent, "sentinel:unanswered", name);
            vh::count("rightly_unanswered");
            return;
        }
        if(!j.er) {
            auto ok = g == gather::refused || (j.v && (*j.v == verdict::none || *j.v == verdict::refuse)) || abrupt;
            VCHECK(ok, "sentinel:failed", name << " failed without reason");
            vh::count("failed");
            return;
        }
        VCHECK(!j.er->m_tx_error, "sentinel:answer", name << " is valid but was answered with an error");
        if(j.er->m_tx_status == sentinel::tx_status::confirmed) {
            VCHECK(j.v && *j.v == verdict::yes, "sentinel:false-confirmation", name << " was answered as confirmed but the coordinator did not say so");
            vh::count("confirmed");
        } else if(j.er->m_tx_status == sentinel::tx_status::state_invalid) {
            VCHECK(j.v && *j.v == verdict::no, "sentinel:false-rejection", name << " was answered as rejected but the coordinator did not say so");
            vh::count("rejected");
        } else {
            vh::report("sentinel:answer", name + " was answered with a status that makes no sense");
        }
#endif
    }
};

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::st().wd_limit_ms = 60000;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        rig g(r);
        g.run();
    });
    return vh::finish();
}
