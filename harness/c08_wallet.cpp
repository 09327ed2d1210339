// C08: what a wallet holds and spends, against a ledger kept here.
#include "huhs.hpp"

#include "uhs/transaction/wallet.hpp"

#include <algorithm>
#include <list>

using namespace cbdc;
using namespace cbdc::transaction;
namespace vd = cbdc::transaction::validation;

namespace {
    using opk = std::pair<hash_t, uint64_t>;
    opk key_of(const input& i) {
        return {i.m_prevout.m_tx_id, i.m_prevout.m_index};
    }
    struct held {
        input in;
        uint64_t batch;
    };
    struct model {
        std::unique_ptr<wallet> w{std::make_unique<wallet>()};
        std::set<hash_t> own;             // commitments of own keys
        std::vector<pubkey_t> keys;       // keys handed out
        std::map<opk, held> utxo;
        std::map<opk, input> seeds;       // unspent seeded outputs
        std::set<opk> spent;
        std::set<hash_t> confirmed;
        uint64_t batch{1};
        bool seeded{false};
        [[nodiscard]] unsigned __int128 balance() const {
            unsigned __int128 b = 0;
            for(auto& [k, h] : utxo) {
                b += h.in.m_prevout_data.m_value;
            }
            for(auto& [k, s] : seeds) {
                b += s.m_prevout_data.m_value;
            }
            return b;
        }
    };
    std::string show(const full_tx& t) {
        std::ostringstream o;
        o << "in[";
        for(auto& i : t.m_inputs) {
            o << vu::hx(i.m_prevout.m_tx_id) << ":" << i.m_prevout.m_index << "=" << i.m_prevout_data.m_value << " ";
        }
        o << "] out[";
        for(auto& x : t.m_outputs) {
            o << vu::hx(x.m_witness_program_commitment) << "=" << x.m_value << " ";
        }
        return o.str() + "]";
    }
    struct world {
        vh::rng& r;
        std::vector<model> ws;
        std::vector<full_tx> txs;
        uint64_t fp{7};
        std::string log;
        explicit world(vh::rng& rr) : r(rr) {}

        void note(const std::string& s) {
            log += s + "; ";
            if(log.size() > 4000) {
                log.erase(0, 1000);
            }
            fp = vh::hashs(s, fp);
        }
        void verify(model& m, const std::string& when) {
            VCHECK(m.w->balance() == m.balance(), "wallet:balance",
                   when << ": " << m.w->balance() << " not " << uint64_t(m.balance()) << " after " << log);
            VCHECK(m.w->count() == m.utxo.size() + m.seeds.size(), "wallet:count",
                   when << ": " << m.w->count() << " not " << m.utxo.size() << "+" << m.seeds.size() << " after " << log);
        }
        // The spend must use outputs the wallet holds, each once, oldest first.
        bool take(model& m, const full_tx& t) {
            std::set<opk> used;
            uint64_t newest = 0;
            bool ok = true;
            for(auto& i : t.m_inputs) {
                auto k = key_of(i);
                if(!used.insert(k).second) {
                    vh::report("wallet:input-twice", show(t) + " after " + log);
                    ok = false;
                    continue;
                }
                auto s = m.seeds.find(k);
                if(s != m.seeds.end()) {
                    VCHECK(s->second == i, "wallet:seed-input-data", show(t));
                    m.seeds.erase(s);
                    vh::count("seeded_spends");
                    continue;
                }
                auto u = m.utxo.find(k);
                if(u == m.utxo.end()) {
                    vh::report(m.spent.count(k) != 0 ? "wallet:double-spend" : "wallet:spends-unknown", show(t) + " after " + log);
                    ok = false;
                    continue;
                }
                VCHECK(u->second.in == i, "wallet:input-data", show(t) << " after " << log);
                newest = std::max(newest, u->second.batch);
                m.utxo.erase(u);
                m.spent.insert(k);
            }
            for(auto& [k, h] : m.utxo) {
                if(h.batch < newest) {
                    vh::report("wallet:not-oldest-first", show(t) + " after " + log);
                    break;
                }
            }
            return ok;
        }
        void check_signed(model& m, const full_tx& t, bool sign) {
            if(!sign || t.m_inputs.empty()) {
                return;
            }
            for(auto& i : t.m_inputs) {
                if(m.own.count(i.m_prevout_data.m_witness_program_commitment) == 0) {
                    return;
                }
            }
            auto e = vd::check_tx(t);
            VCHECK(!e.has_value(), "wallet:invalid-tx", vd::to_string(*e) << " " << show(t) << " after " << log);
            vh::count("signed_valid");
        }
        // outputs: exactly n of value v to payee, then change to a key of ours
        void check_outs(model& m, const full_tx& t, size_t n, uint64_t v, const pubkey_t& payee) {
            unsigned __int128 in = 0;
            unsigned __int128 out = 0;
            for(auto& i : t.m_inputs) {
                in += i.m_prevout_data.m_value;
            }
            auto pc = vd::get_p2pk_witness_commitment(payee);
            size_t got = 0;
            std::vector<output> other;
            for(auto& o : t.m_outputs) {
                out += o.m_value;
                VCHECK(o.m_value > 0, "wallet:zero-output", show(t));
                if(o.m_witness_program_commitment == pc && o.m_value == v && got < n) {
                    got++;
                } else {
                    other.push_back(o);
                }
            }
            VCHECK(got == n, "wallet:payment", "wanted " << n << " of " << v << ": " << show(t));
            VCHECK(in == out, "wallet:value-not-conserved", show(t) << " after " << log);
            auto want = (in > static_cast<unsigned __int128>(n) * v) ? 1U : 0U;
            VCHECK(other.size() == want, "wallet:change-outputs", show(t));
            for(auto& o : other) {
                input probe;
                probe.m_prevout_data = o;
                VCHECK(m.w->is_spendable(probe), "wallet:change-lost", show(t) << " after " << log);
                m.own.insert(o.m_witness_program_commitment);
            }
        }
        void credit(model& m, const input& i) {
            auto k = key_of(i);
            if(m.utxo.count(k) == 0) {
                m.utxo[k] = {i, m.batch};
            }
        }
        bool may_credit(model& m, const std::vector<input>& v) {
            return std::none_of(v.begin(), v.end(), [&](auto& i) {
                return m.spent.count(key_of(i)) != 0;
            });
        }
        void confirm(model& m, const full_tx& t) {
            auto id = tx_id(t);
            std::vector<input> c;
            for(size_t i = 0; i < t.m_outputs.size(); i++) {
                if(m.own.count(t.m_outputs[i].m_witness_program_commitment) != 0) {
                    c.push_back(*input_from_output(t, i, id));
                }
            }
            if(!may_credit(m, c)) {
                return;
            }
            if(!m.confirmed.insert(id).second) {
                vh::count("repeat_confirms");
            }
            m.w->confirm_transaction(t);
            for(auto& i : c) {
                credit(m, i);
                m.batch++;
            }
            for(auto& i : t.m_inputs) {
                if(m.utxo.erase(key_of(i)) != 0) {
                    m.spent.insert(key_of(i));
                    vh::count("debits");
                }
            }
            note("confirm " + vu::hx(id));
            vh::count("confirms");
            verify(m, "confirm");
        }
        void step() {
            auto wi = r.below(ws.size());
            auto& m = ws[wi];
            auto op = r.below(20);
            if(op == 0 || txs.empty()) {
                auto n = r.below(5);
                uint32_t v = r.chance(10) ? UINT32_MAX - r.below(3) : r.in(1, 60);
                auto t = m.w->mint_new_coins(n, v);
                note("mint" + std::to_string(wi) + " " + std::to_string(n) + "x" + std::to_string(v));
                VCHECK(t.m_inputs.empty() && t.m_outputs.size() == n, "wallet:mint-shape", show(t));
                for(auto& o : t.m_outputs) {
                    VCHECK(o.m_value == v, "wallet:mint-value", show(t));
                    VCHECK(m.own.insert(o.m_witness_program_commitment).second, "wallet:key-reused", show(t));
                    input p;
                    p.m_prevout_data = o;
                    VCHECK(m.w->is_spendable(p), "wallet:mint-not-spendable", show(t));
                }
                verify(m, "mint");
                txs.push_back(t);
                if(r.chance(85)) {
                    confirm(m, t);
                }
            } else if(op <= 3) {
                // confirm anything anywhere
                confirm(m, txs[txs.size() - 1 - r.below(std::min<size_t>(txs.size(), 6))]);
            } else if(op <= 5) {
                // pass inputs on, as a sender does to a receiver
                auto& t = txs[txs.size() - 1 - r.below(std::min<size_t>(txs.size(), 6))];
                auto pk = m.keys[r.below(m.keys.size())];
                auto got = wallet::export_send_inputs(t, pk);
                std::vector<input> want;
                auto pc = vd::get_p2pk_witness_commitment(pk);
                for(size_t i = 0; i < t.m_outputs.size(); i++) {
                    if(t.m_outputs[i].m_witness_program_commitment == pc) {
                        want.push_back(*input_from_output(t, i));
                    }
                }
                VCHECK(got == want, "wallet:export", show(t) << ": " << got.size() << " not " << want.size());
                if(may_credit(m, got)) {
                    m.w->confirm_inputs(got);
                    for(auto& i : got) {
                        credit(m, i);
                        m.batch++;
                    }
                    note("inputs" + std::to_string(wi) + "x" + std::to_string(got.size()));
                    vh::count("exports", got.size());
                    verify(m, "confirm_inputs");
                }
            } else if(op == 6) {
                auto pk = m.w->generate_key();
                VCHECK(m.own.insert(vd::get_p2pk_witness_commitment(pk)).second, "wallet:key-reused", "generate_key");
                m.keys.push_back(pk);
            } else if(op == 7) {
                auto path = vh::st().scratch + "/w" + std::to_string(vh::st().shard);
                m.w->save(path);
                verify(m, "save");
                auto other = r.chance(60) ? (wi + 1) % ws.size() : wi;
                auto& d = ws[other];
                if(d.seeded || m.seeded) {
                    return; // seeds are not part of the file
                }
                if(other == wi || r.chance(50)) {
                    d.w = std::make_unique<wallet>();
                }
                d.w->load(path);
                if(other != wi) {
                    d.own = m.own;
                    d.keys = m.keys;
                    d.utxo = m.utxo;
                    d.spent = m.spent;
                    d.confirmed = m.confirmed;
                    d.batch = m.batch;
                }
                for(auto& [k, h] : d.utxo) {
                    h.batch = 0;
                }
                note("load" + std::to_string(wi) + ">" + std::to_string(other));
                vh::count("loads");
                verify(d, "load");
                for(auto& c : d.own) {
                    input p;
                    p.m_prevout_data.m_witness_program_commitment = c;
                    VCHECK(d.w->is_spendable(p), "wallet:key-lost-in-file", log);
                }
                input p;
                p.m_prevout_data.m_witness_program_commitment = vu::rhash(r);
                VCHECK(!d.w->is_spendable(p), "wallet:foreign-spendable", log);
            } else {
                auto& payer = m;
                auto& rec = ws[r.below(ws.size())];
                auto payee = r.chance(10) ? vu::make_key(r).pk : rec.keys[r.below(rec.keys.size())];
                bool sign = r.chance(60);
                auto bal = payer.balance();
                auto near = [&]() -> uint64_t {
                    auto b = static_cast<uint64_t>(bal);
                    if(r.chance(25)) {
                        return b + r.below(3) - (b > 0 ? 1 : 0);
                    }
                    return r.in(1, std::max<uint64_t>(1, r.chance(50) ? b : std::min<uint64_t>(b, 100)));
                };
                if(op <= 12) {
                    auto amount = static_cast<uint32_t>(std::clamp<uint64_t>(near(), 1, UINT32_MAX));
                    auto t = payer.w->send_to(amount, payee, sign);
                    note("send" + std::to_string(wi) + " " + std::to_string(amount) + (t ? "" : " no"));
                    VCHECK(t.has_value() == (amount <= bal), "wallet:send-refused-or-not",
                           "amount " << amount << " balance " << uint64_t(bal) << " after " << log);
                    if(t) {
                        take(payer, *t);
                        check_outs(payer, *t, 1, amount, payee);
                        check_signed(payer, *t, sign);
                        txs.push_back(*t);
                        vh::count("sends");
                    } else {
                        vh::count("sends_refused");
                    }
                } else if(op <= 15) {
                    auto n = r.in(1, 4);
                    if(r.chance(20)) {
                        n = payer.utxo.size() + payer.seeds.size() + r.below(2);
                        n += n == 0;
                    }
                    auto outs = r.chance(15) ? r.in(1, 200) : r.in(1, 4);
                    auto have = payer.utxo.size() + payer.seeds.size();
                    auto t = payer.w->send_to(static_cast<size_t>(n), static_cast<size_t>(outs), payee, sign);
                    note("sendn" + std::to_string(wi) + " " + std::to_string(n) + "," + std::to_string(outs) + (t ? "" : " no"));
                    VCHECK(!t || n <= have, "wallet:sendn-too-many", log);
                    if(t) {
                        VCHECK(t->m_inputs.size() == n && t->m_outputs.size() == outs, "wallet:sendn-shape", show(*t) << " after " << log);
                        take(payer, *t);
                        unsigned __int128 in = 0;
                        unsigned __int128 out = 0;
                        auto pc = vd::get_p2pk_witness_commitment(payee);
                        for(auto& i : t->m_inputs) {
                            in += i.m_prevout_data.m_value;
                        }
                        for(auto& o : t->m_outputs) {
                            out += o.m_value;
                            VCHECK(o.m_value > 0 && o.m_witness_program_commitment == pc, "wallet:sendn-output", show(*t));
                        }
                        VCHECK(in == out, "wallet:value-not-conserved", show(*t) << " after " << log);
                        check_signed(payer, *t, sign);
                        txs.push_back(*t);
                        vh::count("sends");
                    } else if(n <= have) {
                        // refused only when it cannot make that many outputs
                        VCHECK(outs > 1, "wallet:sendn-refused", log);
                        uint64_t least = UINT64_MAX;
                        for(auto& [k, h] : payer.utxo) {
                            least = std::min(least, h.in.m_prevout_data.m_value);
                        }
                        for(auto& [k, s] : payer.seeds) {
                            least = std::min(least, s.m_prevout_data.m_value);
                        }
                        VCHECK(least * n < outs, "wallet:sendn-refused", log);
                        vh::count("sends_refused");
                    }
                } else {
                    auto n = r.in(1, 5);
                    auto v = static_cast<uint32_t>(std::clamp<uint64_t>(near() / n, 1, UINT32_MAX));
                    auto t = payer.w->fan(n, v, payee, sign);
                    note("fan" + std::to_string(wi) + " " + std::to_string(n) + "x" + std::to_string(v) + (t ? "" : " no"));
                    VCHECK(t.has_value() == (static_cast<unsigned __int128>(n) * v <= bal), "wallet:fan-refused-or-not", log);
                    if(t) {
                        take(payer, *t);
                        check_outs(payer, *t, n, v, payee);
                        check_signed(payer, *t, sign);
                        txs.push_back(*t);
                        vh::count("sends");
                    } else {
                        vh::count("sends_refused");
                    }
                }
                verify(payer, "send");
                if(!txs.empty() && r.chance(50)) {
                    confirm(payer, txs.back());
                }
                if(!txs.empty() && r.chance(25)) {
                    for(auto& o : ws) {
                        confirm(o, txs.back());
                    }
                }
            }
        }
        void run() {
            ws.resize(r.in(1, 3));
            for(auto& m : ws) {
                if(r.chance(30)) {
                    auto k = vu::make_key(r);
                    auto from = r.below(5);
                    auto to = from + r.below(8);
                    auto v = static_cast<uint32_t>(r.in(1, 40));
                    auto ok = m.w->seed(k.sk, v, from, to);
                    VCHECK(ok == (to > from), "wallet:seed-result", from << ".." << to);
                    if(ok) {
                        m.seeded = true;
                        m.own.insert(vd::get_p2pk_witness_commitment(k.pk));
                        m.keys.push_back(k.pk);
                        for(auto i = from; i < to; i++) {
                            auto t = m.w->create_seeded_transaction(i);
                            VCHECK(t.has_value() && t->m_outputs.size() == 1 && t->m_outputs[0].m_value == v,
                                   "wallet:seeded-tx", "index " << i);
                            auto in = *input_from_output(*t, 0);
                            VCHECK(m.seeds.emplace(key_of(in), in).second, "wallet:seeded-not-unique", "index " << i);
                        }
                        VCHECK(!m.w->seed(k.sk, v, from, to), "wallet:seeded-twice", "");
                        vh::count("seeded_wallets");
                    }
                }
                auto pk = m.w->generate_key();
                m.own.insert(vd::get_p2pk_witness_commitment(pk));
                m.keys.push_back(pk);
                verify(m, "start");
            }
            auto n = r.in(5, 40);
            for(size_t i = 0; i < n; i++) {
                step();
                vh::tick();
                if(vh::st().violations.size() > 10) {
                    break;
                }
            }
            vh::distinct(fp);
            vh::sample(log.substr(0, 600));
        }
    };

    void threads(vh::rng& r, bool manykeys) {
        wallet w;
        wallet rec;
        auto other = rec.generate_key();
        uint64_t start = 0;
        if(manykeys) {
            auto t = w.mint_new_coins(10001, 1);
            w.confirm_transaction(t);
            start += 10001;
        }
        for(int i = 0; i < 30; i++) {
            auto v = static_cast<uint32_t>(r.in(1, 50));
            auto t = w.mint_new_coins(r.in(1, 4), v);
            w.confirm_transaction(t);
            start += t.m_outputs.size() * v;
        }
        VCHECK(w.balance() == start, "wallet:balance", "before threads");
        std::vector<std::vector<full_tx>> made(r.in(2, 5));
        std::vector<std::thread> th;
        std::atomic<uint64_t> credited{0};
        vh::guard g("wallet threads");
        auto own = w.generate_key();
        for(size_t i = 0; i < made.size(); i++) {
            th.emplace_back([&, i, seed = r.next()] {
                vh::rng q(seed);
                for(int k = 0; k < 25; k++) {
                    std::optional<full_tx> t;
                    auto& payee = q.chance(50) ? other : own;
                    switch(q.below(7)) {
                        case 0:
                            t = w.send_to(static_cast<size_t>(q.in(1, 3)), static_cast<size_t>(q.in(1, 3)), payee, q.chance(30));
                            break;
                        case 1:
                            t = w.fan(q.in(1, 3), static_cast<uint32_t>(q.in(1, 10)), payee, q.chance(30));
                            break;
                        case 2: {
                            input in;
                            in.m_prevout.m_tx_id = vu::rhash(q);
                            in.m_prevout_data.m_value = q.in(1, 20);
                            credited += in.m_prevout_data.m_value;
                            w.confirm_inputs({in});
                            break;
                        }
                        case 3:
                            (void)w.balance();
                            (void)w.count();
                            (void)w.generate_key();
                            break;
                        default:
                            t = w.send_to(static_cast<uint32_t>(q.in(1, 60)), payee, q.chance(30));
                    }
                    if(t) {
                        made[i].push_back(*t);
                        if(q.chance(60)) {
                            w.confirm_transaction(*t);
                        } else {
                            made[i].back().m_witness.clear(); // mark: confirm later
                            made[i].back().m_witness.resize(999);
                        }
                    }
                    vh::tick();
                }
            });
        }
        for(auto& t : th) {
            t.join();
        }
        std::set<opk> used;
        unsigned __int128 gone = 0;
        auto oc = vd::get_p2pk_witness_commitment(other);
        for(auto& v : made) {
            for(auto& t : v) {
                if(t.m_witness.size() == 999) {
                    w.confirm_transaction(t);
                }
                unsigned __int128 in = 0;
                unsigned __int128 out = 0;
                for(auto& i : t.m_inputs) {
                    in += i.m_prevout_data.m_value;
                    VCHECK(used.insert(key_of(i)).second, "wallet:double-spend", "two threads' transactions spend one output");
                }
                for(auto& o : t.m_outputs) {
                    out += o.m_value;
                    if(o.m_witness_program_commitment == oc) {
                        gone += o.m_value;
                    }
                }
                VCHECK(in == out, "wallet:value-not-conserved", show(t));
                vh::count("threaded_sends");
            }
        }
        VCHECK(w.balance() + gone == start + credited.load(), "wallet:balance",
               "after threads " << w.balance() << " + paid " << uint64_t(gone) << " is not " << start + credited.load());
        vh::distinct(vh::mix(w.balance(), w.count()));
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(mode == "threads" || mode == "manykeys") {
            threads(r, mode == "manykeys");
        } else {
            world w(r);
            w.run();
        }
    });
    return vh::finish();
}
