// C05 transaction rules, C06 what ids commit to, C07 attestations: the real
// check_tx / tx_id / compact_tx code against rules restated here.
#include "huhs.hpp"

#include <algorithm>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <unordered_set>

using namespace cbdc;
using namespace cbdc::transaction;
namespace vd = cbdc::transaction::validation;
using u128 = unsigned __int128;

namespace {
    struct wtx {
        full_tx tx;
        std::vector<vu::key> keys; // per input
    };
    std::vector<vu::key> g_keys;

    hash_t commit_to(unsigned char type, const pubkey_t& pk) {
        std::vector<unsigned char> d;
        d.push_back(type);
        d.insert(d.end(), pk.begin(), pk.end());
        hash_t h{};
        CSHA256 s;
        s.Write(d.data(), d.size());
        s.Finalize(h.data());
        return h;
    }
    void raw_sign(const vu::key& k, const hash_t& msg, unsigned char* out) {
        secp256k1_keypair kp{};
        if(secp256k1_keypair_create(vu::secp(), &kp, k.sk.data()) != 1
           || secp256k1_schnorrsig_sign32(vu::secp(), out, msg.data(), &kp, nullptr) != 1) {
            abort();
        }
    }
    void sign_all(wtx& w) {
        auto id = tx_id(w.tx);
        w.tx.m_witness.resize(w.tx.m_inputs.size());
        for(size_t i = 0; i < w.tx.m_inputs.size(); i++) {
            auto& k = w.keys[i % w.keys.size()];
            auto& wit = w.tx.m_witness[i];
            wit.assign(97, std::byte(0));
            std::memcpy(&wit[1], k.pk.data(), 32);
            unsigned char sig[64];
            raw_sign(k, id, sig);
            std::memcpy(&wit[33], sig, 64);
        }
    }
    wtx make_valid(vh::rng& r) {
        wtx w;
        auto n = r.in(1, r.chance(10) ? 12 : 4);
        auto m = r.in(1, r.chance(10) ? 12 : 4);
        u128 total = 0;
        for(size_t i = 0; i < n; i++) {
            input in;
            auto& k = r.pick(g_keys);
            w.keys.push_back(k);
            in.m_prevout.m_tx_id = vu::rhash(r);
            in.m_prevout.m_index = r.chance(50) ? r.below(4) : r.next();
            if(i > 0 && r.chance(30)) {
                in.m_prevout.m_tx_id = w.tx.m_inputs[i - 1].m_prevout.m_tx_id;
                in.m_prevout.m_index = w.tx.m_inputs[i - 1].m_prevout.m_index + 1;
            }
            uint64_t v = r.in(1, 1000);
            if(r.chance(20)) {
                v = r.next() >> r.in(4, 60);
                v += v == 0;
            }
            in.m_prevout_data.m_value = v;
            in.m_prevout_data.m_witness_program_commitment = commit_to(0, k.pk);
            total += v;
            w.tx.m_inputs.push_back(in);
        }
        if(total < m) {
            m = static_cast<uint64_t>(total);
        }
        auto left = static_cast<uint64_t>(total);
        for(size_t i = 0; i < m; i++) {
            output o;
            auto keep = m - 1 - i;
            o.m_value = i + 1 == m ? left : r.in(1, left - keep);
            left -= o.m_value;
            o.m_witness_program_commitment = r.chance(70) ? commit_to(0, r.pick(g_keys).pk) : vu::rhash(r);
            w.tx.m_outputs.push_back(o);
        }
        sign_all(w);
        return w;
    }

    // ---- the rules -------------------------------------------------------
    using err = std::tuple<int, int, uint64_t>; // kind, code, idx
    std::set<err> rules(const full_tx& tx) {
        std::set<err> e;
        auto txe = [&](vd::tx_error_code c) { e.insert({3, int(c), 0}); };
        if(tx.m_inputs.empty()) {
            txe(vd::tx_error_code::no_inputs);
        }
        if(tx.m_outputs.empty()) {
            txe(vd::tx_error_code::no_outputs);
        }
        if(tx.m_inputs.size() != tx.m_witness.size()) {
            txe(vd::tx_error_code::missing_witness);
        }
        for(size_t i = 0; i < tx.m_inputs.size(); i++) {
            for(size_t j = 0; j < i; j++) {
                if(tx.m_inputs[i].m_prevout.m_tx_id == tx.m_inputs[j].m_prevout.m_tx_id
                   && tx.m_inputs[i].m_prevout.m_index == tx.m_inputs[j].m_prevout.m_index) {
                    e.insert({0, int(vd::input_error_code::duplicate), i});
                }
            }
            if(tx.m_inputs[i].m_prevout_data.m_value == 0) {
                e.insert({0, int(vd::input_error_code::data_error), i});
            }
        }
        u128 in = 0;
        u128 out = 0;
        for(auto& i : tx.m_inputs) {
            in += i.m_prevout_data.m_value;
        }
        for(size_t i = 0; i < tx.m_outputs.size(); i++) {
            out += tx.m_outputs[i].m_value;
            if(tx.m_outputs[i].m_value == 0) {
                e.insert({1, int(vd::output_error_code::zero_value), i});
            }
        }
        if((in >> 64) != 0 || (out >> 64) != 0) {
            txe(vd::tx_error_code::value_overflow);
        }
        if(in != out) {
            txe(vd::tx_error_code::asymmetric_values);
        }
        auto id = tx_id(tx);
        for(size_t i = 0; i < tx.m_witness.size(); i++) {
            auto& w = tx.m_witness[i];
            auto we = [&](vd::witness_error_code c) { e.insert({2, int(c), i}); };
            if(w.empty()) {
                we(vd::witness_error_code::missing_witness_program_type);
                continue;
            }
            if(w[0] != std::byte(0)) {
                we(vd::witness_error_code::unknown_witness_program_type);
                continue;
            }
            if(w.size() != 97) {
                we(vd::witness_error_code::malformed);
                continue;
            }
            pubkey_t pk{};
            std::memcpy(pk.data(), &w[1], 32);
            if(i < tx.m_inputs.size()
               && commit_to(0, pk) != tx.m_inputs[i].m_prevout_data.m_witness_program_commitment) {
                we(vd::witness_error_code::program_mismatch);
            }
            secp256k1_xonly_pubkey x{};
            if(secp256k1_xonly_pubkey_parse(vu::secp(), &x, pk.data()) != 1) {
                we(vd::witness_error_code::invalid_public_key);
                continue;
            }
            unsigned char sig[64];
            std::memcpy(sig, &w[33], 64);
            if(::secp256k1_schnorrsig_verify(vu::secp(), sig, id.data(), 32, &x) != 1) {
                we(vd::witness_error_code::invalid_signature);
            }
        }
        return e;
    }
    err code_of(const vd::tx_error& e) {
        return std::visit(
            overloaded{[](const vd::input_error& x) -> err {
                           return {0, int(x.m_code), x.m_idx};
                       },
                       [](const vd::output_error& x) -> err {
                           return {1, int(x.m_code), x.m_idx};
                       },
                       [](const vd::witness_error& x) -> err {
                           return {2, int(x.m_code), x.m_idx};
                       },
                       [](const vd::tx_error_code& x) -> err {
                           return {3, int(x), 0};
                       }},
            e);
    }
    std::string show(const full_tx& t) {
        std::ostringstream o;
        o << "in[";
        for(auto& i : t.m_inputs) {
            o << vu::hx(i.m_prevout.m_tx_id) << ":" << i.m_prevout.m_index << "=" << i.m_prevout_data.m_value << " ";
        }
        o << "] out[";
        for(auto& x : t.m_outputs) {
            o << x.m_value << " ";
        }
        o << "] wit[";
        for(auto& w : t.m_witness) {
            o << w.size() << "/" << (w.empty() ? -1 : int(w[0])) << " ";
        }
        o << "]";
        return o.str();
    }

    // One mutation; returns its name. resign = signatures are renewed after.
    std::string mutate(vh::rng& r, wtx& w, bool& resign) {
        auto& t = w.tx;
        switch(r.below(24)) {
            case 0:
                t.m_inputs.clear();
                if(r.chance(50)) {
                    t.m_witness.clear();
                }
                return "noin";
            case 1:
                t.m_outputs.clear();
                return "noout";
            case 2:
                t.m_witness.pop_back();
                resign = false;
                return "lesswit";
            case 3: {
                auto x = t.m_witness[0];
                t.m_witness.push_back(x);
                resign = false;
                return "morewit";
            }
            case 4:
            case 5:
            case 6: {
                // a duplicate outpoint, anywhere, maybe with other data
                auto i = t.m_inputs[r.below(t.m_inputs.size())];
                if(r.chance(50)) {
                    i.m_prevout_data.m_value = r.in(1, 9);
                }
                auto pos = r.below(t.m_inputs.size() + 1);
                t.m_inputs.insert(t.m_inputs.begin() + pos, i);
                vu::key k = g_keys[0];
                for(auto& c : g_keys) {
                    if(commit_to(0, c.pk) == i.m_prevout_data.m_witness_program_commitment) {
                        k = c;
                    }
                }
                w.keys.insert(w.keys.begin() + pos, k);
                t.m_outputs[0].m_value += i.m_prevout_data.m_value;
                resign = true;
                return "dup";
            }
            case 7:
            case 8: {
                auto& i = t.m_inputs[r.below(t.m_inputs.size())];
                t.m_outputs[0].m_value -= i.m_prevout_data.m_value;
                i.m_prevout_data.m_value = 0;
                return "zeroin";
            }
            case 9: {
                output o;
                o.m_value = 0;
                t.m_outputs.insert(t.m_outputs.begin() + r.below(t.m_outputs.size() + 1), o);
                return "zeroout";
            }
            case 10:
                t.m_outputs[r.below(t.m_outputs.size())].m_value += r.chance(50) ? 1 : -1;
                return "asym";
            case 11:
                t.m_inputs[r.below(t.m_inputs.size())].m_prevout_data.m_value += r.chance(50) ? 1 : -1;
                return "asymin";
            case 12: {
                // values equal modulo 2^64 only
                uint64_t big = UINT64_MAX - r.below(3);
                output o;
                o.m_value = big;
                o.m_witness_program_commitment = vu::rhash(r);
                t.m_outputs.push_back(o);
                t.m_outputs[0].m_value += UINT64_MAX - big + 1;
                return "ovfout";
            }
            case 13: {
                auto i = t.m_inputs[0];
                uint64_t big = UINT64_MAX - r.below(1000);
                i.m_prevout.m_index += 77;
                i.m_prevout_data.m_value = big;
                t.m_inputs.push_back(i);
                w.keys.push_back(w.keys[0]);
                if(r.chance(50)) {
                    output o;
                    o.m_value = big;
                    t.m_outputs.push_back(o);
                } else {
                    uint64_t s = 0;
                    for(auto& x : t.m_inputs) {
                        s += x.m_prevout_data.m_value;
                    }
                    output o;
                    o.m_value = s;
                    t.m_outputs = {o};
                }
                resign = true;
                return "ovfin";
            }
            case 14:
                t.m_witness[r.below(t.m_witness.size())].clear();
                resign = false;
                return "emptywit";
            case 15:
                t.m_witness[r.below(t.m_witness.size())][0] = std::byte(r.in(1, 255));
                resign = false;
                return "type";
            case 16: {
                auto& x = t.m_witness[r.below(t.m_witness.size())];
                auto n = r.below(4);
                x.resize(n == 0 ? 96 : n == 1 ? 98 : n == 2 ? r.in(1, 96) : 97 + r.below(200));
                resign = false;
                return "len";
            }
            case 17: {
                // someone else's key signs
                auto i = r.below(t.m_witness.size());
                wtx c;
                c.tx = t;
                auto k = r.pick(g_keys);
                unsigned char sig[64];
                raw_sign(k, tx_id(t), sig);
                std::memcpy(&t.m_witness[i][33], sig, 64);
                if(r.chance(70)) {
                    std::memcpy(&t.m_witness[i][1], k.pk.data(), 32);
                }
                resign = false;
                return "otherkey";
            }
            case 18: {
                // a key that is no curve point, properly committed to
                auto i = r.below(t.m_inputs.size());
                pubkey_t pk{};
                secp256k1_xonly_pubkey x{};
                do {
                    r.bytes(pk.data(), 32);
                    if(r.chance(20)) {
                        pk.fill(0xff);
                    }
                } while(secp256k1_xonly_pubkey_parse(vu::secp(), &x, pk.data()) == 1);
                t.m_inputs[i].m_prevout_data.m_witness_program_commitment = commit_to(0, pk);
                sign_all(w);
                std::memcpy(&t.m_witness[i][1], pk.data(), 32);
                resign = false;
                return "badkey";
            }
            case 19: {
                auto& x = t.m_witness[r.below(t.m_witness.size())];
                x[r.in(33, 96)] ^= std::byte(1U << r.below(8));
                resign = false;
                return "sigbit";
            }
            case 20:
                // signatures made for another transaction
                t.m_outputs[r.below(t.m_outputs.size())].m_witness_program_commitment[r.below(32)] ^= 1;
                resign = false;
                return "outcommit";
            case 21:
                t.m_inputs[r.below(t.m_inputs.size())].m_prevout_data.m_witness_program_commitment[r.below(32)] ^= static_cast<unsigned char>(1U << r.below(8));
                return "incommit";
            case 22:
                if(t.m_witness.size() > 1) {
                    std::swap(t.m_witness[0], t.m_witness[r.in(1, t.m_witness.size() - 1)]);
                }
                resign = false;
                return "swapwit";
            default:
                t.m_inputs[r.below(t.m_inputs.size())].m_prevout.m_index ^= 1ULL << r.below(64);
                resign = false;
                return "prevout";
        }
    }

    void case_check(vh::rng& r) {
        auto w = make_valid(r);
        std::string how;
        auto n = r.chance(25) ? 0 : r.chance(70) ? 1 : r.in(2, 3);
        for(size_t i = 0; i < n; i++) {
            if(w.tx.m_inputs.empty() || w.tx.m_outputs.empty() || w.tx.m_witness.empty()) {
                break;
            }
            bool ok = true;
            for(auto& x : w.tx.m_witness) {
                ok &= x.size() == 97;
            }
            if(!ok || w.tx.m_witness.size() != w.tx.m_inputs.size()) {
                break;
            }
            bool resign = r.chance(70);
            how += mutate(r, w, resign) + " ";
            if(resign && w.keys.size() >= w.tx.m_inputs.size() && !w.keys.empty() && !w.tx.m_inputs.empty()) {
                sign_all(w);
            }
        }
        auto want = rules(w.tx);
        auto before = w.tx;
        auto got = vd::check_tx(w.tx);
        VCHECK(before == w.tx, "check_tx:modified", show(before));
        vh::count(want.empty() ? "valid" : "invalid");
        if(want.empty()) {
            VCHECK(!got.has_value(), "check_tx:refused-valid",
                   "muts " << how << show(w.tx) << " -> " << vd::to_string(*got));
        } else if(!got.has_value()) {
            vh::report("check_tx:accepted-invalid", "muts " + how + show(w.tx));
        } else {
            auto c = code_of(*got);
            vh::count("err" + std::to_string(std::get<0>(c)) + "_" + std::to_string(std::get<1>(c)));
            VCHECK(want.count(c) == 1, "check_tx:wrong-error", "muts " << how << show(w.tx) << " -> " << vd::to_string(*got));
            auto s = vd::to_string(*got);
            VCHECK(!s.empty() && s.find("Unknown error") == std::string::npos, "check_tx:error-text", s);
        }
        vh::distinct(vh::hashs(how + show(w.tx)));
        if(vh::st().samples.size() < 3) {
            vh::sample("mutations: " + how + " -> " + (got ? vd::to_string(*got) : "accepted"));
        }
    }

    // ---- C06 -------------------------------------------------------------
    std::map<hash_t, std::string> g_seen; // id -> what it stands for
    void unique(const hash_t& h, const std::string& what) {
        auto [it, fresh] = g_seen.emplace(h, what);
        if(!fresh && it->second != what) {
            vh::report("ids:collision", it->second + " and " + what);
        }
        if(g_seen.size() > 400000) {
            g_seen.clear();
        }
    }
    template<typename A>
    std::string raw(const A& a) {
        return std::string(reinterpret_cast<const char*>(a.data()), a.size());
    }
    std::string d_out(const output& o) {
        return raw(o.m_witness_program_commitment) + "/" + std::to_string(o.m_value);
    }
    std::string d_tx(const full_tx& t) {
        std::string s = "tx";
        for(auto& i : t.m_inputs) {
            s += "|i" + raw(i.m_prevout.m_tx_id) + "/" + std::to_string(i.m_prevout.m_index) + "/" + d_out(i.m_prevout_data);
        }
        for(auto& o : t.m_outputs) {
            s += "|o" + d_out(o);
        }
        return s;
    }
    void case_ids(vh::rng& r) {
        auto w = make_valid(r);
        auto& t = w.tx;
        auto id = tx_id(t);
        unique(id, d_tx(t));
        compact_tx c(t);
        VCHECK(c.m_id == id, "ids:compact-id", show(t));
        VCHECK(c.m_inputs.size() == t.m_inputs.size() && c.m_uhs_outputs.size() == t.m_outputs.size(), "ids:compact-shape", show(t));
        VCHECK(c.m_attestations.empty(), "ids:compact-attested", show(t));
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            auto& in = t.m_inputs[i];
            VCHECK(c.m_inputs.at(i) == in.hash(), "ids:compact-input", show(t));
            VCHECK(in.hash() == uhs_id_from_output(in.m_prevout.m_tx_id, in.m_prevout.m_index, in.m_prevout_data),
                   "ids:input-not-output-id", show(t));
            unique(in.hash(), "uhs" + raw(in.m_prevout.m_tx_id) + "/" + std::to_string(in.m_prevout.m_index) + "/" + d_out(in.m_prevout_data));
        }
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            auto u = uhs_id_from_output(id, i, t.m_outputs[i]);
            VCHECK(c.m_uhs_outputs.at(i) == u, "ids:compact-output", show(t));
            unique(u, "uhs" + raw(id) + "/" + std::to_string(i) + "/" + d_out(t.m_outputs[i]));
            auto in = input_from_output(t, i);
            auto in2 = input_from_output(t, i, id);
            VCHECK(in.has_value() && in2.has_value(), "ids:input-from-output", show(t));
            if(in && in2) {
                VCHECK(*in == *in2 && in->hash() == u && in->m_prevout.m_tx_id == id && in->m_prevout.m_index == i
                           && in->m_prevout_data == t.m_outputs[i],
                       "ids:spend-link", show(t));
            }
        }
        for(auto i : {t.m_outputs.size(), t.m_outputs.size() + 1, SIZE_MAX}) {
            VCHECK(!input_from_output(t, i).has_value() && !input_from_output(t, i, id).has_value(), "ids:input-past-end", show(t));
        }
        // the witness is not part of the id, everything else is
        for(int k = 0; k < 6; k++) {
            auto m = t;
            auto ch = r.below(10);
            std::string what = std::to_string(ch);
            if(ch == 0) {
                m.m_witness.clear();
            } else if(ch == 1) {
                m.m_witness[r.below(m.m_witness.size())][r.below(97)] ^= std::byte(1);
            } else if(ch == 2) {
                m.m_inputs[r.below(m.m_inputs.size())].m_prevout.m_tx_id[r.below(32)] ^= static_cast<unsigned char>(1U << r.below(8));
            } else if(ch == 3) {
                m.m_inputs[r.below(m.m_inputs.size())].m_prevout.m_index ^= 1ULL << r.below(64);
            } else if(ch == 4) {
                m.m_inputs[r.below(m.m_inputs.size())].m_prevout_data.m_value ^= 1ULL << r.below(64);
            } else if(ch == 5) {
                m.m_inputs[r.below(m.m_inputs.size())].m_prevout_data.m_witness_program_commitment[r.below(32)] ^= 4;
            } else if(ch == 6) {
                m.m_outputs[r.below(m.m_outputs.size())].m_value ^= 1ULL << r.below(64);
            } else if(ch == 7) {
                m.m_outputs[r.below(m.m_outputs.size())].m_witness_program_commitment[r.below(32)] ^= static_cast<unsigned char>(1U << r.below(8));
            } else if(ch == 8) {
                if(r.chance(50) && m.m_outputs.size() > 1) {
                    std::swap(m.m_outputs[0], m.m_outputs[1]);
                } else {
                    m.m_outputs.push_back(m.m_outputs[0]);
                }
            } else {
                if(r.chance(50) && m.m_inputs.size() > 1) {
                    std::swap(m.m_inputs[0], m.m_inputs[1]);
                } else {
                    m.m_inputs.push_back(m.m_inputs[0]);
                }
            }
            auto mid = tx_id(m);
            unique(mid, d_tx(m));
            if(ch <= 1) {
                VCHECK(mid == id, "ids:witness-in-id", show(t));
                compact_tx mc(m);
                VCHECK(mc.hash() == c.hash(), "ids:witness-in-compact", show(t));
            } else if(d_tx(m) != d_tx(t)) {
                VCHECK(mid != id, "ids:change-not-in-id", "change " << what << " " << show(t));
                compact_tx mc(m);
                VCHECK(mc.hash() != c.hash(), "ids:change-not-in-compact", "change " << what);
                for(auto& u : mc.m_uhs_outputs) {
                    VCHECK(std::find(c.m_uhs_outputs.begin(), c.m_uhs_outputs.end(), u) == c.m_uhs_outputs.end(),
                           "ids:output-id-reused", "change " << what << " " << show(t));
                }
                // every field of an input counts for the id it spends
                for(size_t i = 0; i < std::min(m.m_inputs.size(), t.m_inputs.size()); i++) {
                    if(!(m.m_inputs[i] == t.m_inputs[i])) {
                        VCHECK(m.m_inputs[i].hash() != t.m_inputs[i].hash(), "ids:input-change-not-in-id", "change " << what);
                    }
                }
            }
            vh::count("changes");
            vh::distinct(vu::fp(mid));
        }
        // what an attestation signs
        auto h = c.hash();
        auto cm = c;
        auto a = c.sign(vu::secp(), g_keys[0].sk);
        cm.m_attestations.insert(a);
        VCHECK(cm.hash() == h, "ids:attestation-in-hash", show(t));
        auto ch = r.below(6);
        if(ch == 0) {
            cm.m_id[r.below(32)] ^= 1;
        } else if(ch == 1) {
            cm.m_inputs[r.below(cm.m_inputs.size())][r.below(32)] ^= 1;
        } else if(ch == 2) {
            cm.m_uhs_outputs[r.below(cm.m_uhs_outputs.size())][r.below(32)] ^= 1;
        } else if(ch == 3) {
            cm.m_inputs.push_back(vu::rhash(r));
        } else if(ch == 4) {
            cm.m_uhs_outputs.pop_back();
        } else {
            // the same ids, moved across the boundary between the lists
            cm.m_inputs.push_back(cm.m_uhs_outputs[0]);
            cm.m_uhs_outputs.erase(cm.m_uhs_outputs.begin());
        }
        VCHECK(cm.hash() != h, "ids:compact-change-not-in-hash", "change " << ch << " " << show(t));
        VCHECK(!cm.verify(vu::secp(), a), "ids:attestation-survives-change", "change " << ch << " " << show(t));
        vh::count("ids");
    }

    // ---- C07 -------------------------------------------------------------
    void case_att(vh::rng& r) {
        auto w = make_valid(r);
        compact_tx c(w.tx);
        std::unordered_set<pubkey_t, hashing::null> known;
        auto nk = r.below(5);
        for(size_t i = 0; i < nk; i++) {
            known.insert(g_keys[i].pk);
        }
        bool all_good = true;
        std::string how;
        auto na = r.below(6);
        for(size_t i = 0; i < na; i++) {
            auto ki = r.chance(80) && nk > 0 ? r.below(nk) : r.below(g_keys.size());
            auto& k = g_keys[ki];
            if(c.m_attestations.count(k.pk) != 0) {
                continue;
            }
            auto a = c.sign(vu::secp(), k.sk);
            VCHECK(a.first == k.pk, "att:key", "sign names another key");
            VCHECK(c.verify(vu::secp(), a), "att:own-refused", "an attestation just made does not verify");
            bool good = known.count(k.pk) != 0;
            auto m = r.below(14);
            if(m == 0) {
                a.second[r.below(64)] ^= static_cast<unsigned char>(1U << r.below(8));
                good = false;
            } else if(m == 1) {
                auto o = c;
                o.m_id[3] ^= 1;
                a = o.sign(vu::secp(), k.sk);
                good = false;
            } else if(m == 2) {
                // signed by another key under this name
                auto o = c.sign(vu::secp(), g_keys[(ki + 1) % g_keys.size()].sk);
                a.second = o.second;
                good = false;
            } else if(m == 3) {
                // names another known key
                a.first = g_keys[(ki + 1) % g_keys.size()].pk;
                if(c.m_attestations.count(a.first) != 0) {
                    continue;
                }
                good = false;
            } else if(m == 4) {
                a.second.fill(0);
                good = false;
            }
            how += std::to_string(ki) + (good ? "+" : "-") + " ";
            c.m_attestations.insert(a);
            VCHECK(c.verify(vu::secp(), a) == (m > 4), "att:verify", "mutation " << m);
            all_good = all_good && good;
        }
        // attesting does not stop others from attesting
        for(size_t th = 0; th <= c.m_attestations.size() + 2; th++) {
            auto want = c.m_attestations.size() >= th && all_good;
            auto got = vd::check_attestations(c, known, th);
            VCHECK(got == want, want ? "att:refused" : "att:accepted",
                   "known 0.." << nk << " attestations " << how << " threshold " << th);
            vh::count(want ? "att_accepted" : "att_refused");
        }
        vh::distinct(vh::mix(vh::hashs(how), nk));
        vh::sample("known 0.." + std::to_string(nk) + " attestations " + how);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::rng kr(vh::mix(vh::st().seed, 99));
    for(int i = 0; i < 8; i++) {
        g_keys.push_back(vu::make_key(kr));
    }
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        if(mode == "ids") {
            case_ids(r);
        } else if(mode == "att") {
            case_att(r);
        } else {
            case_check(r);
        }
    });
    return vh::finish();
}
