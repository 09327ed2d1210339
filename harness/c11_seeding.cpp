// C11: the shard seeder, the shards started from what it made, and the
// wallets of load generators which hold the keys to it.
#include "huhs.hpp"

#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/transaction/wallet.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "util/common/config.hpp"

#include <filesystem>
#include <fstream>
#include <leveldb/db.h>
#include <unistd.h>

#define main seeder_main
#include "../tools/shard-seeder/shard-seeder.cpp"
#undef main

using namespace cbdc;
namespace tr = cbdc::transaction;
namespace fs = std::filesystem;

namespace {
    struct seed_case {
        bool twophase;
        std::vector<config::shard_range_t> ranges; // by shard id
        uint64_t from, to, loadgens;
        uint32_t value;
        privkey_t key;
    };

    std::vector<config::shard_range_t> partition(vh::rng& r, size_t n) {
        std::set<unsigned> starts{0};
        if(r.chance(40)) {
            for(size_t i = 1; i < n; i++) {
                starts.insert(static_cast<unsigned>(i * (256 / n)));
            }
        } else {
            while(starts.size() < n) {
                starts.insert(static_cast<unsigned>(r.below(256)));
            }
        }
        std::vector<config::shard_range_t> ret;
        for(auto it = starts.begin(); it != starts.end(); it++) {
            auto e = std::next(it) == starts.end() ? 255 : *std::next(it) - 1;
            ret.emplace_back(static_cast<uint8_t>(*it), static_cast<uint8_t>(e));
        }
        return ret;
    }

    void shuffle(vh::rng& r, std::vector<config::shard_range_t>& v) {
        for(size_t i = v.size(); i > 1; i--) {
            std::swap(v[i - 1], v[r.below(i)]);
        }
    }

    seed_case a_case(vh::rng& r) {
        seed_case c;
        c.twophase = r.chance(60);
        c.ranges = partition(r, 1 + r.below(4));
        if(!c.twophase) {
            while(c.ranges.size() < 6 && r.chance(40)) { // replicas
                c.ranges.push_back(c.ranges[r.below(c.ranges.size())]);
            }
            if(r.chance(20)) { // and a larger one
                c.ranges.emplace_back(static_cast<uint8_t>(r.below(100)), static_cast<uint8_t>(150 + r.below(106)));
            }
        }
        if(r.chance(50)) {
            shuffle(r, c.ranges);
        }
        c.from = r.chance(40) ? 0 : r.chance(70) ? r.below(5000) : r.below(1ULL << 40);
        c.to = c.from + 1 + r.below(r.chance(20) ? 3 : 300);
        c.loadgens = 1 + r.below(4);
        c.value = static_cast<uint32_t>(1 + r.below(r.chance(50) ? 1000 : 0xfffffffe));
        do {
            for(auto& b : c.key) {
                b = static_cast<unsigned char>(r.below(256));
            }
        } while(c.key[0] == 0xff || c.key == privkey_t{});
        return c;
    }

    void write_config(const seed_case& c, const std::string& file) {
        std::ofstream f(file);
        auto ep = [&](const std::string& k) {
            f << k << "=\"127.0.0.1:5555\"\n";
        };
        f << "2pc=" << (c.twophase ? 1 : 0) << "\n";
        f << "seed_privkey=\"" << to_string(c.key) << "\"\n";
        f << "seed_value=" << c.value << "\nseed_from=" << c.from << "\nseed_to=" << c.to << "\n";
        f << "loadgen_count=" << c.loadgens << "\nshard_count=" << c.ranges.size() << "\n";
        for(size_t i = 0; i < c.ranges.size(); i++) {
            auto s = "shard" + std::to_string(i) + "_";
            f << s << "start=" << unsigned{c.ranges[i].first} << "\n" << s << "end=" << unsigned{c.ranges[i].second} << "\n";
            if(c.twophase) {
                f << s << "count=1\n";
                ep(s + "0_endpoint");
                ep(s + "0_raft_endpoint");
                ep(s + "0_readonly_endpoint");
            } else {
                ep(s + "endpoint");
                f << s << "db=\"shard" << i << "_db\"\n";
            }
        }
        f << "attestation_threshold=0\n";
        if(c.twophase) {
            f << "sentinel_count=1\ncoordinator_count=1\ncoordinator0_count=1\n";
            ep("sentinel0_endpoint");
            ep("coordinator0_0_endpoint");
            ep("coordinator0_0_raft_endpoint");
        } else {
            f << "watchtower_count=1\narchiver_count=1\natomizer_count=1\narchiver0_db=\"a\"\n";
            ep("watchtower0_client_endpoint");
            ep("watchtower0_internal_endpoint");
            ep("archiver0_endpoint");
            ep("atomizer0_endpoint");
            ep("atomizer0_raft_endpoint");
        }
    }

    bool in_range(const config::shard_range_t& rg, const hash_t& h) {
        return h[0] >= rg.first && h[0] <= rg.second;
    }
    std::string str(const config::shard_range_t& rg) {
        return std::to_string(rg.first) + "-" + std::to_string(rg.second);
    }
    std::string str(const seed_case& c) {
        std::string s = c.twophase ? "two-phase" : "atomizer";
        for(auto& rg : c.ranges) {
            s += " " + str(rg);
        }
        return s + " seeds " + std::to_string(c.from) + ".." + std::to_string(c.to) + " of " + std::to_string(c.value);
    }

    // The output of the n-th seed, as the definition has it
    tr::input seed_input(const seed_case& c, const hash_t& commitment, uint64_t n) {
        tr::full_tx t;
        t.m_inputs.resize(1);
        t.m_outputs.resize(1);
        t.m_inputs[0].m_prevout.m_index = n;
        t.m_inputs[0].m_prevout_data.m_value = c.value;
        t.m_outputs[0].m_value = c.value;
        t.m_outputs[0].m_witness_program_commitment = commitment;
        return tr::input_from_output(t, 0).value();
    }

    void one(vh::rng& r, const fs::path& dir) {
        auto c = a_case(r);
        vh::guard g(str(c));
        fs::remove_all(dir);
        fs::create_directories(dir);
        if(::chdir(dir.c_str()) != 0) {
            vh::die("harness:chdir", dir.string());
        }
        write_config(c, "seed.cfg");
        auto name_of = [&](size_t i) {
            return (c.twophase ? "2pc_" : "") + ("shard_preseed_" + std::to_string(c.to - c.from) + "_" + std::to_string(i));
        };
        const auto blocked = r.chance(10); // one of its files cannot be made
        if(blocked) {
            auto n = c.twophase ? c.ranges.size() : std::set<config::shard_range_t>(c.ranges.begin(), c.ranges.end()).size();
            auto victim = name_of(r.below(n));
            if(c.twophase) {
                fs::create_directories(victim);
            } else {
                std::ofstream(victim) << "x";
            }
        }
        std::string a0 = "shard-seeder";
        std::string a1 = "seed.cfg";
        std::array<char*, 3> argv{a0.data(), a1.data(), nullptr};
        auto rc = seeder_main(2, argv.data());
        if(blocked) {
            VCHECK(rc != 0, "c11:unnoticed", "the seeder could not make one of its files and claims success: " + str(c));
            vh::count("blocked");
            return;
        }
        VCHECK(rc == 0, "c11:refused", "the seeder ended with " + std::to_string(rc) + ": " + str(c));
        vh::count("seedings");

        auto loaded = config::load_options("seed.cfg");
        VCHECK(std::holds_alternative<config::options>(loaded), "harness:config", std::holds_alternative<std::string>(loaded) ? std::get<std::string>(loaded) : "");
        auto& opts = std::get<config::options>(loaded);

        auto secp = std::unique_ptr<secp256k1_context, decltype(&secp256k1_context_destroy)>(secp256k1_context_create(SECP256K1_CONTEXT_SIGN), &secp256k1_context_destroy);
        auto pub = pubkey_from_privkey(c.key, secp.get());
        auto com = tr::validation::get_p2pk_witness_commitment(pub);
        std::map<hash_t, uint64_t> seeds;
        for(uint64_t n = c.from; n < c.to; n++) {
            auto in = seed_input(c, com, n);
            seeds.emplace(tr::uhs_id_from_output(in.m_prevout.m_tx_id, in.m_prevout.m_index, in.m_prevout_data), n);
        }
        VCHECK(seeds.size() == c.to - c.from, "c11:same", "two seeds have the same id");

        auto log = std::make_shared<logging::log>(logging::log_level::fatal);
        std::vector<std::unique_ptr<locking_shard::locking_shard>> shards;
        if(c.twophase) {
            for(size_t i = 0; i < c.ranges.size(); i++) {
                auto name = name_of(i);
                uint64_t expect = 0;
                for(auto& [id, n] : seeds) {
                    expect += in_range(c.ranges[i], id) ? 1 : 0;
                }
                std::error_code ec;
                auto sz = fs::file_size(name, ec);
                VCHECK(!ec, "c11:no_file", name + " is missing: " + str(c));
                VCHECK(sz == 8 + expect * 32, "c11:file_size", name + " holds " + std::to_string((sz - 8) / 32) + " outputs, not " + std::to_string(expect) + ": " + str(c));
                shards.push_back(std::make_unique<locking_shard::locking_shard>(c.ranges[i], log, 100, name, opts));
                for(auto& [id, n] : seeds) {
                    auto has = shards[i]->check_unspent(id);
                    auto should = in_range(c.ranges[i], id);
                    VCHECK(has.has_value() && *has == should, should ? "c11:lacks" : "c11:foreign",
                           "shard " + std::to_string(i) + (should ? " lacks" : " holds") + " the output of seed " + std::to_string(n) + ": " + str(c));
                    vh::count("outputs_checked");
                }
            }
        } else {
            auto unique = std::set<config::shard_range_t>(c.ranges.begin(), c.ranges.end());
            size_t i = 0;
            for(auto& rg : unique) {
                auto name = name_of(i);
                std::set<hash_t> found;
                {
                    leveldb::DB* p{};
                    auto s = leveldb::DB::Open({}, name, &p);
                    VCHECK(s.ok(), "c11:no_db", name + ": " + s.ToString());
                    std::unique_ptr<leveldb::DB> db(p);
                    std::unique_ptr<leveldb::Iterator> it(db->NewIterator({}));
                    for(it->SeekToFirst(); it->Valid(); it->Next()) {
                        VCHECK(it->key().size() == 32, "c11:key", "a key of " + std::to_string(it->key().size()) + " bytes");
                        hash_t h;
                        std::memcpy(h.data(), it->key().data(), 32);
                        found.insert(h);
                    }
                }
                for(auto& [id, n] : seeds) {
                    auto should = in_range(rg, id);
                    VCHECK((found.count(id) != 0) == should, should ? "c11:lacks" : "c11:foreign",
                           "the database for " + str(rg) + (should ? " lacks" : " holds") + " the output of seed " + std::to_string(n) + ": " + str(c));
                    found.erase(id);
                    vh::count("outputs_checked");
                }
                VCHECK(found.empty(), "c11:unknown", "the database for " + str(rg) + " holds " + std::to_string(found.size()) + " outputs which are no seeds: " + str(c));

                // A shard which starts from it attests to the seeds of its range.
                shard::shard sh(rg);
                auto err = sh.open_db(name);
                VCHECK(!err.has_value(), "c11:open", err.value_or(""));
                atomizer::block first;
                first.m_height = 1;
                VCHECK(sh.digest_block(first), "c11:block", "a shard refused the first block");
                for(int k = 0; k < 20; k++) {
                    auto it = seeds.begin();
                    std::advance(it, static_cast<long>(r.below(seeds.size())));
                    tr::compact_tx ctx;
                    ctx.m_id[0] = static_cast<unsigned char>(k);
                    ctx.m_inputs = {it->first};
                    auto res = sh.digest_transaction(ctx);
                    auto* ok = std::get_if<atomizer::tx_notify_request>(&res);
                    auto should = in_range(rg, it->first);
                    VCHECK(ok != nullptr && ok->m_attestations.size() == (should ? 1 : 0), "c11:attest", "a shard of " + str(rg) + " did not attest as it should to seed " + std::to_string(it->second));
                    vh::count("attestations");
                }
                i++;
            }
        }

        // Load generators: disjoint seeds, all of them real; they can spend them.
        std::set<uint64_t> taken;
        for(uint64_t gen = 0; gen < c.loadgens; gen++) {
            if((c.to - c.from) / c.loadgens < 2) {
                break; // nothing for this many
            }
            auto rg = config::loadgen_seed_range(opts, gen);
            VCHECK(rg.first >= c.from && rg.second < c.to && rg.first <= rg.second, "c11:gen_range", "load generator " + std::to_string(gen) + " has seeds " + std::to_string(rg.first) + ".." + std::to_string(rg.second) + ": " + str(c));
            for(auto n = rg.first; n <= rg.second; n++) {
                VCHECK(taken.insert(n).second, "c11:gen_twice", "two load generators have seed " + std::to_string(n) + ": " + str(c));
            }
            tr::wallet w;
            VCHECK(w.seed(c.key, c.value, rg.first, rg.second), "c11:wallet", "a wallet refused the seeds");
            VCHECK(w.balance() == (rg.second - rg.first) * static_cast<uint64_t>(c.value), "c11:balance", "a wallet of " + std::to_string(rg.second - rg.first) + " seeds has " + std::to_string(w.balance()));
            auto to = w.generate_key();
            for(int k = 0; k < 8; k++) {
                auto in = 1 + r.below(3);
                auto tx = w.send_to(in, 1 + r.below(3), to, true);
                if(!tx.has_value()) {
                    break;
                }
                VCHECK(!tr::validation::check_tx(*tx).has_value(), "c11:invalid", "a payment from seeds is not valid");
                auto ctx = tr::compact_tx(*tx);
                uint64_t total = 0;
                for(auto& i : tx->m_inputs) {
                    total += i.m_prevout_data.m_value;
                }
                uint64_t out = 0;
                for(auto& o : tx->m_outputs) {
                    out += o.m_value;
                }
                VCHECK(total == out, "c11:value", "a payment of " + std::to_string(total) + " pays " + std::to_string(out));
                for(auto& in_id : ctx.m_inputs) {
                    VCHECK(seeds.count(in_id) != 0, "c11:not_seed", "a wallet spends what was not seeded: " + str(c));
                }
                if(c.twophase) {
                    hash_t dtx{};
                    dtx[0] = static_cast<unsigned char>(gen);
                    dtx[1] = static_cast<unsigned char>(k);
                    for(auto& s : shards) {
                        auto res = s->lock_outputs({{ctx}}, dtx);
                        VCHECK(res.has_value() && res->size() == 1 && (*res)[0], "c11:lock", "a shard refused a payment from seeds: " + str(c));
                    }
                    for(auto& s : shards) {
                        VCHECK(s->apply_outputs({true}, dtx) && s->discard_dtx(dtx), "c11:apply", "a shard did not apply a payment from seeds");
                    }
                    for(auto& s : shards) {
                        for(auto& in_id : ctx.m_inputs) {
                            VCHECK(!s->check_unspent(in_id).value_or(true), "c11:still", "a spent seed is unspent");
                        }
                    }
                    for(auto& in_id : ctx.m_inputs) {
                        seeds.erase(in_id);
                    }
                } else {
                    for(auto& in_id : ctx.m_inputs) {
                        seeds.erase(in_id);
                    }
                }
                vh::count("payments");
            }
        }
        vh::distinct(vh::hashs(str(c)));
        vh::sample(str(c));
        if(::chdir("/") != 0) {
            vh::die("harness:chdir", "/");
        }
        fs::remove_all(dir);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    const auto dir = fs::path(vh::st().scratch) / "c11";
    vh::run_cases([&](vh::rng& r, uint64_t) {
        one(r, dir);
    });
    fs::remove_all(dir);
    return vh::finish();
}
