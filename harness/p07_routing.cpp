// The directory and several brokers over recording shards: who is asked
// about which key.
//  mode ""       one thread per broker
#include "psim.hpp"

#include <thread>

namespace {
    using namespace vp;
    using broker_t = cbdc::parsec::broker::impl;
    using tn_t = rls::ticket_number_type;
    using dir_t = cbdc::parsec::directory::impl;

    struct mon {
        std::mutex m;
        // key -> the shard every request about it went to
        std::unordered_map<std::string, size_t> where;
        std::map<size_t, size_t> load;
        std::map<std::pair<tn_t, size_t>, std::map<std::string, std::string>> prepared;
        std::map<tn_t, std::map<size_t, std::set<std::string>>> locked;
        std::atomic<uint64_t> locks{}, updates{}, commits{}, rollbacks{};
        void seen(const std::string& k, size_t s, const char* how) {
            std::unique_lock<std::mutex> l(m);
            auto [it, fresh] = where.emplace(k, s);
            if(fresh) {
                load[s]++;
            } else if(it->second != s) {
                vh::report("key-moved", std::string(how) + " about one key went to shard " + std::to_string(it->second) + " and to shard " + std::to_string(s) + " (key of " + std::to_string(k.size()) + " bytes)");
            }
        }
    };
    mon* M{nullptr};

    struct rshard : rls::interface {
        size_t idx;
        explicit rshard(size_t i) : idx(i) {}
        bool try_lock(tn_t n, rls::broker_id_type, rls::key_type k, rls::lock_type, bool, try_lock_callback_type cb) override {
            auto key = str(k);
            M->seen(key, idx, "lock requests");
            {
                std::unique_lock<std::mutex> l(M->m);
                M->locked[n][idx].insert(key);
            }
            M->locks++;
            cb(buf("v"));
            return true;
        }
        bool prepare(tn_t n, rls::broker_id_type, rls::state_update_type u, prepare_callback_type cb) override {
            for(auto& [k, v] : u) {
                auto key = str(k);
                M->seen(key, idx, "updates");
                std::unique_lock<std::mutex> l(M->m);
                if(M->locked[n][idx].count(key) == 0) {
                    vh::report("update-without-lock", "shard " + std::to_string(idx) + " was given an update to a key it never locked for the ticket");
                }
                M->prepared[{n, idx}][key] = str(v);
                M->updates++;
            }
            cb(std::nullopt);
            return true;
        }
        bool commit(tn_t n, commit_callback_type cb) override {
            touched(n, "commit");
            M->commits++;
            cb(std::nullopt);
            return true;
        }
        bool rollback(tn_t n, rollback_callback_type cb) override {
            touched(n, "rollback");
            M->rollbacks++;
            cb(std::nullopt);
            return true;
        }
        bool finish(tn_t n, finish_callback_type cb) override {
            touched(n, "finish");
            cb(std::nullopt);
            return true;
        }
        bool get_tickets(rls::broker_id_type, get_tickets_callback_type cb) override {
            cb(rls::interface::get_tickets_success_type{});
            return true;
        }
        void touched(tn_t n, const char* what) {
            std::unique_lock<std::mutex> l(M->m);
            if(M->locked[n].count(idx) == 0) {
                vh::report("uninvolved-shard", std::string(what) + " sent to shard " + std::to_string(idx) + " which holds no key of the ticket");
            }
        }
    };

    std::string a_key(vh::rng& r, uint64_t i) {
        switch(r.below(6)) {
            case 0: // differs from its neighbours in one byte
                return "account_" + std::to_string(i);
            case 1: {
                std::string k(r.below(200) + 1, '\0');
                r.bytes(k.data(), k.size());
                return k;
            }
            case 2: // same byte at every length
                return std::string(1 + r.below(70), static_cast<char>(i % 3));
            case 3: {
                std::string k(8, '\0');
                std::memcpy(k.data(), &i, 8);
                return k;
            }
            case 4: {
                std::string k(20 + r.below(3), '\0');
                r.bytes(k.data(), k.size());
                return k;
            }
            default: {
                std::string k(32, '\0');
                std::memcpy(k.data() + 24, &i, 8);
                return k;
            }
        }
    }

    void one_case(vh::rng& r, uint64_t c) {
        vh::guard g("routing");
        mon m;
        M = &m;
        size_t n = r.chance(10) ? 1 : r.chance(10) ? 60 + r.below(10) : 2 + r.below(7);
        std::vector<std::shared_ptr<rls::interface>> shards;
        for(size_t i = 0; i < n; i++) {
            shards.push_back(std::make_shared<rshard>(i));
        }
        auto ticketer = std::make_shared<cbdc::parsec::ticket_machine::impl>(logger(), 1 + r.below(5));
        auto shared_dir = std::make_shared<dir_t>(n);
        size_t nb = 1 + r.below(4);
        std::vector<std::shared_ptr<broker_t>> brokers;
        for(size_t i = 0; i < nb; i++) {
            auto d = r.chance(50) ? shared_dir : std::make_shared<dir_t>(n);
            brokers.push_back(std::make_shared<broker_t>(i, shards, ticketer, d, logger()));
        }
        std::vector<std::string> keys;
        {
            std::set<std::string> ks;
            size_t want = 300 + r.below(500);
            for(uint64_t i = 0; i < want; i++) {
                ks.insert(a_key(r, i));
            }
            keys.assign(ks.begin(), ks.end());
        }
        r.shuffle(keys);
        // what the directory says, asked first or afterwards
        auto ask = [&](dir_t& d, const std::string& k) {
            size_t answers = 0;
            size_t at = SIZE_MAX;
            auto ok = d.key_location(buf(k), [&](std::optional<cbdc::parsec::directory::interface::key_location_return_type> res) {
                answers++;
                if(res.has_value()) {
                    at = res.value();
                }
            });
            VCHECK(ok && answers == 1, "directory-answers", "key_location returned " << ok << " and answered " << answers << " times");
            VCHECK(at < n, "no-such-shard", "the directory names shard " << at << " of " << n);
            if(at < n) {
                M->seen(k, at, "directory answers");
            }
            vh::count("directory_answers");
        };
        bool before = r.chance(50);
        if(before) {
            for(auto& k : keys) {
                ask(*shared_dir, k);
            }
        }
        std::vector<std::thread> ths;
        for(size_t b = 0; b < nb; b++) {
            ths.emplace_back([&, b, rr = vh::rng(vh::mix(r.next(), b))]() mutable {
                auto& br = *brokers[b];
                for(size_t round = 0; round < 12; round++) {
                    tn_t t{};
                    bool got = false;
                    br.begin([&](cbdc::parsec::broker::interface::ticketnum_or_errcode_type res) {
                        if(std::holds_alternative<tn_t>(res)) {
                            t = std::get<tn_t>(res);
                            got = true;
                        }
                    });
                    if(!got) {
                        vh::report("no-ticket", "begin failed with a working ticket machine");
                        return;
                    }
                    std::map<std::string, std::string> upd;
                    size_t nk = rr.chance(10) ? 0 : 1 + rr.below(80);
                    for(size_t i = 0; i < nk; i++) {
                        auto& k = keys[rr.below(keys.size())];
                        bool w = rr.chance(60);
                        bool ok = false;
                        if(upd.count(k) != 0) {
                            continue;
                        }
                        br.try_lock(t, buf(k), w ? rls::lock_type::write : rls::lock_type::read, [&](cbdc::parsec::broker::interface::try_lock_return_type res) {
                            ok = std::holds_alternative<cbdc::buffer>(res);
                        });
                        VCHECK(ok, "lock-failed", "a lock the shard granted was not reported as granted");
                        if(w) {
                            upd[k] = "u" + std::to_string(t) + "-" + std::to_string(i);
                        }
                        vh::tick();
                    }
                    if(rr.chance(20)) {
                        br.rollback(t, [&](auto) {});
                        br.finish(t, [&](auto) {});
                        continue;
                    }
                    rls::state_update_type su;
                    for(auto& [k, v] : upd) {
                        su.emplace(buf(k), buf(v));
                    }
                    size_t done = 0;
                    br.commit(t, su, [&](cbdc::parsec::broker::interface::commit_return_type res) {
                        done++;
                        VCHECK(!res.has_value(), "commit-failed", "commit failed although every shard acknowledged");
                    });
                    VCHECK(done == 1, "commit-answers", "commit answered " << done << " times");
                    // every update arrived, each at exactly one shard
                    {
                        std::unique_lock<std::mutex> l(m.m);
                        std::map<std::string, std::string> arrived;
                        size_t total = 0;
                        for(size_t s = 0; s < n; s++) {
                            auto it = m.prepared.find({t, s});
                            if(it != m.prepared.end()) {
                                total += it->second.size();
                                arrived.insert(it->second.begin(), it->second.end());
                            }
                        }
                        l.unlock();
                        VCHECK(total == upd.size() && arrived == upd, "updates-lost", "ticket of " << upd.size() << " updates: shards got " << total << " updates to " << arrived.size() << " keys, or other values");
                    }
                    br.finish(t, [&](auto) {});
                }
            });
        }
        for(auto& t : ths) {
            t.join();
        }
        if(!before) {
            dir_t fresh(n);
            for(auto& k : keys) {
                ask(fresh, k);
            }
        }
        // No shard is left out: far beyond any plausible chance imbalance.
        if(n <= 8 && keys.size() >= 200) {
            for(size_t s = 0; s < n; s++) {
                VCHECK(m.load[s] * n * 8 >= keys.size(), "unbalanced", "shard " << s << " of " << n << " holds " << m.load[s] << " of " << keys.size() << " keys");
            }
        }
        vh::count("locks", m.locks);
        vh::count("updates", m.updates);
        vh::count("commits", m.commits);
        vh::count("rollbacks", m.rollbacks);
        vh::count("keys", keys.size());
        vh::distinct(vh::mix(vh::mix(n, m.locks), m.updates));
        if(c < 2) {
            vh::sample("shards=" + std::to_string(n) + " brokers=" + std::to_string(nb) + " keys=" + std::to_string(keys.size()) + " locks=" + std::to_string(m.locks) + " updates=" + std::to_string(m.updates));
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::run_cases(one_case);
    return vh::finish();
}
