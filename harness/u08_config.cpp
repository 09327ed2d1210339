// Configuration files, environment overrides and program arguments generated
// from a model, and what the parsers make of them.
//  mode ""       files for both transaction processors
//  mode args     program arguments of the programmable part
#include "vh.hpp"

#include "parsec/util.hpp"
#include "util/common/config.hpp"

#include <fstream>

namespace {
    namespace cfg = cbdc::config;
    using ep_t = cbdc::network::endpoint_t;
    using lines_t = std::vector<std::pair<std::string, std::string>>; // key, text of the value

    std::string hx(const unsigned char* d, size_t n) {
        static const char* h = "0123456789abcdef";
        std::string s;
        for(size_t i = 0; i < n; i++) {
            s += h[d[i] >> 4];
            s += h[d[i] & 15];
        }
        return s;
    }
    ep_t an_ep(vh::rng& r) {
        std::string h;
        if(r.chance(50)) {
            h = std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256));
        } else {
            for(size_t i = 0; i < 1 + r.below(20); i++) {
                h += "abcdefghijklmnopqrstuvwxyz-.0189="[r.below(33)];
            }
        }
        auto p = r.chance(20) ? std::array<unsigned short, 3>{0, 65535, 1}[r.below(3)] : static_cast<unsigned short>(r.below(65536));
        return {h, p};
    }
    std::string ep_text(const ep_t& e) { return e.first + ":" + std::to_string(e.second); }
    std::string q(const std::string& s) { return "\"" + s + "\""; }
    const char* LEVELS[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};

    struct gen {
        vh::rng& r;
        cfg::options o;
        lines_t lines;
        std::set<size_t> required; // lines whose absence is an error
        explicit gen(vh::rng& rr) : r(rr) {}
        void put(const std::string& k, const std::string& v, bool req = false) {
            if(req) {
                required.insert(lines.size());
            }
            lines.emplace_back(k, v);
        }
        ep_t ep(const std::string& k) {
            auto e = an_ep(r);
            put(k, q(ep_text(e)), true);
            return e;
        }
        void level(const std::string& k, std::vector<cbdc::logging::log_level>& into) {
            auto l = cfg::defaults::log_level;
            if(r.chance(60)) {
                auto i = r.below(6);
                put(k, q(LEVELS[i]));
                static const cbdc::logging::log_level L[] = {cbdc::logging::log_level::trace, cbdc::logging::log_level::debug, cbdc::logging::log_level::info, cbdc::logging::log_level::warn, cbdc::logging::log_level::error, cbdc::logging::log_level::fatal};
                l = L[i];
            } else if(r.chance(20)) {
                put(k, q("LOUD"));
            }
            into.push_back(l);
        }
        uint64_t big() { return r.chance(50) ? r.below(1000) : r.chance(50) ? r.next() : r.below(1ULL << 40); }
        void num(const std::string& k, size_t& into) {
            if(r.chance(60)) {
                into = big();
                put(k, std::to_string(into));
            }
        }
        void num32(const std::string& k, int32_t& into) {
            if(r.chance(60)) {
                into = static_cast<int32_t>(r.below(0x80000000ULL));
                put(k, std::to_string(into));
            }
        }
        size_t amount(const std::string& k) {
            size_t n = r.chance(15) ? 0 : 1 + r.below(r.chance(90) ? 4 : 13);
            if(n > 0 || r.chance(50)) {
                put(k, std::to_string(n));
            }
            return n;
        }

        void all() {
            o.m_twophase_mode = r.chance(50);
            if(o.m_twophase_mode || r.chance(50)) {
                put("2pc", o.m_twophase_mode ? "1" : "0");
            }
            if(r.chance(70)) {
                o.m_attestation_threshold = r.below(4);
                put("attestation_threshold", std::to_string(o.m_attestation_threshold));
            }
            auto n = amount("sentinel_count");
            for(size_t i = 0; i < n; i++) {
                auto p = "sentinel" + std::to_string(i) + "_";
                o.m_sentinel_endpoints.push_back(ep(p + "endpoint"));
                level(p + "loglevel", o.m_sentinel_loglevels);
                cbdc::hash_t k{};
                if(r.chance(60)) {
                    r.bytes(k.data(), k.size());
                    put(p + "private_key", q(hx(k.data(), 32)));
                    o.m_sentinel_private_keys[i] = k;
                }
                if(o.m_attestation_threshold > 0 || r.chance(50)) {
                    r.bytes(k.data(), k.size());
                    put(p + "public_key", q(hx(k.data(), 32)), o.m_attestation_threshold > 0);
                    o.m_sentinel_public_keys.insert(k);
                }
            }
            n = amount("shard_count");
            if(o.m_twophase_mode) {
                o.m_locking_shard_endpoints.resize(n);
                o.m_locking_shard_raft_endpoints.resize(n);
                o.m_locking_shard_readonly_endpoints.resize(n);
            }
            for(size_t i = 0; i < n; i++) {
                auto p = "shard" + std::to_string(i) + "_";
                if(o.m_twophase_mode) {
                    auto m = r.chance(4) ? r.below(14) : r.below(4);
                    put(p + "count", std::to_string(m), true);
                    for(size_t j = 0; j < m; j++) {
                        auto pp = p + std::to_string(j) + "_";
                        o.m_locking_shard_raft_endpoints[i].push_back(ep(pp + "raft_endpoint"));
                        o.m_locking_shard_endpoints[i].push_back(ep(pp + "endpoint"));
                        o.m_locking_shard_readonly_endpoints[i].push_back(ep(pp + "readonly_endpoint"));
                    }
                } else {
                    o.m_shard_endpoints.push_back(ep(p + "endpoint"));
                    o.m_shard_db_dirs.push_back("dir" + std::to_string(r.below(1000)) + (r.chance(20) ? "=x y" : ""));
                    put(p + "db", q(o.m_shard_db_dirs.back()), true);
                }
                level(p + "loglevel", o.m_shard_loglevels);
                auto a = static_cast<uint8_t>(r.below(256)), b = static_cast<uint8_t>(r.below(256));
                put(p + "start", std::to_string(a), true);
                put(p + "end", std::to_string(b), true);
                o.m_shard_ranges.emplace_back(a, b);
            }
            num("shard_completed_txs_cache_size", o.m_shard_completed_txs_cache_size);
            if(r.chance(40)) {
                o.m_seed_from = big();
                o.m_seed_to = r.chance(80) ? o.m_seed_from + r.below(1000) : big();
                put("seed_from", std::to_string(o.m_seed_from));
                put("seed_to", std::to_string(o.m_seed_to));
                if(o.m_seed_from != o.m_seed_to) {
                    cbdc::hash_t k{};
                    r.bytes(k.data(), k.size());
                    o.m_seed_privkey = k;
                    put("seed_privkey", q(hx(k.data(), 32)), true);
                    if(r.chance(85)) {
                        o.m_seed_value = r.below(1000);
                        put("seed_value", std::to_string(o.m_seed_value));
                    }
                }
            }
            n = amount("atomizer_count");
            for(size_t i = 0; i < n; i++) {
                auto p = "atomizer" + std::to_string(i) + "_";
                o.m_atomizer_endpoints.push_back(ep(p + "endpoint"));
                level(p + "loglevel", o.m_atomizer_loglevels);
                o.m_atomizer_raft_endpoints.push_back(ep(p + "raft_endpoint"));
            }
            num("target_block_interval", o.m_target_block_interval);
            num("stxo_cache_depth", o.m_stxo_cache_depth);
            n = amount("archiver_count");
            for(size_t i = 0; i < n; i++) {
                auto p = "archiver" + std::to_string(i) + "_";
                o.m_archiver_endpoints.push_back(ep(p + "endpoint"));
                level(p + "loglevel", o.m_archiver_loglevels);
                o.m_archiver_db_dirs.push_back("adb" + std::to_string(r.below(1000)));
                put(p + "db", q(o.m_archiver_db_dirs.back()), true);
            }
            n = amount("watchtower_count");
            for(size_t i = 0; i < n; i++) {
                auto p = "watchtower" + std::to_string(i) + "_";
                o.m_watchtower_client_endpoints.push_back(ep(p + "client_endpoint"));
                o.m_watchtower_internal_endpoints.push_back(ep(p + "internal_endpoint"));
                level(p + "loglevel", o.m_watchtower_loglevels);
            }
            num("watchtower_block_cache_size", o.m_watchtower_block_cache_size);
            num("watchtower_error_cache_size", o.m_watchtower_error_cache_size);
            n = amount("coordinator_count");
            o.m_coordinator_endpoints.resize(n);
            o.m_coordinator_raft_endpoints.resize(n);
            for(size_t i = 0; i < n; i++) {
                auto p = "coordinator" + std::to_string(i) + "_";
                level(p + "loglevel", o.m_coordinator_loglevels);
                auto m = r.chance(4) ? r.below(14) : r.below(4);
                put(p + "count", std::to_string(m), true);
                for(size_t j = 0; j < m; j++) {
                    auto pp = p + std::to_string(j) + "_";
                    o.m_coordinator_raft_endpoints[i].push_back(ep(pp + "raft_endpoint"));
                    o.m_coordinator_endpoints[i].push_back(ep(pp + "endpoint"));
                }
            }
            num("coordinator_max_threads", o.m_coordinator_max_threads);
            num32("election_timeout_upper", o.m_election_timeout_upper);
            num32("election_timeout_lower", o.m_election_timeout_lower);
            num32("heartbeat", o.m_heartbeat);
            num32("snapshot_distance", o.m_snapshot_distance);
            num32("raft_max_batch", o.m_raft_max_batch);
            num("batch_size", o.m_batch_size);
            num("loadgen_sendtx_input_count", o.m_input_count);
            num("loadgen_sendtx_output_count", o.m_output_count);
            if(r.chance(20)) {
                o.m_input_count = 0;
                lines.erase(std::remove_if(lines.begin(), lines.end(), [](auto& l) { return l.first == "loadgen_sendtx_input_count"; }), lines.end());
                put("loadgen_sendtx_input_count", "0");
            }
            o.m_fixed_tx_mode = o.m_input_count != 0 && o.m_output_count != 0;
            if(r.chance(50)) {
                o.m_invalid_rate = static_cast<double>(r.below(1000)) / 8;
                put("loadgen_invalid_tx_rate", std::to_string(o.m_invalid_rate));
            }
            if(r.chance(50)) {
                o.m_fixed_tx_rate = static_cast<double>(r.below(1000)) / 4;
                put("loadgen_fixed_tx_rate", std::to_string(o.m_fixed_tx_rate));
            }
            num("window_size", o.m_window_size);
            num("initial_mint_count", o.m_initial_mint_count);
            num("initial_mint_value", o.m_initial_mint_value);
            num("loadgen_count", o.m_loadgen_count);
        }
    };

    // what differs, empty if nothing
    std::string diff(const cfg::options& a, const cfg::options& b) {
        std::string d;
#define CMP(f)                                                               \
    if(!(a.f == b.f)) {                                                      \
        d += std::string(" ") + #f;                                          \
    }
        CMP(m_stxo_cache_depth) CMP(m_window_size) CMP(m_input_count) CMP(m_output_count) CMP(m_invalid_rate) CMP(m_fixed_tx_rate)
        CMP(m_shard_completed_txs_cache_size) CMP(m_atomizer_endpoints) CMP(m_archiver_endpoints) CMP(m_sentinel_endpoints)
        CMP(m_watchtower_client_endpoints) CMP(m_watchtower_internal_endpoints) CMP(m_shard_endpoints) CMP(m_atomizer_raft_endpoints)
        CMP(m_batch_size) CMP(m_target_block_interval) CMP(m_atomizer_loglevels) CMP(m_election_timeout_upper) CMP(m_election_timeout_lower)
        CMP(m_heartbeat) CMP(m_snapshot_distance) CMP(m_raft_max_batch) CMP(m_shard_loglevels) CMP(m_shard_db_dirs) CMP(m_shard_ranges)
        CMP(m_seed_privkey) CMP(m_seed_value) CMP(m_seed_from) CMP(m_seed_to) CMP(m_sentinel_loglevels) CMP(m_archiver_loglevels)
        CMP(m_watchtower_loglevels) CMP(m_archiver_db_dirs) CMP(m_fixed_tx_mode) CMP(m_twophase_mode) CMP(m_locking_shard_endpoints)
        CMP(m_locking_shard_raft_endpoints) CMP(m_locking_shard_readonly_endpoints) CMP(m_coordinator_endpoints) CMP(m_coordinator_raft_endpoints)
        CMP(m_coordinator_max_threads) CMP(m_coordinator_loglevels) CMP(m_initial_mint_count) CMP(m_initial_mint_value)
        CMP(m_watchtower_block_cache_size) CMP(m_watchtower_error_cache_size) CMP(m_loadgen_count) CMP(m_sentinel_private_keys)
        CMP(m_sentinel_public_keys) CMP(m_attestation_threshold)
#undef CMP
        return d;
    }
    // the rules a usable configuration obeys
    bool usable(const cfg::options& o) {
        bool ok = o.m_sentinel_public_keys.size() >= o.m_attestation_threshold;
        if(o.m_seed_from != o.m_seed_to) {
            ok = ok && o.m_seed_from < o.m_seed_to && o.m_seed_value > 0;
        }
        if(o.m_twophase_mode) {
            return ok && !o.m_sentinel_endpoints.empty() && o.m_sentinel_endpoints.size() >= o.m_attestation_threshold && !o.m_locking_shard_endpoints.empty()
                && !o.m_coordinator_endpoints.empty();
        }
        return ok && !o.m_watchtower_client_endpoints.empty() && !o.m_archiver_endpoints.empty() && !o.m_atomizer_endpoints.empty()
            && (o.m_sentinel_endpoints.empty() || !o.m_shard_endpoints.empty());
    }
    std::string write(vh::rng& r, const lines_t& lines) {
        auto p = vh::st().scratch + "/cfg" + std::to_string(vh::st().shard);
        std::ofstream f(p, std::ios::trunc);
        for(auto& [k, v] : lines) {
            if(r.chance(5)) {
                f << (r.chance(50) ? "# note\n" : "\n");
            }
            if(r.chance(3)) {
                f << "unknown" << r.below(9) << "_key=" << (r.chance(50) ? "17" : "\"x\"") << "\n";
            }
            f << k << "=" << v << "\n";
        }
        return p;
    }

    void file_case(vh::rng& r, uint64_t c) {
        vh::guard g("configuration");
        gen m(r);
        m.all();
        auto order = m.lines;
        r.shuffle(order);
        // some settings come from the environment instead, and override
        std::vector<std::string> envs;
        for(auto& [k, v] : order) {
            if(r.chance(4)) {
                auto up = k;
                for(auto& ch : up) {
                    ch = static_cast<char>(std::toupper(ch));
                }
                setenv(up.c_str(), v.c_str(), 1);
                envs.push_back(up);
                // another value in the file, of another kind perhaps
                v = r.chance(50) ? std::to_string(r.below(100)) : q("h:1");
                vh::count("from_environment");
            }
        }
        std::string blank;
        if(r.chance(10)) {
            // set but empty: says nothing
            blank = order.empty() ? "WINDOW_SIZE" : order[r.below(order.size())].first;
            for(auto& ch : blank) {
                ch = static_cast<char>(std::toupper(ch));
            }
            if(getenv(blank.c_str()) == nullptr) {
                setenv(blank.c_str(), "", 1);
                envs.push_back(blank);
                vh::count("empty_environment");
            }
        }
        auto path = write(r, order);
        auto res = cfg::read_options(path);
        if(std::holds_alternative<std::string>(res)) {
            vh::report("valid-refused", "a complete configuration of " + std::to_string(order.size()) + " lines is refused: " + std::get<std::string>(res));
        } else {
            auto d = diff(std::get<cfg::options>(res), m.o);
            VCHECK(d.empty(), "options-differ", "options read differ from those written in" << d);
            vh::count("files_read");
        }
        auto loaded = cfg::load_options(path);
        bool want = usable(m.o);
        bool got = std::holds_alternative<cfg::options>(loaded);
        VCHECK(got == want, got ? "unusable-accepted" : "usable-refused",
               (got ? std::string("accepted an unusable configuration") : "refused a usable configuration: " + std::get<std::string>(loaded)) << " 2pc=" << m.o.m_twophase_mode << " sentinels=" << m.o.m_sentinel_endpoints.size()
                                                                                                                                               << " keys=" << m.o.m_sentinel_public_keys.size() << " threshold=" << m.o.m_attestation_threshold
                                                                                                                                               << " seed=" << m.o.m_seed_from << ".." << m.o.m_seed_to);
        VCHECK(cfg::check_options(m.o).has_value() == !want, "check-options", "check_options " << (want ? "refuses a usable" : "accepts an unusable") << " configuration");
        if(got) {
            auto d = diff(std::get<cfg::options>(loaded), m.o);
            VCHECK(d.empty(), "options-differ", "options loaded differ from those written in" << d);
        }
        vh::count(want ? "usable" : "unusable");
        for(auto& e : envs) {
            unsetenv(e.c_str());
        }
        // one required setting less
        if(!m.required.empty()) {
            std::vector<size_t> req(m.required.begin(), m.required.end());
            auto gone = m.lines[std::min(req[r.below(req.size())], m.lines.size() - 1)].first;
            bool is_req = false;
            for(auto i : req) {
                is_req = is_req || m.lines[i].first == gone;
            }
            if(is_req) {
                lines_t less;
                for(auto& l : m.lines) {
                    if(l.first != gone) {
                        less.push_back(l);
                    }
                }
                r.shuffle(less);
                auto res2 = cfg::load_options(write(r, less));
                VCHECK(std::holds_alternative<std::string>(res2) && !std::get<std::string>(res2).empty(), "missing-accepted", "a configuration without " << gone << " is accepted");
                vh::count("missing");
            }
        }
        // a key of the seeder cut short, or too long
        if(m.o.m_seed_from != m.o.m_seed_to && m.o.m_seed_privkey.has_value()) {
            lines_t odd = m.lines;
            auto hex = hx(m.o.m_seed_privkey->data(), 32);
            auto len = r.chance(50) ? (r.chance(50) ? 63 : 65) : (r.chance(50) ? r.below(64) : 65 + r.below(80));
            for(auto& [k, v] : odd) {
                if(k == "seed_privkey") {
                    v = q((hex + hex + hex).substr(0, len));
                }
            }
            r.shuffle(odd);
            auto res3 = cfg::read_options(write(r, odd));
            VCHECK(std::holds_alternative<std::string>(res3) && !std::get<std::string>(res3).empty(), "key-length", "a private key of " << len << " digits is accepted");
            vh::count("bad_keys");
        }
        // ranges
        for(size_t i = 0; i < 20; i++) {
            cfg::shard_range_t range{static_cast<uint8_t>(r.below(256)), static_cast<uint8_t>(r.below(256))};
            if(range.first > range.second) {
                std::swap(range.first, range.second);
            }
            cbdc::hash_t h{};
            r.bytes(h.data(), h.size());
            if(r.chance(50)) {
                h[0] = static_cast<unsigned char>((r.chance(50) ? range.first : range.second) + static_cast<int>(r.below(3)) - 1);
            }
            bool in = static_cast<int>(h[0]) >= static_cast<int>(range.first) && static_cast<int>(h[0]) <= static_cast<int>(range.second);
            VCHECK(cfg::hash_in_shard_range(range, h) == in, "shard-range", "first byte " << static_cast<int>(h[0]) << " in range " << static_cast<int>(range.first) << "-" << static_cast<int>(range.second));
            vh::count("ranges");
        }
        {
            cfg::options o;
            o.m_loadgen_count = 1 + r.below(10);
            o.m_seed_from = r.below(1000000);
            o.m_seed_to = o.m_seed_from + o.m_loadgen_count * (1 + r.below(1000)) + r.below(o.m_loadgen_count);
            size_t next = o.m_seed_from;
            size_t sz = 0;
            for(size_t i = 0; i < o.m_loadgen_count; i++) {
                auto [a, b] = cfg::loadgen_seed_range(o, i);
                VCHECK(a >= next && b >= a && b < o.m_seed_to && (i == 0 || b - a == sz), "seed-ranges",
                       "generator " << i << " of " << o.m_loadgen_count << " gets " << a << ".." << b << " of " << o.m_seed_from << ".." << o.m_seed_to << ", the one before ended at " << next);
                sz = b - a;
                next = b + 1;
            }
            VCHECK(o.m_seed_to - next < o.m_loadgen_count, "seed-ranges", "outputs " << next << ".." << o.m_seed_to << " belong to no generator");
        }
        vh::distinct(vh::mix(order.size(), r.next()));
        if(c < 2) {
            vh::sample("lines=" + std::to_string(order.size()) + " 2pc=" + std::to_string(m.o.m_twophase_mode) + " usable=" + std::to_string(want));
        }
    }

    // ---- values one at a time
    void value_case(vh::rng& r) {
        std::stringstream s;
        std::map<std::string, std::string> strs;
        std::map<std::string, size_t> nums;
        std::map<std::string, double> decs;
        std::map<std::string, ep_t> eps;
        for(size_t i = 0; i < 20; i++) {
            auto k = "k" + std::to_string(r.below(1000)) + (r.chance(20) ? " x" : "");
            if(strs.count(k) + nums.count(k) + decs.count(k) + eps.count(k) > 0) {
                continue;
            }
            switch(r.below(4)) {
                case 0: {
                    std::string v;
                    for(size_t j = 0; j < r.below(30); j++) {
                        v += static_cast<char>(32 + r.below(95));
                    }
                    strs[k] = v;
                    s << k << "=" << q(v) << "\n";
                    break;
                }
                case 1:
                    nums[k] = r.chance(30) ? std::array<size_t, 4>{0, 1, UINT64_MAX, 1ULL << 63}[r.below(4)] : r.next();
                    s << k << "=" << nums[k] << "\n";
                    break;
                case 2:
                    decs[k] = static_cast<double>(r.below(100000)) / 64;
                    s << k << "=" << std::fixed << decs[k] << "\n";
                    break;
                default:
                    eps[k] = an_ep(r);
                    s << k << "=" << q(ep_text(eps[k])) << "\n";
            }
        }
        cfg::parser p(s);
        for(auto& [k, v] : strs) {
            VCHECK(p.get_string(k) == v && !p.get_ulong(k).has_value() && !p.get_decimal(k).has_value(), "parse-string", "text " << v << " is read as " << p.get_string(k).value_or("(nothing)"));
        }
        for(auto& [k, v] : nums) {
            VCHECK(p.get_ulong(k) == v && !p.get_string(k).has_value() && !p.get_decimal(k).has_value(), "parse-number", "number " << v << " is read as " << p.get_ulong(k).value_or(0));
        }
        for(auto& [k, v] : decs) {
            VCHECK(p.get_decimal(k) == v && !p.get_string(k).has_value() && !p.get_ulong(k).has_value(), "parse-decimal", "decimal " << v << " is read as " << p.get_decimal(k).value_or(-1));
        }
        for(auto& [k, v] : eps) {
            VCHECK(p.get_endpoint(k) == v, "parse-endpoint", "endpoint " << ep_text(v) << " is read as something else");
        }
        VCHECK(!p.get_string("absent").has_value() && !p.get_ulong("absent").has_value() && !p.get_decimal("absent").has_value() && !p.get_endpoint("absent").has_value() && !p.get_loglevel("absent").has_value(), "absent-key",
               "a key which is not there has a value");
        vh::count("values", strs.size() + nums.size() + decs.size() + eps.size());
    }

    // ---- program arguments
    void args_case(vh::rng& r, uint64_t) {
        vh::guard g("arguments");
        cbdc::parsec::config m{};
        std::vector<std::pair<std::string, std::string>> a;
        std::set<std::string> req;
        auto put = [&](const std::string& k, const std::string& v, bool rq = false) {
            a.emplace_back(k, v);
            if(rq) {
                req.insert(k);
            }
        };
        auto host = [&] {
            auto e = an_ep(r);
            e.first.erase(std::remove_if(e.first.begin(), e.first.end(), [](char c) { return c == '=' || c == '-'; }), e.first.end());
            e.first += "h";
            return e;
        };
        auto eps = [&](const std::string& name, std::vector<ep_t>& into) {
            auto n = r.below(5);
            put(name + "_count", std::to_string(n), true);
            for(size_t i = 0; i < n; i++) {
                into.push_back(host());
                put(name + std::to_string(i) + "_endpoint", ep_text(into.back()), true);
            }
        };
        m.m_component_id = r.chance(50) ? r.below(10) : r.next();
        put("component_id", std::to_string(m.m_component_id), true);
        m.m_loglevel = cbdc::logging::log_level::trace;
        if(r.chance(50)) {
            auto i = r.below(6);
            put("loglevel", LEVELS[i]);
            m.m_loglevel = cbdc::logging::parse_loglevel(LEVELS[i]).value();
        }
        eps("ticket_machine", m.m_ticket_machine_endpoints);
        if(r.chance(50)) {
            m.m_node_id = r.below(100);
            put("node_id", std::to_string(*m.m_node_id));
        }
        auto n = r.below(13);
        put("shard_count", std::to_string(n), true);
        for(size_t i = 0; i < n; i++) {
            m.m_shard_endpoints.emplace_back();
            eps("shard" + std::to_string(i), m.m_shard_endpoints.back());
        }
        eps("agent", m.m_agent_endpoints);
        std::string broken;
        if(r.chance(50)) {
            bool e = r.chance(50);
            m.m_load_type = e ? cbdc::parsec::load_type::erc20 : cbdc::parsec::load_type::transfer;
            put("loadgen_txtype", e ? "erc20" : "transfer");
        } else if(r.chance(20)) {
            put("loadgen_txtype", "other");
            broken = "an unknown load type";
        }
        if(r.chance(50)) {
            m.m_contention_rate = static_cast<double>(r.below(1000)) / 8;
            put("contention_rate", std::to_string(m.m_contention_rate));
        }
        m.m_loadgen_accounts = 1000;
        if(r.chance(50)) {
            m.m_loadgen_accounts = r.below(100000);
            put("loadgen_accounts", std::to_string(m.m_loadgen_accounts));
        }
        if(r.chance(50)) {
            bool l = r.chance(50);
            m.m_runner_type = l ? cbdc::parsec::runner_type::lua : cbdc::parsec::runner_type::evm;
            put("runner_type", l ? "lua" : "evm");
        } else if(r.chance(20)) {
            put("runner_type", "jvm");
            broken = "an unknown runner";
        }
        r.shuffle(a);
        std::vector<std::string> args{"prog"};
        std::string gone;
        for(auto& [k, v] : a) {
            args.push_back("--" + k + "=" + v);
        }
        if(broken.empty() && r.chance(50)) {
            auto i = 1 + r.below(args.size() - 1);
            switch(r.below(5)) {
                case 0: {
                    std::vector<std::string> rq(req.begin(), req.end());
                    gone = rq[r.below(rq.size())];
                    broken = "no " + gone;
                    args.erase(std::remove_if(args.begin(), args.end(), [&](auto& x) { return x.rfind("--" + gone + "=", 0) == 0; }), args.end());
                    break;
                }
                case 1:
                    args[i] = args[i].substr(2);
                    broken = "an argument without dashes";
                    break;
                case 2:
                    args[i] = "--" + args[i];
                    broken = "an argument with four dashes";
                    break;
                case 3:
                    args[i] = "--flag";
                    broken = "an argument without a value";
                    break;
                default:
                    args[i] += "=again";
                    broken = "an argument with two values";
            }
        }
        std::vector<std::unique_ptr<char[]>> own;
        std::vector<char*> argv;
        for(auto& s : args) {
            own.push_back(std::make_unique<char[]>(s.size() + 1));
            std::memcpy(own.back().get(), s.c_str(), s.size() + 1);
            argv.push_back(own.back().get());
        }
        VCHECK(cfg::get_args(static_cast<int>(argv.size()), argv.data()) == args, "get-args", "the list of arguments differs");
        auto res = cbdc::parsec::read_config(static_cast<int>(argv.size()), argv.data());
        vh::count(broken.empty() ? "args_valid" : "args_broken");
        VCHECK(res.has_value() == broken.empty(), broken.empty() ? "valid-args-refused" : "broken-args-accepted", (broken.empty() ? "valid arguments are refused" : "arguments with " + broken + " are accepted") << ", " << args.size() << " arguments");
        if(res.has_value() && broken.empty()) {
            std::string d;
#define CMP(f)                                                               \
    if(!(res->f == m.f)) {                                                   \
        d += std::string(" ") + #f;                                          \
    }
            CMP(m_ticket_machine_endpoints) CMP(m_component_id) CMP(m_loglevel) CMP(m_shard_endpoints) CMP(m_node_id) CMP(m_agent_endpoints) CMP(m_runner_type) CMP(m_loadgen_accounts) CMP(m_load_type) CMP(m_contention_rate)
#undef CMP
            VCHECK(d.empty(), "args-differ", "configuration differs from the arguments in" << d);
        }
        vh::distinct(vh::mix(args.size(), r.next()));
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    if(vh::st().mode == "args") {
        vh::run_cases(args_case);
    } else {
        vh::run_cases([](vh::rng& r, uint64_t c) {
            file_case(r, c);
            value_case(r);
        });
    }
    return vh::finish();
}
