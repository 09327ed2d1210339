// P08: contracts written in Lua.
//  mode ""       the real runner on generated contracts, against a model that
//                knows what each of them does
//  mode server   the real agent server, over TCP, with brokers and shards;
//                many clients run contracts that move money, and broken ones
//  mode clients  the agent client against a server which fails or disappears
#include "hnet.hpp"
#include "psim.hpp"

#include "crypto/sha256.h"
#include "parsec/agent/client.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/runners/lua/impl.hpp"
#include "parsec/agent/runners/lua/server.hpp"
#include "util/common/keys.hpp"

#include <lua.hpp>
#include <sanitizer/allocator_interface.h>
#include <secp256k1_schnorrsig.h>
#include <unistd.h>

namespace {
    using namespace vp;
    namespace runner = cbdc::parsec::agent::runner;
    namespace agent = cbdc::parsec::agent;
    using broker_if = cbdc::parsec::broker::interface;
    using ecode = runner::interface::error_code;

    std::string compile(const std::string& src, bool strip) {
        auto* L = luaL_newstate();
        std::string out;
        if(luaL_loadbufferx(L, src.data(), src.size(), "c", "t") != LUA_OK) {
            fprintf(stderr, "harness: %s\n%s\n", lua_tostring(L, -1), src.c_str());
            abort();
        }
        lua_dump(
            L,
            [](lua_State*, const void* p, size_t n, void* ud) -> int {
                static_cast<std::string*>(ud)->append(static_cast<const char*>(p), n);
                return 0;
            },
            &out,
            strip ? 1 : 0);
        lua_close(L);
        return out;
    }
    std::string lq(const std::string& s) {
        std::string o = "\"";
        for(auto ch : s) {
            char b[8];
            snprintf(b, sizeof b, "\\%03u", static_cast<unsigned>(static_cast<unsigned char>(ch)));
            o += b;
        }
        return o + "\"";
    }
    std::string show(const std::string& s) {
        std::string o;
        for(auto ch : s.substr(0, 40)) {
            if(ch >= 32 && ch < 127) {
                o += ch;
            } else {
                char b[8];
                snprintf(b, sizeof b, "\\%02x", static_cast<unsigned>(static_cast<unsigned char>(ch)));
                o += b;
            }
        }
        return o + (s.size() > 40 ? "..(" + std::to_string(s.size()) + ")" : "");
    }
    secp256k1_context* ctx() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    struct signer {
        std::string pub;
        secp256k1_keypair kp{};
        explicit signer(vh::rng& r) {
            unsigned char sk[32];
            do {
                r.bytes(sk, 32);
            } while(secp256k1_keypair_create(ctx(), &kp, sk) != 1);
            secp256k1_xonly_pubkey x;
            (void)secp256k1_keypair_xonly_pub(ctx(), &x, nullptr, &kp);
            pub.resize(32);
            (void)secp256k1_xonly_pubkey_serialize(ctx(), reinterpret_cast<unsigned char*>(pub.data()), &x);
        }
        std::string sign(const std::string& payload) {
            CSHA256 sha;
            sha.Write(reinterpret_cast<const unsigned char*>(payload.data()), payload.size());
            cbdc::hash_t h{};
            sha.Finalize(h.data());
            std::string s(64, 0);
            (void)secp256k1_schnorrsig_sign(ctx(), reinterpret_cast<unsigned char*>(s.data()), h.data(), &kp, nullptr, nullptr);
            return s;
        }
    };

    // ---- a contract, and what it does
    enum class end_t { updates, error, refused };
    struct contract {
        std::string code;
        std::string param;
        std::map<std::string, std::string> store;
        std::vector<std::string> locks; // keys, in order
        end_t end{end_t::updates};
        std::set<ecode> codes;
        bool either{false}; // may also succeed
        std::map<std::string, std::string> updates;
        std::string what;
    };
    struct gen {
        vh::rng& r;
        contract c;
        std::string src;
        std::vector<std::pair<std::string, std::string>> vars;
        size_t next{1};
        explicit gen(vh::rng& rr) : r(rr) {}

        std::string raw(size_t max) {
            std::string s(r.below(max + 1), 0);
            r.bytes(s.data(), s.size());
            if(r.chance(60)) {
                for(auto& ch : s) {
                    ch = static_cast<char>('a' + static_cast<unsigned char>(ch) % 6);
                }
            } else if(r.chance(20)) {
                for(auto& ch : s) {
                    ch = static_cast<char>('0' + static_cast<unsigned char>(ch) % 10);
                }
            }
            return s;
        }
        // source and value
        std::pair<std::string, std::string> expr(int depth = 0) {
            switch(r.below(depth > 2 ? 2 : 8)) {
                case 0: {
                    auto s = raw(r.chance(90) ? 12 : 300);
                    return {lq(s), s};
                }
                case 1:
                    return vars[r.below(vars.size())];
                case 2: {
                    auto a = expr(depth + 1), b = expr(depth + 1);
                    return {"(" + a.first + ".." + b.first + ")", a.second + b.second};
                }
                case 3: {
                    auto a = expr(depth + 1);
                    auto i = 1 + r.below(6), j = r.below(12);
                    auto v = i > a.second.size() || j < i ? std::string() : a.second.substr(i - 1, j - i + 1);
                    return {"string.sub(" + a.first + "," + std::to_string(i) + "," + std::to_string(j) + ")", v};
                }
                case 4: {
                    auto a = expr(depth + 1);
                    auto n = r.below(4);
                    std::string v;
                    for(size_t i = 0; i < n; i++) {
                        v += a.second;
                    }
                    return {"string.rep(" + a.first + "," + std::to_string(n) + ")", v};
                }
                case 5: {
                    auto a = expr(depth + 1);
                    return {"string.reverse(" + a.first + ")", std::string(a.second.rbegin(), a.second.rend())};
                }
                case 6: {
                    auto a = expr(depth + 1);
                    return {"tostring(#" + a.first + ")", std::to_string(a.second.size())};
                }
                default: {
                    auto n = r.next() >> 1;
                    std::string v(8, 0);
                    for(size_t i = 0; i < 8; i++) {
                        v[i] = static_cast<char>(n >> (8 * i));
                    }
                    return {"string.pack(\"<I8\"," + std::to_string(n) + ")", v};
                }
            }
        }
        const std::string& value(const std::string& key) {
            auto it = c.store.find(key);
            if(it == c.store.end()) {
                it = c.store.emplace(key, r.chance(20) ? "" : raw(r.chance(95) ? 20 : 2000)).first;
            }
            return it->second;
        }
        std::string lock(const std::string& key) {
            c.locks.push_back(key);
            return value(key);
        }
        std::pair<std::string, std::string> key() {
            if(r.chance(50)) {
                auto k = "k" + std::to_string(r.below(4));
                return {lq(k), k};
            }
            return expr();
        }
        void var(const std::string& name, const std::string& v) { vars.emplace_back(name, v); }
        void signature(bool good) {
            signer s(r);
            auto payload = raw(r.chance(80) ? 30 : 3000);
            auto sig = s.sign(payload);
            auto pub = s.pub;
            bool extra = false;
            if(!good) {
                switch(r.below(9)) {
                    case 5:
                        pub += std::string(1 + r.below(40), 'x');
                        break;
                    case 6:
                        extra = true;
                        break;
                    case 7:
                        sig = s.sign("other");
                        payload = payload == "other" || r.chance(70) ? "" : payload;
                        break;
                    case 0:
                        sig[r.below(64)] ^= static_cast<char>(1U << r.below(8));
                        break;
                    case 1:
                        payload += 'x';
                        break;
                    case 2:
                        if(payload.empty()) {
                            payload = "y";
                        } else {
                            payload[r.below(payload.size())] ^= 1;
                        }
                        break;
                    case 3:
                        pub = signer(r).pub;
                        break;
                    case 4:
                        sig.resize(r.chance(50) ? 63 : 65 + r.below(40), 'x');
                        break;
                    default:
                        pub = r.chance(50) ? std::string(32, '\xff') : pub.substr(0, r.below(32));
                }
            }
            auto call = lq(pub) + "," + lq(sig) + "," + lq(payload);
            if(extra) {
                call += r.chance(50) ? ",\"\"" : ",nil,1";
            } else if(!good && r.chance(20)) {
                static const std::array<std::string, 5> bad = {"", "\"x\"", "nil,nil,nil", "{},{},{}", "1,2"};
                call = r.chance(50) ? bad[r.below(bad.size())] : call + ",\"\"";
            }
            auto n = "v" + std::to_string(next++);
            if(good && r.chance(50)) {
                src += "check_sig(" + call + ")\nlocal " + n + "=\"ok\"\n";
                var(n, "ok");
            } else {
                src += "local " + n + "=tostring((pcall(check_sig" + (call.empty() ? "" : "," + call) + ")))\n";
                var(n, good ? "true" : "false");
            }
            vh::count(good ? "good_signatures" : "bad_signatures");
        }
        void step() {
            auto n = "v" + std::to_string(next++);
            switch(r.below(10)) {
                case 0:
                case 1:
                case 2: {
                    auto k = key();
                    src += "local " + n + "=coroutine.yield(" + k.first + ")\n";
                    var(n, lock(k.second));
                    break;
                }
                case 3: {
                    auto k = key();
                    src += "local _," + n + "=pcall(coroutine.yield," + k.first + ")\n";
                    var(n, lock(k.second));
                    break;
                }
                case 4: {
                    auto k = key();
                    src += "local function f" + n + "(a) local x=coroutine.yield(a) return x end\nlocal " + n + "=f" + n + "(" + k.first + ")\n";
                    var(n, lock(k.second));
                    break;
                }
                case 5: {
                    auto k = key();
                    auto cnt = r.below(5);
                    src += "local " + n + "=\"\"\nfor i=1," + std::to_string(cnt) + " do " + n + "=" + n + "..coroutine.yield(" + k.first + "..tostring(i)) end\n";
                    std::string v;
                    for(size_t i = 1; i <= cnt; i++) {
                        v += lock(k.second + std::to_string(i));
                    }
                    var(n, v);
                    break;
                }
                case 6: {
                    // its own coroutines are its own business
                    auto e = expr();
                    src += "local " + n + "=coroutine.wrap(function() coroutine.yield(" + e.first + ") end)()\n";
                    var(n, e.second);
                    break;
                }
                case 7: {
                    auto e = expr();
                    src += "local t" + n + "={} for i=1,200 do t" + n + "[i]=string.rep(\"x\",i) end collectgarbage()\nlocal " + n + "=" + e.first + "\n";
                    var(n, e.second);
                    break;
                }
                case 8: {
                    auto a = expr(), b = expr();
                    auto k1 = key(), k2 = key();
                    src += "local " + n + "\nif " + a.first + "==" + b.first + " then " + n + "=coroutine.yield(" + k1.first + ") else " + n + "=coroutine.yield(" + k2.first + ") end\n";
                    var(n, lock(a.second == b.second ? k1.second : k2.second));
                    break;
                }
                default:
                    signature(r.chance(50));
            }
        }
        void fail(const std::string& line, std::set<ecode> codes, const std::string& what) {
            src += line + "\n";
            c.end = end_t::error;
            c.codes = std::move(codes);
            c.what = what;
        }
        void finish() {
            if(r.chance(55)) {
                src += "local res={}\n";
                auto cnt = r.below(r.chance(95) ? 6 : 60);
                for(size_t i = 0; i < cnt; i++) {
                    auto k = key();
                    auto v = expr();
                    src += "res[" + k.first + "]=" + v.first + "\n";
                    c.updates[k.second] = v.second;
                }
                src += "return res\n";
                c.what = "returns a table";
                return;
            }
            std::string good;
            for(size_t i = 0; i < r.below(4); i++) {
                good += "[\"g" + std::to_string(i) + "\"]=\"x\",";
            }
            switch(r.below(12)) {
                case 0: {
                    static const std::array<std::string, 8> errs = {"error(\"no\")", "error()", "error({})", "error(setmetatable({},{__tostring=function() error(\"x\") end}))", "local z=nil; z()", "local z=1+{}",
                                                                    "error(\"a\\0b\")", "assert(false)"};
                    fail("if true then " + errs[r.below(errs.size())] + " end", {ecode::exec_error}, "raises an error");
                    break;
                }
                case 1:
                    fail("coroutine.yield()", {ecode::yield_count}, "yields nothing");
                    break;
                case 2:
                    fail("coroutine.yield(\"a\",\"b\")", {ecode::yield_count}, "yields two keys");
                    break;
                case 3: {
                    static const std::array<std::string, 5> ys = {"nil", "true", "{}", "print", "coroutine.create(print)"};
                    fail("coroutine.yield(" + ys[r.below(ys.size())] + ")", {ecode::yield_type}, "yields something else");
                    break;
                }
                case 4:
                    fail(r.chance(50) ? "return" : "return {},{}", {ecode::result_count}, "does not return one result");
                    break;
                case 5: {
                    static const std::array<std::string, 5> rs = {"nil", "\"x\"", "12", "false", "print"};
                    fail("return " + rs[r.below(rs.size())], {ecode::result_type}, "does not return a table");
                    break;
                }
                case 6: {
                    static const std::array<std::string, 4> vs = {"true", "{}", "print", "false"};
                    fail("return {" + good + "b=" + vs[r.below(vs.size())] + "}", {ecode::result_value_type}, "a value is no string");
                    break;
                }
                case 7: {
                    static const std::array<std::string, 4> ks = {"true", "{}", "print", "false"};
                    fail("return {" + good + "[" + ks[r.below(ks.size())] + "]=\"x\"}", {ecode::result_key_type}, "a key is no string");
                    break;
                }
                case 8: {
                    static const std::array<std::string, 6> ks = {"\"a\"", "\"a\",\"b\",\"c\"", "[12]=\"x\"", "[1.5]=\"x\",[2.5]=\"y\"", "[-1]=\"a\",[1]=\"b\",[1<<40]=\"c\"", "\"p\",[\"1\"]=\"q\""};
                    fail("return {" + good + ks[r.below(ks.size())] + "}", {ecode::result_key_type}, "a key is a number");
                    c.either = true;
                    vh::count("number_keys");
                    break;
                }
                case 9:
                    fail("table.sort({3,1,2},function(a,b) coroutine.yield(\"x\") return a<b end)", {ecode::exec_error}, "yields where it cannot");
                    break;
                case 10:
                    fail("local function f() return 1+f() end f()", {ecode::exec_error}, "recurses without end");
                    break;
                default: {
                    static const std::array<std::string, 3> big = {"string.rep(\"x\",1<<62)", "string.rep(\"x\",1<<61,\"yy\")", "coroutine.wrap(function() error(\"in\") end)()"};
                    fail("local z=" + big[r.below(big.size())], {ecode::exec_error}, "asks for too much");
                }
            }
        }
        contract make() {
            c.param = raw(r.chance(90) ? 20 : 5000);
            src = "local p=...\n";
            var("p", c.param);
            auto n = r.below(r.chance(95) ? 8 : 20);
            for(size_t i = 0; i < n; i++) {
                step();
            }
            finish();
            c.code = compile(src, r.chance(50));
            if(r.chance(7)) {
                // not bytecode
                switch(r.below(4)) {
                    case 0:
                        c.code = src;
                        break;
                    case 1:
                        c.code.resize(r.below(c.code.size()));
                        break;
                    case 2:
                        c.code.clear();
                        break;
                    default:
                        c.code[1 + r.below(16)] ^= static_cast<char>(1U << r.below(8));
                }
                c.locks.clear();
                c.updates.clear();
                c.either = false;
                c.end = end_t::error;
                c.codes = {ecode::function_load};
                c.what = "is no bytecode";
            }
            return c;
        }
    };

    // ---- one contract with the runner alone
    void runner_case(vh::rng& r, uint64_t n) {
        vh::guard g("lua runner");
        gen m(r);
        auto c = m.make();
        // an answer other than a value to one of its locks
        size_t fault_at = SIZE_MAX;
        int fault = 0;
        if(!c.locks.empty() && r.chance(15)) {
            fault_at = r.below(c.locks.size());
            fault = static_cast<int>(r.below(4));
            c.locks.resize(fault_at + 1);
            c.updates.clear();
            c.either = false;
            c.end = end_t::error;
            static const std::array<ecode, 4> want = {ecode::lock_error, ecode::wounded, ecode::lock_error, ecode::internal_error};
            c.codes = {want[static_cast<size_t>(fault)]};
            c.what = "is refused a lock, " + std::to_string(fault);
            vh::count("refused_locks");
        }
        auto delivery = r.below(3);
        std::vector<std::string> locks;
        std::vector<runner::interface::run_return_type> results;
        std::deque<std::function<void()>> later;
        std::mutex mut;
        std::condition_variable cv;
        bool wrong_type = false;
        std::unique_ptr<runner::lua_runner> run;
        auto result = [&](const runner::interface::run_return_type& x) {
            results.push_back(x);
        };
        auto try_lock = [&](cbdc::parsec::broker::key_type k, cbdc::parsec::broker::lock_type t, broker_if::try_lock_callback_type cb) -> bool {
            locks.push_back(str(k));
            wrong_type = wrong_type || t != rls::lock_type::write;
            broker_if::try_lock_return_type ans;
            if(locks.size() - 1 == fault_at) {
                if(fault == 3) {
                    return false;
                }
                if(fault == 0) {
                    ans = broker_if::error_code::shard_unreachable;
                } else {
                    ans = rls::shard_error{fault == 1 ? rls::error_code::wounded : rls::error_code::internal_error, std::nullopt};
                }
            } else {
                auto it = c.store.find(str(k));
                ans = buf(it == c.store.end() ? "" : it->second);
            }
            if(delivery == 0) {
                cb(ans);
            } else {
                std::unique_lock<std::mutex> l(mut);
                later.push_back([cb, ans] {
                    cb(ans);
                });
                cv.notify_all();
            }
            return true;
        };
        bool ok = false;
        {
            run = std::make_unique<runner::lua_runner>(logger(), cbdc::parsec::config{}, buf(c.code), buf(c.param), r.chance(50), result, try_lock, nullptr, nullptr, 1 + r.below(100));
            auto pump = [&] {
                for(;;) {
                    std::function<void()> f;
                    {
                        std::unique_lock<std::mutex> l(mut);
                        if(later.empty()) {
                            return;
                        }
                        f = std::move(later.front());
                        later.pop_front();
                    }
                    f();
                }
            };
            ok = run->run();
            if(delivery == 1) {
                pump();
            } else if(delivery == 2) {
                std::thread t(pump);
                t.join();
            }
            run.reset();
        }
        auto id = c.what + ", " + std::to_string(c.locks.size()) + " locks\n" + m.src.substr(0, 1500);
        VCHECK(ok, "P08:run", "run() failed: a contract which " << id);
        VCHECK(!wrong_type, "P08:lock-type", "a lock other than a write lock was asked for: " << id);
        std::string got, want;
        for(auto& k : locks) {
            got += " " + show(k);
        }
        for(auto& k : c.locks) {
            want += " " + show(k);
        }
        VCHECK(locks == c.locks, "P08:locks", "locked" << got << " instead of" << want << ": a contract which " << id);
        VCHECK(results.size() == 1, "P08:results", results.size() << " results of a contract which " << id);
        if(results.size() == 1) {
            if(std::holds_alternative<ecode>(results[0])) {
                auto e = std::get<ecode>(results[0]);
                VCHECK(c.end == end_t::error && c.codes.count(e) == 1, "P08:error", "error " << static_cast<int>(e) << " of a contract which " << id);
                vh::count("errors");
            } else {
                std::map<std::string, std::string> u;
                for(auto& [k, v] : std::get<rls::state_update_type>(results[0])) {
                    u[str(k)] = str(v);
                }
                VCHECK(c.end == end_t::updates || c.either, "P08:no-error", "a result of a contract which " << id);
                if(c.end == end_t::updates) {
                    VCHECK(u == c.updates, "P08:updates", u.size() << " updates which differ from the " << c.updates.size() << " returned: a contract which " << id);
                    vh::count("updates", u.size());
                }
            }
        }
        vh::count("contracts");
        vh::count("locks", locks.size());
        vh::count("delivery_" + std::to_string(delivery));
        vh::distinct(vh::hashs(m.src));
        if(n < 2) {
            vh::sample("a contract which " + c.what + ": " + std::to_string(m.src.size()) + " bytes of source, " + std::to_string(c.locks.size()) + " locks, " + std::to_string(c.updates.size()) + " updates");
        }
        vh::tick();
    }

    // ---- failing check_sig does not keep memory
    // bytes allocated and not freed
    size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
    void memory_case(vh::rng& r) {
        vh::guard g("lua memory");
        // 200 failing checks of 64 KiB each
        signer s(r);
        auto sig = s.sign("other");
        auto code = compile("local p=string.rep(\"x\",65536)\nfor i=1,200 do assert(not pcall(check_sig," + lq(s.pub) + "," + lq(sig) + ",p)) end\nreturn {}\n", true);
        size_t before = 0;
        size_t results = 0;
        for(size_t i = 0; i < 24; i++) {
            if(i == 8) {
                before = in_use();
            }
            runner::lua_runner run(
                logger(),
                cbdc::parsec::config{},
                buf(code),
                buf(""),
                false,
                [&](const runner::interface::run_return_type& x) {
                    results += std::holds_alternative<rls::state_update_type>(x) ? 1 : 0;
                },
                [](auto&&...) {
                    return false;
                },
                nullptr,
                nullptr,
                1);
            (void)run.run();
        }
        auto after = in_use();
        VCHECK(results == 24, "P08:memory-run", results << " of 24 runs succeeded");
        // 16 runs * 200 * 64 KiB = 200 MiB if each were kept
        VCHECK(after < before + (100U << 20), "P08:memory", "3200 failed signature checks keep " << (after - before) / 1024 << " KiB");
        vh::count("memory_runs");
    }

    // ---- the server
    struct shaky_tm : cbdc::parsec::ticket_machine::interface {
        cbdc::parsec::ticket_machine::impl real;
        std::atomic<uint64_t> n{0};
        std::atomic<uint64_t> every{0};
        shaky_tm(size_t range) : real(logger(), range) {}
        bool get_ticket_number(get_ticket_number_callback_type cb) override {
            auto e = every.load();
            auto i = ++n;
            if(e != 0 && i % e == 0) {
                vh::count("tickets_refused");
                if(i % (2 * e) == 0) {
                    return false;
                }
                cb(error_code::request_failed);
                return true;
            }
            return real.get_ticket_number(std::move(cb));
        }
    };
    std::string u64(uint64_t n) {
        std::string v(8, 0);
        for(size_t i = 0; i < 8; i++) {
            v[i] = static_cast<char>(n >> (8 * i));
        }
        return v;
    }
    uint64_t rd(const std::string& s, size_t at) {
        uint64_t v = 0;
        for(size_t i = 0; i < 8 && at + i < s.size(); i++) {
            v |= static_cast<uint64_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
        }
        return v;
    }
    const char* PAY = R"(
local from, to, amount = string.unpack("<s4s4I8", (...))
local function account(k)
  local v = coroutine.yield(k)
  if #v == 0 then return 1000, 0 end
  return string.unpack("<I8I8", v)
end
local fb, fv = account(from)
local tb, tv = account(to)
if fb < amount then error("insufficient funds") end
return {[from] = string.pack("<I8I8", fb - amount, fv + 1), [to] = string.pack("<I8I8", tb + amount, tv + 1)}
)";
    std::string s4(const std::string& s) {
        return u64(s.size()).substr(0, 4) + s;
    }
    struct pay {
        std::string from, to;
        uint64_t amount{};
        bool committed{false};
        std::map<std::string, std::string> updates;
    };
    struct request_result {
        std::mutex m;
        std::condition_variable cv;
        size_t n{0};
        std::optional<agent::interface::exec_return_type> res;
        size_t wait() {
            std::unique_lock<std::mutex> l(m);
            cv.wait_for(l, std::chrono::seconds(90), [&] {
                return n > 0;
            });
            return n;
        }
    };
    std::shared_ptr<request_result> ask(agent::rpc::client& c, const std::string& fn, const std::string& param, bool ro, bool& sent) {
        auto rr = std::make_shared<request_result>();
        sent = c.exec(buf(fn), buf(param), ro, [rr](agent::interface::exec_return_type res) {
            std::unique_lock<std::mutex> l(rr->m);
            rr->n++;
            rr->res = std::move(res);
            rr->cv.notify_all();
        });
        return rr;
    }

    void server_case(vh::rng& r, uint64_t n) {
        vh::guard g("lua agent server");
        auto b = std::make_unique<bus>();
        auto tm = std::make_shared<shaky_tm>(1 + r.below(3));
        auto ns = 1 + r.below(3), nb = 1 + r.below(2);
        std::vector<std::shared_ptr<shard_node>> nodes;
        for(size_t i = 0; i < ns; i++) {
            nodes.push_back(std::make_shared<shard_node>(*b));
            (void)nodes.back()->start(false);
        }
        auto bad = [](const std::string& s) {
            vh::report("P08:shard-answer", s);
        };
        std::vector<std::shared_ptr<cbdc::parsec::broker::impl>> brokers;
        for(size_t i = 0; i < nb; i++) {
            std::vector<std::shared_ptr<rls::interface>> sh;
            for(auto& nd : nodes) {
                auto l = std::make_shared<remote_shard>(*b, nd);
                l->bad = bad;
                sh.push_back(l);
            }
            brokers.push_back(std::make_shared<cbdc::parsec::broker::impl>(i, sh, tm, std::make_shared<cbdc::parsec::directory::impl>(sh.size()), logger()));
        }
        std::atomic<bool> stop{false};
        std::vector<std::thread> pumps;
        for(size_t i = 0; i < 3; i++) {
            pumps.emplace_back([&, seed = r.next()] {
                vh::rng pr(seed);
                while(!stop) {
                    if(!b->step(pr)) {
                        std::unique_lock<std::mutex> l(b->m);
                        b->cv.wait_for(l, std::chrono::milliseconds(1));
                    }
                }
            });
        }
        // what a broker does for a caller, and wait for it
        auto commit_direct = [&](const std::map<std::string, std::string>& u, std::map<std::string, std::string>* read) {
            auto st = std::make_shared<std::pair<std::mutex, std::condition_variable>>();
            auto done = std::make_shared<int>(0); // 1 ok, 2 failed
            auto wait_for = [&] {
                std::unique_lock<std::mutex> l(st->first);
                st->second.wait_for(l, std::chrono::seconds(60), [&] {
                    return *done != 0;
                });
                auto x = *done;
                *done = 0;
                return x;
            };
            auto set = [st, done](int x) {
                std::unique_lock<std::mutex> l(st->first);
                *done = x;
                st->second.notify_all();
            };
            auto ticket = std::make_shared<uint64_t>(0);
            (void)brokers[0]->begin([=](broker_if::ticketnum_or_errcode_type x) {
                if(std::holds_alternative<rls::ticket_number_type>(x)) {
                    *ticket = std::get<rls::ticket_number_type>(x);
                    set(1);
                } else {
                    set(2);
                }
            });
            if(wait_for() != 1) {
                return false;
            }
            for(auto& [k, v] : u) {
                auto val = std::make_shared<std::string>();
                (void)brokers[0]->try_lock(*ticket, buf(k), rls::lock_type::write, [=](broker_if::try_lock_return_type x) {
                    if(std::holds_alternative<buffer>(x)) {
                        *val = str(std::get<buffer>(x));
                        set(1);
                    } else {
                        set(2);
                    }
                });
                if(wait_for() != 1) {
                    return false;
                }
                if(read != nullptr) {
                    (*read)[k] = *val;
                }
            }
            rls::state_update_type upd;
            if(read == nullptr) {
                for(auto& [k, v] : u) {
                    upd.emplace(buf(k), buf(v));
                }
            }
            (void)brokers[0]->commit(*ticket, upd, [=](broker_if::commit_return_type x) {
                set(x.has_value() ? 2 : 1);
            });
            if(wait_for() != 1) {
                return false;
            }
            (void)brokers[0]->finish(*ticket, [=](broker_if::finish_return_type x) {
                set(x.has_value() ? 2 : 1);
            });
            return wait_for() == 1;
        };
        // contracts stored beforehand
        std::map<std::string, std::string> init{{"pay", compile(PAY, r.chance(50))}};
        init["fails"] = compile("error(\"no\")\n", true);
        init["const"] = compile("return {const=\"changed\",acc0=\"changed\"}\n", true);
        std::vector<contract> broken;
        for(size_t i = 0; i < 4; i++) {
            contract c;
            do {
                gen m(r);
                c = m.make();
            } while(c.end != end_t::error || c.code.empty());
            init["broken" + std::to_string(i)] = c.code;
            broken.push_back(c);
        }
        std::vector<contract> fine;
        for(size_t i = 0; i < 3; i++) {
            contract c;
            do {
                gen m(r);
                c = m.make();
            } while(c.end != end_t::updates || !c.locks.empty());
            // its updates must be of keys it locked
            c.updates.clear();
            auto v = "text " + std::to_string(r.below(1000)) + std::string(1, '\0') + "end";
            auto k = "fine" + std::to_string(i) + "key";
            c.updates[k] = v;
            c.code = compile("local p=...\nlocal old=coroutine.yield(" + lq(k) + ")\nif old~=\"\" and old~=" + lq(v) + " then error(\"old\") end\nreturn {[" + lq(k) + "]=" + lq(v) + "}\n", true);
            init["fine" + std::to_string(i)] = c.code;
            fine.push_back(c);
        }
        VCHECK(commit_direct(init, nullptr), "P08:setup", "storing the contracts failed");
        {
            cbdc::parsec::config cfg{};
            std::vector<std::unique_ptr<agent::rpc::server>> servers;
            std::vector<cbdc::network::endpoint_t> eps;
            for(size_t i = 0; i < nb; i++) {
                auto ep = vn::endpoint();
                auto s = std::make_unique<agent::rpc::server>(std::make_unique<agent::rpc::server::server_type>(ep), brokers[i], logger(), cfg);
                if(!s->init()) {
                    vh::count("no_server");
                    stop = true;
                    break;
                }
                eps.push_back(ep);
                servers.push_back(std::move(s));
            }
            if(!stop) {
                if(r.chance(40)) {
                    tm->every = 5 + r.below(10);
                }
                auto na = 2 + r.below(4);
                auto nc = 2 + r.below(3);
                auto per = 6 + r.below(8);
                std::vector<std::vector<pay>> pays(nc);
                std::atomic<size_t> lost{0}, twice{0}, wrong{0};
                std::mutex wm;
                std::string why;
                auto note = [&](const std::string& s) {
                    std::unique_lock<std::mutex> l(wm);
                    wrong++;
                    why += s + "; ";
                };
                std::vector<std::thread> ths;
                for(size_t t = 0; t < nc; t++) {
                    ths.emplace_back([&, t, seed = r.next()] {
                        vh::rng cr(seed);
                        agent::rpc::client c({eps[cr.below(eps.size())]});
                        if(!c.init()) {
                            note("client init");
                            return;
                        }
                        struct out_t {
                            int kind;
                            size_t idx;
                            std::shared_ptr<request_result> rr;
                        };
                        std::vector<out_t> open;
                        auto settle = [&](out_t& o) {
                            auto k = o.rr->wait();
                            if(k == 0) {
                                lost++;
                                return;
                            }
                            std::unique_lock<std::mutex> l(o.rr->m);
                            auto& res = *o.rr->res;
                            bool ok = std::holds_alternative<agent::return_type>(res);
                            auto code = ok ? 0 : static_cast<int>(std::get<agent::interface::error_code>(res));
                            bool no_ticket = !ok && (code == static_cast<int>(agent::interface::error_code::ticket_number_assignment) || code == static_cast<int>(agent::interface::error_code::broker_unreachable));
                            std::map<std::string, std::string> u;
                            if(ok) {
                                for(auto& [kk, v] : std::get<agent::return_type>(res)) {
                                    u[str(kk)] = str(v);
                                }
                            }
                            if(no_ticket) {
                                vh::count("no_ticket");
                                if(tm->every == 0) {
                                    note("error " + std::to_string(code) + " though tickets were granted");
                                }
                                return;
                            }
                            if(o.kind == 0) {
                                auto& p = pays[t][o.idx];
                                p.committed = ok;
                                p.updates = u;
                                if(!ok && code != static_cast<int>(agent::interface::error_code::function_execution)) {
                                    note("payment failed with " + std::to_string(code));
                                }
                                vh::count(ok ? "payments" : "payments_refused");
                            } else if(o.kind == 1) {
                                if(ok && !broken[o.idx].either) {
                                    note("success of a contract which " + broken[o.idx].what);
                                }
                                vh::count("broken_runs");
                            } else if(o.kind == 2) {
                                if(!ok || u != fine[o.idx].updates) {
                                    note("contract " + std::to_string(o.idx) + " failed with " + std::to_string(code));
                                }
                                vh::count("fine_runs");
                            } else if(o.kind == 4) {
                                // whatever it says
                                vh::count("read_only_runs");
                            } else if(o.kind == 5) {
                                if(!ok || u != std::map<std::string, std::string>{{"const", "changed"}, {"acc0", "changed"}}) {
                                    note("read-only contract failed with " + std::to_string(code));
                                }
                                vh::count("read_only_runs");
                            } else {
                                if(ok) {
                                    note("success of a contract which is not there");
                                }
                                vh::count("missing_runs");
                            }
                        };
                        for(size_t i = 0; i < per; i++) {
                            bool sent = false;
                            auto kind = cr.chance(70) ? 0 : 1 + static_cast<int>(cr.below(5));
                            out_t o{kind, 0, nullptr};
                            if(kind == 0) {
                                pay p;
                                auto x = cr.below(na);
                                auto y = (x + 1 + cr.below(na - 1)) % na;
                                p.from = "acc" + std::to_string(x);
                                p.to = "acc" + std::to_string(y);
                                p.amount = cr.chance(20) ? 900 + cr.below(2000) : cr.below(100);
                                pays[t].push_back(p);
                                o.idx = pays[t].size() - 1;
                                o.rr = ask(c, "pay", s4(p.from) + s4(p.to) + u64(p.amount), false, sent);
                            } else if(kind == 1) {
                                o.idx = cr.below(broken.size());
                                o.rr = ask(c, "broken" + std::to_string(o.idx), broken[o.idx].param, false, sent);
                            } else if(kind == 2) {
                                o.idx = cr.below(fine.size());
                                o.rr = ask(c, "fine" + std::to_string(o.idx), "", false, sent);
                            } else if(kind == 4) {
                                // read-only runs change nothing
                                auto x = cr.below(na);
                                o.rr = ask(c, "pay", s4("acc" + std::to_string(x)) + s4("acc" + std::to_string((x + 1) % na)) + u64(cr.below(3)), true, sent);
                            } else if(kind == 5) {
                                o.rr = ask(c, "const", "", true, sent);
                            } else {
                                o.rr = ask(c, "nothing there" + std::to_string(cr.below(3)), "p", false, sent);
                            }
                            if(!sent) {
                                note("exec() refused a request");
                                continue;
                            }
                            open.push_back(o);
                            while(open.size() > 3 || (!open.empty() && cr.chance(40))) {
                                settle(open.front());
                                open.erase(open.begin());
                            }
                        }
                        for(auto& o : open) {
                            settle(o);
                        }
                        usleep(2000);
                        for(auto& o : open) {
                            std::unique_lock<std::mutex> l(o.rr->m);
                            twice += o.rr->n > 1 ? 1 : 0;
                        }
                    });
                }
                for(auto& t : ths) {
                    t.join();
                }
                tm->every = 0;
                VCHECK(lost == 0, "P08:no-answer", lost << " requests were never answered");
                VCHECK(twice == 0, "P08:answered-twice", twice << " requests were answered more than once");
                VCHECK(wrong == 0, "P08:wrong-answer", why.substr(0, 600));
                if(lost == 0) {
                    // every payment that succeeded, and no other, is in the accounts
                    std::map<std::string, std::string> accs, read;
                    std::map<std::string, std::map<uint64_t, std::pair<uint64_t, int64_t>>> vers;
                    for(size_t i = 0; i < na; i++) {
                        accs["acc" + std::to_string(i)] = "";
                    }
                    for(auto& [k, v] : fine[0].updates) {
                        accs[k] = "";
                    }
                    for(size_t i = 0; i < 30; i++) {
                        accs.emplace("k" + std::to_string(i % 4), "");
                    }
                    VCHECK(commit_direct(accs, &read), "P08:lock-leak", "a key stayed locked after every request was answered");
                    size_t done = 0;
                    for(auto& v : pays) {
                        for(auto& p : v) {
                            if(!p.committed) {
                                continue;
                            }
                            done++;
                            VCHECK(p.updates.size() == 2 && p.updates.count(p.from) == 1 && p.updates.count(p.to) == 1, "P08:payment-result", "the result of a payment is not of its two accounts");
                            for(auto& [k, s] : p.updates) {
                                auto delta = static_cast<int64_t>(p.amount) * (k == p.from ? -1 : 1);
                                auto [it, ins] = vers[k].emplace(rd(s, 8), std::make_pair(rd(s, 0), delta));
                                VCHECK(ins, "P08:payment-lost", "two payments produced version " << rd(s, 8) << " of " << k);
                            }
                        }
                    }
                    for(size_t i = 0; i < na; i++) {
                        auto k = "acc" + std::to_string(i);
                        int64_t bal = 1000;
                        uint64_t at = 0;
                        for(auto& [v, x] : vers[k]) {
                            VCHECK(v == at + 1, "P08:payment-unknown", "version " << at + 1 << " of " << k << " comes from no payment that was reported done");
                            bal += x.second;
                            VCHECK(static_cast<int64_t>(x.first) == bal && bal >= 0, "P08:payment-balance", "version " << v << " of " << k << " is " << x.first << " after payments that leave " << bal);
                            at = v;
                        }
                        auto s = read[k];
                        auto have = s.empty() ? std::make_pair<uint64_t, uint64_t>(1000, 0) : std::make_pair(rd(s, 0), rd(s, 8));
                        VCHECK(have.first == static_cast<uint64_t>(bal) && have.second == at, "P08:payment-final", k << " holds " << have.first << " at version " << have.second << " instead of " << bal << " at " << at);
                    }
                    vh::count("accounts_checked", na);
                    if(n % 4 == 0) {
                        // requests which ended take no memory
                        agent::rpc::client c({eps[0]});
                        VCHECK(c.init(), "P08:client-init", "the client does not connect");
                        size_t before = 0;
                        for(size_t i = 0; i < 240; i++) {
                            if(i == 80) {
                                usleep(50000);
                                before = in_use();
                            }
                            bool sent = false;
                            auto rr = ask(c, i % 2 == 0 ? "not there" : "fails", "", false, sent);
                            VCHECK(sent && rr->wait() == 1, "P08:no-answer", "a request was not answered");
                            vh::tick();
                        }
                        size_t after = 0;
                        for(size_t i = 0; i < 50; i++) {
                            usleep(20000);
                            after = in_use();
                            if(after < before + 500000) {
                                break;
                            }
                        }
                        vh::count("memory_checked");
                        VCHECK(before == 0 || after < before + 1000000, "P08:request-memory", "160 failed requests keep " << after - before << " bytes");
                    }
                    vh::distinct(vh::mix(b->order, done));
                }
            }
            // let the server forget its finished agents
            for(size_t i = 0; i < 20; i++) {
                usleep(1000);
            }
        }
        stop = true;
        for(auto& t : pumps) {
            t.join();
        }
        vh::count("server_runs");
        if(n < 2) {
            vh::sample("shards=" + std::to_string(ns) + " agent servers=" + std::to_string(nb) + " messages=" + std::to_string(b->delivered));
        }
        vh::tick();
    }

    // ---- the client when its server fails
    using raw_server = cbdc::rpc::async_tcp_server<agent::rpc::request, agent::rpc::response>;
    void client_case(vh::rng& r, uint64_t) {
        vh::guard g("agent client");
        auto ep = vn::endpoint();
        auto srv = std::make_unique<raw_server>(ep);
        std::mutex m;
        std::vector<raw_server::response_callback_type> held;
        auto k = 1 + r.below(12);
        std::vector<uint64_t> fate;
        for(size_t i = 0; i < k; i++) {
            fate.push_back(r.below(4));
        }
        srv->register_handler_callback([&](agent::rpc::request req, raw_server::response_callback_type cb) {
            std::unique_lock<std::mutex> l(m);
            switch(fate[std::stoul(str(req.m_param).substr(1))]) {
                case 0:
                    l.unlock();
                    cb(std::nullopt);
                    return true;
                case 1:
                    return false;
                case 2:
                    held.push_back(cb);
                    return true;
                default: {
                    l.unlock();
                    agent::return_type u;
                    u.emplace(req.m_function, req.m_param);
                    cb(agent::rpc::response{u});
                    return true;
                }
            }
        });
        if(!srv->init()) {
            vh::count("no_server");
            return;
        }
        auto c = std::make_unique<agent::rpc::client>(std::vector<cbdc::network::endpoint_t>{ep});
        VCHECK(c->init(), "P08:client-init", "the client does not connect");
        std::vector<std::pair<std::string, std::shared_ptr<request_result>>> open;
        for(size_t i = 0; i < k; i++) {
            bool sent = false;
            auto p = "p" + std::to_string(i);
            auto rr = ask(*c, "fn", p, r.chance(50), sent);
            if(sent) {
                open.emplace_back(p, rr);
            }
        }
        // wait for the answers, or not
        bool patient = r.chance(70);
        if(patient) {
            for(auto& [p, rr] : open) {
                if(fate[std::stoul(p.substr(1))] != 2) {
                    VCHECK(rr->wait() == 1, "P08:client-no-answer", "a request of fate " << fate[std::stoul(p.substr(1))] << " was not answered");
                }
            }
        } else {
            usleep(static_cast<useconds_t>(r.below(3000)));
        }
        if(r.chance(50)) {
            srv.reset();
            vh::count("servers_lost");
        }
        c.reset();
        srv.reset();
        held.clear();
        for(auto& [p, rr] : open) {
            std::unique_lock<std::mutex> l(rr->m);
            VCHECK(rr->n <= 1, "P08:client-answers", rr->n << " answers to one request");
            if(rr->n == 0) {
                vh::count("client_silence");
                continue;
            }
            auto ft = fate[std::stoul(p.substr(1))];
            VCHECK(ft == 3 || std::holds_alternative<agent::interface::error_code>(*rr->res), "P08:client-success", "success of a request which was not answered, or failed by the server");
            if( std::holds_alternative<agent::return_type>(*rr->res)) {
                auto& u = std::get<agent::return_type>(*rr->res);
                VCHECK(u.size() == 1 && str(u.begin()->first) == "fn" && str(u.begin()->second) == p, "P08:client-content", "an answer is of another request");
                vh::count("client_answers");
            } else {
                VCHECK(ft != 3 && std::get<agent::interface::error_code>(*rr->res) != agent::interface::error_code::retry, "P08:client-error", "error " << static_cast<int>(std::get<agent::interface::error_code>(*rr->res)) << " of a request of fate " << ft);
                vh::count("client_errors");
            }
        }
        vh::distinct(vh::mix(k, r.next()));
        vh::tick();
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    auto& mode = vh::st().mode;
    if(mode == "server") {
        vh::run_cases(server_case);
    } else if(mode == "clients") {
        vh::run_cases(client_case);
    } else {
        vh::run_cases([](vh::rng& r, uint64_t c) {
            for(size_t i = 0; i < 5; i++) {
                runner_case(r, c);
            }
            if(c % 50 == 0) {
                memory_case(r);
            }
        });
    }
    return vh::finish();
}
