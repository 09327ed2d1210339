// Support for the monitors: seeded randomness, measured counters, violation
// and hang reporting.  Output is a line protocol on the file given by --out:
//   C <name> <n>        counter
//   D <n>               distinct non-trivial fingerprints (written at exit)
//   F <hex> ...         the fingerprints themselves (merged by the runner)
//   S <text>            sample
//   V <key>\t<detail>   violation
//   E                   clean end
#ifndef VERIF_VH_HPP
#define VERIF_VH_HPP
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
    struct rng {
        uint64_t s;
        explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {
            next();
            next();
        }
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        // uniform in [0, n)
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        // uniform in [lo, hi]
        uint64_t in(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
        bool chance(unsigned pct) { return below(100) < pct; }
        template<typename V>
        auto& pick(V& v) {
            return v[below(v.size())];
        }
        template<typename V>
        void shuffle(V& v) {
            for(size_t i = v.size(); i > 1; i--) {
                std::swap(v[i - 1], v[below(i)]);
            }
        }
        void bytes(void* p, size_t n) {
            auto* b = static_cast<unsigned char*>(p);
            for(size_t i = 0; i < n; i++) {
                b[i] = static_cast<unsigned char>(next());
            }
        }
    };

    struct state {
        std::mutex m;
        uint64_t seed{1};
        uint64_t shard{0};
        uint64_t cases{100};
        uint64_t first{0};
        bool thorough{false};
        std::string mode;
        std::string outpath{"/dev/stderr"};
        std::string scratch{"/tmp"};
        std::map<std::string, uint64_t> counters;
        std::unordered_set<uint64_t> prints;
        std::vector<std::string> samples;
        std::vector<std::pair<std::string, std::string>> violations;
        std::atomic<uint64_t> cur_case{0};
        std::atomic<uint64_t> progress{0};
        std::atomic<int> wd_on{0};
        std::string wd_what;
        uint64_t wd_limit_ms{60000};
        std::vector<std::string> history;
    };
    inline state& st() {
        static state* s = new state();
        return *s;
    }

    inline std::string clean(std::string s) {
        for(auto& c : s) {
            if(c == '\n' || c == '\r') {
                c = '~';
            }
            if(c == '\t') {
                c = ' ';
            }
        }
        return s;
    }

    inline void flush(bool end) {
        auto& s = st();
        FILE* f = fopen(s.outpath.c_str(), "w");
        if(f == nullptr) {
            _exit(90);
        }
        for(auto& [k, v] : s.counters) {
            fprintf(f, "C %s %llu\n", k.c_str(), (unsigned long long)v);
        }
        for(auto& x : s.samples) {
            fprintf(f, "S %s\n", clean(x).c_str());
        }
        size_t n = 0;
        for(auto p : s.prints) {
            if(n % 16 == 0) {
                fprintf(f, "%sF", n == 0 ? "" : "\n");
            }
            fprintf(f, " %llx", (unsigned long long)p);
            n++;
        }
        fprintf(f, "\n");
        for(auto& [k, d] : s.violations) {
            fprintf(f, "V %s\t%s\n", clean(k).c_str(), clean(d).c_str());
        }
        if(end) {
            fprintf(f, "E\n");
        }
        fclose(f);
    }

    inline void count(const std::string& name, uint64_t n = 1) {
        auto& s = st();
        std::unique_lock<std::mutex> l(s.m);
        s.counters[name] += n;
    }
    inline void distinct(uint64_t fp) {
        auto& s = st();
        std::unique_lock<std::mutex> l(s.m);
        if(s.prints.size() < 200000) {
            s.prints.insert(fp);
        }
    }
    inline void sample(const std::string& t) {
        auto& s = st();
        std::unique_lock<std::mutex> l(s.m);
        if(s.samples.size() < 4) {
            s.samples.push_back(t.substr(0, 1500));
        }
    }
    inline uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdULL;
    }
    inline uint64_t hashs(const std::string& t, uint64_t h = 1469598103934665603ULL) {
        for(unsigned char c : t) {
            h = (h ^ c) * 1099511628211ULL;
        }
        return h;
    }
    // Report: key is stable (names the kind of failure), detail is the case.
    // Findings of this thread collected instead of reported, while set.
    inline std::vector<std::pair<std::string, std::string>>*& trial() {
        thread_local std::vector<std::pair<std::string, std::string>>* t{nullptr};
        return t;
    }
    inline void report(const std::string& key, const std::string& detail) {
        if(auto* t = trial()) {
            t->emplace_back(key, detail);
            return;
        }
        auto& s = st();
        std::unique_lock<std::mutex> l(s.m);
        size_t same = 0;
        for(auto& v : s.violations) {
            same += v.first == key ? 1 : 0;
        }
        s.counters["violations_raw"]++;
        if(same < 3 && s.violations.size() < 40) {
            std::ostringstream o;
            o << "seed=" << s.seed << " shard=" << s.shard
              << " case=" << s.cur_case.load() << " mode=" << s.mode << " "
              << detail;
            s.violations.emplace_back(key, o.str().substr(0, 6000));
            fprintf(stderr, "REPORT %s: %s\n", key.c_str(), o.str().substr(0, 4000).c_str());
        }
    }
    // What `f` finds counts if it is still so after `secs` seconds.
    template<typename F>
    void eventually(int secs, F&& f) {
        std::vector<std::pair<std::string, std::string>> found;
        for(int i = 0; i <= secs * 4; i++) {
            found.clear();
            trial() = &found;
            f();
            trial() = nullptr;
            if(found.empty()) {
                return;
            }
            count("looked_again");
            st().progress++;
            std::this_thread::sleep_for(std::chrono::milliseconds(250));
        }
        for(auto& [k, d] : found) {
            report(k, d);
        }
    }
    // End at once with what is known: used when the process cannot go on.
    [[noreturn]] inline void die(const std::string& key, const std::string& detail) {
        report(key, detail);
        {
            std::unique_lock<std::mutex> l(st().m);
            flush(true);
        }
        _exit(10);
    }
    inline void tick() { st().progress++; }

    // Hang detection: arm() starts watching; progress (tick) within limit.
    inline void watchdog_thread() {
        std::thread([] {
            auto& s = st();
            uint64_t last = s.progress.load();
            auto since = std::chrono::steady_clock::now();
            for(;;) {
                std::this_thread::sleep_for(std::chrono::milliseconds(100));
                auto p = s.progress.load();
                auto now = std::chrono::steady_clock::now();
                if(p != last || s.wd_on.load() == 0) {
                    last = p;
                    since = now;
                    continue;
                }
                auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
                              now - since)
                              .count();
                if(static_cast<uint64_t>(ms) > s.wd_limit_ms) {
                    std::string what;
                    {
                        std::unique_lock<std::mutex> l(s.m);
                        what = s.wd_what;
                    }
                    report("hang:" + what,
                           "no progress for " + std::to_string(ms) + " ms");
                    {
                        std::unique_lock<std::mutex> l(s.m);
                        flush(false);
                    }
                    _exit(12);
                }
            }
        }).detach();
    }
    struct guard {
        std::string prev;
        explicit guard(const std::string& what) {
            auto& s = st();
            std::unique_lock<std::mutex> l(s.m);
            prev = s.wd_what;
            s.wd_what = what;
            s.wd_on++;
            s.progress++;
        }
        ~guard() {
            auto& s = st();
            std::unique_lock<std::mutex> l(s.m);
            s.wd_what = prev;
            s.wd_on--;
            s.progress++;
        }
    };

    inline void init(int argc, char** argv) {
        setvbuf(stdout, nullptr, _IOLBF, 0);
        auto& s = st();
        for(int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() -> std::string {
                return i + 1 < argc ? argv[++i] : "";
            };
            if(a == "--seed") {
                s.seed = strtoull(val().c_str(), nullptr, 10);
            } else if(a == "--shard") {
                s.shard = strtoull(val().c_str(), nullptr, 10);
            } else if(a == "--cases") {
                s.cases = strtoull(val().c_str(), nullptr, 10);
            } else if(a == "--first") {
                s.first = strtoull(val().c_str(), nullptr, 10);
            } else if(a == "--mode") {
                s.mode = val();
            } else if(a == "--out") {
                s.outpath = val();
            } else if(a == "--scratch") {
                s.scratch = val();
            } else if(a == "--thorough") {
                s.thorough = true;
            }
        }
        watchdog_thread();
    }
    inline rng case_rng(uint64_t c) {
        auto& s = st();
        uint64_t h = mix(mix(mix(0xabcdef, s.seed), s.shard), c);
        h = mix(h, hashs(s.mode));
        return rng(h);
    }
    // Runs cases [first, first+cases).
    template<typename F>
    inline void run_cases(F&& f) {
        auto& s = st();
        for(uint64_t c = s.first; c < s.first + s.cases; c++) {
            s.cur_case = c;
            s.progress++;
            // The case in progress, for the runner to name after a crash.
            if(FILE* fp = fopen((s.outpath + ".cur").c_str(), "w")) {
                fprintf(fp, "%llu\n", (unsigned long long)c);
                fclose(fp);
            }
            auto r = case_rng(c);
            f(r, c);
            count("evaluations");
            if(s.violations.size() >= 12) {
                break;
            }
        }
    }
    inline int finish() {
        auto& s = st();
        std::unique_lock<std::mutex> l(s.m);
        flush(true);
        _exit(0);
    }
    // Leaves LeakSanitizer enabled when clean exit is wanted.
    inline int finish_exit() {
        auto& s = st();
        {
            std::unique_lock<std::mutex> l(s.m);
            flush(true);
        }
        return 0;
    }
}

#define VCHECK(cond, key, detail)                                            \
    do {                                                                     \
        if(!(cond)) {                                                        \
            std::ostringstream vh_o__;                                       \
            vh_o__ << detail;                                                \
            ::vh::report(key, vh_o__.str());                                 \
        }                                                                    \
    } while(0)
#endif
