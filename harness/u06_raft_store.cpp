// The files a replicated component keeps for Raft: the log (log_store) and
// the configuration and vote (state_manager).
//   ""        the log against a model, across restarts and crashes at any
//             system call that changes files
//   "threads" the log used by several threads
//   "state"   configuration and vote, with crashes and failing writes
// Each life of the store is a process of its own, so that a crash loses what
// a crash loses.
#include "util/raft/log_store.hpp"
#include "util/raft/state_manager.hpp"
#include "vh.hpp"

#include "hfile.hpp"

namespace {
    using nuraft::ptr;
    struct rec {
        uint64_t term{};
        int type{1};
        std::string data;
        bool operator==(const rec&) const = default;
    };
    struct model {
        uint64_t start{1};
        uint64_t next{1};
        std::map<uint64_t, rec> e;
        bool operator==(const model&) const = default;
        [[nodiscard]] std::string str() const {
            return "[" + std::to_string(start) + "," + std::to_string(next) + ") holding " + std::to_string(e.size());
        }
    };
    enum kind { APPEND, WRITE_AT, COMPACT, TRANSFER, FLUSH, READ, REOPEN };
    struct op {
        kind k{};
        int s{}; // which of the two stores
        uint64_t a{};
        uint64_t b{};
        rec r;
        [[nodiscard]] std::string str() const {
            static const char* n[] = {"append", "write_at", "compact", "apply_pack", "flush", "read", "reopen"};
            return std::string(n[k]) + "(" + std::to_string(s) + "," + std::to_string(a) + "," + std::to_string(b) + ")";
        }
    };
    void advance(std::array<model, 2>& m, const op& o) {
        auto& x = m[o.s];
        switch(o.k) {
            case APPEND:
                x.e[x.next++] = o.r;
                break;
            case WRITE_AT:
                x.e.erase(x.e.lower_bound(o.a), x.e.end());
                x.e[o.a] = o.r;
                x.next = o.a + 1;
                break;
            case COMPACT:
                x.e.erase(x.e.begin(), x.e.upper_bound(o.a));
                x.start = o.a + 1;
                x.next = std::max(x.next, x.start);
                break;
            case TRANSFER: {
                // from the other store's [a, b)
                auto& y = m[1 - o.s];
                if(o.b == o.a) {
                    break;
                }
                if(x.e.empty()) {
                    x.start = o.a;
                }
                for(auto i = o.a; i < o.b; i++) {
                    x.e[i] = y.e[i];
                }
                x.next = o.b;
                break;
            }
            default:
                break;
        }
    }

    ptr<nuraft::log_entry> entry(const rec& r) {
        auto b = nuraft::buffer::alloc(r.data.size());
        memcpy(b->data_begin(), r.data.data(), r.data.size());
        return nuraft::cs_new<nuraft::log_entry>(r.term, b, static_cast<nuraft::log_val_type>(r.type));
    }
    std::string same(const ptr<nuraft::log_entry>& g, const rec& r) {
        if(!g) {
            return "no object";
        }
        if(g->get_term() != r.term) {
            return "term " + std::to_string(g->get_term()) + " for " + std::to_string(r.term);
        }
        if(g->get_val_type() != r.type) {
            return "another type";
        }
        auto b = g->get_buf_ptr();
        if(b == nullptr) {
            return r.data.empty() ? "" : "no content";
        }
        if(b->pos() != 0 || b->size() != r.data.size() || memcmp(b->data_begin(), r.data.data(), r.data.size()) != 0) {
            return "other content";
        }
        return "";
    }
    bool null(const ptr<nuraft::log_entry>& g) {
        return g && g->get_term() == 0 && g->is_buf_null();
    }
    // "" if the store is what the model says.
    std::string differs(cbdc::raft::log_store& s, const model& m, vh::rng* r) {
        if(s.start_index() != m.start) {
            return "start_index is " + std::to_string(s.start_index()) + " of " + m.str();
        }
        if(s.next_slot() != m.next) {
            return "next_slot is " + std::to_string(s.next_slot()) + " of " + m.str();
        }
        auto last = s.last_entry();
        if(m.e.empty() ? !null(last) : !same(last, m.e.rbegin()->second).empty()) {
            return "last_entry of " + m.str();
        }
        auto lo = m.start > 3 ? m.start - 3 : 1;
        for(auto i = lo; i < m.next + 3; i++) {
            if(r != nullptr && !r->chance(20)) {
                continue;
            }
            auto g = s.entry_at(i);
            auto it = m.e.find(i);
            if(it == m.e.end()) {
                if(!null(g)) {
                    return "an entry at " + std::to_string(i) + " of " + m.str();
                }
                if(s.term_at(i) != 0) {
                    return "a term at " + std::to_string(i) + " of " + m.str();
                }
            } else {
                auto d = same(g, it->second);
                if(!d.empty()) {
                    return "entry_at " + std::to_string(i) + " of " + m.str() + ": " + d;
                }
                if(s.term_at(i) != it->second.term) {
                    return "term_at " + std::to_string(i);
                }
            }
            g_sh->reads++;
        }
        if(!m.e.empty()) {
            auto a = r != nullptr ? r->in(m.start, m.next) : m.start;
            auto b = r != nullptr ? r->in(a, m.next) : m.next;
            auto v = s.log_entries(a, b);
            if(!v || v->size() != b - a) {
                return "log_entries gives another number of entries";
            }
            for(auto i = a; i < b; i++) {
                auto d = same((*v)[i - a], m.e.at(i));
                if(!d.empty()) {
                    return "log_entries " + std::to_string(i) + " of " + m.str() + ": " + d;
                }
                g_sh->reads++;
            }
        }
        g_sh->checked++;
        return "";
    }

    rec random_rec(vh::rng& r, uint64_t& term, bool big) {
        rec x;
        term += r.chance(10) ? r.in(1, 5) : 0;
        x.term = r.chance(2) ? r.next() : term;
        x.type = r.chance(15) ? 2 : 1;
        auto n = r.chance(5) ? 0 : r.chance(80) ? r.below(200) : r.below(40000);
        if(big && r.chance(40)) {
            n = 200000 + r.below(300000);
        }
        x.data.resize(n);
        r.bytes(x.data.data(), n);
        return x;
    }
    std::string history(const std::vector<op>& ops, uint64_t upto) {
        std::string s;
        for(uint64_t i = upto > 12 ? upto - 12 : 0; i <= upto && i < ops.size(); i++) {
            s += ops[i].str() + " ";
        }
        return s;
    }

    void log_case(vh::rng& r, uint64_t c) {
        vh::guard g("log store");
        auto dir = vh::st().scratch + "/l" + std::to_string(c);
        std::filesystem::create_directory(dir);
        std::array<model, 2> m;
        // What the stores may hold after the last life.
        std::vector<std::array<model, 2>> alt{m};
        uint64_t term = r.in(1, 3);
        auto lives = r.in(2, 6);
        auto big = r.chance(3);
        uint64_t fp = 0;
        uint64_t opening = 0;
        for(uint64_t l = 0; l < lives && vh::st().violations.empty(); l++) {
            // The operations of this life, from each of the possible states
            // on; the process finds out which it is.
            std::vector<std::vector<op>> todo;
            auto n = r.below(big ? 60 : 40);
            std::string what;
            for(auto& from : alt) {
                auto x = from;
                std::vector<op> ops;
                for(uint64_t i = 0; i < n; i++) {
                    op o;
                    o.s = r.chance(80) ? 0 : 1;
                    auto& y = x[o.s];
                    auto& z = x[1 - o.s];
                    auto k = r.below(100);
                    if(k < 50) {
                        o.k = APPEND;
                        o.r = random_rec(r, term, big);
                    } else if(k < 62) {
                        o.k = WRITE_AT;
                        o.a = r.chance(30) ? y.next : r.in(y.start, y.next);
                        o.r = random_rec(r, term, big);
                    } else if(k < 70) {
                        o.k = COMPACT;
                        // A snapshot taken here, or one from elsewhere which
                        // is ahead of the log.
                        o.a = r.chance(60) ? y.start + r.below(y.next - y.start + 1) : r.chance(50) ? y.next - 1 + r.below(8) : y.next - 1;
                        if(o.a < y.start) {
                            o.a = y.start;
                        }
                    } else if(k < 78 && !z.e.empty() && (y.e.empty() || (z.start <= y.next && y.next < z.next))) {
                        o.k = TRANSFER;
                        o.a = y.e.empty() ? std::max(y.next, z.start) : y.next;
                        if(o.a >= z.next) {
                            continue;
                        }
                        o.b = r.in(o.a, z.next);
                    } else if(k < 83) {
                        o.k = FLUSH;
                    } else if(k < 98) {
                        o.k = READ;
                        o.a = r.next();
                    } else {
                        o.k = REOPEN;
                    }
                    advance(x, o);
                    ops.push_back(o);
                }
                todo.push_back(ops);
            }
            auto crash = r.chance(65);
            // Mostly while it works, not while it is opened.
            g_left = crash ? static_cast<long>(opening > 0 && r.chance(85) ? opening + r.in(1, n + 3) : r.in(1, 40)) : -1;
            g_torn = r.chance(50) ? r.below(12) : r.below(4000);
            g_calls = 0;
            auto status = life([&] {
                g_armed = true;
                std::array<std::unique_ptr<cbdc::raft::log_store>, 2> s;
                auto open = [&](int i) {
                    s[i] = std::make_unique<cbdc::raft::log_store>();
                    if(!s[i]->load(dir + "/" + std::to_string(i))) {
                        fail("cannot be opened", "the log of store " + std::to_string(i) + " after a " + what);
                    }
                };
                open(0);
                open(1);
                std::string d;
                size_t which = alt.size();
                for(size_t i = 0; i < alt.size(); i++) {
                    std::string dd = differs(*s[0], alt[i][0], nullptr);
                    if(dd.empty()) {
                        dd = differs(*s[1], alt[i][1], nullptr);
                    }
                    if(dd.empty()) {
                        which = i;
                        break;
                    }
                    d += (d.empty() ? "" : "; nor: ") + dd;
                }
                if(which == alt.size()) {
                    fail("the log after a restart is not what was stored", d);
                }
                g_sh->match = which + 1;
                g_sh->opened = static_cast<uint64_t>(g_calls.load());
                auto x = alt[which];
                auto& ops = todo[which];
                for(uint64_t i = 0; i < ops.size(); i++) {
                    auto& o = ops[i];
                    auto& st = *s[o.s];
                    auto e = entry(o.r);
                    switch(o.k) {
                        case APPEND: {
                            auto at = st.append(e);
                            if(at != x[o.s].next) {
                                fail("append says another index", std::to_string(at) + " for " + std::to_string(x[o.s].next) + ": " + history(ops, i));
                            }
                            break;
                        }
                        case WRITE_AT:
                            st.write_at(o.a, e);
                            break;
                        case COMPACT:
                            if(!st.compact(o.a)) {
                                fail("compact failed", history(ops, i));
                            }
                            break;
                        case TRANSFER: {
                            auto p = s[1 - o.s]->pack(o.a, static_cast<int32_t>(o.b - o.a));
                            if(!p) {
                                fail("pack failed", history(ops, i));
                            }
                            if(o.b > o.a) {
                                p->pos(0);
                                st.apply_pack(o.a, *p);
                            }
                            break;
                        }
                        case FLUSH: {
                            if(!st.flush()) {
                                fail("flush failed", history(ops, i));
                            }
                            // All of the store's own log must have been synced.
                            if(big) {
                                break; // leveldb changes files
                            }
                            auto mine = dir + "/" + std::to_string(o.s) + "/";
                            for(int fd = 3; fd < 256; fd++) {
                                if(g_unsynced[fd] == 0) {
                                    continue;
                                }
                                char to[600];
                                auto len = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), to, sizeof(to) - 1);
                                if(len <= 0) {
                                    continue;
                                }
                                std::string f(to, static_cast<size_t>(len));
                                if(f.rfind(mine, 0) == 0 && f.size() > 4 && f.substr(f.size() - 4) == ".log") {
                                    fail("flush leaves what was written unsynced", f.substr(mine.size()) + " " + std::to_string(g_unsynced[fd]) + " bytes: " + history(ops, i));
                                }
                            }
                            g_sh->synced++;
                            break;
                        }
                        case READ: {
                            vh::rng q(o.a);
                            auto dd = differs(st, x[o.s], &q);
                            if(!dd.empty()) {
                                fail("the log is not what was written", dd + ": " + history(ops, i));
                            }
                            break;
                        }
                        case REOPEN:
                            s[o.s].reset();
                            open(o.s);
                            g_sh->reopened++;
                            break;
                    }
                    advance(x, o);
                    g_sh->done++;
                    auto dd = o.k == READ || o.k == FLUSH ? std::string() : s[o.s]->next_slot() != x[o.s].next || s[o.s]->start_index() != x[o.s].start ? "bounds [" + std::to_string(s[o.s]->start_index()) + "," + std::to_string(s[o.s]->next_slot()) + ") for " + x[o.s].str() : std::string();
                    if(!dd.empty()) {
                        fail("the log is not what was written", dd + ": " + history(ops, i));
                    }
                }
                for(int i = 0; i < 2; i++) {
                    auto dd = differs(*s[i], x[i], nullptr);
                    if(!dd.empty()) {
                        fail("the log is not what was written", dd + " at the end: " + history(ops, ops.size()));
                    }
                }
                g_sh->calls = static_cast<uint64_t>(g_calls.load());
                s[0].reset();
                s[1].reset();
            });
            if(status < 0) {
                vh::sample("life " + std::to_string(l) + " of " + dir);
                break;
            }
            vh::count(status == 77 ? "crashes" : "stops");
            what = status == 77 ? "crash" : "stop";
            opening = g_sh->opened;
            // What is known now.
            auto match = g_sh->match.load();
            if(match == 0) {
                // Crashed while opening: anything that was possible still is.
                vh::count("crashes_at_start");
                fp = vh::mix(fp, 1);
                continue;
            }
            auto x = alt[match - 1];
            auto& ops = todo[match - 1];
            auto done = g_sh->done.load();
            for(uint64_t i = 0; i < done; i++) {
                advance(x, ops[i]);
                vh::count("operations");
            }
            if(alt.size() > 1) {
                vh::count(match == 1 ? "interrupted_not_done" : "interrupted_done");
            }
            alt = {x};
            if(done < ops.size()) {
                auto y = x;
                advance(y, ops[done]);
                if(!(y == x)) {
                    alt.push_back(y);
                    vh::count("interrupted_writes");
                }
            }
            fp = vh::mix(vh::mix(fp, x[0].next), x[0].start);
            fp = vh::mix(fp, done);
        }
        vh::count("histories");
        vh::count("entries_compared", g_sh->reads.exchange(0));
        vh::count("stores_compared", g_sh->checked.exchange(0));
        vh::count("flushes_checked", g_sh->synced.exchange(0));
        vh::count("reopened", g_sh->reopened.exchange(0));
        vh::distinct(fp);
        std::filesystem::remove_all(dir);
    }

    // --- several threads ---
    void threads_case(vh::rng& r, uint64_t c) {
        vh::guard g("log store threads");
        auto dir = vh::st().scratch + "/t" + std::to_string(c);
        {
            cbdc::raft::log_store s;
            if(!s.load(dir)) {
                vh::report("cannot be opened", "a new log");
                return;
            }
            constexpr uint64_t size = 4000;
            // Versions of each entry: begun and finished.
            auto begun = std::make_unique<std::atomic<uint64_t>[]>(size);
            auto finished = std::make_unique<std::atomic<uint64_t>[]>(size);
            std::atomic<uint64_t> committed{0}; // never written again
            std::atomic<uint64_t> kept{1};      // compacted before
            std::atomic<bool> stop{false};
            constexpr int readers = 3;
            std::array<std::atomic<uint64_t>, readers> pinned{};
            for(auto& p : pinned) {
                p = ~0ULL;
            }
            auto make = [&](uint64_t i, uint64_t v) {
                rec x;
                x.term = v;
                x.data = std::to_string(i) + "/" + std::to_string(v) + std::string((i * 7 + v) % 90, 'x');
                return x;
            };
            auto check = [&](const ptr<nuraft::log_entry>& e, uint64_t i, uint64_t from, const char* what) {
                auto to = begun[i].load();
                if(e->get_term() < from || e->get_term() > to) {
                    vh::report("a reader saw an entry that was not there", std::string(what) + " " + std::to_string(i) + " gives version " + std::to_string(e->get_term()) + " not in " + std::to_string(from) + ".." + std::to_string(to));
                    return;
                }
                auto d = same(e, make(i, e->get_term()));
                if(!d.empty()) {
                    vh::report("a reader saw an entry that was never written", std::string(what) + " " + std::to_string(i) + ": " + d);
                }
                vh::count("entries_read");
            };
            std::vector<std::thread> ts;
            for(int t = 0; t < readers; t++) {
                ts.emplace_back([&, t, q = vh::rng(r.next())]() mutable {
                    uint64_t seen = 0;
                    while(!stop) {
                        // Hold back compaction while reading what is kept.
                        pinned[t] = 0;
                        uint64_t lo = kept;
                        pinned[t] = lo;
                        auto hi = committed.load();
                        auto k = q.below(6);
                        if(k == 0 && hi >= lo) {
                            auto a = q.in(lo, hi);
                            auto b = q.in(a, std::min(hi, a + 20));
                            auto v = s.log_entries(a, b + 1);
                            for(auto i = a; i <= b; i++) {
                                check((*v)[i - a], i, finished[i], "log_entries");
                            }
                            vh::count("ranges_read");
                        } else if(k == 1 && hi >= lo) {
                            auto i = q.in(lo, hi);
                            check(s.entry_at(i), i, finished[i], "entry_at");
                        } else if(k == 2 && hi >= lo) {
                            auto i = q.in(lo, hi);
                            auto e = make(i, finished[i]);
                            if(s.term_at(i) != e.term) {
                                vh::report("a reader saw an entry that was not there", "term_at " + std::to_string(i));
                            }
                        } else if(k == 3) {
                            auto n = s.next_slot();
                            if(n <= hi || n >= size) {
                                vh::report("next_slot went back", std::to_string(n) + " with " + std::to_string(hi) + " committed");
                            }
                            auto st = s.start_index();
                            if(st < seen) {
                                vh::report("start_index went back", std::to_string(st) + " after " + std::to_string(seen));
                            }
                            seen = st;
                        } else if(k == 4) {
                            auto e = s.last_entry();
                            if(!null(e)) {
                                auto b = e->get_buf_ptr();
                                auto i = strtoull(std::string(reinterpret_cast<char*>(b->data_begin()), b->size()).c_str(), nullptr, 10);
                                if(i < hi || i >= size) {
                                    vh::report("last_entry went back", std::to_string(i) + " with " + std::to_string(hi) + " committed");
                                } else {
                                    check(e, i, 1, "last_entry");
                                }
                            } else if(hi >= lo) {
                                vh::report("last_entry is missing", std::to_string(hi) + " committed");
                            }
                        } else {
                            auto i = q.in(lo, hi + 5);
                            auto e = s.entry_at(i);
                            if(null(e)) {
                                if(i <= hi) {
                                    vh::report("a reader missed an entry", "entry_at " + std::to_string(i));
                                }
                            } else {
                                check(e, i, 1, "entry_at");
                            }
                        }
                        pinned[t] = ~0ULL;
                        if(q.chance(20)) {
                            std::this_thread::yield();
                        }
                    }
                });
            }
            uint64_t next = 1;
            auto n = r.in(150, 500);
            std::vector<uint64_t> ver(size, 0);
            for(uint64_t k = 0; k < n; k++) {
                auto what = r.below(100);
                if(what < 70) {
                    auto v = ++ver[next];
                    begun[next] = v;
                    auto e = entry(make(next, v));
                    auto at = s.append(e);
                    if(at != next) {
                        vh::report("append says another index", std::to_string(at) + " for " + std::to_string(next));
                    }
                    finished[next] = v;
                    next++;
                } else if(what < 82 && next > committed + 1) {
                    auto i = r.in(committed + 1, next - 1);
                    auto v = ++ver[i];
                    begun[i] = v;
                    auto e = entry(make(i, v));
                    s.write_at(i, e);
                    finished[i] = v;
                    next = i + 1;
                } else if(what < 94) {
                    committed = r.in(committed, next - 1);
                } else if(what < 97 && committed > kept + 2) {
                    auto to = r.in(kept, committed - 1);
                    kept = to + 1;
                    for(auto& p : pinned) {
                        while(p <= to) {
                            std::this_thread::yield();
                        }
                    }
                    s.compact(to);
                    vh::count("compactions");
                } else {
                    s.flush();
                }
                vh::tick();
                vh::count("writes");
            }
            stop = true;
            for(auto& t : ts) {
                t.join();
            }
            if(s.next_slot() != next || s.start_index() != kept) {
                vh::report("the log is not what was written", "bounds at the end");
            }
            vh::distinct(vh::mix(next, kept));
        }
        std::filesystem::remove_all(dir);
    }

    // --- configuration and vote ---
    struct conf {
        uint64_t idx{};
        uint64_t prev{};
        std::vector<std::tuple<int, int, std::string>> s;
        bool operator==(const conf&) const = default;
    };
    struct vote {
        bool any{};
        uint64_t term{};
        int who{};
        bool operator==(const vote&) const = default;
    };
    struct files {
        conf c; // without servers: none stored
        vote v;
        bool operator==(const files&) const = default;
    };
    conf of(const nuraft::cluster_config& c) {
        conf x;
        x.idx = c.get_log_idx();
        x.prev = c.get_prev_log_idx();
        for(auto& s : c.get_servers()) {
            x.s.emplace_back(s->get_id(), s->get_priority(), s->get_endpoint());
        }
        return x;
    }
    void state_case(vh::rng& r, uint64_t c) {
        vh::guard g("state manager");
        auto dir = vh::st().scratch + "/s" + std::to_string(c);
        std::filesystem::create_directory(dir);
        std::vector<cbdc::network::endpoint_t> eps;
        conf first;
        for(uint64_t i = 0, n = r.in(1, 7); i < n; i++) {
            auto host = r.chance(50) ? "127.0.0." + std::to_string(r.below(255)) : "host-" + std::to_string(r.next() % 1000);
            auto port = static_cast<unsigned short>(r.below(65536));
            eps.emplace_back(host, port);
            first.s.emplace_back(static_cast<int>(i + 1), i == 0 ? 100 : 1, host + ":" + std::to_string(port));
        }
        auto id = static_cast<int>(r.in(1, eps.size()));
        struct act {
            int k{};
            conf c;
            vote v;
        };
        std::vector<files> alt{files{}};
        auto lives = r.in(2, 8);
        uint64_t fp = 0;
        for(uint64_t l = 0; l < lives && vh::st().violations.empty(); l++) {
            std::vector<act> todo;
            for(uint64_t i = 0, n = r.below(12); i < n; i++) {
                act a;
                a.k = static_cast<int>(r.below(6));
                a.c.idx = r.next();
                a.c.prev = r.next();
                for(uint64_t j = 0, m = r.in(1, r.chance(10) ? 400 : 8); j < m; j++) {
                    a.c.s.emplace_back(static_cast<int>(r.below(1000)), static_cast<int>(r.below(200)), std::string(r.below(60), static_cast<char>('a' + r.below(26))));
                }
                a.v.any = true;
                a.v.term = r.next() >> r.below(64);
                a.v.who = static_cast<int>(r.below(10)) - 1;
                todo.push_back(a);
            }
            auto how = r.below(100); // 0-44 crash, 45-69 failing writes, else none
            g_left = how < 45 ? static_cast<long>(r.in(1, todo.size() * 2 + 2)) : -1;
            g_fail_at = how >= 45 && how < 70 ? static_cast<long>(r.below(todo.size() + 1)) : -1;
            g_fail = r.chance(50) ? ENOSPC : EIO;
            g_torn = r.chance(40) ? 0 : r.below(60);
            auto status = life([&] {
                auto sm = std::make_unique<cbdc::raft::state_manager>(id, dir + "/log", dir + "/config.dat", dir + "/state.dat", eps);
                if(sm->server_id() != id) {
                    fail("another server id", "");
                }
                auto look = [&](std::string& d) {
                    files x;
                    auto c = sm->load_config();
                    if(!c) {
                        d = "no configuration";
                        return x;
                    }
                    x.c = of(*c);
                    auto v = sm->read_state();
                    if(v) {
                        x.v = vote{true, v->get_term(), v->get_voted_for()};
                    }
                    g_sh->checked++;
                    return x;
                };
                auto shown = [&](const files& f) {
                    auto x = f;
                    if(x.c.s.empty()) {
                        x.c = first;
                    }
                    return x;
                };
                std::string d;
                auto got = look(d);
                size_t which = alt.size();
                for(size_t i = 0; i < alt.size() && d.empty(); i++) {
                    if(got == shown(alt[i])) {
                        which = i;
                        break;
                    }
                }
                if(which == alt.size()) {
                    auto w = shown(alt[0]);
                    fail("what was saved is not what is loaded", d + (got.c == w.c ? "" : " another configuration (" + std::to_string(got.c.s.size()) + " servers at " + std::to_string(got.c.idx) + ")") + (got.v == w.v ? "" : got.v.any ? " another vote" : " no vote where one was saved"));
                }
                g_sh->match = which + 1;
                auto x = alt[which];
                g_armed = true;
                for(auto& a : todo) {
                    if(a.k < 2) {
                        nuraft::cluster_config cc(a.c.idx, a.c.prev);
                        for(auto& [i, p, e] : a.c.s) {
                            auto sc = nuraft::cs_new<nuraft::srv_config>(i, e);
                            sc->set_priority(p);
                            cc.get_servers().push_back(sc);
                        }
                        auto failing = g_fail_at == 0;
                        g_sh->may_end = failing ? 1 : 0;
                        sm->save_config(cc);
                        if(failing) {
                            // Nothing more is known than that it may have
                            // been saved.
                            end_now();
                        }
                        x.c = a.c;
                    } else if(a.k < 4) {
                        nuraft::srv_state sv(a.v.term, a.v.who);
                        auto failing = g_fail_at == 0;
                        g_sh->may_end = failing ? 1 : 0;
                        sm->save_state(sv);
                        if(failing) {
                            end_now();
                        }
                        x.v = a.v;
                    } else if(a.k == 4) {
                        auto dd = std::string();
                        if(!(look(dd) == shown(x)) || !dd.empty()) {
                            fail("what was saved is not what is loaded", "in the same process " + dd);
                        }
                    } else {
                        sm = std::make_unique<cbdc::raft::state_manager>(id, dir + "/log", dir + "/config.dat", dir + "/state.dat", eps);
                    }
                    g_sh->done++;
                }
                std::string dd;
                if(!(look(dd) == shown(x)) || !dd.empty()) {
                    fail("what was saved is not what is loaded", "at the end " + dd);
                }
            });
            if(status < 0) {
                break;
            }
            vh::count(status == 0 ? "stops" : how < 45 ? "crashes" : "failed_writes");
            auto match = g_sh->match.load();
            if(match == 0) {
                continue;
            }
            auto x = alt[match - 1];
            auto done = g_sh->done.load();
            auto one = [](files& f, const act& a) {
                if(a.k < 2) {
                    f.c = a.c;
                } else if(a.k < 4) {
                    f.v = a.v;
                }
            };
            for(uint64_t i = 0; i < done; i++) {
                one(x, todo[i]);
                vh::count("saves", todo[i].k < 4 ? 1 : 0);
            }
            if(alt.size() > 1) {
                vh::count(match == 1 ? "interrupted_not_done" : "interrupted_done");
            }
            alt = {x};
            if(done < todo.size()) {
                one(x, todo[done]);
                if(!(x == alt[0])) {
                    alt.push_back(x);
                    vh::count("interrupted_saves");
                }
            }
            fp = vh::mix(fp, done * 8 + (status == 0 ? 0 : how < 45 ? 1 : 2));
        }
        vh::count("histories");
        vh::count("files_compared", g_sh->checked.exchange(0));
        vh::distinct(fp);
        std::filesystem::remove_all(dir);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    share();
    auto& mode = vh::st().mode;
    if(mode == "threads") {
        vh::run_cases(threads_case);
    } else if(mode == "state") {
        vh::run_cases(state_case);
    } else {
        vh::run_cases(log_case);
    }
    return vh::finish();
}
