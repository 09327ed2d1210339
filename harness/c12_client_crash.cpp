// A client whose process ends at any call that changes its files, or whose
// disk refuses writes.  Nothing it had may be lost.
#include "uhs/client/client.hpp"
#include "uhs/transaction/validation.hpp"
#include "hfile.hpp"

#include <filesystem>

namespace {
    namespace tr = cbdc::transaction;
    namespace fs = std::filesystem;

    class me : public cbdc::client {
      public:
        using client::client;
        using client::pending_inputs;
        using client::pending_txs;
        auto sync() -> bool override {
            return true;
        }

      protected:
        auto init_derived() -> bool override {
            return true;
        }
        auto send_mint_tx(const tr::full_tx&) -> bool override {
            return true;
        }
    };

    // What must not get lost.  A life writes it down after each operation,
    // and what it will be after the next before it begins.
    struct known_tx {
        cbdc::hash_t id;
        uint64_t in, back;
    };
    struct ledger {
        uint64_t given_up;  // the balance if all that is pending fails
        uint64_t confirmed; // and if all of it succeeds
        uint64_t txs, inputs;
        uint64_t n_addr;
        cbdc::pubkey_t addr[40]; // given to somebody
        uint64_t n_known;
        known_tx known[200];
        [[nodiscard]] bool same(const ledger& o) const {
            return given_up == o.given_up && confirmed == o.confirmed && txs == o.txs && inputs == o.inputs;
        }
        [[nodiscard]] std::string str() const {
            return "if all fails " + std::to_string(given_up) + ", if all succeeds " + std::to_string(confirmed) + ", pending " + std::to_string(txs) + "+" + std::to_string(inputs);
        }
    };
    struct book {
        ledger now;
        std::atomic<uint64_t> busy; // an operation is under way
        ledger next;
        std::atomic<uint64_t> which; // found to be 1: now, 2: next
        std::atomic<uint64_t> spent;
        char op[100];
    };
    book* g_b;

    cbdc::config::options g_opts;
    std::unique_ptr<me> start(const std::string& dir) {
        auto l = std::make_shared<cbdc::logging::log>(cbdc::logging::log_level::fatal);
        auto c = std::make_unique<me>(g_opts, l, dir + "/wallet.dat", dir + "/client.dat");
        // No sentinel can be reached: the result is of no interest.
        (void)c->init();
        return c;
    }
    uint64_t total_in(const tr::full_tx& t) {
        uint64_t n = 0;
        for(auto& i : t.m_inputs) {
            n += i.m_prevout_data.m_value;
        }
        return n;
    }
    const known_tx* find(const ledger& l, const cbdc::hash_t& id) {
        for(uint64_t i = 0; i < l.n_known; i++) {
            if(l.known[i].id == id) {
                return &l.known[i];
            }
        }
        return nullptr;
    }

    // What the files of `dir` hold, by using copies of them.
    ledger measure(const std::string& dir, const ledger& told) {
        ledger l{};
        auto copy = [&](const char* n) {
            auto d = dir + "/" + n;
            fs::remove_all(d);
            fs::create_directory(d);
            for(auto& e : fs::directory_iterator(dir)) {
                if(e.is_regular_file()) {
                    fs::copy_file(e.path(), d + "/" + e.path().filename().string());
                }
            }
            return d;
        };
        {
            auto c = start(copy("a"));
            auto ts = c->pending_txs();
            l.txs = ts.size();
            l.inputs = c->pending_inputs().size();
            for(auto& [id, t] : ts) {
                if(tr::tx_id(t) != id) {
                    fail("a pending transaction is stored under another id", "");
                }
                if(!c->abandon_transaction(id)) {
                    fail("a pending transaction cannot be abandoned", "");
                }
            }
            l.given_up = c->balance();
        }
        {
            auto c = start(copy("b"));
            for(auto& [id, t] : c->pending_txs()) {
                if(!c->confirm_transaction(id)) {
                    fail("a pending transaction cannot be confirmed", "");
                }
            }
            for(auto& [h, i] : c->pending_inputs()) {
                c->confirm_transaction(i.m_prevout.m_tx_id);
            }
            l.confirmed = c->balance();
            // Money is there only if it can be spent.
            cbdc::pubkey_t payee{};
            payee[0] = 1;
            for(uint64_t left = l.confirmed; left > 0;) {
                auto v = std::min<uint64_t>(left, 0xFFFFFFFFU);
                auto t = c->create_transaction(static_cast<uint32_t>(v), payee);
                if(!t.has_value() || tr::validation::check_tx(t.value()).has_value()) {
                    fail("money is left which cannot be spent", std::to_string(left) + " of " + std::to_string(l.confirmed));
                }
                left -= v;
                g_b->spent++;
            }
            // Addresses which were given out still work.
            for(uint64_t i = 0; i < told.n_addr; i++) {
                tr::input in;
                in.m_prevout.m_index = i;
                in.m_prevout_data.m_value = 5;
                in.m_prevout_data.m_witness_program_commitment = tr::validation::get_p2pk_witness_commitment(told.addr[i]);
                auto n = c->pending_input_count();
                c->import_send_input(in);
                if(c->pending_input_count() != n + 1) {
                    fail("an address that was given out is forgotten", std::to_string(i) + " of " + std::to_string(told.n_addr));
                }
                g_sh->reads++;
            }
        }
        g_sh->checked++;
        return l;
    }

    void one_case(vh::rng& r, uint64_t cs) {
        vh::guard g("client");
        auto dir = vh::st().scratch + "/c" + std::to_string(cs);
        fs::create_directory(dir);
        memset(static_cast<void*>(&g_b->now), 0, sizeof(g_b->now));
        auto lives = r.in(3, 8);
        uint64_t fp = 0;
        bool possible = false; // the next state may be the one
        for(uint64_t l = 0; l < lives && vh::st().violations.empty(); l++) {
            g_b->busy = 0;
            g_b->which = 0;
            auto n = r.in(1, 10);
            auto how = l + 1 == lives ? 99 : r.below(100);
            g_calls = 0;
            g_torn = r.chance(30) ? 0 : r.below(r.chance(50) ? 60 : 3000);
            g_left = how < 60 ? static_cast<long>(r.in(1, r.chance(30) ? 6 : n * 6)) : -1;
            g_fail_at = how >= 60 && how < 80 ? static_cast<long>(r.below(n * 4)) : -1;
            g_fail = r.chance(50) ? ENOSPC : EIO;
            auto seed = r.next();
            // The source of random numbers is the same in all lives: move on
            // here, so that they get different keys.
            tr::wallet bank;
            bank.confirm_transaction(bank.mint_new_coins(80, 1000));
            auto status = life([&] {
                vh::rng q(seed);
                auto found = measure(dir, g_b->now);
                if(found.same(g_b->now)) {
                    g_b->which = 1;
                } else if(possible && found.same(g_b->next)) {
                    g_b->which = 2;
                    g_b->now = g_b->next;
                } else {
                    fail("after a restart something is lost", "found " + found.str() + "; was " + g_b->now.str() + (possible ? "; or, if done, " + g_b->next.str() : "") + "; last " + g_b->op + ", life " + std::to_string(l) + " " + std::to_string(how));
                }
                g_sh->match = g_b->which.load();
                auto c = start(dir);
                cbdc::pubkey_t stranger{};
                stranger[3] = 7;
                auto& now = g_b->now;
                g_armed = true;
                g_sh->may_end = g_fail_at >= 0 ? 1 : 0;
                for(uint64_t i = 0; i < n; i++) {
                    auto next = now;
                    auto k = q.below(100);
                    auto before = c->pending_txs();
                    auto begin = [&](const char* what) {
                        snprintf(g_b->op, sizeof(g_b->op), "%s", what);
                        g_b->next = next;
                        g_b->busy = 1;
                    };
                    auto add = [&](const tr::full_tx& t, uint64_t back) {
                        if(next.n_known < 200) {
                            next.known[next.n_known++] = {tr::tx_id(t), total_in(t), back};
                        }
                    };
                    if(k < 20 && next.n_known < 190) {
                        auto m = q.in(1, 4);
                        auto v = q.in(1, 1000);
                        next.txs++;
                        next.confirmed += m * v;
                        begin("mint");
                        auto t = c->mint(m, static_cast<uint32_t>(v));
                        add(t, m * v);
                    } else if(k < 45 && next.n_known < 190) {
                        auto have = c->balance();
                        if(have == 0) {
                            continue;
                        }
                        auto v = q.chance(20) ? have : q.in(1, have);
                        auto own = now.n_addr > 0 && q.chance(30);
                        next.txs++;
                        next.confirmed -= own ? 0 : v;
                        begin("send");
                        // The sentinel is not there.
                        (void)c->send(static_cast<uint32_t>(v), own ? now.addr[q.below(now.n_addr)] : stranger);
                        // Which transaction it was
                        for(auto& [id, t] : c->pending_txs()) {
                            if(before.count(id) == 0) {
                                add(t, total_in(t) - (own ? 0 : v));
                            }
                        }
                    } else if(k < 52 && next.n_known < 190) {
                        auto have = c->balance();
                        if(have < 4) {
                            continue;
                        }
                        auto m = q.in(1, 3);
                        auto v = q.in(1, have / m);
                        next.txs++;
                        next.confirmed -= m * v;
                        begin("fan");
                        (void)c->fan(static_cast<uint32_t>(m), static_cast<uint32_t>(v), stranger);
                        for(auto& [id, t] : c->pending_txs()) {
                            if(before.count(id) == 0) {
                                add(t, total_in(t) - m * v);
                            }
                        }
                    } else if(k < 75) {
                        auto ts = c->pending_txs();
                        if(ts.empty()) {
                            continue;
                        }
                        auto it = ts.begin();
                        std::advance(it, static_cast<long>(q.below(ts.size())));
                        auto* w = find(now, it->first);
                        if(w == nullptr) {
                            // Sent just before a crash.
                            continue;
                        }
                        next.txs--;
                        if(k < 65) {
                            next.given_up = next.given_up - w->in + w->back;
                            begin("confirm");
                            (void)c->confirm_transaction(it->first);
                        } else {
                            next.confirmed = next.confirmed + w->in - w->back;
                            begin("abandon");
                            (void)c->abandon_transaction(it->first);
                        }
                    } else if(k < 85 && now.n_addr > 0) {
                        auto v = q.in(1, 200);
                        auto& to = now.addr[q.below(now.n_addr)];
                        auto t = bank.send_to(static_cast<uint32_t>(v), to, true);
                        if(!t.has_value()) {
                            continue;
                        }
                        auto ins = tr::wallet::export_send_inputs(t.value(), to);
                        if(ins.size() != 1) {
                            continue;
                        }
                        next.inputs++;
                        next.confirmed += v;
                        begin("import");
                        c->import_send_input(ins[0]);
                    } else if(k < 93) {
                        auto ins = c->pending_inputs();
                        if(ins.empty()) {
                            continue;
                        }
                        auto& i = ins.begin()->second;
                        next.inputs--;
                        next.given_up += i.m_prevout_data.m_value;
                        begin("confirm received");
                        (void)c->confirm_transaction(i.m_prevout.m_tx_id);
                    } else if(now.n_addr < 40) {
                        begin("address");
                        next.addr[next.n_addr++] = c->new_address();
                    }
                    // Done: what a client says it did is done.
                    now = next;
                    g_b->busy = 0;
                    g_sh->done++;
                    if(g_failed > 0) {
                        fail("a client goes on though its files cannot be written", g_b->op);
                    }
                }
            });
            if(status < 0) {
                break;
            }
            possible = g_b->busy != 0 || (possible && g_b->which == 0);
            if(g_b->which == 2) {
                vh::count("interrupted_done");
            } else if(g_b->which == 1) {
                vh::count("interrupted_not_done", fp != 0 && possible ? 1 : 0);
            }
            vh::count("operations", g_sh->done.load());
            vh::count(status == 0 ? "stops" : how < 60 ? "crashes" : "failed_writes");
            vh::count("interrupted", g_b->busy.load());
            fp = vh::mix(vh::mix(fp, g_b->now.confirmed), g_sh->done.load() * 4 + (status == 0 ? 0 : 1));
        }
        vh::count("histories");
        vh::count("states_compared", g_sh->checked.exchange(0));
        vh::count("addresses_tried", g_sh->reads.exchange(0));
        vh::count("spends", g_b->spent.exchange(0));
        vh::distinct(fp);
        fs::remove_all(dir);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    share();
    g_b = static_cast<book*>(mmap(nullptr, sizeof(book), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_opts.m_sentinel_endpoints = {{"127.0.0.1", 1}};
    vh::run_cases(one_case);
    return vh::finish();
}
