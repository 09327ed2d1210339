// The snapshots an atomizer keeps on disk, and those it is sent, when its
// process ends at any call that changes files or the disk refuses writes.
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/util.hpp"
#include "hfile.hpp"
#include "huhs.hpp"

#include <filesystem>
namespace fs = std::filesystem;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
using namespace cbdc;
using sm = at::state_machine;

static std::string text(const nuraft::ptr<nuraft::buffer>& b) {
    if(!b) {
        return "-";
    }
    b->pos(0);
    auto v = from_buffer<sm::response>(*b);
    if(!v) {
        return "?";
    }
    std::ostringstream o;
    auto blk = [&](const at::block& x) {
        o << "b" << x.m_height;
        for(auto& t : x.m_transactions) {
            o << "," << to_string(t.m_id) << t.m_inputs.size() << "/" << t.m_uhs_outputs.size();
            for(auto& i : t.m_inputs) {
                o << to_string(i);
            }
            for(auto& i : t.m_uhs_outputs) {
                o << to_string(i);
            }
        }
    };
    auto er = [&](const at::errors& v2) {
        for(auto& e : v2) {
            o << ";" << to_string(e.tx_id());
            auto i = e.info();
            o << "k" << i.index();
            if(auto* d = std::get_if<wt::tx_error_inputs_spent>(&i)) {
                auto u = d->input_uhs_ids();
                std::set<hash_t> w(u.begin(), u.end());
                for(auto& x : w) {
                    o << to_string(x);
                }
            }
        }
    };
    std::visit(overloaded{[&](at::make_block_response& x) {
                              blk(x.m_blk);
                              er(x.m_errs);
                          },
                          [&](at::get_block_response& x) {
                              o << "g";
                              blk(x.m_blk);
                          },
                          [&](at::errors& x) {
                              er(x);
                          }},
               *v);
    return o.str();
}

struct book {
    std::atomic<uint64_t> last;   // newest complete snapshot
    std::atomic<uint64_t> coming; // one being written
};
static book* g_b;

static void one_case(vh::rng& r, uint64_t cs) {
    vh::guard g("snapshots");
    auto top = vh::st().scratch + "/s" + std::to_string(cs);
    fs::create_directory(top);
    auto dir = top + "/own";
    size_t depth = r.below(4);
    auto conf = nuraft::cs_new<nuraft::cluster_config>();
    std::vector<std::pair<nuraft::ptr<nuraft::buffer>, std::string>> log;
    std::map<uint64_t, nuraft::ptr<nuraft::buffer>> sent; // snapshots of the leader
    auto feed = [&](sm& s, uint64_t idx) {
        auto b = nuraft::buffer::clone(*log[idx - 1].first);
        b->pos(0);
        return text(s.commit(idx, *b));
    };
    auto take = [&](sm& s, uint64_t idx) {
        nuraft::snapshot sn(idx, 1, conf);
        bool ok = false;
        nuraft::async_result<bool>::handler_type h = [&](bool& b, nuraft::ptr<std::exception>&) {
            ok = b;
        };
        s.create_snapshot(sn, h);
        return ok;
    };
    {
        sm leader(depth, top + "/leader");
        uint64_t height = 0;
        std::vector<hash_t> pool;
        auto big = r.chance(40);
        for(auto k = r.in(10, 60); k > 0; k--) {
            sm::request q;
            auto c = r.below(100);
            if(c < 60) {
                at::aggregate_tx_notify_request a;
                for(auto j = r.in(0, big ? 30 : 4); j > 0; j--) {
                    at::aggregate_tx_notification t;
                    t.m_tx.m_id = vu::rhash(r);
                    for(auto i = r.below(4); i > 0; i--) {
                        if(pool.size() < 4 || r.chance(70)) {
                            pool.push_back(vu::rhash(r));
                        }
                        t.m_tx.m_inputs.push_back(r.pick(pool));
                    }
                    for(auto i = r.below(3); i > 0; i--) {
                        t.m_tx.m_uhs_outputs.push_back(vu::rhash(r));
                    }
                    t.m_oldest_attestation = height - std::min(height, r.below(depth + 2));
                    a.m_agg_txs.push_back(t);
                }
                q = a;
            } else if(c < 75) {
                q = at::make_block_request{};
                height++;
            } else if(c < 97) {
                q = at::get_block_request{r.below(height + 2)};
            } else {
                q = at::prune_request{r.below(height + 2)};
            }
            log.emplace_back(make_buffer<sm::request, nuraft::ptr<nuraft::buffer>>(q), "");
            log.back().second = feed(leader, log.size());
            if(r.chance(25)) {
                auto idx = log.size();
                (void)take(leader, idx);
                nuraft::snapshot sn(idx, 1, conf);
                void* ctx = nullptr;
                nuraft::ptr<nuraft::buffer> d;
                bool last = false;
                VCHECK(leader.read_logical_snp_obj(sn, ctx, 0, d, last) == 0 && last, "atomizer:snapshot-read", "");
                sent[idx] = d;
            }
        }
    }
    g_b->last = 0;
    g_b->coming = 0;
    uint64_t fp = 0;
    auto lives = r.in(3, 7);
    for(uint64_t l = 0; l < lives && vh::st().violations.empty(); l++) {
        auto how = l + 1 == lives ? 99 : r.below(100);
        g_torn = r.chance(30) ? 0 : r.below(r.chance(50) ? 60 : 9000);
        g_left = how < 60 ? static_cast<long>(r.in(1, r.chance(60) ? 6 : 20)) : -1;
        g_fail_at = how >= 60 && how < 85 ? static_cast<long>(r.below(r.chance(60) ? 3 : 12)) : -1;
        g_fail = r.chance(50) ? ENOSPC : EIO;
        auto seed = r.next();
        auto status = life([&] {
            vh::rng q(seed);
            auto s = std::make_unique<sm>(depth, dir);
            auto at = s->last_commit_index();
            if(at != g_b->last && (g_b->coming == 0 || at != g_b->coming)) {
                fail("an atomizer starts from another snapshot than its last", "at " + std::to_string(at) + "; last " + std::to_string(g_b->last) + (g_b->coming != 0 ? ", being written " + std::to_string(g_b->coming) : ""));
            }
            auto sn = s->last_snapshot();
            if((sn ? sn->get_last_log_idx() : 0) != at) {
                fail("an atomizer names another snapshot than it starts from", "");
            }
            g_sh->match = at == g_b->last ? 1 : 2;
            g_b->last = at;
            g_b->coming = 0;
            g_sh->checked++;
            g_armed = true;
            g_sh->may_end = g_fail_at >= 0 ? 1 : 0;
            for(uint64_t i = at; i < log.size(); i = s->last_commit_index()) {
                auto it = sent.upper_bound(i);
                if(it != sent.end() && q.chance(10)) {
                    nuraft::snapshot x(it->first, 1, conf);
                    auto d = nuraft::buffer::clone(*it->second);
                    d->pos(0);
                    nuraft::ulong obj = 0;
                    g_b->coming = it->first;
                    s->save_logical_snp_obj(x, obj, *d, true, true);
                    if(!s->apply_snapshot(x) || s->last_commit_index() != it->first) {
                        fail("a snapshot that was received cannot be used", std::to_string(it->first));
                    }
                    g_b->last = it->first;
                    g_b->coming = 0;
                    g_sh->synced++;
                    if(g_failed > 0) {
                        fail("an atomizer goes on though its snapshot cannot be written", "received");
                    }
                    continue;
                }
                auto a = feed(*s, i + 1);
                if(a != log[i].second) {
                    fail("an atomizer differs after starting from a snapshot", "at log entry " + std::to_string(i + 1) + " from " + std::to_string(at) + ": " + a.substr(0, 200) + " not " + log[i].second.substr(0, 200));
                }
                g_sh->reads++;
                if(q.chance(12)) {
                    g_b->coming = i + 1;
                    auto ok = take(*s, i + 1);
                    if(ok && g_failed > 0) {
                        fail("an atomizer goes on though its snapshot cannot be written", "made");
                    }
                    if(!ok && g_failed == 0) {
                        fail("a snapshot was not made", "");
                    }
                    if(ok) {
                        g_b->last = i + 1;
                        g_b->coming = 0;
                    }
                    g_sh->done++;
                }
                if(q.chance(5)) {
                    break;
                }
            }
        });
        if(status < 0) {
            break;
        }
        vh::count(status == 0 ? "stops" : how < 60 ? "crashes" : "failed_writes");
        vh::count(g_sh->match == 2 ? "interrupted_done" : "starts");
        vh::count("snapshots", g_sh->done.load());
        vh::count("interrupted", g_b->coming != 0 ? 1 : 0);
        fp = vh::mix(vh::mix(fp, g_b->last), g_b->coming);
    }
    vh::count("histories");
    vh::count("entries_compared", g_sh->reads.exchange(0));
    vh::count("restarts", g_sh->checked.exchange(0));
    vh::count("received", g_sh->synced.exchange(0));
    vh::distinct(fp);
    fs::remove_all(top);
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    share();
    g_b = static_cast<book*>(mmap(nullptr, sizeof(book), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    vh::run_cases(one_case);
    return vh::finish();
}
