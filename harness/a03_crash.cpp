// A03, A04 (mode archiver): the databases of the atomizer shard and of the
// archiver over lives which end at any file-changing call, or whose disk
// fails.
#include "hfile.hpp"

#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/shard/shard.hpp"

namespace {
    using namespace cbdc;
    namespace fs = std::filesystem;
    using transaction::compact_tx;

    struct book {
        std::atomic<uint64_t> last;   // height reached for certain
        std::atomic<uint64_t> coming; // height being written, 0 if none
    };
    book* g_b;

    struct chain_t {
        std::vector<atomizer::block> blocks;  // of heights 1..
        std::vector<hash_t> ids;              // every output there ever was
        std::vector<uint64_t> born, died;     // heights; 0: never
    };
    chain_t make_chain(vh::rng& r) {
        chain_t c;
        auto n = r.in(3, 30);
        std::vector<size_t> unspent;
        for(uint64_t h = 1; h <= n; h++) {
            atomizer::block b;
            b.m_height = h;
            for(uint64_t k = r.below(r.chance(80) ? 6 : 60); k > 0; k--) {
                compact_tx tx;
                r.bytes(tx.m_id.data(), tx.m_id.size());
                for(uint64_t i = r.below(3); i > 0 && !unspent.empty(); i--) {
                    auto at = r.below(unspent.size());
                    auto o = unspent[at];
                    unspent[at] = unspent.back();
                    unspent.pop_back();
                    tx.m_inputs.push_back(c.ids[o]);
                    c.died[o] = h;
                }
                for(uint64_t i = r.below(4); i > 0; i--) {
                    hash_t o{};
                    r.bytes(o.data(), o.size());
                    tx.m_uhs_outputs.push_back(o);
                    unspent.push_back(c.ids.size());
                    c.ids.push_back(o);
                    c.born.push_back(h);
                    c.died.push_back(0);
                }
                b.m_transactions.push_back(tx);
            }
            c.blocks.push_back(b);
        }
        return c;
    }
    // The height found must be the last one, or that of a block being written.
    void found(uint64_t h) {
        if(h < g_b->last || h > std::max(g_b->last.load(), g_b->coming.load())) {
            fail("a block was lost, or is only there in part",
                 "at height " + std::to_string(h) + " after " + std::to_string(g_b->last) + (g_b->coming != 0 ? ", block " + std::to_string(g_b->coming) + " being written" : ""));
        }
        g_sh->match = h == g_b->last ? 1 : 2;
        g_b->last = h;
        g_b->coming = 0;
    }
    void shard_life(const chain_t& c, const std::string& dir, config::shard_range_t range, uint64_t seed) {
        vh::rng q(seed);
        shard::shard s(range);
        auto err = s.open_db(dir);
        if(err.has_value()) {
            if(g_failed == 0) {
                fail("the database of a shard does not open", *err);
            }
            return;
        }
        found(s.best_block_height());
        auto check = [&](uint64_t h) {
            for(size_t i = 0; i < c.ids.size(); i++) {
                if(!config::hash_in_shard_range(range, c.ids[i])) {
                    continue;
                }
                compact_tx tx;
                tx.m_inputs = {c.ids[i]};
                auto res = s.digest_transaction(tx);
                bool there = c.born[i] <= h && (c.died[i] == 0 || c.died[i] > h);
                if(h == 0) {
                    there = false;
                }
                if(std::holds_alternative<atomizer::tx_notify_request>(res) != there) {
                    fail(there ? "an unspent output is missing" : "an output is there which is spent or not made yet",
                         "output of block " + std::to_string(c.born[i]) + ", spent in " + std::to_string(c.died[i]) + ", at height " + std::to_string(h));
                }
                if(there && std::get<atomizer::tx_notify_request>(res).m_block_height != h) {
                    fail("an attestation names another height", "");
                }
                g_sh->reads++;
            }
        };
        check(g_b->last);
        g_sh->checked++;
        while(g_b->last < c.blocks.size()) {
            auto h = g_b->last.load() + 1;
            if(q.chance(10) && (s.digest_block(c.blocks[q.below(h - 1 > 0 ? h - 1 : 1)]) && h > 1)) {
                fail("a block is digested twice", "");
            }
            if(s.best_block_height() >= h) {
                // h == 1: the first block was taken just now
                g_b->last = h;
                continue;
            }
            g_b->coming = h;
            auto ok = s.digest_block(c.blocks[h - 1]);
            if(g_failed > 0) {
                if(ok || s.best_block_height() == h) {
                    fail("a shard goes on though a block cannot be written", "block " + std::to_string(h));
                }
                return;
            }
            if(!ok || s.best_block_height() != h) {
                fail("the next block is not digested", std::to_string(h));
            }
            g_b->last = h;
            g_b->coming = 0;
            g_sh->done++;
            if(q.chance(15)) {
                check(h);
            }
            if(q.chance(6)) {
                return;
            }
        }
        check(g_b->last);
    }
    void archiver_life(const chain_t& c, const config::options& o, uint64_t seed) {
        vh::rng q(seed);
        auto log = std::make_shared<logging::log>(logging::log_level::fatal);
        archiver::controller a(0, o, log, 0);
        if(!a.init_leveldb() || !a.init_best_block()) {
            if(g_failed == 0) {
                fail("the database of an archiver does not open", "");
            }
            return;
        }
        found(a.best_block_height());
        auto check = [&](uint64_t h) {
            for(uint64_t i = 1; i <= c.blocks.size(); i++) {
                auto b = a.get_block(i);
                if(b.has_value() != (i <= h)) {
                    fail(b ? "a block is served before it came" : "a block is missing", "block " + std::to_string(i) + " at height " + std::to_string(h));
                }
                if(b && !(*b == c.blocks[i - 1])) {
                    fail("a block differs", "block " + std::to_string(i));
                }
                g_sh->reads++;
            }
        };
        check(g_b->last);
        g_sh->checked++;
        uint64_t ahead = 0; // block ahead+1.. were handed in early
        while(g_b->last < c.blocks.size()) {
            auto h = g_b->last.load() + 1;
            if(ahead < h && h + 1 < c.blocks.size() && q.chance(20)) {
                // some come early and wait
                ahead = std::min<uint64_t>(c.blocks.size(), h + 1 + q.below(3));
                for(auto i = ahead; i > h; i--) {
                    a.digest_block(c.blocks[i - 1]);
                }
            }
            if(q.chance(10) && h > 1) {
                a.digest_block(c.blocks[q.below(h - 1)]);
            }
            // those that wait follow one by one, so several may be written
            auto upto = std::max(h, ahead);
            g_b->coming = upto;
            a.digest_block(c.blocks[h - 1]);
            if(g_failed > 0) {
                fail("an archiver goes on though a block cannot be written", "block " + std::to_string(h));
            }
            if(a.best_block_height() != upto) {
                fail("a block is not digested", std::to_string(upto) + ": at " + std::to_string(a.best_block_height()));
            }
            g_b->last = upto;
            g_b->coming = 0;
            g_sh->done++;
            if(q.chance(10)) {
                check(upto);
            }
            if(q.chance(6)) {
                return;
            }
        }
        check(g_b->last);
    }

    void one_case(vh::rng& r, uint64_t) {
        bool arch = vh::st().mode == "archiver";
        vh::guard g(arch ? "archiver database" : "shard database");
        auto dir = vh::st().scratch + "/db" + std::to_string(vh::st().cur_case);
        fs::remove_all(dir);
        auto c = make_chain(r);
        config::shard_range_t range{static_cast<uint8_t>(r.chance(50) ? 0 : r.below(128)), static_cast<uint8_t>(r.chance(50) ? 255 : 128 + r.below(128))};
        config::options o;
        o.m_archiver_db_dirs.push_back(dir);
        g_b->last = 0;
        g_b->coming = 0;
        uint64_t fp = c.ids.size();
        auto lives = r.in(3, 7);
        for(uint64_t l = 0; l < lives && vh::st().violations.empty(); l++) {
            auto how = l + 1 == lives ? 99 : r.below(100);
            g_torn = r.chance(30) ? 0 : r.below(r.chance(50) ? 60 : 9000);
            g_left = how < 65 ? static_cast<long>(r.in(1, r.chance(60) ? 12 : 40)) : -1;
            g_fail_at = how >= 65 && how < 85 ? static_cast<long>(r.below(r.chance(60) ? 8 : 25)) : -1;
            g_fail = r.chance(50) ? ENOSPC : EIO;
            auto seed = r.next();
            auto status = life([&] {
                g_armed = true;
                g_sh->may_end = g_fail_at >= 0 ? 1 : 0;
                if(arch) {
                    archiver_life(c, o, seed);
                } else {
                    shard_life(c, dir, range, seed);
                }
            });
            if(status < 0) {
                break;
            }
            vh::count(how < 65 ? "crashes" : how < 85 ? "failed_writes" : "plain_lives");
            vh::count(g_sh->match == 2 ? "interrupted_done" : "starts");
            vh::count("blocks", g_sh->done.load());
            vh::count("interrupted", g_b->coming != 0 ? 1 : 0);
            fp = vh::mix(vh::mix(fp, g_b->last), g_b->coming);
        }
        vh::count("chains");
        vh::count("db_reads", g_sh->reads.exchange(0));
        vh::count("db_opened", g_sh->checked.exchange(0));
        vh::distinct(fp);
        fs::remove_all(dir);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    share();
    g_b = static_cast<book*>(mmap(nullptr, sizeof(book), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    vh::run_cases(one_case);
    return vh::finish();
}
