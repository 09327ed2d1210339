// A chain of blocks known to the monitor, for components that follow one.
#ifndef VERIF_HATM_HPP
#define VERIF_HATM_HPP
#include "hnet.hpp"
#include "huhs.hpp"

#include "uhs/atomizer/atomizer/block.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/util.hpp"

#include <time.h>

#ifdef FAST_SLEEP
// Linked with --wrap=nanosleep: waits of a second or more take a twentieth.
extern "C" int __real_nanosleep(const timespec*, timespec*);
extern "C" int __wrap_nanosleep(const timespec* a, timespec* b) {
    if(a->tv_sec < 1) {
        return __real_nanosleep(a, b);
    }
    auto ns = (static_cast<int64_t>(a->tv_sec) * 1000000000 + a->tv_nsec) / 20;
    timespec t{ns / 1000000000, ns % 1000000000};
    return __real_nanosleep(&t, b);
}
#endif

namespace va {
    using cbdc::hash_t;
    using cbdc::transaction::compact_tx;
    namespace at = cbdc::atomizer;
    namespace wt = cbdc::watchtower;

    inline bool same(const compact_tx& a, const compact_tx& b) {
        return a.m_id == b.m_id && a.m_inputs == b.m_inputs && a.m_uhs_outputs == b.m_uhs_outputs && a.m_attestations == b.m_attestations;
    }
    inline bool same(const at::block& a, const at::block& b) {
        if(a.m_height != b.m_height || a.m_transactions.size() != b.m_transactions.size()) {
            return false;
        }
        for(size_t i = 0; i < a.m_transactions.size(); i++) {
            if(!same(a.m_transactions[i], b.m_transactions[i])) {
                return false;
            }
        }
        return true;
    }

    struct chain {
        struct life {
            uint64_t born{};
            uint64_t spent{};
        };
        mutable std::mutex m;
        std::vector<at::block> blocks; // [i] has height i+1
        std::map<hash_t, life> outs;
        std::vector<hash_t> all;

        uint64_t tip() const {
            std::unique_lock<std::mutex> l(m);
            return blocks.size();
        }
        at::block at_height(uint64_t h) const {
            std::unique_lock<std::mutex> l(m);
            return blocks[h - 1];
        }
        bool unspent_at(uint64_t h, const hash_t& x) const {
            std::unique_lock<std::mutex> l(m);
            auto it = outs.find(x);
            return it != outs.end() && it->second.born <= h && (it->second.spent == 0 || it->second.spent > h);
        }
        // One more block of transactions which mint and spend.
        at::block grow(vh::rng& q, uint64_t most) {
            std::unique_lock<std::mutex> l(m);
            at::block b;
            b.m_height = blocks.size() + 1;
            for(auto n = q.below(most + 1); n > 0; n--) {
                compact_tx t;
                t.m_id = vu::rhash(q);
                if(!q.chance(35)) {
                    for(auto k = q.in(1, 3); k > 0; k--) {
                        if(all.empty()) {
                            break;
                        }
                        auto x = all[all.size() - 1 - q.below(std::min<size_t>(all.size(), 60))];
                        auto& o = outs[x];
                        if(o.spent == 0 && o.born < b.m_height) {
                            o.spent = b.m_height;
                            t.m_inputs.push_back(x);
                        }
                    }
                }
                for(auto k = q.in(t.m_inputs.empty() ? 1 : 0, 4); k > 0; k--) {
                    auto x = vu::rhash(q);
                    t.m_uhs_outputs.push_back(x);
                    outs[x].born = b.m_height;
                    all.push_back(x);
                }
                b.m_transactions.push_back(t);
            }
            blocks.push_back(b);
            return b;
        }
        // Anything that was ever an output, or never.
        hash_t some(vh::rng& q) const {
            std::unique_lock<std::mutex> l(m);
            if(all.empty() || q.chance(10)) {
                return vu::rhash(q);
            }
            if(q.chance(70)) {
                return all[all.size() - 1 - q.below(std::min<size_t>(all.size(), 40))];
            }
            return all[q.below(all.size())];
        }
    };
}
#endif
