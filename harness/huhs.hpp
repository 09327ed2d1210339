// Helpers for UHS monitors: keys, ids, attested compact transactions.
#ifndef VERIF_HUHS_HPP
#define VERIF_HUHS_HPP
#include "vh.hpp"

#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/common/config.hpp"
#include "util/common/hash.hpp"
#include "util/common/keys.hpp"
#include "util/common/logging.hpp"
#include "util/serialization/format.hpp"

#include <secp256k1.h>

namespace vu {
    using cbdc::hash_t;
    inline std::shared_ptr<cbdc::logging::log> logger() {
        static auto l = std::make_shared<cbdc::logging::log>(
            cbdc::logging::log_level::fatal,
            true);
        return l;
    }
    inline secp256k1_context* secp() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN
                                                  | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    inline hash_t rhash(vh::rng& r) {
        hash_t h{};
        r.bytes(h.data(), h.size());
        return h;
    }
    inline uint64_t fp(const hash_t& h) {
        uint64_t v{};
        std::memcpy(&v, h.data(), sizeof(v));
        return v;
    }
    inline std::string hx(const hash_t& h) {
        static const char* d = "0123456789abcdef";
        std::string s;
        for(size_t i = 0; i < 5; i++) {
            s += d[h[i] >> 4];
            s += d[h[i] & 15];
        }
        return s;
    }
    struct key {
        cbdc::privkey_t sk{};
        cbdc::pubkey_t pk{};
    };
    inline key make_key(vh::rng& r) {
        key k;
        do {
            r.bytes(k.sk.data(), k.sk.size());
        } while(secp256k1_ec_seckey_verify(secp(), k.sk.data()) != 1);
        k.pk = cbdc::pubkey_from_privkey(k.sk, secp());
        return k;
    }
}
#endif
