// Helpers for the monitors of the programmable part.
#ifndef VERIF_HPARSEC_HPP
#define VERIF_HPARSEC_HPP
#include "sercheck.hpp"
#include "vh.hpp"

#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/runtime_locking_shard/replicated_shard.hpp"
#include "util/common/logging.hpp"

namespace vp {
    using cbdc::buffer;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    inline std::shared_ptr<cbdc::logging::log> logger() {
        static auto l = std::make_shared<cbdc::logging::log>(
            cbdc::logging::log_level::fatal,
            true);
        return l;
    }
    inline buffer buf(const std::string& s) {
        buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    inline std::string str(const buffer& b) {
        return std::string(static_cast<const char*>(b.data()), b.size());
    }
}
#endif
