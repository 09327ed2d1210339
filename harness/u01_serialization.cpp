// U01/U02: every message type's encoding, as values and as hostile bytes.
// Values are compared through an encoding of their own (canon), which has
// nothing to do with the code under test: it walks each field, sorting the
// unordered containers.
#include "huhs.hpp"

#include "parsec/agent/format.hpp"
#include "parsec/agent/messages.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "parsec/ticket_machine/messages.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/sentinel/interface.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/raft/messages.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/messages.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include "util/serialization/util.hpp"

#include <sanitizer/allocator_interface.h>
#include <sstream>

using namespace cbdc;
namespace tv = cbdc::transaction::validation;
namespace tx_ = cbdc::transaction;
namespace wt = cbdc::watchtower;
namespace ls = cbdc::locking_shard;
namespace rls = cbdc::parsec::runtime_locking_shard;
namespace tkm = cbdc::parsec::ticket_machine;
namespace ag = cbdc::parsec::agent;
namespace co = cbdc::coordinator;
using coc = co::controller;

// ---- memory in use, by the allocator's own account -------------------------
static std::atomic<int64_t> g_live{0};
static std::atomic<int64_t> g_peak{0};
static void on_malloc(const volatile void* p, size_t) {
    auto n = static_cast<int64_t>(__sanitizer_get_allocated_size(const_cast<const void*>(p)));
    auto v = (g_live += n);
    auto k = g_peak.load();
    while(v > k && !g_peak.compare_exchange_weak(k, v)) {}
}
static void on_free(const volatile void* p) {
    if(p != nullptr) {
        g_live -= static_cast<int64_t>(__sanitizer_get_allocated_size(const_cast<const void*>(p)));
    }
}

// ---- what a type is made of -------------------------------------------------
static size_t g_size = 3; // typical container size of the case
static size_t rsize(vh::rng& r) {
    auto k = r.below(20);
    if(k == 0) {
        return r.below(g_size * 10 + 1);
    }
    return k < 4 ? 0 : r.below(g_size + 1);
}
template<typename T, typename = void>
struct ty;
template<typename T>
T make(vh::rng& r) {
    return ty<T>::make(r);
}
static void u64(std::string& o, uint64_t v) {
    o.append(reinterpret_cast<const char*>(&v), 8);
}
template<typename T>
void canon(std::string& o, const T& v) {
    ty<T>::canon(o, v);
}
template<typename T>
std::string canon(const T& v) {
    std::string o;
    ty<T>::canon(o, v);
    return o;
}

template<typename T>
struct ty<T, std::enable_if_t<std::is_integral_v<T>>> {
    static T make(vh::rng& r) {
        if constexpr(std::is_same_v<T, bool>) {
            return r.chance(50);
        } else {
            switch(r.below(4)) {
                case 0:
                    return static_cast<T>(r.below(3));
                case 1:
                    return std::numeric_limits<T>::max();
                default:
                    return static_cast<T>(r.next());
            }
        }
    }
    static void canon(std::string& o, const T& v) {
        u64(o, static_cast<uint64_t>(v));
    }
};
// the number of named values of each enumeration
template<typename E>
constexpr unsigned named() {
    if constexpr(std::is_same_v<E, tv::output_error_code> || std::is_same_v<E, tkm::interface::error_code>) {
        return 1;
    } else if constexpr(std::is_same_v<E, tv::witness_error_code> || std::is_same_v<E, wt::search_status>) {
        return 6;
    } else if constexpr(std::is_same_v<E, tv::tx_error_code>) {
        return 5;
    } else if constexpr(std::is_same_v<E, sentinel::tx_status> || std::is_same_v<E, rls::ticket_state>) {
        return 4;
    } else if constexpr(std::is_same_v<E, rls::error_code>) {
        return 11;
    } else if constexpr(std::is_same_v<E, ag::interface::error_code>) {
        return 8;
    } else {
        return 2;
    }
}
template<typename T>
struct ty<T, std::enable_if_t<std::is_enum_v<T> && !std::is_same_v<T, std::byte>>> {
    static T make(vh::rng& r) {
        return static_cast<T>(r.below(named<T>()));
    }
    static void canon(std::string& o, const T& v) {
        u64(o, static_cast<uint64_t>(v));
    }
};
template<>
struct ty<std::byte> {
    static std::byte make(vh::rng& r) {
        return static_cast<std::byte>(r.next());
    }
    static void canon(std::string& o, const std::byte& v) {
        o.push_back(static_cast<char>(v));
    }
};
template<typename T>
struct ty<T, std::enable_if_t<std::is_empty_v<T> && std::is_default_constructible_v<T>>> {
    static T make(vh::rng&) {
        return T{};
    }
    static void canon(std::string&, const T&) {}
};
template<typename T, size_t N>
struct ty<std::array<T, N>> {
    static std::array<T, N> make(vh::rng& r) {
        std::array<T, N> a{};
        r.bytes(a.data(), N * sizeof(T));
        return a;
    }
    static void canon(std::string& o, const std::array<T, N>& v) {
        o.append(reinterpret_cast<const char*>(v.data()), N * sizeof(T));
    }
};
template<>
struct ty<cbdc::buffer> {
    static cbdc::buffer make(vh::rng& r) {
        cbdc::buffer b;
        auto n = r.chance(3) ? r.below(3000) : r.below(40);
        std::vector<unsigned char> d(n);
        r.bytes(d.data(), n);
        b.append(d.data(), n);
        return b;
    }
    static void canon(std::string& o, const cbdc::buffer& v) {
        u64(o, v.size());
        o.append(v.c_str() == nullptr ? "" : v.c_str(), v.size());
    }
};
template<typename T>
struct ty<std::optional<T>> {
    static std::optional<T> make(vh::rng& r) {
        return r.chance(40) ? std::optional<T>() : std::optional<T>(::make<T>(r));
    }
    static void canon(std::string& o, const std::optional<T>& v) {
        o.push_back(v.has_value() ? 1 : 0);
        if(v.has_value()) {
            ::canon<T>(o, v.value());
        }
    }
};
template<typename A, typename B>
struct ty<std::pair<A, B>> {
    static std::pair<A, B> make(vh::rng& r) {
        auto a = ::make<A>(r);
        auto b = ::make<B>(r);
        return {std::move(a), std::move(b)};
    }
    static void canon(std::string& o, const std::pair<A, B>& v) {
        ::canon<A>(o, v.first);
        ::canon<B>(o, v.second);
    }
};
template<typename T>
struct ty<std::vector<T>> {
    static std::vector<T> make(vh::rng& r) {
        std::vector<T> v;
        for(auto n = rsize(r); n > 0; n--) {
            v.push_back(::make<T>(r));
        }
        return v;
    }
    static void canon(std::string& o, const std::vector<T>& v) {
        u64(o, v.size());
        for(size_t i = 0; i < v.size(); i++) {
            ::canon<T>(o, static_cast<const T&>(v[i]));
        }
    }
};
static void canon_sorted(std::string& o, std::vector<std::string>& e) {
    std::sort(e.begin(), e.end());
    u64(o, e.size());
    for(auto& s : e) {
        u64(o, s.size());
        o += s;
    }
}
template<typename M>
struct map_ty {
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    static M make(vh::rng& r) {
        M m;
        for(auto n = rsize(r); n > 0; n--) {
            auto k = ::make<K>(r);
            m.emplace(std::move(k), ::make<V>(r));
        }
        return m;
    }
    static void canon(std::string& o, const M& v) {
        std::vector<std::string> e;
        for(const auto& [k, w] : v) {
            std::string s;
            ::canon<K>(s, k);
            ::canon<V>(s, w);
            e.push_back(std::move(s));
        }
        canon_sorted(o, e);
    }
};
template<typename M>
struct set_ty {
    using K = typename M::key_type;
    static M make(vh::rng& r) {
        M m;
        for(auto n = rsize(r); n > 0; n--) {
            m.insert(::make<K>(r));
        }
        return m;
    }
    static void canon(std::string& o, const M& v) {
        std::vector<std::string> e;
        for(const auto& k : v) {
            e.push_back(::canon<K>(k));
        }
        canon_sorted(o, e);
    }
};
template<typename... Ts>
struct ty<std::unordered_map<Ts...>> : map_ty<std::unordered_map<Ts...>> {};
template<typename... Ts>
struct ty<std::unordered_set<Ts...>> : set_ty<std::unordered_set<Ts...>> {};
template<typename... Ts>
struct ty<std::set<Ts...>> : set_ty<std::set<Ts...>> {};
template<typename... Ts>
struct ty<std::variant<Ts...>> {
    using V = std::variant<Ts...>;
    template<size_t I>
    static V nth(vh::rng& r, size_t k) {
        if constexpr(I + 1 < sizeof...(Ts)) {
            if(k != I) {
                return nth<I + 1>(r, k);
            }
        }
        return V{std::in_place_index<I>, ::make<std::variant_alternative_t<I, V>>(r)};
    }
    static V make(vh::rng& r) {
        return nth<0>(r, r.below(sizeof...(Ts)));
    }
    static void canon(std::string& o, const V& v) {
        o.push_back(static_cast<char>(v.index()));
        std::visit(
            [&](const auto& a) {
                ::canon<std::decay_t<decltype(a)>>(o, a);
            },
            v);
    }
};
// a struct given by its members
template<typename T, auto... P>
struct rec {
    static T make(vh::rng& r) {
        T v{};
        ((v.*P = ::make<std::decay_t<decltype(v.*P)>>(r)), ...);
        return v;
    }
    static void canon(std::string& o, const T& v) {
        (::canon<std::decay_t<decltype(v.*P)>>(o, v.*P), ...);
    }
};
#define REC(T, ...) \
    template<>      \
    struct ty<T> : rec<T, __VA_ARGS__> {}
REC(tx_::out_point, &tx_::out_point::m_tx_id, &tx_::out_point::m_index);
REC(tx_::output, &tx_::output::m_witness_program_commitment, &tx_::output::m_value);
REC(tx_::input, &tx_::input::m_prevout, &tx_::input::m_prevout_data);
#define FTX &tx_::full_tx::m_inputs, &tx_::full_tx::m_outputs, &tx_::full_tx::m_witness
REC(tx_::full_tx, FTX);
REC(sentinel::execute_request, FTX);
REC(sentinel::validate_request, FTX);
REC(tx_::compact_tx, &tx_::compact_tx::m_id, &tx_::compact_tx::m_inputs, &tx_::compact_tx::m_uhs_outputs, &tx_::compact_tx::m_attestations);
REC(tv::input_error, &tv::input_error::m_code, &tv::input_error::m_data_err, &tv::input_error::m_idx);
REC(tv::output_error, &tv::output_error::m_code, &tv::output_error::m_idx);
REC(tv::witness_error, &tv::witness_error::m_code, &tv::witness_error::m_idx);
REC(sentinel::execute_response, &sentinel::execute_response::m_tx_status, &sentinel::execute_response::m_tx_error);
REC(ls::tx, &ls::tx::m_tx);
REC(ls::rpc::request, &ls::rpc::request::m_dtx_id, &ls::rpc::request::m_params);
REC(ls::rpc::uhs_status_request, &ls::rpc::uhs_status_request::m_uhs_id);
REC(ls::rpc::tx_status_request, &ls::rpc::tx_status_request::m_tx_id);
REC(coc::coordinator_state, &coc::coordinator_state::m_prepare_txs, &coc::coordinator_state::m_commit_txs, &coc::coordinator_state::m_discard_txs);
REC(atomizer::block, &atomizer::block::m_height, &atomizer::block::m_transactions);
REC(atomizer::tx_notify_request, &atomizer::tx_notify_request::m_tx, &atomizer::tx_notify_request::m_attestations, &atomizer::tx_notify_request::m_block_height);
REC(atomizer::aggregate_tx_notification, &atomizer::aggregate_tx_notification::m_tx, &atomizer::aggregate_tx_notification::m_oldest_attestation);
REC(atomizer::aggregate_tx_notify_request, &atomizer::aggregate_tx_notify_request::m_agg_txs);
REC(atomizer::prune_request, &atomizer::prune_request::m_block_height);
REC(atomizer::get_block_request, &atomizer::get_block_request::m_block_height);
REC(atomizer::get_block_response, &atomizer::get_block_response::m_blk);
REC(atomizer::make_block_response, &atomizer::make_block_response::m_blk, &atomizer::make_block_response::m_errs);
REC(rpc::header, &rpc::header::m_request_id);
template<typename T>
struct ty<rpc::request<T>> : rec<rpc::request<T>, &rpc::request<T>::m_header, &rpc::request<T>::m_payload> {};
template<typename T>
struct ty<rpc::response<T>> : rec<rpc::response<T>, &rpc::response<T>::m_header, &rpc::response<T>::m_payload> {};
REC(rls::rpc::try_lock_request, &rls::rpc::try_lock_request::m_ticket_number, &rls::rpc::try_lock_request::m_broker_id, &rls::rpc::try_lock_request::m_key,
    &rls::rpc::try_lock_request::m_locktype, &rls::rpc::try_lock_request::m_first_lock);
REC(rls::rpc::prepare_request, &rls::rpc::prepare_request::m_ticket_number, &rls::rpc::prepare_request::m_state_updates, &rls::rpc::prepare_request::m_broker_id);
REC(rls::rpc::commit_request, &rls::rpc::commit_request::m_ticket_number);
REC(rls::rpc::rollback_request, &rls::rpc::rollback_request::m_ticket_number);
REC(rls::rpc::finish_request, &rls::rpc::finish_request::m_ticket_number);
REC(rls::rpc::get_tickets_request, &rls::rpc::get_tickets_request::m_broker_id);
REC(rls::rpc::replicated_prepare_request, &rls::rpc::replicated_prepare_request::m_ticket_number, &rls::rpc::replicated_prepare_request::m_broker_id,
    &rls::rpc::replicated_prepare_request::m_state_update);
REC(rls::wounded_details, &rls::wounded_details::m_wounding_ticket, &rls::wounded_details::m_wounding_key);
REC(rls::shard_error, &rls::shard_error::m_error_code, &rls::shard_error::m_wounded_details);
using rticket = rls::replicated_shard_interface::ticket_type;
REC(rticket, &rticket::m_broker_id, &rticket::m_state_update, &rticket::m_state);
REC(ag::rpc::exec_request, &ag::rpc::exec_request::m_function, &ag::rpc::exec_request::m_param, &ag::rpc::exec_request::m_is_readonly_run);
// classes with private members
#define WRAP(T, INNER, GET)                                  \
    template<>                                               \
    struct ty<T> {                                           \
        static T make(vh::rng& r) {                          \
            return T(::make<INNER>(r));                      \
        }                                                    \
        static void canon(std::string& o, const T& v) {      \
            ::canon<INNER>(o, v.GET());                      \
        }                                                    \
    }
template<>
struct ty<wt::status_update_state> {
    static wt::status_update_state make(vh::rng& r) {
        auto s = ::make<wt::search_status>(r);
        auto h = ::make<uint64_t>(r);
        return wt::status_update_state(s, h, ::make<hash_t>(r));
    }
    static void canon(std::string& o, const wt::status_update_state& v) {
        ::canon(o, v.status());
        ::canon(o, v.block_height());
        ::canon(o, v.uhs_id());
    }
};
WRAP(wt::status_update_request, wt::tx_id_uhs_ids, uhs_ids);
WRAP(wt::status_request_check_success, wt::tx_id_states, states);
WRAP(wt::best_block_height_response, uint64_t, height);
WRAP(wt::request, wt::request::request_t, payload);
WRAP(wt::response, wt::response::response_t, payload);
WRAP(wt::tx_error_inputs_dne, std::vector<hash_t>, input_uhs_ids);
using hset = std::unordered_set<hash_t, hashing::null>;
WRAP(wt::tx_error_inputs_spent, hset, input_uhs_ids);
template<>
struct ty<wt::tx_error> {
    static wt::tx_error make(vh::rng& r) {
        auto id = ::make<hash_t>(r);
        auto i = ::make<wt::tx_error_info>(r);
        return std::visit(
            [&](auto&& e) {
                return wt::tx_error(id, e);
            },
            i);
    }
    static void canon(std::string& o, const wt::tx_error& v) {
        ::canon(o, v.tx_id());
        ::canon(o, v.info());
    }
};
template<typename T>
std::optional<T> decode(serializer& s) {
    if constexpr(std::is_default_constructible_v<T>) {
        T v{};
        if(!(s >> v)) {
            return std::nullopt;
        }
        return v;
    } else {
        auto v = T(s);
        if(!s) {
            return std::nullopt;
        }
        return v;
    }
}

// ---- the list of types --------------------------------------------------------
struct entry {
    const char* name;
    void (*round)(const char*, vh::rng&);
    void (*hostile)(const char*, vh::rng&, bool);
};
static std::string str(const cbdc::buffer& b) {
    return b.size() == 0 ? std::string() : std::string(b.c_str(), b.size());
}
static std::string hexs(const std::string& s, size_t max = 120) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for(size_t i = 0; i < s.size() && i < max; i++) {
        o += d[static_cast<unsigned char>(s[i]) >> 4];
        o += d[static_cast<unsigned char>(s[i]) & 15];
    }
    return o + (s.size() > max ? "..(" + std::to_string(s.size()) + ")" : "");
}
static cbdc::buffer buf(const std::string& s) {
    cbdc::buffer b;
    b.append(s.data(), s.size());
    return b;
}
template<typename T>
void round_trip(const char* name, vh::rng& r) {
    g_size = std::array<size_t, 4>{{1, 3, 3, 9}}[r.below(4)];
    auto v = make<T>(r);
    auto c = canon(v);
    auto n = std::string(name);
    auto sz = serialized_size(v);
    auto pkt = make_buffer(v);
    auto bytes = str(pkt);
    VCHECK(bytes.size() == sz, "U01:size:" + n, "serialized_size said " << sz << " and " << bytes.size() << " were written");
    {
        auto shared = make_shared_buffer(v);
        VCHECK(str(*shared) == bytes, "U01:shared:" + n, "make_shared_buffer differs from make_buffer");
    }
    // a serializer on an empty buffer grows it to the same bytes
    {
        cbdc::buffer grow;
        auto s = buffer_serializer(grow);
        s << v;
        VCHECK(str(grow) == bytes, "U01:grow:" + n, hexs(str(grow)) << " instead of " << hexs(bytes));
    }
    {
        std::ostringstream o;
        auto s = ostream_serializer(o);
        auto ok = static_cast<bool>(s << v);
        VCHECK(ok && o.str() == bytes, "U01:ostream:" + n, hexs(o.str()) << " instead of " << hexs(bytes));
    }
    {
        auto nb = cbdc::make_buffer<T, nuraft::ptr<nuraft::buffer>>(v);
        VCHECK(std::string(reinterpret_cast<const char*>(nb->data_begin()), nb->size()) == bytes, "U01:raft:" + n, "raft buffer differs");
        auto s = nuraft_serializer(*nb);
        auto back = decode<T>(s);
        VCHECK(back.has_value() && canon(back.value()) == c && s.end_of_buffer(), "U01:raft_read:" + n, hexs(bytes));
    }
    // back again, with another message following
    auto w = make<T>(r);
    auto bytes2 = str(make_buffer(w));
    {
        auto b = buf(bytes + bytes2);
        auto s = buffer_serializer(b);
        auto v1 = decode<T>(s);
        VCHECK(v1.has_value(), "U01:refused:" + n, hexs(bytes));
        if(v1.has_value()) {
            VCHECK(canon(v1.value()) == c, "U01:changed:" + n, hexs(bytes) << " value " << hexs(c) << " became " << hexs(canon(v1.value())));
            VCHECK(s.end_of_buffer() == bytes2.empty(), "U01:consumed:" + n, hexs(bytes));
            auto v2 = decode<T>(s);
            VCHECK(v2.has_value() && canon(v2.value()) == canon(w) && s.end_of_buffer(), "U01:second:" + n, hexs(bytes) << " then " << hexs(bytes2));
            // what was read is written the same way, up to the order of unordered containers
            auto again = make_buffer(v1.value());
            VCHECK(again.size() == bytes.size(), "U01:rewrite:" + n, hexs(bytes) << " became " << hexs(str(again)));
        }
    }
    {
        std::istringstream i(bytes + bytes2);
        auto s = istream_serializer(i);
        auto v1 = decode<T>(s);
        auto v2 = decode<T>(s);
        VCHECK(v1.has_value() && v2.has_value() && canon(v1.value()) == c && canon(v2.value()) == canon(w), "U01:istream:" + n, hexs(bytes));
        if constexpr(std::is_default_constructible_v<T>) {
            T v3{};
            if(!bytes.empty()) {
                VCHECK(!(s >> v3), "U01:istream_end:" + n, "read past the end of the stream");
            }
        }
    }
    if constexpr(std::is_default_constructible_v<T>) {
        auto b = buf(bytes);
        auto o = from_buffer<T>(b);
        VCHECK(o.has_value() && canon(o.value()) == c, "U01:from_buffer:" + n, hexs(bytes));
    }
    // every strict prefix is refused
    std::vector<size_t> cuts;
    if(bytes.size() <= 64) {
        for(size_t i = 0; i < bytes.size(); i++) {
            cuts.push_back(i);
        }
    } else {
        for(size_t i = 0; i < 24; i++) {
            cuts.push_back(r.below(bytes.size()));
        }
        cuts.push_back(bytes.size() - 1);
    }
    for(auto k : cuts) {
        auto b = buf(bytes.substr(0, k));
        auto s = buffer_serializer(b);
        auto o = decode<T>(s);
        VCHECK(!o.has_value(), "U01:prefix:" + n, "accepted " << k << " of " << bytes.size() << " bytes of " << hexs(bytes));
        vh::count("prefixes_refused", o.has_value() ? 0 : 1);
    }
    vh::count("round_trips");
    vh::count("bytes", bytes.size());
    vh::distinct(vh::hashs(n + bytes));
}
// One byte of a message is changed: it is refused, or read as a message with
// that byte (a flag as set), and not as one with another byte there.
template<typename T>
void one_byte(const char* name, vh::rng& r) {
    auto n = std::string(name);
    g_size = 3;
    const auto good = str(make_buffer(make<T>(r)));
    for(size_t i = 0; i < std::min<size_t>(good.size(), 80); i++) {
        auto bytes = good;
        bytes[i] = static_cast<char>(r.chance(50) ? r.in(2, 9) : r.in(2, 255));
        auto b = buf(bytes);
        auto s = buffer_serializer(b);
        auto v = decode<T>(s);
        if(!v.has_value()) {
            vh::count("one_byte_refused");
            continue;
        }
        auto again = str(make_buffer(v.value()));
        vh::count("one_byte_accepted");
        if(again.size() != bytes.size() || again[i] == bytes[i] || again[i] == 1) {
            continue;
        }
        auto got = again[i];
        again[i] = bytes[i];
        VCHECK(again != bytes, "U02:misread:" + n, "byte " << i << " of " << hexs(bytes, 400) << " was read as " << static_cast<unsigned>(static_cast<unsigned char>(got)));
    }
}
template<typename T>
void hostile(const char* name, vh::rng& r, bool fresh) {
    auto n = std::string(name);
    g_size = 3;
    std::string bytes;
    if(fresh) {
        one_byte<T>(name, r);
        bytes.resize(r.below(60));
        r.bytes(bytes.data(), bytes.size());
        for(auto& ch : bytes) {
            if(r.chance(60)) {
                ch = static_cast<char>(r.below(3));
            }
        }
    } else {
        bytes = str(make_buffer(make<T>(r)));
        for(auto k = r.in(1, 4); k > 0 && !bytes.empty(); k--) {
            auto i = r.below(bytes.size());
            switch(r.below(7)) {
                case 0:
                    bytes[i] = static_cast<char>(r.next());
                    break;
                case 1:
                    bytes[i] = static_cast<char>(bytes[i] ^ (1U << r.below(8)));
                    break;
                case 2: { // a length, anything
                    const std::array<uint64_t, 9> lens{{~0ULL, 1ULL << 63, (1ULL << 32) + 1, 1ULL << 40, 0x7fffffffffffffffULL, 1048577, 2, 0, 1ULL << 24}};
                    auto v = lens[r.below(lens.size())];
                    auto at = i & ~7ULL;
                    if(r.chance(50)) {
                        at = i;
                    }
                    if(at + 8 <= bytes.size()) {
                        std::memcpy(&bytes[at], &v, 8);
                    }
                    break;
                }
                case 3:
                    bytes.resize(i);
                    break;
                case 4:
                    bytes.insert(i, std::string(r.in(1, 9), static_cast<char>(r.next())));
                    break;
                case 5:
                    bytes.erase(i, r.in(1, 9));
                    break;
                default: { // repeat a part
                    auto l = std::min<size_t>(bytes.size() - i, r.in(1, 64));
                    bytes.insert(i, bytes.substr(i, l));
                }
            }
        }
    }
    auto b = buf(bytes);
    auto live = g_live.load();
    g_peak = live;
    {
        auto s = buffer_serializer(b);
        auto v = decode<T>(s);
        auto peak = g_peak.load() - live;
        auto allowed = (16LL << 20) + 64LL * static_cast<int64_t>(bytes.size());
        VCHECK(peak <= allowed, "U02:memory:" + n, "read " << bytes.size() << " bytes using " << peak << " bytes of memory: " << hexs(bytes, 400));
        if(v.has_value()) {
            vh::count("hostile_accepted");
            // whatever was accepted is a value like any other
            auto again = make_buffer(v.value());
            VCHECK(again.size() <= bytes.size(), "U02:longer:" + n, "accepted " << hexs(bytes, 400) << " and wrote " << hexs(str(again), 400));
            auto s2 = buffer_serializer(again);
            auto v2 = decode<T>(s2);
            VCHECK(v2.has_value() && canon(v2.value()) == canon(v.value()), "U02:unstable:" + n, hexs(bytes, 400));
        } else {
            vh::count("hostile_refused");
        }
    }
    vh::count("hostile_inputs");
    vh::distinct(vh::hashs(n + bytes));
}
#define T_(...) \
    entry { #__VA_ARGS__, &round_trip<__VA_ARGS__>, &hostile<__VA_ARGS__> }
using um = std::unordered_map<uint64_t, buffer>;
using ub = std::unordered_map<buffer, buffer, hashing::const_sip_hash<buffer>>;
using opt_pair = std::optional<std::pair<uint8_t, std::vector<hash_t>>>;
using opt_opt = std::optional<std::optional<uint16_t>>;
using nested = std::vector<std::vector<std::vector<uint8_t>>>;
using vset = std::vector<std::set<uint32_t>>;
using var3 = std::variant<uint8_t, buffer, std::vector<bool>>;
static const std::vector<entry>& types() {
    static const std::vector<entry> t = {
        T_(bool), T_(uint8_t), T_(uint64_t), T_(int32_t), T_(std::byte), T_(hash_t), T_(signature_t), T_(buffer), T_(std::vector<bool>), T_(std::vector<uint64_t>), T_(um), T_(ub), T_(opt_pair),
        T_(opt_opt), T_(nested), T_(vset), T_(var3), T_(std::unordered_set<uint64_t>), T_(hset),
        T_(tx_::out_point), T_(tx_::output), T_(tx_::input), T_(tx_::full_tx), T_(tx_::compact_tx), T_(std::vector<tx_::compact_tx>), T_(tx_::sentinel_attestation),
        T_(tv::input_error), T_(tv::output_error), T_(tv::witness_error), T_(tv::tx_error), T_(std::optional<tv::tx_error>),
        T_(rpc::request<sentinel::request>), T_(rpc::response<sentinel::response>), T_(sentinel::execute_response),
        T_(rpc::request<ls::rpc::request>), T_(rpc::response<ls::rpc::response>), T_(ls::tx),
        T_(rpc::request<ls::rpc::uhs_status_request>), T_(rpc::request<ls::rpc::tx_status_request>), T_(rpc::response<bool>), T_(rpc::request<tx_::compact_tx>),
        T_(coc::prepare_tx), T_(coc::commit_tx), T_(coc::discard_txs),
        T_(atomizer::block), T_(atomizer::tx_notify_request), T_(atomizer::aggregate_tx_notification), T_(atomizer::aggregate_tx_notify_request), T_(atomizer::request),
        T_(atomizer::errors), T_(atomizer::get_block_response), T_(atomizer::make_block_response), T_(atomizer::state_machine::request), T_(atomizer::state_machine::response),
        T_(rpc::request<uint64_t>), T_(archiver::response),
        T_(wt::status_update_request), T_(wt::status_update_state), T_(wt::status_request_check_success), T_(wt::best_block_height_response), T_(wt::request), T_(wt::response),
        T_(wt::tx_error), T_(wt::tx_error_inputs_dne), T_(wt::tx_error_inputs_spent),
        T_(rpc::request<rls::rpc::request>), T_(rpc::response<rls::rpc::response>), T_(rls::rpc::replicated_request), T_(rls::rpc::replicated_response), T_(rls::shard_error),
        T_(rpc::request<ag::rpc::request>), T_(rpc::response<ag::rpc::response>), T_(rpc::request<tkm::rpc::request>), T_(rpc::response<tkm::rpc::response>)};
    return t;
}

// Containers around the sizes where reading proceeds in parts.
template<typename T>
void boundary(const char* name, size_t n, vh::rng& r) {
    T v;
    if constexpr(std::is_same_v<T, buffer>) {
        std::string d(n, 'x');
        r.bytes(d.data(), std::min<size_t>(n, 64));
        r.bytes(&d[n - std::min<size_t>(n, 64)], std::min<size_t>(n, 64));
        v.append(d.data(), d.size());
    } else if constexpr(std::is_same_v<T, um>) {
        for(size_t i = 0; i < n; i++) {
            v.emplace(r.next(), buffer());
        }
    } else if constexpr(std::is_same_v<T, std::unordered_set<uint64_t>>) {
        for(size_t i = 0; i < n; i++) {
            v.insert(r.next());
        }
    } else {
        for(size_t i = 0; i < n; i++) {
            v.push_back(make<typename T::value_type>(r));
        }
    }
    auto b = make_buffer(v);
    auto s = buffer_serializer(b);
    auto o = decode<T>(s);
    VCHECK(o.has_value() && o.value() == v && s.end_of_buffer(), std::string("U01:large:") + name, n << " elements");
    cbdc::buffer cut;
    cut.append(b.data(), b.size() - 1);
    auto sc = buffer_serializer(cut);
    VCHECK(!decode<T>(sc).has_value(), std::string("U01:large_cut:") + name, n << " elements without the last byte were accepted");
    vh::count("large");
}
static void large(vh::rng& r) {
    constexpr auto m = config::maximum_reservation;
    auto around = [&](size_t x) {
        return static_cast<size_t>(static_cast<int64_t>(x * r.in(1, 2)) + static_cast<int64_t>(r.below(4)) - 2);
    };
    switch(r.below(6)) {
        case 0:
            boundary<buffer>("buffer", around(m), r);
            break;
        case 1:
            boundary<std::vector<uint64_t>>("vector<uint64>", around(m / 8), r);
            break;
        case 2:
            boundary<std::vector<hash_t>>("vector<hash>", around(m / 32), r);
            break;
        case 3:
            boundary<std::unordered_set<uint64_t>>("unordered_set", around(m / 8), r);
            break;
        case 4:
            boundary<um>("unordered_map", around(m / (8 + sizeof(buffer))), r);
            break;
        default:
            boundary<std::vector<tx_::compact_tx>>("vector<compact_tx>", around(m / sizeof(tx_::compact_tx)), r);
    }
}
// The coordinator's replicated state and commands: written by its state
// machine, read by its controller.
static void coordinator_types(vh::rng& r) {
    g_size = 3;
    auto st = make<coc::coordinator_state>(r);
    auto sm = co::state_machine::coordinator_state();
    for(auto& [k, v] : st.m_prepare_txs) {
        sm.m_prepare_txs.emplace(k, cbdc::make_buffer<coc::prepare_tx, nuraft::ptr<nuraft::buffer>>(v));
    }
    for(auto& [k, v] : st.m_commit_txs) {
        sm.m_commit_txs.emplace(k, cbdc::make_buffer<coc::commit_tx, nuraft::ptr<nuraft::buffer>>(v));
    }
    sm.m_discard_txs.insert(st.m_discard_txs.begin(), st.m_discard_txs.end());
    auto b = make_buffer(sm);
    auto s = buffer_serializer(b);
    auto back = decode<coc::coordinator_state>(s);
    VCHECK(back.has_value() && canon(back.value()) == canon(st) && s.end_of_buffer(), "U01:coordinator_state", hexs(str(b)));
    for(auto comm : {co::state_machine::command::prepare, co::state_machine::command::commit, co::state_machine::command::discard, co::state_machine::command::done,
                     co::state_machine::command::get}) {
        auto c = coc::sm_command();
        c.m_header.m_comm = comm;
        if(comm != co::state_machine::command::get || r.chance(50)) {
            c.m_header.m_dtx_id = make<hash_t>(r);
        }
        std::string want;
        if(comm == co::state_machine::command::prepare) {
            c.m_data = make<coc::prepare_tx>(r);
            want = canon(std::get<coc::prepare_tx>(c.m_data.value()));
        } else if(comm == co::state_machine::command::commit) {
            c.m_data = make<coc::commit_tx>(r);
            want = canon(std::get<coc::commit_tx>(c.m_data.value()));
        }
        auto pkt = make_buffer(c);
        VCHECK(pkt.size() == serialized_size(c), "U01:size:sm_command", "");
        auto d = buffer_serializer(pkt);
        auto h = decode<coc::sm_command_header>(d);
        auto ok = h.has_value() && h->m_comm == comm && h->m_dtx_id == c.m_header.m_dtx_id;
        std::string got;
        if(comm == co::state_machine::command::prepare) {
            auto p = decode<coc::prepare_tx>(d);
            got = p.has_value() ? canon(p.value()) : "?";
        } else if(comm == co::state_machine::command::commit) {
            auto p = decode<coc::commit_tx>(d);
            got = p.has_value() ? canon(p.value()) : "?";
        }
        VCHECK(ok && got == want && d.end_of_buffer(), "U01:sm_command", "command " << static_cast<int>(comm) << " " << hexs(str(pkt)));
        vh::count("commands");
    }
}
// Cursor operations against a byte string and a position.
static void cursor(vh::rng& r) {
    std::string m;
    size_t pos = 0;
    cbdc::buffer b;
    auto s = buffer_serializer(b);
    std::string ops;
    for(auto n = r.in(3, 40); n > 0; n--) {
        switch(r.below(5)) {
            case 0: {
                std::string d(r.below(9), 0);
                r.bytes(d.data(), d.size());
                auto ok = s.write(d.data(), d.size());
                if(pos + d.size() > m.size()) {
                    m.resize(pos + d.size());
                }
                m.replace(pos, d.size(), d);
                pos += d.size();
                ops += "w" + std::to_string(d.size()) + " ";
                VCHECK(ok, "U01:cursor:write", ops);
                break;
            }
            case 1: {
                std::string d(r.below(9), 'z');
                auto before = d;
                auto ok = s.read(d.data(), d.size());
                ops += "r" + std::to_string(d.size()) + " ";
                auto want = pos + d.size() <= m.size();
                VCHECK(ok == want, "U01:cursor:read_result", ops);
                VCHECK(static_cast<bool>(s) == want, "U01:cursor:valid", ops);
                if(want) {
                    VCHECK(d == m.substr(pos, d.size()), "U01:cursor:read", ops);
                    pos += d.size();
                } else {
                    VCHECK(d == before, "U01:cursor:partial", ops);
                    s.reset();
                    pos = 0;
                    VCHECK(static_cast<bool>(s), "U01:cursor:reset_valid", ops);
                }
                break;
            }
            case 2: {
                auto k = r.below(m.size() - pos + 1);
                s.advance_cursor(k);
                pos += k;
                ops += "a" + std::to_string(k) + " ";
                break;
            }
            case 3:
                s.reset();
                pos = 0;
                ops += "0 ";
                break;
            default:
                break;
        }
        VCHECK(s.end_of_buffer() == (pos >= m.size()), "U01:cursor:end", ops);
        VCHECK(str(b) == m, "U01:cursor:content", ops);
    }
    // the same bytes through streams
    std::stringstream ss(m);
    auto is = istream_serializer(ss);
    for(size_t at = 0; at < m.size();) {
        VCHECK(!is.end_of_buffer(), "U01:stream:end", ops);
        auto k = r.in(1, m.size() - at);
        if(r.chance(30)) {
            is.advance_cursor(k);
        } else {
            std::string d(k, 'z');
            VCHECK(is.read(d.data(), k) && d == m.substr(at, k), "U01:stream:read", ops << " at " << at << " " << k);
        }
        at += k;
    }
    VCHECK(is.end_of_buffer(), "U01:stream:at_end", ops);
    if(!m.empty()) {
        is.reset();
        char ch = 'z';
        VCHECK(is.read(&ch, 1) && ch == m[0], "U01:stream:reset", ops);
    }
    vh::count("cursor_runs");
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("serialization");
    if(vh::st().mode == "hostile") {
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        vh::run_cases([](vh::rng& r, uint64_t) {
            for(auto& t : types()) {
                for(int i = 0; i < 6; i++) {
                    t.hostile(t.name, r, i == 0);
                }
                vh::tick();
            }
        });
    } else {
        vh::run_cases([](vh::rng& r, uint64_t c) {
            for(auto& t : types()) {
                t.round(t.name, r);
                vh::tick();
            }
            coordinator_types(r);
            cursor(r);
            if(c % 25 == 0) {
                large(r);
            }
        });
        vh::count("types", types().size());
    }
    return vh::finish();
}
