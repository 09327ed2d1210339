// U04: messages between connected peers, over real sockets.
#include "hinject.hpp"
#include "hnet.hpp"

#include "util/network/connection_manager.hpp"
#include "util/network/tcp_listener.hpp"
#include "util/network/tcp_socket.hpp"
#include "util/serialization/util.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_HOOKS 1
#endif
#endif

using namespace cbdc;
using cm = network::connection_manager;

static std::atomic<uint64_t> g_biggest{0};
#ifdef HAVE_HOOKS
static void on_malloc(const volatile void*, size_t n) {
    auto k = g_biggest.load();
    while(n > k && !g_biggest.compare_exchange_weak(k, n)) {}
}
static void on_free(const volatile void*) {}
#endif

// ---- messages that carry who sent them and prove their own content --------
struct msg {
    uint8_t kind{}; // 1 plain, 2 wants a reply, 3 reply, 4 broadcast, 5 probe
    uint32_t from{};
    uint32_t seq{};
    uint32_t len{};
};
static unsigned char body(const msg& m, uint32_t i) {
    return static_cast<unsigned char>((m.from * 131U + m.seq * 31U + m.kind * 7U + i * 13U) ^ (i >> 8U));
}
static std::shared_ptr<buffer> pack(const msg& m) {
    auto b = std::make_shared<buffer>();
    b->append(&m.kind, 1);
    b->append(&m.from, 4);
    b->append(&m.seq, 4);
    b->append(&m.len, 4);
    std::vector<unsigned char> p(m.len);
    for(uint32_t i = 0; i < m.len; i++) {
        p[i] = body(m, i);
    }
    b->append(p.data(), p.size());
    return b;
}
static std::optional<msg> unpack(const buffer& b) {
    if(b.size() < 13) {
        return std::nullopt;
    }
    msg m;
    auto* p = b.c_ptr();
    m.kind = p[0];
    std::memcpy(&m.from, p + 1, 4);
    std::memcpy(&m.seq, p + 5, 4);
    std::memcpy(&m.len, p + 9, 4);
    if(b.size() != 13 + static_cast<size_t>(m.len)) {
        return std::nullopt;
    }
    for(uint32_t i = 0; i < m.len; i++) {
        if(p[13 + i] != body(m, i)) {
            return std::nullopt;
        }
    }
    return m;
}
static uint32_t rlen(vh::rng& r) {
    switch(r.below(25)) {
        case 0:
            return static_cast<uint32_t>(r.below(400000));
        case 1:
        case 2:
            return static_cast<uint32_t>(r.below(9000));
        case 3:
            return 0;
        default:
            return static_cast<uint32_t>(r.below(200));
    }
}
static void jitter(vh::rng& r) {
    switch(r.below(15)) {
        case 0:
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
            break;
        case 1:
            std::this_thread::yield();
            break;
        default:
            break;
    }
}
// What one party received: checks order and single delivery as it goes.
struct inbox {
    std::mutex m;
    std::map<std::pair<uint8_t, uint32_t>, std::vector<uint32_t>> got; // (kind, stream) -> seqs
    std::map<std::pair<size_t, std::pair<uint8_t, uint32_t>>, uint32_t> last_of;
    std::map<std::pair<uint8_t, uint32_t>, std::set<uint32_t>> seen;
    std::map<uint32_t, std::set<size_t>> peer_of;                        // stream -> peer ids
    uint64_t n{0};
    uint64_t empties{0};
    bool put(const std::string& who, const network::message_t& p, std::optional<msg>& out) {
        if(p.m_pkt->size() == 0) {
            std::unique_lock<std::mutex> l(m);
            empties++;
            n++;
            return true;
        }
        out = unpack(*p.m_pkt);
        if(!out.has_value()) {
            vh::report("U04:corrupt", who + " received a packet nobody sent, of " + std::to_string(p.m_pkt->size()) + " bytes");
            return false;
        }
        std::unique_lock<std::mutex> l(m);
        auto& v = got[{out->kind, out->from}];
        // a client that reconnects is a new peer, whose messages may overtake the rest of the old one's
        auto& last = last_of[{p.m_peer_id, {out->kind, out->from}}];
        auto once = seen[{out->kind, out->from}].insert(out->seq).second;
        if(!once) {
            vh::report("U04:twice", who + " received message " + std::to_string(out->seq) + " of stream " + std::to_string(out->from) + " kind " + std::to_string(out->kind) + " twice");
        }
        auto before = last;
        last = std::max(last, out->seq);
        if(out->seq < before) {
            vh::report("U04:order", who + " received message " + std::to_string(out->seq) + " of stream " + std::to_string(out->from) + " kind "
                                        + std::to_string(out->kind) + " after " + std::to_string(before));
        }
        v.push_back(out->seq);
        peer_of[out->from].insert(p.m_peer_id);
        n++;
        return true;
    }
    uint64_t count() {
        std::unique_lock<std::mutex> l(m);
        return n;
    }
    size_t count(uint8_t k, uint32_t s) {
        std::unique_lock<std::mutex> l(m);
        auto it = got.find({k, s});
        return it == got.end() ? 0 : it->second.size();
    }
};
static size_t open_fds() {
    size_t n = 0;
    auto* d = opendir("/proc/self/fd");
    while(readdir(d) != nullptr) {
        n++;
    }
    closedir(d);
    return n;
}

// ---- messages among a server and its clients --------------------------------
static void mesh(vh::rng& r) {
    auto ep = vn::endpoint();
    auto nc = r.in(1, 4);
    auto per = r.in(1, 40);
    auto ns = r.in(1, 2); // sending threads of each client
    inbox sin;
    std::vector<std::unique_ptr<inbox>> cin_;
    std::map<uint32_t, size_t> id_of; // client -> peer id at the server
    {
        auto srv = std::make_unique<cm>();
        auto th = srv->start_server(ep, [&](network::message_t&& p) -> std::optional<buffer> {
            std::optional<msg> m;
            if(!sin.put("server", p, m) || !m.has_value()) {
                return std::nullopt;
            }
            if(m->kind == 2) {
                auto rep = *m;
                rep.kind = 3;
                rep.len = rep.len % 1000;
                return *pack(rep);
            }
            return std::nullopt;
        });
        if(!th.has_value()) {
            vh::count("port_taken");
            return;
        }
        std::vector<std::unique_ptr<cm>> cs;
        std::vector<std::thread> hs;
        for(uint32_t c = 0; c < nc; c++) {
            cin_.emplace_back(std::make_unique<inbox>());
            auto n = std::make_unique<cm>();
            if(!n->cluster_connect({ep})) {
                vh::report("U04:connect", "client could not connect to a listening server");
                return;
            }
            hs.push_back(n->start_handler([&, c](network::message_t&& p) -> std::optional<buffer> {
                std::optional<msg> m;
                cin_[c]->put("client", p, m);
                return std::nullopt;
            }));
            cs.push_back(std::move(n));
        }
        for(auto& c : cs) {
            VCHECK(c->peer_count() == 1 && c->connected_to_one() && c->connected(0) && !c->connected(1), "U04:connected", "a connected client says it is not");
        }
        // clients send on their streams; stream = client * 10 + thread
        std::vector<std::thread> ts;
        std::vector<std::atomic<uint32_t>> replies(nc);
        std::atomic<uint64_t> total{0};
        std::atomic<uint64_t> empties{0};
        for(uint32_t c = 0; c < nc; c++) {
            for(uint32_t t = 0; t < ns; t++) {
                auto s = r.next();
                ts.emplace_back([&, c, t, s] {
                    vh::rng q(s);
                    for(uint32_t i = 1; i <= per; i++) {
                        msg m;
                        m.kind = q.chance(40) ? 2 : 1;
                        m.from = c * 10 + t;
                        m.seq = i;
                        m.len = rlen(q);
                        if(m.kind == 2) {
                            replies[c]++;
                        }
                        auto p = pack(m);
                        switch(q.below(3)) {
                            case 0:
                                cs[c]->broadcast(p);
                                break;
                            case 1:
                                VCHECK(cs[c]->send_to_one(p), "U04:send_to_one", "refused by a connected client");
                                break;
                            default:
                                cs[c]->send(p, 0);
                        }
                        total++;
                        if(q.chance(3)) {
                            cs[c]->send(std::make_shared<buffer>(), 0);
                            empties++;
                            total++;
                        }
                        jitter(q);
                    }
                });
            }
        }
        for(auto& t : ts) {
            t.join();
        }
        if(!vn::wait([&] {
               return sin.count() >= total.load();
           })) {
            vh::report("U04:lost", "server received " + std::to_string(sin.count()) + " of " + std::to_string(total.load()) + " messages");
        }
        // server: to all, and to each by the id its messages carried
        {
            std::unique_lock<std::mutex> l(sin.m);
            for(auto& [stream, ids] : sin.peer_of) {
                id_of[stream / 10] = *ids.begin();
            }
        }
        uint32_t nb = static_cast<uint32_t>(r.below(8));
        for(uint32_t i = 1; i <= nb; i++) {
            msg m{4, 900, i, rlen(r)};
            srv->broadcast(pack(m));
        }
        uint32_t nd = static_cast<uint32_t>(r.below(8));
        for(auto& [c, id] : id_of) {
            VCHECK(srv->connected(id), "U04:connected_inbound", "the server says that client " << c << ", whose messages it received, is not connected");
            for(uint32_t i = 1; i <= nd; i++) {
                srv->send(pack(msg{1, 1000 + c, i, rlen(r)}), id);
            }
        }
        if(r.chance(50)) {
            VCHECK(srv->send_to_one(pack(msg{5, 950, 1, 3})), "U04:send_to_one_inbound", "server with connected clients refused to send");
            auto probes = [&] {
                size_t k = 0;
                for(auto& i : cin_) {
                    k += i->count(5, 950);
                }
                return k;
            };
            VCHECK(vn::wait([&] {
                       return probes() == 1;
                   }),
                   "U04:send_to_one_delivery",
                   probes());
        }
        for(uint32_t c = 0; c < nc; c++) {
            auto want = replies[c].load() + nb + nd;
            auto have = [&] {
                size_t k = cin_[c]->count(4, 900) + cin_[c]->count(1, 1000 + c);
                for(uint32_t t = 0; t < ns; t++) {
                    k += cin_[c]->count(3, c * 10 + t);
                }
                return k;
            };
            if(!vn::wait([&] {
                   return have() >= want;
               })) {
                vh::report("U04:lost_to_client", std::to_string(have()) + " of " + std::to_string(want) + " (replies " + std::to_string(replies[c].load()) + ")");
            }
            std::unique_lock<std::mutex> l(cin_[c]->m);
            for(auto& [k, v] : cin_[c]->got) {
                auto own = k.second == 900 || k.second == 950 || k.second == 1000 + c || (k.second < 900 && k.second / 10 == c);
                VCHECK(own, "U04:misdelivered", "client " << c << " received a message for stream " << k.second);
            }
            vh::count("to_client", want);
        }
        {
            std::unique_lock<std::mutex> l(sin.m);
            std::map<size_t, uint32_t> client_of;
            for(auto& [stream, ids] : sin.peer_of) {
                VCHECK(ids.size() == 1, "U04:peer_ids", "one connection's messages carried " << ids.size() << " peer ids");
                auto [it, fresh] = client_of.emplace(*ids.begin(), stream / 10);
                VCHECK(it->second == stream / 10, "U04:peer_ids", "two clients share a peer id");
            }
            for(uint32_t c = 0; c < nc; c++) {
                for(uint32_t t = 0; t < ns; t++) {
                    auto k = sin.got[{1, c * 10 + t}].size() + sin.got[{2, c * 10 + t}].size();
                    VCHECK(k == per, "U04:missing", "stream " << c * 10 + t << " has " << k << " of " << per);
                }
            }
            VCHECK(sin.empties == empties.load(), "U04:empty", sin.empties << " of " << empties.load() << " empty messages");
        }
        vh::count("to_server", total.load());
        // a client leaves: the server notices, the others go on
        if(nc > 1) {
            cs[0]->close();
            hs[0].join();
            auto gone = id_of.count(0) != 0 ? id_of[0] : 0;
            VCHECK(vn::wait([&] {
                       return !srv->connected(gone);
                   }),
                   "U04:still_connected",
                   "a client that left stays connected");
            auto before = sin.count();
            cs[1]->broadcast(pack(msg{1, 19, 1, 100}));
            VCHECK(vn::wait([&] {
                       return sin.count() > before;
                   }),
                   "U04:after_leave",
                   "the remaining client is no longer heard");
            vh::count("left");
        }
        // close in any order, or simply destroy
        vh::tick();
        if(r.chance(50)) {
            srv->close();
            th->join();
            if(r.chance(50)) {
                srv.reset();
            }
        }
        for(size_t c = nc > 1 ? 1 : 0; c < cs.size(); c++) {
            if(r.chance(50)) {
                cs[c]->close();
                hs[c].join();
                VCHECK(!cs[c]->connected_to_one(), "U04:closed", "connected after close");
            } else {
                cs[c]->close();
                hs[c].join();
                cs[c].reset();
            }
        }
        if(th->joinable()) {
            srv->close();
            th->join();
        }
        std::string o;
        std::unique_lock<std::mutex> l(sin.m);
        for(auto& [k, v] : sin.got) {
            o += std::to_string(k.first) + ":" + std::to_string(k.second) + ":" + std::to_string(v.size()) + " ";
        }
        vh::distinct(vh::hashs(o));
    }
}

// ---- a connection that splits, delays and breaks -----------------------------
static void faults(vh::rng& r) {
    auto ep = vn::endpoint();
    inbox sin;
    inbox cin_;
    vn::proxy px;
    cm srv;
    auto th = srv.start_server(ep, [&](network::message_t&& p) -> std::optional<buffer> {
        std::optional<msg> m;
        sin.put("server", p, m);
        if(m.has_value() && (m->kind == 2 || m->kind == 5)) {
            auto rep = *m;
            rep.kind = 3;
            return *pack(rep);
        }
        return std::nullopt;
    });
    if(!th.has_value() || !px.start(ep.second)) {
        vh::count("port_taken");
        if(th.has_value()) {
            srv.close();
            th->join();
        }
        return;
    }
    px.tiny = r.chance(40);
    cm cli;
    if(!cli.cluster_connect({{network::localhost, px.port}})) {
        vh::report("U04:connect", "through the proxy");
    }
    auto h = cli.start_handler([&](network::message_t&& p) -> std::optional<buffer> {
        std::optional<msg> m;
        cin_.put("client", p, m);
        return std::nullopt;
    });
    uint32_t seq = 0;
    auto cuts = static_cast<int>(r.in(1, 3));
    for(int k = 1; k <= cuts; k++) {
        px.cut_after = static_cast<int64_t>(r.below(30000));
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
        while(px.cuts.load() < k && std::chrono::steady_clock::now() < end) {
            seq++;
            auto len = std::min<uint32_t>(rlen(r), px.tiny ? 2000 : 100000);
            cli.broadcast(pack(msg{static_cast<uint8_t>(r.chance(40) ? 2 : 1), 1, seq, len}));
            if(r.chance(30)) {
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
            }
            vh::tick();
        }
        VCHECK(px.cuts.load() >= k, "U04:no_reconnect", "nothing came through the connection any more after " << k - 1 << " cuts");
    }
    // the line holds now: a probe comes through, and from there on everything does, both ways
    auto probe = [&] {
        return cin_.count(3, 2);
    };
    uint32_t ps = 0;
    auto ok = vn::wait([&] {
        ps++;
        cli.broadcast(pack(msg{5, 2, ps, 10}));
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        vh::tick();
        return probe() > 0;
    });
    VCHECK(ok, "U04:reconnect", "the client never got through again after the connection broke");
    if(ok) {
        auto base_s = sin.count(2, 3);
        uint32_t n = static_cast<uint32_t>(r.in(1, 30));
        for(uint32_t i = 1; i <= n; i++) {
            cli.broadcast(pack(msg{2, 3, i, std::min<uint32_t>(rlen(r), px.tiny ? 2000 : 100000)}));
        }
        VCHECK(vn::wait([&] {
                   return sin.count(2, 3) == base_s + n && cin_.count(3, 3) == n;
               }),
               "U04:lost_after_reconnect",
               sin.count(2, 3) << " of " << n << " reached the server, " << cin_.count(3, 3) << " replies came back");
        VCHECK(cli.connected(0) && cli.connected_to_one(), "U04:connected", "not connected after reconnecting");
        VCHECK(px.accepted.load() <= px.cuts.load() + px.refused.load() + 1, "U04:healthy_broken", "the client connected " << px.accepted.load() << " times while the line broke " << px.cuts.load() << " times");
        vh::count("after_reconnect", n);
    }
    vh::count("cuts", static_cast<uint64_t>(px.cuts.load()));
    vh::count("faulty_messages", seq);
    vh::distinct(vh::mix(vh::mix(seq, sin.count()), cin_.count()));
    if(r.chance(50)) {
        cli.close();
        h.join();
        srv.close();
        th->join();
    } else {
        srv.close();
        th->join();
        cli.close();
        h.join();
    }
}

// ---- somebody who does not speak the protocol --------------------------------
static void raw(vh::rng& r) {
    auto ep = vn::endpoint();
    inbox sin;
    std::atomic<uint64_t> raw_pkts{0};
    cm srv;
    auto th = srv.start_server(ep, [&](network::message_t&& p) -> std::optional<buffer> {
        if(p.m_pkt->size() >= 1 && p.m_pkt->c_ptr()[0] == 0xEE) {
            raw_pkts++;
            return std::nullopt;
        }
        std::optional<msg> m;
        sin.put("server", p, m);
        if(m.has_value()) {
            auto rep = *m;
            rep.kind = 3;
            return *pack(rep);
        }
        return std::nullopt;
    });
    if(!th.has_value()) {
        vh::count("port_taken");
        return;
    }
    cm cli;
    std::atomic<uint32_t> replies{0};
    if(!cli.cluster_connect({ep})) {
        vh::report("U04:connect", "");
    }
    auto h = cli.start_handler([&](network::message_t&&) -> std::optional<buffer> {
        replies++;
        return std::nullopt;
    });
    g_biggest = 0;
    uint64_t sent = 0;
    uint64_t whole = 0;
    std::vector<int> fds;
    for(auto k = r.in(1, 6); k > 0; k--) {
        auto s = vn::raw_connect(ep.second);
        if(s < 0) {
            continue;
        }
        auto put = [&](const void* p, size_t n) {
            auto w = ::send(s, p, n, MSG_NOSIGNAL);
            sent += w > 0 ? static_cast<uint64_t>(w) : 0;
        };
        const std::array<uint64_t, 7> lens{{~0ULL, 1ULL << 62, 1ULL << 40, 1ULL << 33, 0x7fffffffffffffffULL, 1ULL << 31, 600000000}};
        switch(r.below(5)) {
            case 0: { // a size nobody can mean, then a few bytes
                auto l = lens[r.below(lens.size())];
                put(&l, 8);
                std::string d(r.below(5000), '\xEE');
                put(d.data(), d.size());
                break;
            }
            case 1: { // part of a header
                uint64_t l = 5;
                put(&l, r.in(1, 7));
                break;
            }
            case 2: { // part of a body
                uint64_t l = r.in(10, 5000);
                std::string d(r.below(l), '\xEE');
                put(&l, 8);
                put(d.data(), d.size());
                break;
            }
            case 3: { // well formed, byte by byte
                uint64_t l = r.in(1, 40);
                std::string d(reinterpret_cast<char*>(&l), 8);
                d += std::string(l, '\xEE');
                for(auto c : d) {
                    put(&c, 1);
                }
                whole++;
                break;
            }
            default:
                break;
        }
        vh::count("raw_clients");
        if(r.chance(50)) {
            ::close(s);
        } else {
            fds.push_back(s);
        }
    }
    for(uint32_t i = 1; i <= 3; i++) {
        cli.broadcast(pack(msg{2, 7, i, 50}));
    }
    VCHECK(vn::wait([&] {
               return sin.count(2, 7) == 3 && replies.load() == 3 && raw_pkts.load() == whole;
           }),
           "U04:raw_disturbed",
           "of three good messages " << sin.count(2, 7) << " arrived, " << replies.load() << " were answered; " << raw_pkts.load() << " of " << whole << " whole packets");
#ifdef HAVE_HOOKS
    VCHECK(g_biggest.load() < (4ULL << 20) + sent, "U04:raw_memory", "a peer that sent " << sent << " bytes made the server allocate " << g_biggest.load() << " at once");
#endif
    for(auto f : fds) {
        ::close(f);
    }
    cli.close();
    h.join();
    srv.close();
    th->join();
    VCHECK(raw_pkts.load() == whole, "U04:raw_partial", raw_pkts.load() << " packets delivered of " << whole << " complete ones");
    vh::distinct(vh::mix(sent, whole));
}

// ---- starting, stopping, resetting, all while in use ---------------------------
static void lifecycle(vh::rng& r) {
    auto srv = std::make_unique<cm>();
    std::vector<int> filler;
    for(auto rounds = r.in(1, 4); rounds > 0; rounds--) {
        auto ep = vn::endpoint();
        inbox sin;
        std::atomic<uint64_t> echoed{0};
        auto th = srv->start_server(ep, [&](network::message_t&& p) -> std::optional<buffer> {
            std::optional<msg> m;
            sin.put("server", p, m);
            return m.has_value() ? std::optional<buffer>(*pack(msg{3, m->from, m->seq, 8})) : std::nullopt;
        });
        if(!th.has_value()) {
            vh::count("port_taken");
            break;
        }
        std::vector<std::unique_ptr<cm>> cs;
        std::vector<std::thread> hs;
        std::vector<std::thread> ts;
        auto nc = r.in(1, 3);
        std::atomic<bool> stop{false};
        for(uint32_t c = 0; c < nc; c++) {
            auto n = std::make_unique<cm>();
            if(!n->cluster_connect({ep})) {
                vh::report("U04:connect", "to a server started again");
            }
            hs.push_back(n->start_handler([&](network::message_t&&) -> std::optional<buffer> {
                echoed++;
                return std::nullopt;
            }));
            cs.push_back(std::move(n));
        }
        // it works
        for(uint32_t c = 0; c < nc; c++) {
            cs[c]->broadcast(pack(msg{1, 100 + c, 1, 4}));
        }
        VCHECK(vn::wait([&] {
                   return echoed.load() == nc;
               }),
               "U04:restarted",
               "a server that was started again answered " << echoed.load() << " of " << nc << " clients");
        for(uint32_t c = 0; c < nc; c++) {
            auto s = r.next();
            ts.emplace_back([&, c, s] {
                vh::rng q(s);
                for(uint32_t i = 1; !stop.load(); i++) {
                    if(q.chance(50)) {
                        cs[c]->broadcast(pack(msg{1, c, i, rlen(q) / 8}));
                    } else {
                        std::ignore = cs[c]->send_to_one(pack(msg{1, c, i, 10}));
                    }
                    std::ignore = cs[c]->connected(0);
                    std::ignore = cs[c]->peer_count();
                    jitter(q);
                }
            });
        }
        std::thread more([&] {
            while(!stop.load()) {
                srv->broadcast(pack(msg{4, 900, 1, 10}));
                std::ignore = srv->connected_to_one();
                std::this_thread::yield();
            }
        });
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(6000)));
        // stop both ends in some order while they are in use
        std::vector<size_t> order;
        for(size_t i = 0; i <= nc; i++) {
            order.push_back(i);
        }
        r.shuffle(order);
        std::vector<std::thread> closers;
        auto parallel = r.chance(40);
        for(auto i : order) {
            auto f = [&, i] {
                if(i == nc) {
                    srv->close();
                    th->join();
                } else {
                    cs[i]->close();
                    hs[i].join();
                }
            };
            if(parallel) {
                closers.emplace_back(f);
            } else {
                f();
                vh::tick();
            }
        }
        for(auto& t : closers) {
            t.join();
        }
        stop = true;
        more.join();
        for(auto& t : ts) {
            t.join();
        }
        for(auto& c : cs) {
            VCHECK(!c->connected_to_one() && c->peer_count() == 0, "U04:closed", "connected after close");
        }
        cs.clear();
        srv->reset();
        if(r.chance(50)) {
            filler.push_back(::open("/dev/null", O_RDONLY));
        }
        vh::count("lifecycles");
        vh::distinct(vh::mix(sin.count(), echoed.load()));
    }
    for(auto f : filler) {
        ::close(f);
    }
}
// Nobody waits for a message that never comes when the network is closed.
static void idle(vh::rng& r) {
    for(int i = 0; i < 20; i++) {
        cm n;
        auto h = n.start_handler([](network::message_t&&) -> std::optional<buffer> {
            return std::nullopt;
        });
        for(auto k = r.below(400); k > 0; k--) {
            __asm__ volatile("" ::: "memory");
        }
        n.close();
        h.join();
        vh::count("idle_closes");
        vh::tick();
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("network");
    auto mode = vh::st().mode;
#ifdef HAVE_HOOKS
    if(mode == "raw") {
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    }
#endif
    auto fds = open_fds();
    auto first = true; // sanitizers and the library open some of their own
    vh::run_cases([&](vh::rng& r, uint64_t) {
        vi::short_percent = r.chance(50) ? static_cast<unsigned>(r.below(25)) : 0;
        auto was = std::make_pair(vi::short_io.load(), vi::slow_waits.load());
        if(mode == "faults") {
            faults(r);
        } else if(mode == "raw") {
            raw(r);
        } else if(mode == "lifecycle") {
            lifecycle(r);
            idle(r);
        } else {
            mesh(r);
        }
        auto now = open_fds();
        VCHECK(first || now <= fds, "U04:fd_leak", "descriptors open: " << fds << " before, " << now << " after everything was destroyed");
        first = false;
        vh::count("short_io", vi::short_io.load() - was.first);
        vh::count("slow_waits", vi::slow_waits.load() - was.second);
        fds = std::max(fds, now);
    });
    return vh::finish();
}
