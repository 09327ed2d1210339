// U03: each RPC call gets the answer to that call, or none.
#include "hinject.hpp"
#include "hnet.hpp"

#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"

using namespace cbdc;
using payload = std::pair<uint64_t, std::vector<uint8_t>>;
using client_t = rpc::tcp_client<payload, payload>;
using ms = std::chrono::milliseconds;
using clk = std::chrono::steady_clock;

// What the server is to do with a request is part of its number.
enum act : uint8_t { now, later, fail, never, empty_later, twice, answer_then_refuse, slow, n_acts };
static act act_of(uint64_t n) {
    return static_cast<act>(n & 0xffU);
}
static payload request(vh::rng& r, act a, std::atomic<uint64_t>& ids) {
    payload p;
    p.first = (ids++ << 16U) | static_cast<uint64_t>(a);
    p.second.resize(r.chance(3) ? r.below(100000) : r.below(60));
    for(size_t i = 0; i < p.second.size(); i++) {
        p.second[i] = static_cast<uint8_t>(vh::mix(p.first, i >> 3U) >> (8U * (i & 7U)));
    }
    return p;
}
static payload answer(const payload& q) {
    payload p;
    p.first = vh::mix(q.first, 77);
    p.second.assign(q.second.rbegin(), q.second.rend());
    p.second.push_back(static_cast<uint8_t>(q.second.size()));
    return p;
}
static std::string str(const std::optional<payload>& p) {
    return p.has_value() ? "answer " + std::to_string(p->first) + "/" + std::to_string(p->second.size()) : "no answer";
}

// The requests the servers' handlers saw.
struct seen_t {
    std::mutex m;
    std::map<uint64_t, uint32_t> n;
    void put(const payload& q) {
        std::atomic<uint64_t> d{q.first >> 16U};
        std::unique_lock<std::mutex> l(m);
        n[q.first]++;
        for(size_t i = 0; i < q.second.size(); i++) {
            if(q.second[i] != static_cast<uint8_t>(vh::mix(q.first, i >> 3U) >> (8U * (i & 7U)))) {
                vh::report("U03:request_changed", "the handler received a different request than was made");
                return;
            }
        }
    }
    uint32_t of(uint64_t k) {
        std::unique_lock<std::mutex> l(m);
        auto it = n.find(k);
        return it == n.end() ? 0 : it->second;
    }
};
// One asynchronous call and what came of it.
struct acall {
    payload q;
    std::atomic<uint32_t> n{0};
    std::mutex m;
    std::optional<payload> got;
};

// Calls from several threads of several clients; `sure` says whether every
// request and answer gets through.
static void drive(vh::rng& r, std::vector<std::unique_ptr<client_t>>& cs, seen_t& seen, bool async_server, bool sure, size_t per, std::atomic<uint64_t>& ids) {
    std::mutex am;
    std::vector<std::shared_ptr<acall>> as;
    std::vector<std::thread> ts;
    for(size_t c = 0; c < cs.size(); c++) {
        for(auto t = r.in(1, 3); t > 0; t--) {
            auto s = r.next();
            ts.emplace_back([&, c, s] {
                vh::rng q(s);
                for(size_t i = 0; i < per; i++) {
                    act a = now;
                    if(async_server) {
                        a = static_cast<act>(q.below(n_acts));
                    } else {
                        const std::array<act, 4> as_{{now, now, fail, slow}};
                        a = as_[q.below(4)];
                    }
                    auto req = request(q, a, ids);
                    auto want = a == fail || a == empty_later || a == never ? std::optional<payload>() : std::optional<payload>(answer(req));
                    if(q.chance(50)) {
                        // synchronous
                        auto impatient = a == never || q.chance(15);
                        auto tmo = impatient ? ms(q.in(1, 12)) : (sure && q.chance(50) ? ms(0) : sure ? ms(60000) : ms(400));
                        auto t0 = clk::now();
                        auto got = cs[c]->call(req, tmo);
                        auto dt = clk::now() - t0;
                        auto ok = got == want || (!got.has_value() && (!sure || (impatient && dt >= tmo)));
                        VCHECK(ok, "U03:sync_answer",
                               "call " << (req.first >> 16U) << " kind " << static_cast<int>(a) << " wants " << str(want) << " got " << str(got) << " after "
                                       << std::chrono::duration_cast<ms>(dt).count() << " of " << tmo.count() << " ms");
                        if(tmo.count() != 0) {
                            VCHECK(dt < tmo + std::chrono::seconds(15), "U03:timeout", "waited " << std::chrono::duration_cast<ms>(dt).count() << " ms of " << tmo.count());
                        }
                        vh::count(got.has_value() ? "sync_answered" : "sync_unanswered");
                    } else {
                        auto ac = std::make_shared<acall>();
                        ac->q = req;
                        auto sent = cs[c]->call(req, [ac](std::optional<payload> p) {
                            std::unique_lock<std::mutex> l(ac->m);
                            ac->n++;
                            ac->got = std::move(p);
                        });
                        VCHECK(sent || !sure, "U03:refused", "a connected client refused to send");
                        if(sent) {
                            std::unique_lock<std::mutex> l(am);
                            as.push_back(ac);
                        } else {
                            VCHECK(ac->n == 0, "U03:refused_answer", "an unsent call was answered");
                        }
                    }
                    vh::tick();
                }
            });
        }
    }
    for(auto& t : ts) {
        t.join();
    }
    for(auto& ac : as) {
        auto a = act_of(ac->q.first);
        if(a != never && sure) {
            VCHECK(vn::wait([&] {
                       return ac->n.load() >= 1;
                   }),
                   "U03:async_lost",
                   "call " << (ac->q.first >> 16U) << " kind " << static_cast<int>(a) << " was never answered; handled " << seen.of(ac->q.first) << " times");
        }
    }
    std::this_thread::sleep_for(ms(r.below(4)));
    for(auto& ac : as) {
        auto a = act_of(ac->q.first);
        std::unique_lock<std::mutex> l(ac->m);
        VCHECK(ac->n <= (a == never ? 0U : 1U), "U03:async_times", "callback of call " << (ac->q.first >> 16U) << " kind " << static_cast<int>(a) << " ran " << ac->n.load() << " times");
        if(ac->n > 0) {
            auto want = a == fail || a == empty_later ? std::optional<payload>() : std::optional<payload>(answer(ac->q));
            VCHECK(ac->got == want, "U03:async_answer", "call " << (ac->q.first >> 16U) << " kind " << static_cast<int>(a) << " wants " << str(want) << " got " << str(ac->got));
            vh::count("async_answered");
        }
    }
    std::unique_lock<std::mutex> l(seen.m);
    for(auto& [k, n] : seen.n) {
        VCHECK(n == 1, "U03:handled_twice", "request " << (k >> 16U) << " was handled " << n << " times");
    }
    vh::count("requests_handled", seen.n.size());
    vh::distinct(vh::mix(seen.n.size(), as.size()));
}
using async_t = rpc::async_tcp_server<payload, payload>;
using blocking_t = rpc::blocking_tcp_server<payload, payload>;
static void set_async(async_t& s, vn::later_pool& lp, seen_t& seen, uint64_t seed) {
    auto rm = std::make_shared<std::pair<std::mutex, vh::rng>>(std::piecewise_construct, std::make_tuple(), std::make_tuple(seed));
    s.register_handler_callback([&lp, &seen, rm](payload q, async_t::response_callback_type cb) -> bool {
        seen.put(q);
        std::unique_lock<std::mutex> l(rm->first);
        auto d = std::chrono::microseconds(rm->second.below(rm->second.chance(10) ? 20000 : 2000));
        l.unlock();
        switch(act_of(q.first)) {
            case now:
                cb(answer(q));
                return true;
            case later:
            case slow:
                lp.put(d, [q, cb] {
                    cb(answer(q));
                });
                return true;
            case fail:
                return false;
            case never:
                return true;
            case empty_later:
                lp.put(d, [cb] {
                    cb(std::nullopt);
                });
                return true;
            case twice:
                lp.put(d, [q, cb] {
                    cb(answer(q));
                    cb(payload{1, {2, 3}});
                });
                return true;
            default:
                cb(answer(q));
                return false;
        }
    });
}
static void set_blocking(blocking_t& s, seen_t& seen) {
    s.register_handler_callback([&seen](payload q) -> std::optional<payload> {
        seen.put(q);
        if(act_of(q.first) == slow) {
            std::this_thread::sleep_for(std::chrono::microseconds(q.first % 3000));
        }
        return act_of(q.first) == fail ? std::optional<payload>() : std::optional<payload>(answer(q));
    });
}
static std::vector<std::unique_ptr<client_t>> clients(size_t n, const std::vector<network::endpoint_t>& eps) {
    std::vector<std::unique_ptr<client_t>> cs;
    for(size_t i = 0; i < n; i++) {
        auto c = std::make_unique<client_t>(eps);
        VCHECK(c->init(), "U03:connect", "a client could not connect to a running server");
        cs.push_back(std::move(c));
    }
    return cs;
}

// ---- servers that answer, with any timing ---------------------------------------
static void honest(vh::rng& r) {
    std::atomic<uint64_t> ids{1};
    seen_t seen;
    auto nserv = r.in(1, 3);
    std::vector<network::endpoint_t> eps;
    std::vector<std::unique_ptr<async_t>> as;
    std::vector<std::unique_ptr<blocking_t>> bs;
    vn::later_pool lp(2);
    auto is_async = r.chance(60);
    for(size_t i = 0; i < nserv; i++) {
        auto ep = vn::endpoint();
        if(i > 0 && r.chance(30)) {
            eps.push_back(ep); // a server that is down
            continue;
        }
        if(is_async) {
            auto s = std::make_unique<async_t>(ep);
            set_async(*s, lp, seen, r.next());
            if(!s->init()) {
                vh::count("port_taken");
                return;
            }
            as.push_back(std::move(s));
        } else {
            auto s = std::make_unique<blocking_t>(ep);
            set_blocking(*s, seen);
            if(!s->init()) {
                vh::count("port_taken");
                return;
            }
            bs.push_back(std::move(s));
        }
        eps.push_back(ep);
    }
    r.shuffle(eps);
    auto cs = clients(r.in(1, 3), eps);
    // others send what is no request
    std::vector<int> raw;
    if(r.chance(40)) {
        for(auto k = r.in(1, 3); k > 0; k--) {
            auto s = vn::raw_connect(eps[r.below(eps.size())].second);
            if(s < 0) {
                continue;
            }
            for(auto j = r.in(1, 4); j > 0; j--) {
                auto len = static_cast<uint64_t>(r.below(40));
                std::vector<uint8_t> d(8 + len);
                std::memcpy(d.data(), &len, 8);
                for(size_t i = 8; i < d.size(); i++) {
                    d[i] = r.chance(50) ? 0 : static_cast<uint8_t>(r.below(256));
                }
                if(len >= 24) {
                    d[8 + 16] = 255; // the length of the payload cannot be right
                    d[8 + 23] = 255;
                }
                std::ignore = ::send(s, d.data(), d.size(), MSG_NOSIGNAL);
                vh::count("malformed_requests");
            }
            raw.push_back(s);
        }
    }
    drive(r, cs, seen, is_async, true, r.in(1, 15), ids);
    for(auto s : raw) {
        ::close(s);
    }
    // pending calls when the client goes: told so, once
    if(is_async && r.chance(50)) {
        auto c = std::move(cs.back());
        std::thread waiting([&, p = c.get()] {
            vh::rng q(1);
            auto got = p->call(request(q, never, ids));
            VCHECK(!got.has_value(), "U03:sync_answer", "answer to a call nobody answered");
        });
        auto last = ids.load();
        vn::wait([&] {
            return seen.of((last << 16U) | never) > 0 || seen.of(((last - 1) << 16U) | never) > 0;
        });
        c.reset();
        waiting.join();
        vh::count("pending_at_close");
    }
    if(r.chance(50)) {
        as.clear(); // answers still on their way have nowhere to go
        bs.clear();
        cs.clear();
    } else {
        cs.clear();
        as.clear();
        bs.clear();
    }
    lp.finish();
}
// ---- a connection that breaks ------------------------------------------------------
static void broken(vh::rng& r) {
    std::atomic<uint64_t> ids{1};
    seen_t seen;
    vn::later_pool lp(2);
    auto ep = vn::endpoint();
    vn::proxy px;
    auto s = std::make_unique<async_t>(ep);
    set_async(*s, lp, seen, r.next());
    if(!s->init() || !px.start(ep.second)) {
        vh::count("port_taken");
        return;
    }
    px.tiny = r.chance(30);
    auto cs = clients(1, {{network::localhost, px.port}});
    px.cut_after = static_cast<int64_t>(r.below(6000));
    drive(r, cs, seen, true, false, r.in(5, 12), ids);
    vh::count("cuts", static_cast<uint64_t>(px.cuts.load()));
    px.cut_after = -1;
    // and works again
    vh::rng q(r.next());
    auto ok = vn::wait([&] {
        vh::tick();
        auto req = request(q, now, ids);
        auto got = cs[0]->call(req, ms(300));
        VCHECK(!got.has_value() || *got == answer(req), "U03:sync_answer", "after the connection broke: " << str(got));
        return got.has_value();
    });
    VCHECK(ok, "U03:reconnect", "no call is answered any more after the connection broke");
    cs.clear();
    s.reset();
    lp.finish();
}
// ---- a server that answers what it likes ----------------------------------------------
static void rogue(vh::rng& r) {
    std::atomic<uint64_t> ids{1};
    auto ep = vn::endpoint();
    network::connection_manager net;
    std::mutex m;
    struct pend {
        uint64_t id;
        payload q;
        size_t peer;
    };
    std::vector<pend> held;
    std::set<uint64_t> answered;
    std::atomic<uint64_t> got_reqs{0};
    vh::rng q(r.next());
    auto frame = [](uint64_t id, const std::optional<payload>& p) {
        rpc::response<payload> resp;
        resp.m_header.m_request_id = id;
        resp.m_payload = p;
        return make_shared_buffer(resp);
    };
    auto th = net.start_server(ep, [&](network::message_t&& msg) -> std::optional<buffer> {
        auto req = from_buffer<rpc::request<payload>>(*msg.m_pkt);
        if(!req.has_value()) {
            vh::report("U03:request_malformed", "");
            return std::nullopt;
        }
        std::unique_lock<std::mutex> l(m);
        got_reqs++;
        held.push_back({req->m_header.m_request_id, req->m_payload, msg.m_peer_id});
        auto junk = [&](size_t peer) {
            auto b = std::make_shared<buffer>();
            switch(q.below(5)) {
                case 0: { // an id never used
                    net.send(frame(q.next() | (1ULL << 40U), payload{3, {}}), peer);
                    break;
                }
                case 1: { // an answer already given
                    if(!answered.empty()) {
                        net.send(frame(*answered.begin(), payload{4, {}}), peer);
                    }
                    break;
                }
                case 2: { // no response at all
                    std::array<unsigned char, 30> s{};
                    q.bytes(s.data(), s.size());
                    auto sn = q.below(s.size());
                    b->append(s.data(), sn);
                    if(b->size() >= 8) {
                        uint64_t id = ~0ULL;
                        std::memcpy(b->data(), &id, 8); // not one that was asked for
                    }
                    net.send(b, peer);
                    break;
                }
                case 3: { // a response cut short
                    auto f = frame(held.back().id, payload{5, {1, 2, 3, 4}});
                    b->append(f->data(), q.below(f->size()));
                    net.send(b, peer);
                    break;
                }
                default: { // nothing
                    net.send(b, peer);
                    break;
                }
            }
            vh::count("rogue_frames");
        };
        if(q.chance(60)) {
            junk(msg.m_peer_id);
        }
        while(!held.empty() && q.chance(70)) {
            std::swap(held.back(), held[q.below(held.size())]);
            auto h = std::move(held.back());
            held.pop_back();
            auto f = act_of(h.q.first) == fail;
            net.send(frame(h.id, f ? std::optional<payload>() : std::optional<payload>(answer(h.q))), h.peer);
            answered.insert(h.id);
            if(q.chance(30)) {
                net.send(frame(h.id, payload{6, {6}}), h.peer);
                vh::count("rogue_frames");
            }
        }
        return std::nullopt;
    });
    if(!th.has_value()) {
        vh::count("port_taken");
        return;
    }
    std::vector<std::unique_ptr<client_t>> cs = clients(1, {ep});
    std::vector<std::shared_ptr<acall>> as;
    std::mutex am;
    std::vector<std::thread> ts;
    auto n = r.in(2, 20);
    for(auto t = r.in(1, 3); t > 0; t--) {
        auto sd = r.next();
        ts.emplace_back([&, sd] {
            vh::rng w(sd);
            for(size_t i = 0; i < n; i++) {
                auto req = request(w, w.chance(20) ? fail : now, ids);
                if(w.chance(70)) {
                    auto ac = std::make_shared<acall>();
                    ac->q = req;
                    VCHECK(cs[0]->call(req, [ac](std::optional<payload> p) {
                        std::unique_lock<std::mutex> l(ac->m);
                        ac->n++;
                        ac->got = std::move(p);
                    }),
                           "U03:refused", "");
                    std::unique_lock<std::mutex> l(am);
                    as.push_back(ac);
                } else {
                    auto got = cs[0]->call(req, ms(w.in(1, 30)));
                    auto want = act_of(req.first) == fail ? std::optional<payload>() : std::optional<payload>(answer(req));
                    VCHECK(!got.has_value() || got == want, "U03:sync_answer", "to " << (req.first >> 16U) << " wants " << str(want) << " got " << str(got));
                    vh::count(got.has_value() ? "sync_answered" : "sync_unanswered");
                }
                vh::tick();
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
    // the rest is answered now, in some order
    auto total = ids.load() - 1;
    vn::wait([&] {
        return got_reqs.load() == total;
    });
    {
        std::unique_lock<std::mutex> l(m);
        VCHECK(got_reqs.load() == total, "U03:requests_lost", got_reqs.load() << " of " << total);
        r.shuffle(held);
        for(auto& h : held) {
            net.send(frame(h.id, act_of(h.q.first) == fail ? std::optional<payload>() : std::optional<payload>(answer(h.q))), h.peer);
        }
    }
    for(auto& ac : as) {
        VCHECK(vn::wait([&] {
                   return ac->n.load() >= 1;
               }),
               "U03:async_lost", "an answer the server sent never reached its call");
        std::unique_lock<std::mutex> l(ac->m);
        auto want = act_of(ac->q.first) == fail ? std::optional<payload>() : std::optional<payload>(answer(ac->q));
        VCHECK(ac->n == 1 && ac->got == want, "U03:async_answer", "wants " << str(want) << " got " << str(ac->got) << ", " << ac->n.load() << " times");
        vh::count("async_answered");
    }
    cs.clear();
    net.close();
    th->join();
    vh::distinct(vh::mix(total, as.size()));
}
// ---- servers of raw buffers: what they are told is forwarded whole ---------------------
static void raw_server(vh::rng& r) {
    auto ep = vn::endpoint();
    rpc::tcp_server<rpc::raw_async_server> s(ep);
    std::atomic<uint64_t> ids{1};
    s.register_handler_callback([](buffer b, rpc::raw_async_server::response_callback_type cb) -> bool {
        auto req = from_buffer<rpc::request<payload>>(b);
        if(!req.has_value()) {
            vh::count("raw_malformed");
            return false;
        }
        switch(act_of(req->m_payload.first)) {
            case fail:
                return false;
            case empty_later:
                cb(std::nullopt);
                return true;
            default: {
                rpc::response<payload> resp;
                resp.m_header = req->m_header;
                resp.m_payload = answer(req->m_payload);
                cb(make_buffer(resp));
                return true;
            }
        }
    });
    if(!s.init()) {
        vh::count("port_taken");
        return;
    }
    auto cs = clients(2, {ep});
    std::vector<std::thread> ts;
    for(auto& c : cs) {
        auto sd = r.next();
        ts.emplace_back([&, sd, p = c.get()] {
            vh::rng q(sd);
            for(auto n = q.in(1, 10); n > 0; n--) {
                auto a = q.chance(30) ? (q.chance(50) ? fail : empty_later) : now;
                auto req = request(q, a, ids);
                auto got = p->call(req, ms(60000));
                auto want = a == now ? std::optional<payload>(answer(req)) : std::nullopt;
                VCHECK(got == want, "U03:raw_answer", "wants " << str(want) << " got " << str(got));
                vh::count("raw_calls");
            }
        });
    }
    for(auto& t : ts) {
        t.join();
    }
}
int main(int argc, char** argv) {
    vh::init(argc, argv);
    vh::guard g("rpc");
    auto mode = vh::st().mode;
    vh::run_cases([&](vh::rng& r, uint64_t) {
        vi::short_percent = r.chance(50) ? static_cast<unsigned>(r.below(25)) : 0;
        if(mode == "broken") {
            broken(r);
        } else if(mode == "rogue") {
            rogue(r);
            raw_server(r);
        } else {
            honest(r);
        }
    });
    return vh::finish();
}
