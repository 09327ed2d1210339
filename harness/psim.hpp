// In-process deployment of the programmable part: real agents, brokers,
// directory, ticket machine, shard servers, shards and replicated shard
// state, joined by FIFO message channels whose delivery order the monitor
// chooses.
#ifndef VERIF_PSIM_HPP
#define VERIF_PSIM_HPP
#include "hparsec.hpp"

#include "parsec/agent/impl.hpp"
#include "parsec/broker/impl.hpp"
#include "parsec/directory/impl.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/server.hpp"
#include "parsec/ticket_machine/impl.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <condition_variable>
#include <deque>

namespace vp {
    struct bus {
        struct chan {
            std::deque<std::function<void()>> q;
            bool busy{false};
        };
        std::mutex m;
        std::condition_variable cv;
        std::vector<std::unique_ptr<chan>> chans;
        size_t pending{0};
        size_t running{0};
        uint64_t delivered{0};
        uint64_t order{11};
        bool stop{false};
        size_t add() {
            std::unique_lock<std::mutex> l(m);
            chans.push_back(std::make_unique<chan>());
            return chans.size() - 1;
        }
        void push(size_t c, std::function<void()> f) {
            std::unique_lock<std::mutex> l(m);
            chans[c]->q.push_back(std::move(f));
            pending++;
            cv.notify_one();
        }
        bool step(vh::rng& r) {
            std::function<void()> f;
            chan* ch = nullptr;
            {
                std::unique_lock<std::mutex> l(m);
                std::vector<size_t> ready;
                for(size_t i = 0; i < chans.size(); i++) {
                    if(!chans[i]->q.empty() && !chans[i]->busy) {
                        ready.push_back(i);
                    }
                }
                if(ready.empty()) {
                    return false;
                }
                auto i = ready[r.below(ready.size())];
                order = vh::mix(order, i);
                ch = chans[i].get();
                f = std::move(ch->q.front());
                ch->q.pop_front();
                ch->busy = true;
                pending--;
                running++;
                delivered++;
            }
            f();
            std::unique_lock<std::mutex> l(m);
            ch->busy = false;
            running--;
            cv.notify_all();
            return true;
        }
        // delivers everything now queued on one channel
        void drain_some(size_t c, size_t n) {
            for(size_t i = 0; i < n; i++) {
                std::function<void()> f;
                {
                    std::unique_lock<std::mutex> l(m);
                    if(chans[c]->q.empty()) {
                        return;
                    }
                    f = std::move(chans[c]->q.front());
                    chans[c]->q.pop_front();
                    pending--;
                    delivered++;
                }
                f();
            }
        }
        size_t len(size_t c) {
            std::unique_lock<std::mutex> l(m);
            return chans[c]->q.size();
        }
        void clear(size_t c) {
            std::unique_lock<std::mutex> l(m);
            pending -= chans[c]->q.size();
            chans[c]->q.clear();
        }
        void run_threads(size_t n, uint64_t seed, const std::function<bool()>& finished) {
            std::vector<std::thread> ths;
            for(size_t i = 0; i < n; i++) {
                ths.emplace_back([this, seed, i, &finished] {
                    vh::rng r(vh::mix(seed, i));
                    for(;;) {
                        if(step(r)) {
                            vh::tick();
                            continue;
                        }
                        std::unique_lock<std::mutex> l(m);
                        if(pending == 0 && running == 0) {
                            cv.notify_all();
                            return;
                        }
                        cv.wait_for(l, std::chrono::milliseconds(20));
                    }
                });
            }
            for(auto& t : ths) {
                t.join();
            }
            (void)finished;
        }
    };

    using srv_base = cbdc::rpc::async_server<rls::rpc::request, rls::rpc::response>;
    struct test_srv : srv_base {
        bool init() { return true; }
        auto call(buffer b, std::function<void(buffer)> cb) { return async_call(std::move(b), std::move(cb)); }
    };
    // Replicated state that answers through a channel (one command at a time,
    // in order, as a log does).
    struct slow_repl : rls::replicated_shard_interface {
        bus& b;
        size_t to, from;
        std::shared_ptr<rls::replicated_shard> real;
        slow_repl(bus& bb, size_t t, size_t f, std::shared_ptr<rls::replicated_shard> r)
            : b(bb),
              to(t),
              from(f),
              real(std::move(r)) {}
        bool prepare(rls::ticket_number_type t, rls::broker_id_type br, state_type u, callback_type cb) override {
            b.push(to, [=, this, r = real] {
                r->prepare(t, br, u, [&](return_type x) {
                    b.push(from, [cb, x] {
                        cb(x);
                    });
                });
            });
            return true;
        }
        bool commit(rls::ticket_number_type t, callback_type cb) override {
            b.push(to, [=, this, r = real] {
                r->commit(t, [&](return_type x) {
                    b.push(from, [cb, x] {
                        cb(x);
                    });
                });
            });
            return true;
        }
        bool finish(rls::ticket_number_type t, callback_type cb) override {
            b.push(to, [=, this, r = real] {
                r->finish(t, [&](return_type x) {
                    b.push(from, [cb, x] {
                        cb(x);
                    });
                });
            });
            return true;
        }
        bool get_tickets(get_tickets_callback_type cb) const override { return real->get_tickets(cb); }
    };
    struct shard_node {
        bus& b;
        size_t rto, rfrom;
        std::shared_ptr<rls::replicated_shard> repl;
        std::shared_ptr<rls::impl> impl;
        test_srv* srv{};
        std::shared_ptr<rls::rpc::server> server;
        uint64_t epoch{0};
        explicit shard_node(bus& bb) : b(bb), rto(bb.add()), rfrom(bb.add()), repl(std::make_shared<rls::replicated_shard>()) {}
        bool start(bool recover) {
            epoch++;
            impl = std::make_shared<rls::impl>(logger());
            bool ok = true;
            if(recover) {
                rls::replicated_shard::tickets_type tks;
                repl->get_tickets([&](rls::replicated_shard_interface::get_tickets_return_type x) {
                    tks = std::get<rls::replicated_shard::tickets_type>(x);
                });
                ok = impl->recover(repl->get_state(), tks);
            }
            auto s = std::make_unique<test_srv>();
            srv = s.get();
            server = std::make_shared<rls::rpc::server>(logger(), impl, std::make_shared<slow_repl>(b, rto, rfrom, repl), std::move(s));
            return ok;
        }
    };
    // A broker's connection to a shard: requests and responses are serialized
    // and each direction is first-in first-out.
    struct remote_shard : rls::interface {
        bus& b;
        std::shared_ptr<shard_node> node;
        size_t to, from;
        std::atomic<uint64_t> id{0};
        std::shared_ptr<std::atomic<bool>> alive{std::make_shared<std::atomic<bool>>(true)};
        uint64_t node_epoch;
        std::function<void(const std::string&)> bad;
        remote_shard(bus& bb, std::shared_ptr<shard_node> n)
            : b(bb),
              node(std::move(n)),
              to(bb.add()),
              from(bb.add()),
              node_epoch(node->epoch) {}
        template<typename Ret>
        bool send(rls::rpc::request rq, std::function<void(Ret)> cb) {
            auto req = cbdc::rpc::request<rls::rpc::request>{{id++}, std::move(rq)};
            auto bytes = cbdc::make_buffer(req);
            auto nd = node;
            auto al = alive;
            auto answered = std::make_shared<std::atomic<int>>(0);
            auto respond = [=, this](buffer rb) {
                if(++*answered > 1) {
                    bad("a shard request was answered more than once");
                    return;
                }
                b.push(from, [=, this]() mutable {
                    if(!*al) {
                        return;
                    }
                    auto r = cbdc::from_buffer<cbdc::rpc::response<rls::rpc::response>>(rb);
                    if(!r || !r->m_payload) {
                        bad("shard answered with an error or garbage");
                        return;
                    }
                    if(!std::holds_alternative<Ret>(*r->m_payload)) {
                        bad("shard answered with the wrong kind of response");
                        return;
                    }
                    cb(std::get<Ret>(*r->m_payload));
                });
            };
            b.push(to, [=, this]() mutable {
                if(nd->epoch != node_epoch) {
                    return;
                }
                auto er = nd->srv->call(bytes, respond);
                if(er) {
                    respond(*er);
                }
            });
            return true;
        }
        bool try_lock(rls::ticket_number_type t, rls::broker_id_type br, rls::key_type k, rls::lock_type l, bool first, try_lock_callback_type cb) override {
            return send<try_lock_return_type>(rls::rpc::try_lock_request{t, br, k, l, first}, cb);
        }
        bool prepare(rls::ticket_number_type t, rls::broker_id_type br, rls::state_update_type u, prepare_callback_type cb) override {
            return send<prepare_return_type>(rls::rpc::prepare_request{t, u, br}, cb);
        }
        bool commit(rls::ticket_number_type t, commit_callback_type cb) override { return send<commit_return_type>(rls::rpc::commit_request{t}, cb); }
        bool rollback(rls::ticket_number_type t, rollback_callback_type cb) override { return send<rollback_return_type>(rls::rpc::rollback_request{t}, cb); }
        bool finish(rls::ticket_number_type t, finish_callback_type cb) override { return send<finish_return_type>(rls::rpc::finish_request{t}, cb); }
        bool get_tickets(rls::broker_id_type br, get_tickets_callback_type cb) override {
            return send<get_tickets_return_type>(rls::rpc::get_tickets_request{br}, cb);
        }
    };
    // Same-process shard: every answer arrives before the call returns.
    struct direct_shard : rls::interface {
        std::shared_ptr<rls::impl> s;
        explicit direct_shard(std::shared_ptr<rls::impl> x) : s(std::move(x)) {}
        bool try_lock(rls::ticket_number_type t, rls::broker_id_type br, rls::key_type k, rls::lock_type l, bool first, try_lock_callback_type cb) override {
            return s->try_lock(t, br, k, l, first, cb);
        }
        bool prepare(rls::ticket_number_type t, rls::broker_id_type br, rls::state_update_type u, prepare_callback_type cb) override { return s->prepare(t, br, u, cb); }
        bool commit(rls::ticket_number_type t, commit_callback_type cb) override { return s->commit(t, cb); }
        bool rollback(rls::ticket_number_type t, rollback_callback_type cb) override { return s->rollback(t, cb); }
        bool finish(rls::ticket_number_type t, finish_callback_type cb) override { return s->finish(t, cb); }
        bool get_tickets(rls::broker_id_type br, get_tickets_callback_type cb) override { return s->get_tickets(br, cb); }
    };
}
#endif
