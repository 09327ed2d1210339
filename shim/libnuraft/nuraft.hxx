// Stand-in for NuRaft: a replicated log simulated inside one process, with
// the interface and the calling conventions of the library (handlers run on
// the commit thread, pending requests are cancelled when leadership is lost,
// snapshots are taken on the commit thread, lagging followers are brought up
// through the log or a snapshot).  The monitors decide who leads, who is
// reachable and when commits run.
#ifndef VERIF_NURAFT_NURAFT_HXX
#define VERIF_NURAFT_NURAFT_HXX
#include "buffer.hxx"
#include "buffer_serializer.hxx"
#include "log_store.hxx"

#include <atomic>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <chrono>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace nuraft {
    enum cmd_result_code : int32_t {
        OK = 0,
        CANCELLED = -1,
        TIMEOUT = -2,
        NOT_LEADER = -3,
        FAILED = -32768
    };

    template<typename T, typename TE = ptr<std::exception>>
    class cmd_result {
      public:
        using handler_type2 = std::function<void(cmd_result<T, TE>&, TE&)>;
        void when_ready(handler_type2 h) {
            bool call{false};
            {
                std::lock_guard<std::mutex> l(m_m);
                if(m_has) {
                    call = true;
                } else {
                    m_h = h;
                }
            }
            if(call) {
                h(*this, m_err);
            }
        }
        void set_result(T r, TE e, cmd_result_code c) {
            handler_type2 h;
            {
                std::lock_guard<std::mutex> l(m_m);
                if(m_has) {
                    return;
                }
                m_r = std::move(r);
                m_err = std::move(e);
                m_code = c;
                m_has = true;
                h = std::move(m_h);
                m_h = nullptr;
                m_cv.notify_all();
            }
            if(h) {
                h(*this, m_err);
            }
        }
        void accept() { m_acc = true; }
        bool get_accepted() const { return m_acc; }
        bool has_result() {
            std::lock_guard<std::mutex> l(m_m);
            return m_has;
        }
        cmd_result_code get_result_code() {
            std::lock_guard<std::mutex> l(m_m);
            return m_has ? m_code : (m_acc ? OK : m_code);
        }
        void set_code(cmd_result_code c) { m_code = c; }
        T& get() {
            std::unique_lock<std::mutex> l(m_m);
            return m_r;
        }
        bool wait_ms(int32_t ms) {
            std::unique_lock<std::mutex> l(m_m);
            return m_cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return m_has; });
        }

      private:
        std::mutex m_m;
        std::condition_variable m_cv;
        T m_r{};
        TE m_err{};
        cmd_result_code m_code{OK};
        bool m_has{false};
        std::atomic<bool> m_acc{false};
        handler_type2 m_h;
    };

    template<typename T, typename TE = ptr<std::exception>>
    class async_result {
      public:
        using handler_type = std::function<void(T&, TE&)>;
    };

    class srv_config {
      public:
        srv_config(int32 id, std::string ep) : m_id(id), m_ep(std::move(ep)) {}
        int32 get_id() const { return m_id; }
        const std::string& get_endpoint() const { return m_ep; }
        void set_priority(int32 p) { m_prio = p; }
        int32 get_priority() const { return m_prio; }

      private:
        int32 m_id;
        std::string m_ep;
        int32 m_prio{1};
    };

    class cluster_config {
      public:
        explicit cluster_config(ulong idx = 0, ulong prev = 0) : m_idx(idx), m_prev(prev) {}
        std::list<ptr<srv_config>>& get_servers() { return m_s; }
        const std::list<ptr<srv_config>>& get_servers() const { return m_s; }
        ulong get_log_idx() const { return m_idx; }
        ulong get_prev_log_idx() const { return m_prev; }
        void set_log_idx(ulong i) {
            m_prev = m_idx;
            m_idx = i;
        }
        ptr<buffer> serialize() const {
            size_t n = 8 + 8 + 4;
            for(auto& s : m_s) {
                n += 4 + 4 + 4 + s->get_endpoint().size();
            }
            auto b = buffer::alloc(n);
            b->put(m_idx);
            b->put(m_prev);
            b->put(static_cast<int32>(m_s.size()));
            for(auto& s : m_s) {
                b->put(s->get_id());
                b->put(s->get_priority());
                b->put(static_cast<int32>(s->get_endpoint().size()));
                b->put_raw(reinterpret_cast<const byte*>(s->get_endpoint().data()), s->get_endpoint().size());
            }
            b->pos(0);
            return b;
        }
        static ptr<cluster_config> deserialize(buffer& b) {
            b.pos(0);
            return deserialize_here(b);
        }
        static ptr<cluster_config> deserialize_here(buffer& b) {
            auto i = b.get_ulong();
            auto p = b.get_ulong();
            auto c = cs_new<cluster_config>(i, p);
            auto n = b.get_int();
            for(int32 k = 0; k < n; k++) {
                auto id = b.get_int();
                auto pr = b.get_int();
                auto l = b.get_int();
                auto* r = b.get_raw(static_cast<size_t>(l));
                auto s = cs_new<srv_config>(id, std::string(reinterpret_cast<char*>(r), static_cast<size_t>(l)));
                s->set_priority(pr);
                c->get_servers().push_back(s);
            }
            return c;
        }

      private:
        ulong m_idx;
        ulong m_prev;
        std::list<ptr<srv_config>> m_s;
    };

    class srv_state {
      public:
        srv_state(ulong term = 0, int32 voted = -1) : m_t(term), m_v(voted) {}
        ulong get_term() const { return m_t; }
        void set_term(ulong t) { m_t = t; }
        int32 get_voted_for() const { return m_v; }
        void set_voted_for(int32 v) { m_v = v; }
        ptr<buffer> serialize() const {
            auto b = buffer::alloc(12);
            b->put(m_t);
            b->put(m_v);
            b->pos(0);
            return b;
        }
        static ptr<srv_state> deserialize(buffer& b) {
            b.pos(0);
            auto t = b.get_ulong();
            auto v = b.get_int();
            return cs_new<srv_state>(t, v);
        }

      private:
        ulong m_t;
        int32 m_v;
    };

    class snapshot {
      public:
        snapshot(ulong idx, ulong term, const ptr<cluster_config>& cfg, ulong size = 0)
            : m_i(idx), m_t(term), m_s(size), m_c(cfg) {}
        ulong get_last_log_idx() const { return m_i; }
        ulong get_last_log_term() const { return m_t; }
        ulong size() const { return m_s; }
        void set_size(ulong s) { m_s = s; }
        const ptr<cluster_config>& get_last_config() const { return m_c; }
        ptr<buffer> serialize() {
            auto c = m_c->serialize();
            auto b = buffer::alloc(24 + c->size());
            b->put(m_i);
            b->put(m_t);
            b->put(m_s);
            b->put_raw(c->data_begin(), c->size());
            b->pos(0);
            return b;
        }
        static ptr<snapshot> deserialize(buffer& b) {
            auto i = b.get_ulong();
            auto t = b.get_ulong();
            auto s = b.get_ulong();
            auto c = cluster_config::deserialize_here(b);
            return cs_new<snapshot>(i, t, c, s);
        }

      private:
        ulong m_i, m_t, m_s;
        ptr<cluster_config> m_c;
    };

    class state_machine {
      public:
        virtual ~state_machine() = default;
        virtual ptr<buffer> commit(const ulong, buffer&) { return nullptr; }
        virtual void commit_config(const ulong, ptr<cluster_config>&) {}
        virtual ptr<buffer> pre_commit(const ulong, buffer&) { return nullptr; }
        virtual void rollback(const ulong, buffer&) {}
        virtual void rollback_config(const ulong, ptr<cluster_config>&) {}
        virtual void save_logical_snp_obj(snapshot&, ulong&, buffer&, bool, bool) {}
        virtual int read_logical_snp_obj(snapshot&, void*&, ulong, ptr<buffer>& data_out, bool& is_last) {
            data_out = buffer::alloc(4);
            is_last = true;
            return 0;
        }
        virtual void free_user_snp_ctx(void*&) {}
        virtual bool apply_snapshot(snapshot&) = 0;
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot&, async_result<bool>::handler_type&) = 0;
        virtual bool chk_create_snapshot() { return true; }
    };

    class state_mgr {
      public:
        virtual ~state_mgr() = default;
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config&) = 0;
        virtual void save_state(const srv_state&) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(const int) = 0;
    };

    class logger {
      public:
        virtual ~logger() = default;
        virtual void put_details(int, const char*, const char*, size_t, const std::string&) {}
        virtual void set_level(int) {}
        virtual int get_level() { return 6; }
    };

    class cb_func {
      public:
        enum Type {
            ProcessReq = 1,
            GotAppendEntryRespFromPeer,
            AppendLogs,
            HeartBeat,
            JoinedCluster,
            BecomeLeader,
            RequestAppendEntries,
            SaveSnapshot,
            NewConfig,
            RemovedFromCluster,
            BecomeFresh,
            BecomeStale,
            GotAppendEntryReqFromLeader,
            OutOfLogRangeWarning,
            ConnectionOpened,
            ConnectionClosed,
            NewSessionFromLeader,
            StateMachineExecution,
            SentAppendEntriesReq,
            ReceivedAppendEntriesReq,
            SentAppendEntriesResp,
            BecomeFollower
        };
        enum ReturnCode { Ok = 0, ReturnNull = -1 };
        struct Param {
            int32 myId{-1};
            int32 leaderId{-1};
            int32 peerId{-1};
            void* ctx{nullptr};
        };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };

    struct raft_params {
        enum return_method_type { blocking = 0, async_handler = 1 };
        int32 election_timeout_upper_bound_{500};
        int32 election_timeout_lower_bound_{250};
        int32 heart_beat_interval_{125};
        int32 rpc_failure_backoff_{50};
        int32 log_sync_batch_size_{1000};
        int32 snapshot_distance_{0};
        int32 snapshot_block_size_{0};
        int32 max_append_size_{100};
        int32 reserved_log_items_{100000};
        int32 client_req_timeout_{3000};
        return_method_type return_method_{blocking};
        bool auto_forwarding_{false};
    };

    struct asio_service {
        struct options {
            size_t thread_pool_size_{0};
        };
    };

    class raft_server;
    namespace sim {
        struct cluster {
            std::string key;
            std::mutex m;
            std::condition_variable cv;
            std::map<int32, raft_server*> nodes; // running, by server id
            size_t total{1};
            int32 leader{-1};
            ulong term{0};
            ulong commit{0};
            std::set<int32> cut;  // not reachable
            std::set<int32> held; // commit thread paused
            std::atomic<bool> refuse{false};   // the leader refuses appends
            int pause{0};         // no node starts to execute another entry
            uint64_t appends{0};
        };
        struct registry {
            std::mutex m;
            std::map<std::string, ptr<cluster>> all;
        };
        inline registry& reg() {
            static auto* r = new registry();
            return *r;
        }
        // Clusters of more than one node get a leader from the monitor.
        inline std::atomic<bool>& auto_lead() {
            static std::atomic<bool> a{true};
            return a;
        }
        inline ptr<cluster> get(const std::string& key) {
            auto& r = reg();
            std::lock_guard<std::mutex> l(r.m);
            auto& c = r.all[key];
            if(!c) {
                c = std::make_shared<cluster>();
                c->key = key;
            }
            return c;
        }
        inline void forget_all() {
            auto& r = reg();
            std::lock_guard<std::mutex> l(r.m);
            r.all.clear();
        }
    }

    class raft_server {
      public:
        struct init_options {
            cb_func::func_type raft_callback_;
            bool skip_initial_election_timeout_{false};
            bool start_server_in_constructor_{true};
        };
        using res_t = cmd_result<ptr<buffer>>;

        ptr<sim::cluster> m_c;
        int32 m_id{};
        ptr<state_machine> m_sm;
        ptr<state_mgr> m_smgr;
        ptr<log_store> m_log;
        raft_params m_params;
        cb_func::func_type m_cb;
        ptr<cluster_config> m_cfg;
        ulong m_applied{0};
        ulong m_commit{0};
        ulong m_last_snp{0};
        std::map<ulong, ptr<res_t>> m_pending;
        std::thread m_thr;
        bool m_stop{false};
        bool m_busy{false};

        bool is_initialized() const { return true; }
        bool is_leader() const {
            std::lock_guard<std::mutex> l(m_c->m);
            return !m_stop && m_c->leader == m_id;
        }
        int32 get_id() const { return m_id; }
        ulong get_committed_log_idx() const {
            std::lock_guard<std::mutex> l(m_c->m);
            return m_applied;
        }

        ptr<res_t> append_entries(const std::vector<ptr<buffer>>& logs) {
            auto r = cs_new<res_t>();
            {
                std::unique_lock<std::mutex> l(m_c->m);
                if(m_stop || m_c->leader != m_id || m_c->refuse) {
                    r->set_code(NOT_LEADER);
                    return r;
                }
                m_c->appends++;
                r->accept();
                ulong idx{0};
                for(auto& b : logs) {
                    // The request belongs to the caller; the log keeps its own.
                    auto e = cs_new<log_entry>(m_c->term, buffer::clone(*b));
                    idx = m_log->append(e);
                    replicate_locked(idx, e);
                }
                m_pending[idx] = r;
                advance_locked();
            }
            if(m_params.return_method_ == raft_params::blocking) {
                // As long as a client of the real library waits for a majority.
                if(!r->wait_ms(m_params.client_req_timeout_)) {
                    {
                        std::unique_lock<std::mutex> l(m_c->m);
                        for(auto it = m_pending.begin(); it != m_pending.end(); it++) {
                            if(it->second == r) {
                                m_pending.erase(it);
                                break;
                            }
                        }
                    }
                    r->set_result(nullptr, cs_new<std::exception>(), TIMEOUT);
                }
            }
            return r;
        }

        void shutdown() {
            std::map<ulong, ptr<res_t>> p;
            {
                std::unique_lock<std::mutex> l(m_c->m);
                if(m_stop) {
                    return;
                }
                m_stop = true;
                if(m_c->leader == m_id) {
                    m_c->leader = -1;
                }
                auto it = m_c->nodes.find(m_id);
                if(it != m_c->nodes.end() && it->second == this) {
                    m_c->nodes.erase(it);
                }
                p.swap(m_pending);
                m_c->cv.notify_all();
            }
            cancel(p);
            if(m_thr.joinable()) {
                m_thr.join();
            }
        }
        ~raft_server() { shutdown(); }

        static void cancel(std::map<ulong, ptr<res_t>>& p) {
            for(auto& [i, r] : p) {
                r->set_result(nullptr, cs_new<std::exception>(), CANCELLED);
            }
        }

        // --- used by the simulation only
        void replicate_locked(ulong idx, ptr<log_entry>& e) {
            for(auto& [id, n] : m_c->nodes) {
                if(id == m_id || m_c->cut.count(id) != 0 || m_c->cut.count(m_id) != 0) {
                    continue;
                }
                auto cp = log_entry::deserialize(*e->serialize());
                if(n->m_log->next_slot() == idx) {
                    n->m_log->append(cp);
                } else if(n->m_log->next_slot() < idx) {
                    fprintf(stderr, "raft simulation: follower %d of %d is at %llu, not %llu\n", static_cast<int>(id), static_cast<int>(m_id),
                            (unsigned long long)n->m_log->next_slot(), (unsigned long long)idx);
                    abort();
                } else {
                    n->m_log->write_at(idx, cp);
                }
            }
        }
        void advance_locked() {
            size_t have = 0;
            for(auto& [id, n] : m_c->nodes) {
                if(id == m_id || (m_c->cut.count(id) == 0 && m_c->cut.count(m_id) == 0)) {
                    have++;
                }
            }
            if(have * 2 > m_c->total) {
                m_c->commit = std::max<ulong>(m_c->commit, m_log->next_slot() - 1);
                for(auto& [id, n] : m_c->nodes) {
                    if(id == m_id || (m_c->cut.count(id) == 0 && m_c->cut.count(m_id) == 0)) {
                        n->m_commit = m_c->commit;
                    }
                }
                m_c->cv.notify_all();
            }
        }
        void catch_up_locked(raft_server* lead) {
            auto* f = this;
            if(f == lead) {
                return;
            }
            // first index where the two logs differ
            auto lnext = lead->m_log->next_slot();
            auto lstart = lead->m_log->start_index();
            auto fnext = f->m_log->next_slot();
            if(fnext < lstart) {
                // entries are gone: send the snapshot
                auto s = lead->m_sm->last_snapshot();
                if(!s) {
                    fprintf(stderr, "raft simulation: log compacted without a snapshot\n");
                    abort();
                }
                auto sbuf = s->serialize();
                auto fs = snapshot::deserialize(*sbuf);
                void* ctx{nullptr};
                ulong obj{0};
                bool first{true};
                for(;;) {
                    ptr<buffer> data;
                    bool last{false};
                    auto rc = lead->m_sm->read_logical_snp_obj(*s, ctx, obj, data, last);
                    if(rc < 0) {
                        if(ctx != nullptr) {
                            lead->m_sm->free_user_snp_ctx(ctx);
                        }
                        return;
                    }
                    auto copy = data ? buffer::clone(*data) : buffer::alloc(0);
                    f->m_sm->save_logical_snp_obj(*fs, obj, *copy, first, last);
                    first = false;
                    if(last) {
                        break;
                    }
                }
                if(ctx != nullptr) {
                    lead->m_sm->free_user_snp_ctx(ctx);
                }
                f->m_log->compact(fs->get_last_log_idx());
                if(!f->m_sm->apply_snapshot(*fs)) {
                    fprintf(stderr, "raft simulation: apply_snapshot failed\n");
                    f->m_smgr->system_exit(1);
                }
                f->m_applied = fs->get_last_log_idx();
                f->m_last_snp = f->m_applied;
                fnext = f->m_log->next_slot();
            }
            ulong i = std::max(lstart, f->m_log->start_index());
            i = std::max<ulong>(i, 1);
            // skip what agrees
            while(i < fnext && i < lnext && lead->m_log->term_at(i) == f->m_log->term_at(i)) {
                i++;
            }
            for(; i < lnext; i++) {
                auto e = lead->m_log->entry_at(i);
                auto cp = log_entry::deserialize(*e->serialize());
                if(f->m_log->next_slot() == i) {
                    f->m_log->append(cp);
                } else {
                    f->m_log->write_at(i, cp);
                }
            }
        }
        void run() {
            std::unique_lock<std::mutex> l(m_c->m);
            for(;;) {
                m_c->cv.wait(l, [&] {
                    return m_stop
                        || (m_commit > m_applied && m_c->pause == 0 && m_c->held.count(m_id) == 0
                            && m_log->next_slot() > m_applied + 1);
                });
                if(m_stop) {
                    return;
                }
                auto idx = m_applied + 1;
                auto e = m_log->entry_at(idx);
                if(e->is_buf_null()) {
                    fprintf(stderr, "raft simulation: committed log entry %llu is missing\n", (unsigned long long)idx);
                    abort();
                }
                m_busy = true;
                l.unlock();
                ptr<buffer> res;
                if(e->get_val_type() == conf) {
                    auto c = cluster_config::deserialize(e->get_buf());
                    m_smgr->save_config(*c);
                    m_sm->commit_config(idx, c);
                } else {
                    auto& b = e->get_buf();
                    b.pos(0);
                    res = m_sm->commit(idx, b);
                }
                bool snap = false;
                if(m_params.snapshot_distance_ > 0
                   && idx >= m_last_snp + static_cast<ulong>(m_params.snapshot_distance_)) {
                    snap = true;
                }
                if(snap) {
                    snapshot s(idx, e->get_term(), m_cfg);
                    bool ok = false;
                    async_result<bool>::handler_type h
                        = [&](bool& r, ptr<std::exception>&) { ok = r; };
                    m_sm->create_snapshot(s, h);
                    l.lock();
                    if(ok) {
                        m_last_snp = idx;
                        auto keep = static_cast<ulong>(m_params.reserved_log_items_);
                        if(idx > keep && idx - keep >= m_log->start_index()) {
                            m_log->compact(idx - keep);
                        }
                    }
                    l.unlock();
                }
                l.lock();
                m_applied = idx;
                m_busy = false;
                ptr<res_t> r;
                auto it = m_pending.find(idx);
                if(it != m_pending.end()) {
                    r = it->second;
                    m_pending.erase(it);
                }
                m_c->cv.notify_all();
                if(r) {
                    l.unlock();
                    r->set_result(res, nullptr, OK);
                    r.reset();
                    l.lock();
                }
            }
        }
    };

    namespace sim {
        inline bool electable(const ptr<cluster>& c, int32 id, raft_server*& n) {
            auto it = c->nodes.find(id);
            if(it == c->nodes.end() || c->cut.count(id) != 0) {
                return false;
            }
            n = it->second;
            size_t have{0};
            auto mine = std::make_pair(n->m_log->last_entry()->get_term(), n->m_log->next_slot());
            for(auto& [i, o] : c->nodes) {
                if(c->cut.count(i) != 0) {
                    continue;
                }
                if(std::make_pair(o->m_log->last_entry()->get_term(), o->m_log->next_slot()) <= mine) {
                    have++;
                }
            }
            return have * 2 > c->total;
        }
        // Make server `id` the leader (it must hold every committed entry).
        inline bool lead(const ptr<cluster>& c, int32 id) {
            raft_server* n{nullptr};
            raft_server* old{nullptr};
            std::map<ulong, ptr<raft_server::res_t>> p;
            {
                std::unique_lock<std::mutex> l(c->m);
                if(!electable(c, id, n)) {
                    return false;
                }
                if(c->leader == id) {
                    return true;
                }
                auto oi = c->nodes.find(c->leader);
                if(oi != c->nodes.end()) {
                    old = oi->second;
                    p.swap(old->m_pending);
                }
                c->leader = -1;
            }
            raft_server::cancel(p);
            if(old != nullptr && old->m_cb) {
                cb_func::Param q;
                q.myId = old->m_id;
                old->m_cb(cb_func::BecomeFollower, &q);
            }
            {
                std::unique_lock<std::mutex> l(c->m);
                // nobody applies while the logs are being brought in line
                c->cv.wait(l, [&] {
                    for(auto& [i, o] : c->nodes) {
                        if(o->m_busy) {
                            return false;
                        }
                    }
                    return true;
                });
                if(c->leader != -1 || !electable(c, id, n)) {
                    return false;
                }
                c->term++;
                srv_state st(c->term, id);
                c->leader = id;
                for(auto& [i, o] : c->nodes) {
                    if(c->cut.count(i) == 0) {
                        o->m_smgr->save_state(st);
                        o->catch_up_locked(n);
                    }
                }
                auto cfg = cs_new<cluster_config>(n->m_log->next_slot(), n->m_cfg->get_log_idx());
                cfg->get_servers() = n->m_cfg->get_servers();
                auto e = cs_new<log_entry>(c->term, cfg->serialize(), conf);
                auto idx = n->m_log->append(e);
                n->replicate_locked(idx, e);
                n->advance_locked();
            }
            if(n->m_cb) {
                cb_func::Param q;
                q.myId = id;
                q.leaderId = id;
                n->m_cb(cb_func::BecomeLeader, &q);
            }
            return true;
        }
        // The leader loses its position; nobody leads until lead() is called.
        inline void depose(const ptr<cluster>& c) {
            raft_server* old{nullptr};
            std::map<ulong, ptr<raft_server::res_t>> p;
            {
                std::unique_lock<std::mutex> l(c->m);
                auto oi = c->nodes.find(c->leader);
                if(oi != c->nodes.end()) {
                    old = oi->second;
                    p.swap(old->m_pending);
                }
                c->leader = -1;
            }
            raft_server::cancel(p);
            if(old != nullptr && old->m_cb) {
                cb_func::Param q;
                q.myId = old->m_id;
                old->m_cb(cb_func::BecomeFollower, &q);
            }
        }
        inline void cut(const ptr<cluster>& c, int32 id, bool on) {
            std::unique_lock<std::mutex> l(c->m);
            if(on) {
                c->cut.insert(id);
                return;
            }
            // Back in reach, a follower has what the leader has before anything else
            // reaches it (the leader: everybody).
            for(;;) {
                auto li = c->nodes.find(c->leader);
                if(li == c->nodes.end() || (c->cut.count(c->leader) != 0 && c->leader != id)) {
                    c->cut.erase(id);
                    return;
                }
                bool busy = false;
                for(auto& [i, o] : c->nodes) {
                    busy = busy || o->m_busy;
                }
                if(busy) {
                    c->pause++;
                    c->cv.wait(l);
                    c->pause--;
                    c->cv.notify_all();
                    continue;
                }
                c->cut.erase(id);
                for(auto& [i, o] : c->nodes) {
                    if(o != li->second && c->cut.count(i) == 0) {
                        o->catch_up_locked(li->second);
                    }
                }
                li->second->advance_locked();
                return;
            }
        }
        inline void hold(const ptr<cluster>& c, int32 id, bool on) {
            std::unique_lock<std::mutex> l(c->m);
            if(on) {
                c->held.insert(id);
            } else {
                c->held.erase(id);
            }
            c->cv.notify_all();
        }
        // Every reachable running node has applied what is committed.
        inline void settle(const ptr<cluster>& c) {
            std::unique_lock<std::mutex> l(c->m);
            c->cv.wait(l, [&] {
                for(auto& [i, o] : c->nodes) {
                    if(c->cut.count(i) != 0 || c->held.count(i) != 0) {
                        continue;
                    }
                    if(o->m_busy || o->m_applied < o->m_commit) {
                        return false;
                    }
                }
                return true;
            });
        }
    }

    class raft_launcher {
      public:
        ptr<raft_server> init(ptr<state_machine> sm,
                              ptr<state_mgr> smgr,
                              ptr<logger> lg,
                              int /* port */,
                              const asio_service::options& /* opt */,
                              const raft_params& params,
                              const raft_server::init_options& opts = {}) {
            (void)lg;
            auto log = smgr->load_log_store();
            if(!log) {
                return nullptr;
            }
            auto cfg = smgr->load_config();
            auto st = smgr->read_state();
            std::string key;
            for(auto& s : cfg->get_servers()) {
                key += s->get_endpoint() + ",";
            }
            auto c = sim::get(key);
            auto n = cs_new<raft_server>();
            n->m_c = c;
            n->m_id = smgr->server_id();
            n->m_sm = sm;
            n->m_smgr = smgr;
            n->m_log = log;
            n->m_params = params;
            n->m_cb = opts.raft_callback_;
            n->m_cfg = cfg;
            n->m_applied = sm->last_commit_index();
            if(auto s = sm->last_snapshot()) {
                n->m_last_snp = s->get_last_log_idx();
                n->m_applied = std::max(n->m_applied, n->m_last_snp);
            }
            bool self_lead{false};
            {
                std::unique_lock<std::mutex> l(c->m);
                c->total = cfg->get_servers().size();
                if(st) {
                    c->term = std::max(c->term, st->get_term());
                }
                // joins once it has what the leader of that moment has
                for(;;) {
                    auto li = c->nodes.find(c->leader);
                    if(li == c->nodes.end() || li->second == n.get() || c->cut.count(n->m_id) != 0
                       || c->cut.count(c->leader) != 0) {
                        c->nodes[n->m_id] = n.get();
                        break;
                    }
                    if(li->second->m_busy) {
                        c->pause++;
                        c->cv.wait(l);
                        c->pause--;
                        c->cv.notify_all();
                        continue;
                    }
                    n->catch_up_locked(li->second);
                    c->nodes[n->m_id] = n.get();
                    li->second->advance_locked();
                    break;
                }
                self_lead = c->total == 1;
            }
            n->m_thr = std::thread([p = n.get()] { p->run(); });
            if(self_lead && sim::auto_lead()) {
                sim::lead(c, n->m_id);
            }
            m_s = n;
            return n;
        }
        bool shutdown(size_t = 5) {
            if(m_s) {
                m_s->shutdown();
            }
            return true;
        }
        ptr<raft_server> get_raft_server() const { return m_s; }

      private:
        ptr<raft_server> m_s;
    };
}
#endif
