// Stand-in for NuRaft (not installable offline): the types the repository's
// sources use, with the buffer / log entry / snapshot byte layouts of NuRaft
// and an in-process replication engine a harness can drive deterministically.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace nuraft {
    using ulong = uint64_t;
    using byte = uint8_t;
    using int32 = int32_t;
    template<typename T>
    using ptr = std::shared_ptr<T>;
    template<typename T, typename... A>
    ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }

    class buffer {
      public:
        static ptr<buffer> alloc(size_t n) {
            return ptr<buffer>(new buffer(n));
        }
        static ptr<buffer> copy(const buffer& b) {
            auto o = alloc(b.size() - b.pos());
            std::memcpy(o->data_begin(), b.m_d.get() + b.m_pos, o->size());
            return o;
        }
        static ptr<buffer> clone(const buffer& b) {
            auto o = alloc(b.size());
            std::memcpy(o->data_begin(), b.m_d.get(), o->size());
            return o;
        }
        buffer(const buffer&) = delete;
        size_t size() const { return m_n; }
        size_t container_size() const { return m_n; }
        size_t pos() const { return m_pos; }
        void pos(size_t p) { m_pos = p > m_n ? m_n : p; }
        byte* data_begin() const { return m_d.get(); }
        byte* data() const { return m_d.get() + m_pos; }
        void put_raw(const byte* d, size_t n) {
            if(m_n - m_pos < n) {
                throw std::overflow_error("insufficient buffer");
            }
            if(n != 0) {
                std::memcpy(m_d.get() + m_pos, d, n);
            }
            m_pos += n;
        }
        void put(const buffer& b) { put_raw(b.data(), b.size() - b.pos()); }
        void put(byte v) { put_raw(&v, 1); }
        void put(ulong v) {
            byte t[8];
            for(int i = 0; i < 8; i++) {
                t[i] = static_cast<byte>(v >> (8 * i));
            }
            put_raw(t, 8);
        }
        void put(int32 v) {
            byte t[4];
            for(int i = 0; i < 4; i++) {
                t[i] = static_cast<byte>(static_cast<uint32_t>(v) >> (8 * i));
            }
            put_raw(t, 4);
        }
        void put(const std::string& s) {
            put_raw(reinterpret_cast<const byte*>(s.c_str()), s.size() + 1);
        }
        byte* get_raw(size_t n) {
            if(m_n - m_pos < n) {
                throw std::overflow_error("not enough space");
            }
            auto* r = m_d.get() + m_pos;
            m_pos += n;
            return r;
        }
        byte get_byte() { return *get_raw(1); }
        ulong get_ulong() {
            auto* p = get_raw(8);
            ulong v = 0;
            for(int i = 0; i < 8; i++) {
                v |= static_cast<ulong>(p[i]) << (8 * i);
            }
            return v;
        }
        int32 get_int() {
            auto* p = get_raw(4);
            uint32_t v = 0;
            for(int i = 0; i < 4; i++) {
                v |= static_cast<uint32_t>(p[i]) << (8 * i);
            }
            return static_cast<int32>(v);
        }
        std::string get_str() {
            std::string s;
            for(;;) {
                auto c = get_byte();
                if(c == 0) {
                    return s;
                }
                s.push_back(static_cast<char>(c));
            }
        }

      private:
        explicit buffer(size_t n) : m_d(new byte[n ? n : 1]()), m_n(n) {}
        std::unique_ptr<byte[]> m_d;
        size_t m_n;
        size_t m_pos{0};
    };

    class buffer_serializer {
      public:
        explicit buffer_serializer(buffer& b) : m_b(b) {}
        explicit buffer_serializer(ptr<buffer>& b) : m_b(*b) {}
        explicit buffer_serializer(const ptr<buffer>& b) : m_b(*b) {}
        size_t pos() const { return m_pos; }
        void pos(size_t p) { m_pos = p; }
        size_t size() const { return m_b.size(); }
        void put_raw(const void* d, size_t n) {
            chk(n);
            if(n != 0) {
                std::memcpy(m_b.data_begin() + m_pos, d, n);
            }
            m_pos += n;
        }
        void* get_raw(size_t n) {
            chk(n);
            auto* r = m_b.data_begin() + m_pos;
            m_pos += n;
            return r;
        }
        template<typename T>
        void le(T v) {
            byte t[sizeof(T)];
            for(size_t i = 0; i < sizeof(T); i++) {
                t[i] = static_cast<byte>(v >> (8 * i));
            }
            put_raw(t, sizeof(T));
        }
        template<typename T>
        T gle() {
            auto* p = static_cast<byte*>(get_raw(sizeof(T)));
            T v = 0;
            for(size_t i = 0; i < sizeof(T); i++) {
                v |= static_cast<T>(static_cast<T>(p[i]) << (8 * i));
            }
            return v;
        }
        void put_u64(uint64_t v) { le(v); }
        void put_u32(uint32_t v) { le(v); }
        void put_u8(uint8_t v) { put_raw(&v, 1); }
        uint64_t get_u64() { return gle<uint64_t>(); }
        uint32_t get_u32() { return gle<uint32_t>(); }
        uint8_t get_u8() { return *static_cast<byte*>(get_raw(1)); }
        void put_buffer(const buffer& b) {
            put_raw(b.data(), b.size() - b.pos());
        }
        void get_buffer(ptr<buffer>& dst) {
            auto n = dst->size() - dst->pos();
            std::memcpy(dst->data(), get_raw(n), n);
        }
        void* data() const { return m_b.data_begin() + m_pos; }

      private:
        void chk(size_t n) const {
            if(m_pos > m_b.size() || m_b.size() - m_pos < n) {
                throw std::overflow_error("not enough space");
            }
        }
        buffer& m_b;
        size_t m_pos{0};
    };

    enum log_val_type : byte {
        app_log = 1,
        conf = 2,
        cluster_server = 3,
        log_pack = 4,
        snp_sync_req = 5,
    };

    class log_entry {
      public:
        explicit log_entry(ulong term,
                           ptr<buffer> buf,
                           log_val_type t = app_log)
            : m_term(term),
              m_type(t),
              m_buf(std::move(buf)) {}
        ulong get_term() const { return m_term; }
        void set_term(ulong t) { m_term = t; }
        log_val_type get_val_type() const { return m_type; }
        bool is_buf_null() const { return !m_buf; }
        buffer& get_buf() const {
            if(!m_buf) {
                throw std::runtime_error("log_entry buf is null");
            }
            return *m_buf;
        }
        ptr<buffer> get_buf_ptr() const { return m_buf; }
        ptr<buffer> serialize() {
            m_buf->pos(0);
            auto b = buffer::alloc(9 + m_buf->size());
            b->put(m_term);
            b->put(static_cast<byte>(m_type));
            b->put(*m_buf);
            b->pos(0);
            return b;
        }
        static ptr<log_entry> deserialize(buffer& b) {
            auto term = b.get_ulong();
            auto t = static_cast<log_val_type>(b.get_byte());
            return cs_new<log_entry>(term, buffer::copy(b), t);
        }

      private:
        ulong m_term;
        log_val_type m_type;
        ptr<buffer> m_buf;
    };

    class log_store {
      public:
        virtual ~log_store() = default;
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& e) = 0;
        virtual void write_at(ulong i, ptr<log_entry>& e) = 0;
        virtual void end_of_append_batch(ulong, ulong) {}
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e)
            = 0;
        virtual ptr<log_entry> entry_at(ulong i) = 0;
        virtual ulong term_at(ulong i) = 0;
        virtual ptr<buffer> pack(ulong i, int32 cnt) = 0;
        virtual void apply_pack(ulong i, buffer& p) = 0;
        virtual bool compact(ulong last) = 0;
        virtual bool flush() = 0;
    };

    class srv_config {
      public:
        srv_config(int32 id, const std::string& ep) : m_id(id), m_ep(ep) {}
        int32 get_id() const { return m_id; }
        const std::string& get_endpoint() const { return m_ep; }
        int32 get_priority() const { return m_prio; }
        void set_priority(int32 p) { m_prio = p; }

      private:
        int32 m_id;
        std::string m_ep;
        int32 m_prio{1};
    };

    class cluster_config {
      public:
        explicit cluster_config(ulong idx = 0, ulong prev = 0)
            : m_idx(idx),
              m_prev(prev) {}
        std::list<ptr<srv_config>>& get_servers() { return m_servers; }
        ulong get_log_idx() const { return m_idx; }
        void set_log_idx(ulong i) {
            m_prev = m_idx;
            m_idx = i;
        }
        ulong get_prev_log_idx() const { return m_prev; }
        ptr<buffer> serialize() const {
            size_t sz = 8 + 8 + 4;
            for(const auto& s : m_servers) {
                sz += 4 + 4 + s->get_endpoint().size() + 1;
            }
            auto b = buffer::alloc(sz);
            b->put(m_idx);
            b->put(m_prev);
            b->put(static_cast<int32>(m_servers.size()));
            for(const auto& s : m_servers) {
                b->put(s->get_id());
                b->put(s->get_endpoint());
                b->put(s->get_priority());
            }
            b->pos(0);
            return b;
        }
        static ptr<cluster_config> deserialize(buffer& b) {
            auto idx = b.get_ulong();
            auto prev = b.get_ulong();
            auto n = b.get_int();
            auto c = cs_new<cluster_config>(idx, prev);
            while(n-- > 0) {
                auto id = b.get_int();
                auto ep = b.get_str();
                auto s = cs_new<srv_config>(id, ep);
                s->set_priority(b.get_int());
                c->m_servers.push_back(s);
            }
            return c;
        }

      private:
        ulong m_idx;
        ulong m_prev;
        std::list<ptr<srv_config>> m_servers;
    };

    class srv_state {
      public:
        srv_state() = default;
        srv_state(ulong term, int vote, bool et)
            : m_term(term),
              m_vote(vote),
              m_et(et) {}
        ulong get_term() const { return m_term; }
        int get_voted_for() const { return m_vote; }
        bool is_election_timer_allowed() const { return m_et; }
        ptr<buffer> serialize() const {
            auto b = buffer::alloc(1 + 8 + 4 + 1);
            b->put(static_cast<byte>(1));
            b->put(m_term);
            b->put(static_cast<int32>(m_vote));
            b->put(static_cast<byte>(m_et ? 1 : 0));
            b->pos(0);
            return b;
        }
        static ptr<srv_state> deserialize(buffer& b) {
            b.get_byte();
            auto t = b.get_ulong();
            auto v = b.get_int();
            auto e = b.get_byte() == 1;
            return cs_new<srv_state>(t, v, e);
        }

      private:
        ulong m_term{0};
        int m_vote{-1};
        bool m_et{true};
    };

    class snapshot {
      public:
        enum type : byte { raw_binary = 1, logical_object = 2 };
        snapshot(ulong idx,
                 ulong term,
                 const ptr<cluster_config>& cfg,
                 ulong size = 0,
                 type t = logical_object)
            : m_idx(idx),
              m_term(term),
              m_cfg(cfg),
              m_size(size),
              m_type(t) {}
        ulong get_last_log_idx() const { return m_idx; }
        ulong get_last_log_term() const { return m_term; }
        ulong size() const { return m_size; }
        void set_size(ulong s) { m_size = s; }
        const ptr<cluster_config>& get_last_config() const { return m_cfg; }
        ptr<buffer> serialize() {
            auto c = m_cfg->serialize();
            auto b = buffer::alloc(8 + 8 + 8 + 1 + c->size());
            b->put(m_idx);
            b->put(m_term);
            b->put(m_size);
            b->put(static_cast<byte>(m_type));
            b->put(*c);
            b->pos(0);
            return b;
        }
        static ptr<snapshot> deserialize(buffer& b) {
            auto i = b.get_ulong();
            auto t = b.get_ulong();
            auto s = b.get_ulong();
            auto ty = static_cast<type>(b.get_byte());
            auto c = cluster_config::deserialize(b);
            return cs_new<snapshot>(i, t, c, s, ty);
        }

      private:
        ulong m_idx;
        ulong m_term;
        ptr<cluster_config> m_cfg;
        ulong m_size;
        type m_type;
    };

    enum cmd_result_code {
        OK = 0,
        CANCELLED = -1,
        TIMEOUT = -2,
        NOT_LEADER = -3,
        BAD_REQUEST = -4,
        FAILED = -32768,
    };

    template<typename T, typename TE = ptr<std::exception>>
    class cmd_result {
      public:
        using handler_type = std::function<void(T&, TE&)>;
        using handler_type2 = std::function<void(cmd_result<T, TE>&, TE&)>;
        cmd_result() = default;
        explicit cmd_result(T& r, bool = true) { set_result(r, m_none); }
        bool get_accepted() const { return m_acc; }
        void accept() { m_acc = true; }
        cmd_result_code get_result_code() const { return m_rc; }
        void set_result_code(cmd_result_code c) { m_rc = c; }
        bool has_result() const { return m_has; }
        T& get() {
            std::unique_lock<std::mutex> l(m_mut);
            m_cv.wait(l, [&]() { return m_has; });
            return m_res;
        }
        void when_ready(const handler_type& h) {
            when_ready2([h](cmd_result& r, TE& e) { h(r.m_res, e); });
        }
        void when_ready(const handler_type2& h) { when_ready2(h); }
        template<typename F>
        auto when_ready(const F& f) -> std::enable_if_t<
            std::is_invocable_v<F, cmd_result<T, TE>&, TE&>> {
            when_ready2(handler_type2(f));
        }
        void set_result(T& r, TE& e, cmd_result_code c = OK) {
            handler_type2 h;
            {
                std::unique_lock<std::mutex> l(m_mut);
                m_res = r;
                m_err = e;
                m_rc = c;
                m_has = true;
                h = std::move(m_h);
                m_h = nullptr;
            }
            m_cv.notify_all();
            if(h) {
                h(*this, m_err);
            }
        }

      private:
        void when_ready2(const handler_type2& h) {
            {
                std::unique_lock<std::mutex> l(m_mut);
                if(!m_has) {
                    m_h = h;
                    return;
                }
            }
            h(*this, m_err);
        }
        bool m_acc{false};
        bool m_has{false};
        cmd_result_code m_rc{OK};
        T m_res{};
        TE m_err{};
        TE m_none{};
        handler_type2 m_h;
        std::mutex m_mut;
        std::condition_variable m_cv;
    };
    template<typename T>
    class async_result {
      public:
        using handler_type = std::function<void(T&, ptr<std::exception>&)>;
    };

    class state_machine {
      public:
        virtual ~state_machine() = default;
        struct ext_op_params {
            ulong log_idx;
            ptr<buffer>& data;
        };
        virtual ptr<buffer> commit(const ulong, buffer&) { return nullptr; }
        virtual void commit_config(const ulong, ptr<cluster_config>&) {}
        virtual ptr<buffer> pre_commit(const ulong, buffer&) {
            return nullptr;
        }
        virtual void rollback(const ulong, buffer&) {}
        virtual void save_snapshot_data(snapshot&, const ulong, buffer&) {}
        virtual void
        save_logical_snp_obj(snapshot&, ulong& obj_id, buffer&, bool, bool) {
            obj_id++;
        }
        virtual bool apply_snapshot(snapshot& s) = 0;
        virtual int read_logical_snp_obj(snapshot&,
                                         void*&,
                                         ulong,
                                         ptr<buffer>& data_out,
                                         bool& is_last) {
            data_out = buffer::alloc(4);
            is_last = true;
            return 0;
        }
        virtual void free_user_snp_ctx(void*&) {}
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot& s,
                                     async_result<bool>::handler_type& h)
            = 0;
        virtual bool chk_create_snapshot() { return true; }
    };

    class state_mgr {
      public:
        virtual ~state_mgr() = default;
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config& c) = 0;
        virtual void save_state(const srv_state& s) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(int c) = 0;
    };

    class logger {
      public:
        virtual ~logger() = default;
        virtual void debug(const std::string&) {}
        virtual void set_level(int) {}
        virtual int get_level() { return 6; }
        virtual void put_details(int,
                                 const char*,
                                 const char*,
                                 size_t,
                                 const std::string&) {}
    };

    struct cb_func {
        enum Type {
            ProcessReq = 1,
            GotAppendEntryRespFromPeer = 2,
            AppendLogs = 3,
            HeartBeat = 4,
            JoinedCluster = 5,
            BecomeLeader = 6,
            RequestAppendEntries = 7,
            SaveSnapshot = 8,
            NewConfig = 9,
            RemovedFromCluster = 10,
            BecomeFollower = 11,
            BecomeFresh = 12,
            BecomeStale = 13,
        };
        struct Param {
            int32 myId{-1};
            int32 leaderId{-1};
            int32 peerId{-1};
            void* ctx{nullptr};
        };
        enum ReturnCode { Ok = 0, ReturnNull = -1 };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };

    struct raft_params {
        enum return_method_type { blocking = 0, async_handler = 1 };
        return_method_type return_method_{blocking};
        bool auto_forwarding_{false};
        int32 election_timeout_lower_bound_{250};
        int32 election_timeout_upper_bound_{500};
        int32 heart_beat_interval_{125};
        int32 rpc_failure_backoff_{50};
        int32 log_sync_batch_size_{1000};
        int32 log_sync_stop_gap_{99999};
        int32 snapshot_block_size_{0};
        int32 snapshot_distance_{0};
        bool enable_randomized_snapshot_creation_{false};
        int32 max_append_size_{100};
        int32 reserved_log_items_{100000};
        int32 client_req_timeout_{3000};
        int32 fresh_log_gap_{200};
        int32 stale_log_gap_{2000};
        int32 custom_commit_quorum_size_{0};
        int32 custom_election_quorum_size_{0};
        int32 leadership_expiry_{0};
        bool allow_temporary_zero_priority_leader_{true};
        raft_params& with_max_append_size(int32 v) {
            max_append_size_ = v;
            return *this;
        }
    };
    struct asio_service {
        struct options {
            size_t thread_pool_size_{0};
        };
    };

    class raft_server;

    namespace stub {
        // Every append of every server asks this first: 0 = replicate and
        // commit now, 1 = refuse (not leader), 2 = accept but fail,
        // 3 = replicate and commit, but tell the caller it failed.
        struct control {
            std::mutex mut;
            std::function<int(raft_server&, buffer&)> on_append;
            bool auto_leader{true};
            std::map<int, raft_server*> servers; // by port
            // called once a server is initialised
            std::function<void(raft_server&)> on_init;
        };
        inline control& ctl() {
            static control c;
            return c;
        }
    }

    class raft_server {
      public:
        struct init_options {
            bool skip_initial_election_timeout_{false};
            cb_func::func_type raft_callback_;
            std::function<void(raft_server*)> callback_;
        };
        using result = cmd_result<ptr<buffer>>;

        raft_server(ptr<state_machine> sm,
                    ptr<state_mgr> mgr,
                    int port,
                    raft_params p,
                    init_options o)
            : m_sm(std::move(sm)),
              m_mgr(std::move(mgr)),
              m_port(port),
              m_p(p),
              m_o(std::move(o)) {}
        bool is_initialized() const { return true; }
        bool is_leader() const { return m_leader; }
        int port() const { return m_port; }
        state_machine& sm() { return *m_sm; }
        ulong get_last_log_idx() const { return m_idx; }
        void shutdown() {}
        void become_leader() {
            m_leader = true;
            cb_func::Param prm;
            if(m_o.raft_callback_) {
                m_o.raft_callback_(cb_func::BecomeLeader, &prm);
            }
        }
        void become_follower() {
            {
                std::unique_lock<std::recursive_mutex> l(m_mut);
                m_leader = false;
            }
            cb_func::Param prm;
            if(m_o.raft_callback_) {
                m_o.raft_callback_(cb_func::BecomeFollower, &prm);
            }
        }
        void add_follower(raft_server* f) { m_followers.push_back(f); }
        ptr<buffer> apply(ptr<buffer> b) {
            auto i = ++m_idx;
            m_log.emplace_back(buffer::clone(*b));
            b->pos(0);
            return m_sm->commit(i, *b);
        }
        const std::deque<ptr<buffer>>& log() const { return m_log; }
        ptr<result> append_entries(const std::vector<ptr<buffer>>& bufs) {
            auto r = cs_new<result>();
            ptr<std::exception> none;
            ptr<buffer> nb;
            if(!m_leader || bufs.empty()) {
                r->set_result(nb, none, NOT_LEADER);
                return r;
            }
            std::unique_lock<std::recursive_mutex> l(m_mut);
            if(!m_leader) {
                r->set_result(nb, none, NOT_LEADER);
                return r;
            }
            int d = 0;
            if(stub::ctl().on_append) {
                d = stub::ctl().on_append(*this, *bufs[0]);
            }
            if(d == 1) {
                r->set_result(nb, none, NOT_LEADER);
                return r;
            }
            r->accept();
            if(d == 2) {
                ptr<std::exception> e
                    = cs_new<std::runtime_error>("raft failure");
                r->set_result(nb, e, FAILED);
                return r;
            }
            ptr<buffer> out;
            for(const auto& b : bufs) {
                for(auto* f : m_followers) {
                    f->apply(buffer::clone(*b));
                }
                out = apply(b);
            }
            if(d == 3) {
                ptr<std::exception> e
                    = cs_new<std::runtime_error>("raft failure");
                r->set_result(nb, e, FAILED);
                return r;
            }
            r->set_result(out, none, OK);
            return r;
        }

      private:
        ptr<state_machine> m_sm;
        ptr<state_mgr> m_mgr;
        int m_port;
        raft_params m_p;
        init_options m_o;
        std::atomic<bool> m_leader{false};
        ulong m_idx{0};
        std::deque<ptr<buffer>> m_log;
        std::vector<raft_server*> m_followers;
        std::recursive_mutex m_mut;
    };

    class raft_launcher {
      public:
        ptr<raft_server> init(ptr<state_machine> sm,
                              ptr<state_mgr> mgr,
                              ptr<logger>,
                              int port,
                              const asio_service::options&,
                              const raft_params& p,
                              const raft_server::init_options& o
                              = raft_server::init_options()) {
            m_s = cs_new<raft_server>(sm, mgr, port, p, o);
            {
                std::unique_lock<std::mutex> l(stub::ctl().mut);
                stub::ctl().servers[port] = m_s.get();
            }
            if(stub::ctl().on_init) {
                stub::ctl().on_init(*m_s);
            }
            if(stub::ctl().auto_leader) {
                m_s->become_leader();
            }
            return m_s;
        }
        bool shutdown(size_t = 5) {
            if(m_s) {
                std::unique_lock<std::mutex> l(stub::ctl().mut);
                auto it = stub::ctl().servers.find(m_s->port());
                if(it != stub::ctl().servers.end()
                   && it->second == m_s.get()) {
                    stub::ctl().servers.erase(it);
                }
            }
            return true;
        }
        ptr<raft_server> get_raft_server() const { return m_s; }

      private:
        ptr<raft_server> m_s;
    };
}
