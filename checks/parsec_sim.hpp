// Brokers, shards and the messages between them under a generated schedule.
#pragma once
#include "common.hpp"
#include "parsec/broker/impl.hpp"
#include "parsec/directory/impl.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include "parsec/ticket_machine/impl.hpp"

#include <deque>
#include <map>
#include <set>

namespace sim {
    using namespace vt;
    namespace rs = cbdc::parsec::runtime_locking_shard;
    namespace br = cbdc::parsec::broker;
    using cbdc::buffer;
    using tn_t = rs::ticket_number_type;

    inline buffer mkbuf(u64 v) {
        auto b = buffer();
        b.append(&v, sizeof(v));
        return b;
    }
    inline u64 val(const buffer& b) {
        if(b.size() == 0) {
            return 0;
        }
        PBT_CHECK(b.size() == sizeof(u64), "a value of %zu bytes was read", b.size());
        u64 v{};
        std::memcpy(&v, b.data(), sizeof(v));
        return v;
    }
    inline buffer key(u64 k) {
        auto b = buffer();
        auto t = "key" + std::to_string(k);
        b.append(t.data(), t.size());
        return b;
    }

    // Queues of things to happen; each queue is in order, the queues race.
    struct scheduler {
        Src& s;
        std::vector<std::deque<std::function<void()>>> m_q;
        u64 m_steps{0};

        size_t add() {
            m_q.emplace_back();
            return m_q.size() - 1;
        }
        void post(size_t q, std::function<void()> f) {
            m_q[q].push_back(std::move(f));
        }
        bool step() {
            std::vector<size_t> r;
            for(size_t i = 0; i < m_q.size(); i++) {
                if(!m_q[i].empty()) {
                    r.push_back(i);
                }
            }
            if(r.empty()) {
                return false;
            }
            m_steps++;
            auto q = r.size() == 1 ? r[0] : r[s.below(r.size())];
            auto f = std::move(m_q[q].front());
            m_q[q].pop_front();
            f();
            return true;
        }
    };

    // One broker's connection to one shard.
    struct link : rs::interface {
        scheduler& m_sch;
        std::shared_ptr<rs::interface> m_shard;
        size_t m_req, m_resp;
        bool m_dead{false};
        // Returns true if the request cannot be made.
        std::function<bool(const char*)> m_refuse;
        // Called when a commit was executed by the shard.
        std::function<void(tn_t)> m_on_commit;

        link(scheduler& sch, std::shared_ptr<rs::interface> sh)
            : m_sch(sch),
              m_shard(std::move(sh)),
              m_req(sch.add()),
              m_resp(sch.add()) {}

        template<typename R>
        std::function<void(R)> back(std::function<void(R)> cb) {
            return [this, cb](R r) {
                if(m_dead) {
                    return;
                }
                m_sch.post(m_resp, [cb, r] { cb(r); });
            };
        }
        bool refused(const char* op) { return m_refuse && m_refuse(op); }
        auto try_lock(tn_t t, rs::broker_id_type b, rs::key_type k, rs::lock_type lt, bool first,
                      try_lock_callback_type cb) -> bool override {
            if(refused("lock")) {
                return false;
            }
            m_sch.post(m_req, [=, this] {
                PBT_CHECK(m_shard->try_lock(t, b, k, lt, first, back<try_lock_return_type>(cb)), "shard refused");
            });
            return true;
        }
        auto prepare(tn_t t, rs::broker_id_type b, rs::state_update_type u, prepare_callback_type cb)
            -> bool override {
            if(refused("prepare")) {
                return false;
            }
            m_sch.post(m_req, [=, this] { m_shard->prepare(t, b, u, back<prepare_return_type>(cb)); });
            return true;
        }
        auto commit(tn_t t, commit_callback_type cb) -> bool override {
            if(refused("commit")) {
                return false;
            }
            m_sch.post(m_req, [=, this] {
                auto c2 = back<commit_return_type>(cb);
                m_shard->commit(t, [=, this](commit_return_type r) {
                    if(!r.has_value() && m_on_commit) {
                        m_on_commit(t);
                    }
                    c2(r);
                });
            });
            return true;
        }
        auto rollback(tn_t t, rollback_callback_type cb) -> bool override {
            if(refused("rollback")) {
                return false;
            }
            m_sch.post(m_req, [=, this] { m_shard->rollback(t, back<rollback_return_type>(cb)); });
            return true;
        }
        auto finish(tn_t t, finish_callback_type cb) -> bool override {
            if(refused("finish")) {
                return false;
            }
            m_sch.post(m_req, [=, this] { m_shard->finish(t, back<finish_return_type>(cb)); });
            return true;
        }
        auto get_tickets(rs::broker_id_type b, get_tickets_callback_type cb) -> bool override {
            if(refused("get")) {
                return false;
            }
            m_sch.post(m_req, [=, this] { m_shard->get_tickets(b, back<get_tickets_return_type>(cb)); });
            return true;
        }
        // The broker is gone: some of what it sent still arrives.
        void cut() {
            auto& q = m_sch.m_q[m_req];
            auto n = q.empty() ? 0 : m_sch.s.below(q.size() + 1);
            m_dead = true;
            for(u64 i = 0; i < n; i++) {
                auto f = std::move(q.front());
                q.pop_front();
                f();
            }
            q.clear();
            m_sch.m_q[m_resp].clear();
        }
    };

    struct node {
        size_t m_id;
        std::vector<std::shared_ptr<link>> m_links;
        std::shared_ptr<br::impl> m_broker;
        bool m_up{true};
    };

    struct record {
        std::map<u64, u64> m_reads;  // key -> value seen
        std::map<u64, u64> m_writes; // key -> token
        enum { unknown, committed, aborted } m_outcome{unknown};
        bool m_commit_asked{false};
        bool m_shard_committed{false};
        u64 m_start{0}, m_end{~0ULL}; // real time
        u64 m_tn{0};
    };

    struct cluster {
        scheduler sch;
        std::vector<std::shared_ptr<rs::impl>> m_shards;
        std::shared_ptr<cbdc::parsec::ticket_machine::impl> m_tm;
        std::shared_ptr<cbdc::parsec::directory::impl> m_dir;
        std::vector<std::shared_ptr<node>> m_nodes;
        std::vector<std::shared_ptr<node>> m_grave;
        std::vector<std::shared_ptr<record>> m_hist;
        std::function<bool(const char*)> m_refuse;
        u64 m_token{1};

        cluster(Src& s, size_t nshards, size_t nbrokers) : sch{s, {}, 0} {
            for(size_t i = 0; i < nshards; i++) {
                m_shards.push_back(std::make_shared<rs::impl>(logger()));
            }
            m_tm = std::make_shared<cbdc::parsec::ticket_machine::impl>(logger(), 1);
            m_dir = std::make_shared<cbdc::parsec::directory::impl>(nshards);
            for(size_t i = 0; i < nbrokers; i++) {
                m_nodes.push_back(make(i));
            }
        }
        std::shared_ptr<node> make(size_t id) {
            auto n = std::make_shared<node>();
            n->m_id = id;
            std::vector<std::shared_ptr<rs::interface>> ifs;
            for(auto& sh : m_shards) {
                n->m_links.push_back(std::make_shared<link>(sch, sh));
                n->m_links.back()->m_refuse = [this](const char* op) { return m_refuse && m_refuse(op); };
                n->m_links.back()->m_on_commit = [this](tn_t t) {
                    for(auto& h : m_hist) {
                        if(h->m_tn == t) {
                            h->m_shard_committed = true;
                        }
                    }
                };
                ifs.push_back(n->m_links.back());
            }
            n->m_broker = std::make_shared<br::impl>(id, ifs, m_tm, m_dir, logger());
            return n;
        }
        void crash(size_t i) {
            m_nodes[i]->m_up = false;
            for(auto& l : m_nodes[i]->m_links) {
                l->cut();
            }
            m_grave.push_back(m_nodes[i]);
        }
        // Final values, read directly by a ticket of its own. Everything must
        // be unlocked by now.
        std::map<u64, u64> final_values(u64 nkeys) {
            std::map<u64, u64> r;
            auto n = make(1000);
            std::optional<tn_t> tn;
            PBT_CHECK(n->m_broker->begin([&](br::interface::ticketnum_or_errcode_type t) {
                tn = std::get<tn_t>(t);
            }),
                      "begin refused");
            for(u64 k = 0; k < nkeys; k++) {
                std::optional<u64> v;
                (void)n->m_broker->try_lock(*tn, key(k), rs::lock_type::write,
                                            [&](const br::interface::try_lock_return_type& res) {
                                                PBT_CHECK(std::holds_alternative<buffer>(res),
                                                          "key %llu cannot be locked at the end", (unsigned long long)k);
                                                v = val(std::get<buffer>(res));
                                            });
                while(sch.step()) {}
                PBT_CHECK(v.has_value(), "key %llu is still locked when every ticket is finished", (unsigned long long)k);
                r[k] = *v;
            }
            bool done = false;
            (void)n->m_broker->rollback(*tn, [&](auto) { done = true; });
            while(sch.step()) {}
            PBT_CHECK(done, "rollback of the last ticket not answered");
            return r;
        }
        void no_tickets() {
            for(size_t i = 0; i < m_shards.size(); i++) {
                for(size_t b = 0; b < m_nodes.size(); b++) {
                    m_shards[i]->get_tickets(b, [&](const rs::interface::get_tickets_return_type& r) {
                        auto& m = std::get<rs::interface::get_tickets_success_type>(r);
                        PBT_CHECK(m.empty(), "shard %zu still has ticket %llu of broker %zu", i,
                                  m.empty() ? 0ULL : (unsigned long long)m.begin()->first, b);
                    });
                }
            }
        }
        // All or nothing, and some serial order explains every value seen.
        void check_history(u64 nkeys) {
            auto fin = final_values(nkeys);
            std::map<u64, size_t> writer; // token -> record
            for(size_t i = 0; i < m_hist.size(); i++) {
                for(auto& [k, t] : m_hist[i]->m_writes) {
                    writer[t] = i;
                }
            }
            std::vector<std::set<u64>> applied(m_hist.size());
            std::map<u64, std::vector<u64>> chain; // key -> tokens, oldest first
            for(auto& [k, v] : fin) {
                std::set<u64> seen;
                auto t = v;
                while(t != 0) {
                    PBT_CHECK(writer.count(t) != 0, "key %llu: value %llu was never written", (unsigned long long)k, (unsigned long long)t);
                    auto& h = *m_hist[writer[t]];
                    PBT_CHECK(h.m_writes.count(k) != 0 && h.m_writes[k] == t, "key %llu has a value written to another key", (unsigned long long)k);
                    PBT_CHECK(seen.insert(t).second, "circular history");
                    applied[writer[t]].insert(k);
                    chain[k].insert(chain[k].begin(), t);
                    t = h.m_reads[k];
                }
            }
            std::vector<size_t> eff;
            for(size_t i = 0; i < m_hist.size(); i++) {
                auto& h = *m_hist[i];
                bool any = !applied[i].empty();
                if(any) {
                    PBT_CHECK(applied[i].size() == h.m_writes.size(), "ticket %llu: %zu of %zu updates took effect",
                              (unsigned long long)h.m_tn, applied[i].size(), h.m_writes.size());
                    PBT_CHECK(h.m_outcome != record::aborted, "ticket %llu was rolled back but its updates took effect", (unsigned long long)h.m_tn);
                    PBT_CHECK(h.m_commit_asked, "ticket %llu took effect uncommitted", (unsigned long long)h.m_tn);
                }
                if(h.m_outcome == record::committed) {
                    PBT_CHECK(any || h.m_writes.empty(), "ticket %llu committed but its updates are lost", (unsigned long long)h.m_tn);
                }
                if(h.m_outcome == record::unknown && !h.m_writes.empty()) {
                    PBT_CHECK(any == h.m_shard_committed,
                              "ticket %llu of a failed broker: %s although %s shard had committed it",
                              (unsigned long long)h.m_tn, any ? "took effect" : "had no effect",
                              h.m_shard_committed ? "a" : "no");
                }
                if(h.m_outcome == record::committed || any) {
                    eff.push_back(i);
                }
            }
            // precedence between effective tickets
            auto n = eff.size();
            std::vector<std::set<size_t>> out(n);
            std::map<size_t, size_t> pos;
            for(size_t i = 0; i < n; i++) {
                pos[eff[i]] = i;
            }
            for(size_t i = 0; i < n; i++) {
                auto& h = *m_hist[eff[i]];
                for(auto& [k, v] : h.m_reads) {
                    auto& c = chain[k];
                    size_t at = 0;
                    if(v != 0) {
                        auto it = std::find(c.begin(), c.end(), v);
                        PBT_CHECK(it != c.end(), "ticket %llu read value %llu of key %llu, which no committed ticket left there",
                                  (unsigned long long)h.m_tn, (unsigned long long)v, (unsigned long long)k);
                        at = static_cast<size_t>(it - c.begin()) + 1;
                        if(writer[v] != eff[i]) {
                            out[pos[writer[v]]].insert(i);
                        }
                    }
                    if(at < c.size() && writer[c[at]] != eff[i]) {
                        out[i].insert(pos[writer[c[at]]]);
                    }
                }
                for(size_t j = 0; j < n; j++) {
                    if(h.m_end < m_hist[eff[j]]->m_start) {
                        out[i].insert(j);
                    }
                }
            }
            // acyclic?
            std::vector<int> st(n, 0);
            std::function<void(size_t)> dfs = [&](size_t u) {
                st[u] = 1;
                for(auto v : out[u]) {
                    PBT_CHECK(st[v] != 1, "no serial order explains tickets %llu and %llu",
                              (unsigned long long)m_hist[eff[u]]->m_tn, (unsigned long long)m_hist[eff[v]]->m_tn);
                    if(st[v] == 0) {
                        dfs(v);
                    }
                }
                st[u] = 2;
            };
            for(size_t i = 0; i < n; i++) {
                if(st[i] == 0) {
                    dfs(i);
                }
            }
        }
    };

    // Runs a ticket as an agent would: locks, commits, retries when wounded.
    struct client : std::enable_shared_from_this<client> {
        cluster& c;
        Src& s;
        std::shared_ptr<node> m_node;
        size_t m_q;
        std::vector<std::pair<u64, rs::lock_type>> m_ops;
        std::set<u64> m_write;
        bool m_parallel{false};
        bool m_early{false}; // rolls back without waiting for other locks
        bool m_give_up{false};
        u64 m_attempt{0};
        size_t m_next{0};
        size_t m_open{0};
        bool m_failed{false};
        bool m_done{false};
        bool m_ended{false}; // attempt is over
        std::shared_ptr<record> m_rec;
        std::optional<tn_t> m_tn;
        u64 m_wounds{0};

        client(cluster& cl, std::shared_ptr<node> n) : c(cl), s(cl.sch.s), m_node(std::move(n)), m_q(cl.sch.add()) {}

        void post(std::function<void()> f) {
            c.sch.post(m_q, [self = shared_from_this(), f] {
                if(self->m_node->m_up) {
                    f();
                }
            });
        }
        void start() {
            post([this] {
                auto n = std::make_shared<int>(0);
                (void)m_node->m_broker->begin([this, n](br::interface::ticketnum_or_errcode_type t) {
                    PBT_CHECK(++*n == 1, "begin answered twice");
                    PBT_CHECK(std::holds_alternative<tn_t>(t), "no ticket");
                    m_tn = std::get<tn_t>(t);
                    begin();
                });
            });
        }
        void begin() {
            m_attempt++;
            m_next = 0;
            m_open = 0;
            m_failed = false;
            m_ended = false;
            // The record of an earlier attempt stays as an aborted one.
            m_rec = std::make_shared<record>();
            m_rec->m_tn = *m_tn;
            m_rec->m_start = c.sch.m_steps;
            c.m_hist.push_back(m_rec);
            if(m_ops.empty()) {
                post([this] { commit(); });
            } else if(m_parallel) {
                for(size_t i = 0; i < m_ops.size(); i++) {
                    m_open++;
                }
                for(size_t i = 0; i < m_ops.size(); i++) {
                    post([this, i, a = m_attempt] {
                        if(a == m_attempt && !m_ended) {
                            lock(i);
                        }
                    });
                }
            } else {
                m_open = 1;
                post([this] { lock(0); });
            }
        }
        void lock(size_t i) {
            auto [k, t] = m_ops[i];
            auto a = m_attempt;
            auto cnt = std::make_shared<int>(0);
            s.note("ticket %llu locks key %llu for %s", (unsigned long long)*m_tn, (unsigned long long)k,
                   t == rs::lock_type::write ? "writing" : "reading");
            PBT_CHECK(m_node->m_broker->try_lock(
                          *m_tn, key(k), t,
                          [this, k = k, a, cnt, self = shared_from_this()](const br::interface::try_lock_return_type& r) {
                              PBT_CHECK(++*cnt == 1, "lock request answered twice");
                              if(!m_node->m_up) {
                                  return;
                              }
                              if(a != m_attempt || m_ended) {
                                  return;
                              }
                              locked(k, r);
                          }),
                      "try_lock refused");
        }
        void locked(u64 k, const br::interface::try_lock_return_type& r) {
            m_open--;
            if(std::holds_alternative<buffer>(r)) {
                auto v = val(std::get<buffer>(r));
                auto it = m_rec->m_reads.find(k);
                PBT_CHECK(it == m_rec->m_reads.end() || it->second == v,
                          "ticket %llu saw key %llu change while holding it", (unsigned long long)*m_tn, (unsigned long long)k);
                m_rec->m_reads[k] = v;
            } else {
                PBT_CHECK(std::holds_alternative<rs::shard_error>(r), "ticket %llu: broker error %d on a lock",
                          (unsigned long long)*m_tn, (int)std::get<br::interface::error_code>(r));
                auto e = std::get<rs::shard_error>(r).m_error_code;
                PBT_CHECK(e == rs::error_code::wounded, "ticket %llu: shard error %d on a lock", (unsigned long long)*m_tn, (int)e);
                m_failed = true;
                m_wounds++;
            }
            if(m_failed) {
                if(m_open == 0 || m_early) {
                    m_ended = true;
                    post([this] { rollback(); });
                }
                return;
            }
            m_next++;
            if(m_parallel) {
                if(m_open == 0) {
                    m_ended = true;
                    post([this] { m_give_up ? rollback() : commit(); });
                }
            } else if(m_next < m_ops.size()) {
                m_open = 1;
                post([this] { lock(m_next); });
            } else {
                m_ended = true;
                post([this] { m_give_up ? rollback() : commit(); });
            }
        }
        void commit() {
            br::state_update_type up;
            std::string d;
            for(auto k : m_write) {
                auto t = c.m_token++;
                m_rec->m_writes[k] = t;
                up[key(k)] = mkbuf(t);
                d += pbt::fmt(" %llu=%llu", (unsigned long long)k, (unsigned long long)t);
            }
            m_rec->m_commit_asked = true;
            s.note("ticket %llu commits%s", (unsigned long long)*m_tn, d.c_str());
            auto cnt = std::make_shared<int>(0);
            PBT_CHECK(m_node->m_broker->commit(*m_tn, up, [this, cnt, self = shared_from_this()](br::interface::commit_return_type r) {
                PBT_CHECK(++*cnt == 1, "commit answered twice");
                if(!m_node->m_up) {
                    return;
                }
                if(!r.has_value()) {
                    s.note("ticket %llu committed", (unsigned long long)*m_tn);
                    m_rec->m_outcome = record::committed;
                    m_rec->m_end = c.sch.m_steps;
                    post([this] { finish(); });
                    return;
                }
                PBT_CHECK(std::holds_alternative<rs::shard_error>(*r), "ticket %llu: commit gives broker error %d",
                          (unsigned long long)*m_tn, (int)std::get<br::interface::error_code>(*r));
                auto e = std::get<rs::shard_error>(*r).m_error_code;
                PBT_CHECK(e == rs::error_code::wounded, "ticket %llu: commit gives shard error %d", (unsigned long long)*m_tn, (int)e);
                m_wounds++;
                post([this] { rollback(); });
            }),
                      "commit refused");
        }
        void rollback() {
            s.note("ticket %llu rolls back", (unsigned long long)*m_tn);
            auto cnt = std::make_shared<int>(0);
            auto give_up = m_give_up && !m_failed;
            PBT_CHECK(m_node->m_broker->rollback(*m_tn, [this, cnt, give_up, self = shared_from_this()](br::interface::rollback_return_type r) {
                PBT_CHECK(++*cnt == 1, "rollback answered twice");
                if(!m_node->m_up) {
                    return;
                }
                PBT_CHECK(!r.has_value(), "ticket %llu cannot be rolled back", (unsigned long long)*m_tn);
                m_rec->m_outcome = record::aborted;
                if(give_up) {
                    post([this] { finish(); });
                } else {
                    post([this] { begin(); });
                }
            }),
                      "rollback refused");
        }
        void finish() {
            auto cnt = std::make_shared<int>(0);
            PBT_CHECK(m_node->m_broker->finish(*m_tn, [this, cnt, self = shared_from_this()](br::interface::finish_return_type r) {
                PBT_CHECK(++*cnt == 1, "finish answered twice");
                if(!m_node->m_up) {
                    return;
                }
                PBT_CHECK(!r.has_value(), "ticket %llu cannot be finished: %d", (unsigned long long)*m_tn, r ? (int)*r : 0);
                m_done = true;
            }),
                      "finish refused");
        }
        void draw(u64 nkeys) {
            m_parallel = s.coin();
            m_early = s.coin();
            m_give_up = s.chance(1, 8);
            auto n = s.chance(1, 12) ? 0 : s.range(1, 5);
            std::map<u64, bool> w;
            for(u64 i = 0; i < n; i++) {
                auto k = s.below(nkeys);
                auto t = s.coin();
                if(m_parallel && w.count(k) != 0) {
                    continue;
                }
                m_ops.emplace_back(k, t ? rs::lock_type::write : rs::lock_type::read);
                w[k] = w[k] || t;
            }
            for(auto& [k, t] : w) {
                if(t && s.chance(5, 6)) {
                    m_write.insert(k);
                }
            }
        }
    };
}
