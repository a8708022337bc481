// Agents over brokers and shards: one answer, all effects or none.
#include "parsec_sim.hpp"
#include "parsec/agent/impl.hpp"
using namespace sim;
namespace ag = cbdc::parsec::agent;

namespace {
    struct world;

    struct script {
        bool m_parallel{false};
        bool m_early{false}; // gives up at the first wound, others outstanding
        bool m_async{false}; // answers after run() has returned
        std::vector<std::pair<u64, rs::lock_type>> m_ops;
        std::set<u64> m_write;
        enum { ok, exec_error, hazard, read_update } m_end{ok};
        u64 m_refuse_runs{0}; // run() fails this often
        bool m_readonly{false};
        int m_fkind{0}; // 0: one byte, 1: a key, 2: empty and read-only
        u64 m_fkey{0};
        rs::lock_type m_flock{rs::lock_type::read};
    };

    struct actor : std::enable_shared_from_this<actor> {
        world& w;
        Src& s;
        script m_s;
        std::shared_ptr<node> m_node;
        std::shared_ptr<ag::impl> m_agent;
        size_t m_q;
        std::shared_ptr<record> m_rec;
        u64 m_attempt{0};
        u64 m_retries{0};
        u64 m_id;
        bool m_answered{false};
        bool m_finished{false};
        std::optional<ag::interface::exec_return_type> m_answer;
        std::optional<rs::state_update_type> m_returned;
        actor(world& ww, u64 id, std::shared_ptr<node> n);
        void post(std::function<void()> f);
        void start();
        void answer(const ag::interface::exec_return_type& r);
    };

    struct world {
        cluster c;
        Src& s;
        std::vector<std::shared_ptr<actor>> m_actors;
        std::shared_ptr<secp256k1_context> m_secp;
        bool m_failures{false};
        world(Src& src, size_t nsh, size_t nbr) : c(src, nsh, nbr), s(src) {}
    };

    // A contract that does what its script says.
    struct runner : ag::runner::interface {
        actor& a;
        run_callback_type m_res;
        try_lock_callback_type m_lock;
        std::shared_ptr<record> m_rec;
        u64 m_my;
        size_t m_next{0};
        size_t m_open{0};
        bool m_over{false};
        bool m_wounded{false};
        std::shared_ptr<bool> m_alive{std::make_shared<bool>(true)};

        runner(actor& aa, std::shared_ptr<cbdc::logging::log> l, const cbdc::parsec::config& cfg, rs::value_type f, ag::parameter_type p,
               bool ro, run_callback_type res, try_lock_callback_type lock, std::shared_ptr<secp256k1_context> secp, ticket_number_type tn)
            : interface(l, cfg, f, p, ro, res, lock, secp, nullptr, tn),
              a(aa),
              m_res(res),
              m_lock(lock) {
            m_rec = std::make_shared<record>();
            m_rec->m_tn = tn;
            m_rec->m_start = a.w.c.sch.m_steps;
            a.m_rec = m_rec;
            a.w.c.m_hist.push_back(m_rec);
            m_my = ++a.m_attempt;
            PBT_CHECK(p == mkbuf(a.m_id), "agent %llu: the function got another parameter", (unsigned long long)a.m_id);
            PBT_CHECK(ro == a.m_s.m_readonly, "agent %llu: read-only flag is %d", (unsigned long long)a.m_id, ro);
            if(a.m_s.m_fkind == 1) {
                m_rec->m_reads[a.m_s.m_fkey] = val(f);
            } else if(a.m_s.m_fkind == 0) {
                PBT_CHECK(f.size() == 1, "agent %llu: the function is not the one requested", (unsigned long long)a.m_id);
            }
        }
        ~runner() override { *m_alive = false; }
        void later(std::function<void()> f) {
            a.post([alive = m_alive, f] {
                if(*alive) {
                    f();
                }
            });
        }
        void result(run_return_type r) {
            if(m_over) {
                return;
            }
            m_over = true;
            if(a.m_s.m_async) {
                later([this, r] { m_res(r); });
            } else {
                m_res(r);
            }
        }
        auto run() -> bool override {
            if(a.m_s.m_refuse_runs > 0) {
                a.m_s.m_refuse_runs--;
                m_over = true;
                return false;
            }
            if(a.m_s.m_ops.empty()) {
                end();
            } else if(m_par()) {
                m_open = a.m_s.m_ops.size();
                // Answers may come before lock() returns.
                for(size_t i = 0; i < a.m_s.m_ops.size() && !m_over; i++) {
                    lock(i);
                }
            } else {
                m_open = 1;
                lock(0);
            }
            return true;
        }
        bool m_par() const { return a.m_s.m_parallel; }
        void lock(size_t i) {
            auto [k, t] = a.m_s.m_ops[i];
            auto cnt = std::make_shared<int>(0);
            a.s.note("agent %llu locks key %llu for %s", (unsigned long long)a.m_id, (unsigned long long)k,
                     t == rs::lock_type::write ? "writing" : "reading");
            auto ok = m_lock(key(k), t, [this, k = k, cnt, alive = m_alive](const br::interface::try_lock_return_type& r) {
                PBT_CHECK(*alive, "an answer reaches a contract that is gone");
                PBT_CHECK(++*cnt == 1, "lock request answered twice");
                locked(k, r);
            });
            if(!ok) {
                PBT_CHECK(a.m_s.m_readonly && t == rs::lock_type::write, "agent %llu: lock request refused", (unsigned long long)a.m_id);
                result(error_code::lock_error);
            }
        }
        void locked(u64 k, const br::interface::try_lock_return_type& r) {
            if(m_over) {
                return;
            }
            m_open--;
            if(std::holds_alternative<buffer>(r)) {
                auto v = val(std::get<buffer>(r));
                auto it = m_rec->m_reads.find(k);
                PBT_CHECK(it == m_rec->m_reads.end() || it->second == v, "agent %llu saw key %llu change while holding it",
                          (unsigned long long)a.m_id, (unsigned long long)k);
                m_rec->m_reads[k] = v;
            } else if(std::holds_alternative<rs::shard_error>(r)) {
                auto e = std::get<rs::shard_error>(r).m_error_code;
                PBT_CHECK(e == rs::error_code::wounded || a.w.m_failures, "agent %llu: shard error %d on a lock", (unsigned long long)a.m_id, (int)e);
                m_wounded = true;
                if(m_open == 0 || a.m_s.m_early) {
                    result(e == rs::error_code::wounded ? error_code::wounded : error_code::lock_error);
                    return;
                }
            } else {
                PBT_CHECK(a.w.m_failures, "agent %llu: broker error %d on a lock", (unsigned long long)a.m_id,
                          (int)std::get<br::interface::error_code>(r));
                result(error_code::lock_error);
                return;
            }
            if(m_par()) {
                if(m_open == 0) {
                    m_wounded ? result(error_code::wounded) : end();
                }
                return;
            }
            if(++m_next < a.m_s.m_ops.size()) {
                m_open = 1;
                lock(m_next);
            } else {
                end();
            }
        }
        void end() {
            if(a.m_s.m_end == script::exec_error) {
                result(error_code::exec_error);
                return;
            }
            rs::state_update_type up;
            std::string d;
            for(auto k : a.m_s.m_write) {
                auto t = a.w.c.m_token++;
                m_rec->m_writes[k] = t;
                up[key(k)] = mkbuf(t);
                d += pbt::fmt(" %llu=%llu", (unsigned long long)k, (unsigned long long)t);
            }
            if(a.m_s.m_end == script::hazard) {
                up[key(1000000)] = mkbuf(1);
            }
            if(a.m_s.m_end == script::read_update) {
                up[key(a.m_s.m_fkey)] = mkbuf(2);
            }
            a.s.note("agent %llu returns%s", (unsigned long long)a.m_id, d.c_str());
            if(a.m_s.m_readonly) {
                m_rec->m_writes.clear();
            }
            m_rec->m_commit_asked = a.m_s.m_end == script::ok;
            a.m_returned = up;
            result(up);
        }
    };

    actor::actor(world& ww, u64 id, std::shared_ptr<node> n) : w(ww), s(ww.s), m_node(std::move(n)), m_q(ww.c.sch.add()), m_id(id) {}
    void actor::post(std::function<void()> f) {
        w.c.sch.post(m_q, [self = shared_from_this(), f] {
            if(self->m_node->m_up) {
                f();
            }
        });
    }
    void actor::start() {
        buffer f;
        if(m_s.m_fkind == 0) {
            f.append("x", 1);
        } else if(m_s.m_fkind == 1) {
            f = key(m_s.m_fkey);
        }
        auto factory = [this](std::shared_ptr<cbdc::logging::log> l, const cbdc::parsec::config& cfg, rs::value_type fn, ag::parameter_type p,
                              bool ro, ag::runner::interface::run_callback_type res, ag::runner::interface::try_lock_callback_type lock,
                              std::shared_ptr<secp256k1_context> secp, std::shared_ptr<cbdc::thread_pool>, tn_t tn) {
            return std::unique_ptr<ag::runner::interface>(std::make_unique<runner>(*this, l, cfg, fn, p, ro, res, lock, secp, tn));
        };
        static cbdc::parsec::config cfg{};
        m_agent = std::make_shared<ag::impl>(
            logger(), cfg, factory, m_node->m_broker, f, mkbuf(m_id), [this](ag::interface::exec_return_type r) { answer(r); }, m_s.m_flock,
            m_s.m_readonly, w.m_secp, nullptr);
        post([this] { PBT_CHECK(m_agent->exec(), "exec refused"); });
    }
    void actor::answer(const ag::interface::exec_return_type& r) {
        auto* e = std::get_if<ag::interface::error_code>(&r);
        if(e != nullptr && *e == ag::interface::error_code::retry) {
            PBT_CHECK(!m_answered, "agent %llu asks to be retried after its answer", (unsigned long long)m_id);
            s.note("agent %llu is to be retried", (unsigned long long)m_id);
            if(m_rec) {
                m_rec->m_outcome = record::aborted;
                m_rec = nullptr;
            }
            m_returned.reset();
            m_retries++;
            post([this] { PBT_CHECK(m_agent->exec(), "exec refused"); });
            return;
        }
        PBT_CHECK(!m_answered, "agent %llu answers twice", (unsigned long long)m_id);
        m_answered = true;
        m_answer = r;
        m_finished = m_agent->get_state() == ag::impl::state::finish_complete;
        s.note("agent %llu answers %s%s", (unsigned long long)m_id, e == nullptr ? "its result" : pbt::fmt("error %d", (int)*e).c_str(),
               m_finished ? "" : ", unfinished");
        if(m_rec) {
            m_rec->m_end = w.c.sch.m_steps;
        }
        if(e == nullptr) {
            PBT_CHECK(m_finished, "agent %llu gives a result before it is finished", (unsigned long long)m_id);
            PBT_CHECK(m_returned.has_value() && std::get<ag::return_type>(r) == *m_returned, "agent %llu: the answer is not the function's result",
                      (unsigned long long)m_id);
            m_rec->m_outcome = record::committed;
        } else if(m_finished && m_rec) {
            m_rec->m_outcome = record::aborted;
        }
    }

    void draw(Src& s, actor& a, u64 nkeys) {
        auto& p = a.m_s;
        p.m_parallel = s.coin();
        p.m_early = s.coin();
        p.m_async = s.coin();
        p.m_fkind = static_cast<int>(s.weighted({2, 3}));
        p.m_fkey = s.below(nkeys);
        p.m_readonly = s.chance(1, 6);
        p.m_flock = s.chance(1, 5) ? rs::lock_type::write : rs::lock_type::read;
        if(p.m_readonly && s.coin()) {
            p.m_fkind = 2;
        }
        auto n = s.chance(1, 12) ? 0 : s.range(1, 5);
        std::map<u64, bool> w;
        for(u64 i = 0; i < n; i++) {
            auto k = s.below(nkeys);
            auto t = s.coin();
            if(p.m_readonly && !s.chance(1, 12)) {
                t = false;
            }
            if((p.m_parallel && w.count(k) != 0) || (p.m_parallel && p.m_fkind == 1 && k == p.m_fkey)) {
                continue;
            }
            p.m_ops.emplace_back(k, t ? rs::lock_type::write : rs::lock_type::read);
            w[k] = w[k] || t;
        }
        for(auto& [k, t] : w) {
            if(t && s.chance(5, 6)) {
                p.m_write.insert(k);
            }
        }
        switch(s.weighted({12, 2, 1, 1})) {
            case 1:
                p.m_end = script::exec_error;
                break;
            case 2:
                p.m_end = script::hazard;
                break;
            case 3:
                if(p.m_fkind == 1 && p.m_flock == rs::lock_type::read && w.count(p.m_fkey) == 0) {
                    p.m_end = script::read_update;
                }
                break;
            default:
                break;
        }
        // No contract that exists refuses to run; one that has locked nothing
        // before cannot be rolled back twice.
        if(p.m_fkind == 1 && s.chance(1, 10)) {
            p.m_refuse_runs = s.range(1, 2);
        }
        s.note("agent %llu: %zu locks %s, writes %zu, %s%s%s", (unsigned long long)a.m_id, p.m_ops.size(), p.m_parallel ? "at once" : "in turn",
               p.m_write.size(), p.m_fkind == 0 ? "built-in function" : p.m_fkind == 1 ? ("function in key " + std::to_string(p.m_fkey)).c_str() : "no function",
               p.m_readonly ? ", read-only" : "",
               p.m_end == script::ok ? "" : p.m_end == script::exec_error ? ", fails" : p.m_end == script::hazard ? ", writes an unlocked key" : ", writes a key locked for reading");
    }
    // What the script comes to when nothing fails around it.
    bool succeeds(const script& p) {
        if(p.m_readonly) {
            for(auto& [k, t] : p.m_ops) {
                if(t == rs::lock_type::write) {
                    return false;
                }
            }
            // A dry run sends no update.
            return p.m_end != script::exec_error;
        }
        return p.m_end == script::ok;
    }

    void plain(Src& s) {
        const auto nsh = s.range(1, 3);
        const auto nbr = s.range(1, 2);
        const auto nkeys = s.range(1, 5);
        const auto na = s.range(1, 7);
        world w(s, nsh, nbr);
        s.note("%llu shards, %llu brokers, %llu keys", (unsigned long long)nsh, (unsigned long long)nbr, (unsigned long long)nkeys);
        for(u64 i = 0; i < na; i++) {
            w.m_actors.push_back(std::make_shared<actor>(w, i, w.c.m_nodes[s.below(nbr)]));
            draw(s, *w.m_actors.back(), nkeys);
        }
        size_t started = 0;
        for(;;) {
            if(started < na && (s.chance(1, 6) || started == 0)) {
                w.m_actors[started++]->start();
            }
            if(!w.c.sch.step() && started == na) {
                break;
            }
            PBT_CHECK(w.c.sch.m_steps < 20000, "agents make no progress");
        }
        u64 retries = 0;
        for(auto& a : w.m_actors) {
            PBT_CHECK(a->m_answered, "agent %llu never answers", (unsigned long long)a->m_id);
            PBT_CHECK(a->m_finished, "agent %llu answers error %d without having finished", (unsigned long long)a->m_id,
                      (int)std::get<ag::interface::error_code>(*a->m_answer));
            auto good = std::holds_alternative<ag::return_type>(*a->m_answer);
            PBT_CHECK(good == succeeds(a->m_s), "agent %llu answers %s", (unsigned long long)a->m_id, good ? "a result" : "an error");
            retries += a->m_retries;
        }
        w.c.no_tickets();
        w.c.check_history(nkeys);
        if(retries > 0) {
            s.label("retried");
        }
        if(retries > 0 && na > 1) {
            s.nontrivial();
        }
    }

    // Requests to shards that cannot be made. An agent that cannot finish
    // stops its process: the broker fails, and another recovers.
    void failures(Src& s) {
        const auto nsh = s.range(1, 3);
        const auto nkeys = s.range(1, 5);
        const auto na = s.range(1, 5);
        world w(s, nsh, 1);
        w.m_failures = true;
        auto left = s.range(1, 3);
        const auto rate = s.range(4, 40);
        bool recovering = false;
        u64 refused = 0;
        w.c.m_refuse = [&](const char* op) {
            if(left > 0 && !recovering && s.chance(1, rate)) {
                left--;
                refused++;
                s.note("a %s request cannot be made", op);
                return true;
            }
            return false;
        };
        for(u64 i = 0; i < na; i++) {
            w.m_actors.push_back(std::make_shared<actor>(w, i, nullptr));
            draw(s, *w.m_actors.back(), nkeys);
        }
        size_t started = 0;
        u64 crashes = 0;
        auto* leak = new std::vector<std::shared_ptr<ag::impl>>();
        for(;;) {
            if(!recovering && started < na && (s.chance(1, 6) || started == 0)) {
                w.m_actors[started]->m_node = w.c.m_nodes[0];
                w.m_actors[started++]->start();
            }
            bool dead = false;
            for(auto& a : w.m_actors) {
                if(a->m_node && a->m_node->m_up && a->m_answered && !a->m_finished) {
                    dead = true;
                }
            }
            if(dead && s.chance(1, 2)) {
                s.note("the broker stops");
                crashes++;
                w.c.crash(0);
                for(auto& a : w.m_actors) {
                    if(a->m_node && !a->m_node->m_up && a->m_agent) {
                        leak->push_back(a->m_agent);
                    }
                }
                w.c.m_nodes[0] = w.c.make(0);
                recovering = true;
                PBT_CHECK(w.c.m_nodes[0]->m_broker->recover([&](br::interface::recover_return_type r) {
                    PBT_CHECK(!r.has_value(), "recovery fails: %d", r ? (int)*r : 0);
                    recovering = false;
                }),
                          "recovery refused");
                continue;
            }
            if(!w.c.sch.step() && started == na && !dead) {
                break;
            }
            PBT_CHECK(w.c.sch.m_steps < 20000, "agents make no progress");
        }
        left = 0;
        PBT_CHECK(!recovering, "recovery never ends");
        for(auto& a : w.m_actors) {
            if(!a->m_node->m_up) {
                continue; // its process is gone
            }
            PBT_CHECK(a->m_answered, "agent %llu never answers", (unsigned long long)a->m_id);
            auto good = std::holds_alternative<ag::return_type>(*a->m_answer);
            PBT_CHECK(!good || succeeds(a->m_s), "agent %llu answers a result", (unsigned long long)a->m_id);
        }
        w.c.no_tickets();
        w.c.check_history(nkeys);
        if(refused > 0) {
            s.nontrivial();
        }
        if(crashes > 0) {
            s.label("stopped and recovered");
        }
        if(refused > 0 && crashes == 0) {
            s.label("failure undone or retried by the agent");
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C34";
    c.m_rule = "1-7 agents with scripted contracts (locks in turn or at once, results, errors, illegal "
               "updates, read-only runs, functions kept in keys) over 1-3 shards and 1-2 brokers, every "
               "message in a drawn order; failures: up to three requests to shards cannot be made. "
               "Non-trivial: an agent was retried (failures: a request was refused)";
    c.m_assumptions = {"messages between one broker and one shard stay in order",
                       "a process whose agent cannot finish stops, and its broker is recovered"};
    c.m_props = {{"plain", plain, 300000, 6000000}, {"failures", failures, 200000, 4000000}};
    return pbt::run(argc, argv, c);
}
