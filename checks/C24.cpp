// C24: the replication state manager: what was saved last is what is loaded,
// whatever ends the process or the disk's space.
#include "common.hpp"
#include "crash.hpp"
#include "util/raft/state_manager.hpp"

#include <filesystem>
#include <fstream>
#include <libnuraft/nuraft.hxx>

using namespace vt;

namespace {
    struct srv {
        int m_id{};
        std::string m_ep;
        int m_prio{1};
        bool operator==(const srv& o) const { return m_id == o.m_id && m_ep == o.m_ep && m_prio == o.m_prio; }
    };
    struct conf {
        u64 m_idx{};
        u64 m_prev{};
        std::vector<srv> m_srv;
        bool operator==(const conf& o) const { return m_idx == o.m_idx && m_prev == o.m_prev && m_srv == o.m_srv; }
    };
    struct state {
        u64 m_term{};
        int m_vote{};
        bool m_et{};
        bool operator==(const state& o) const { return m_term == o.m_term && m_vote == o.m_vote && m_et == o.m_et; }
    };
    struct saved {
        std::optional<conf> m_conf;
        std::optional<state> m_state;
        bool operator==(const saved& o) const { return m_conf == o.m_conf && m_state == o.m_state; }
    };
    conf read(const nuraft::ptr<nuraft::cluster_config>& p) {
        conf c;
        c.m_idx = p->get_log_idx();
        c.m_prev = p->get_prev_log_idx();
        for(auto& x : p->get_servers()) {
            c.m_srv.push_back({x->get_id(), x->get_endpoint(), x->get_priority()});
        }
        return c;
    }
    std::string text(const conf& c) {
        auto r = pbt::fmt("configuration %lu/%lu:", c.m_idx, c.m_prev);
        for(auto& x : c.m_srv) {
            r += pbt::fmt(" %d=%s(%d)", x.m_id, x.m_ep.c_str(), x.m_prio);
        }
        return r;
    }
    std::string text(const state& c) {
        return pbt::fmt("state term %lu vote %d timer %d", c.m_term, c.m_vote, c.m_et);
    }
    conf any_conf(Src& s) {
        conf c;
        c.m_idx = s.edgy();
        c.m_prev = s.edgy();
        auto n = s.size(8);
        for(u64 i = 0; i < n; i++) {
            srv x;
            x.m_id = static_cast<int>(s.below(100));
            auto len = s.chance(1, 10) ? s.below(3000) : s.size(30);
            for(u64 k = 0; k < len; k++) {
                x.m_ep += static_cast<char>(33 + s.below(90));
            }
            x.m_prio = static_cast<int>(s.below(200));
            c.m_srv.push_back(x);
        }
        return c;
    }
    state any_state(Src& s) {
        return {s.edgy(), static_cast<int>(s.below(10)) - 1, s.coin()};
    }
    struct op {
        std::optional<conf> m_conf;
        std::optional<state> m_state;
    };
    void save(cbdc::raft::state_manager& m, const op& o) {
        if(o.m_conf) {
            nuraft::cluster_config c(o.m_conf->m_idx, o.m_conf->m_prev);
            for(auto& x : o.m_conf->m_srv) {
                auto p = nuraft::cs_new<nuraft::srv_config>(x.m_id, x.m_ep);
                p->set_priority(x.m_prio);
                c.get_servers().push_back(p);
            }
            m.save_config(c);
        } else {
            m.save_state(nuraft::srv_state(o.m_state->m_term, o.m_state->m_vote, o.m_state->m_et));
        }
    }
    struct place {
        std::string m_dir;
        int m_id;
        std::vector<cbdc::network::endpoint_t> m_eps;
        std::unique_ptr<cbdc::raft::state_manager> open() const {
            return std::make_unique<cbdc::raft::state_manager>(m_id, m_dir + "/log", m_dir + "/config.dat", m_dir + "/state.dat", m_eps);
        }
        // what is used as long as nothing was saved
        conf first() const {
            conf c;
            for(size_t i = 0; i < m_eps.size(); i++) {
                c.m_srv.push_back({static_cast<int>(i + 1), m_eps[i].first + ":" + std::to_string(m_eps[i].second), i == 0 ? 100 : 1});
            }
            return c;
        }
    };
    // What a freshly started manager says.
    saved look(cbdc::raft::state_manager& m, const place& p, const char* when) {
        saved r;
        try {
            auto c = m.load_config();
            PBT_CHECK(c != nullptr, "%s: no configuration", when);
            r.m_conf = read(c);
            auto st = m.read_state();
            if(st) {
                r.m_state = state{st->get_term(), st->get_voted_for(), st->is_election_timer_allowed()};
            }
        } catch(const std::exception& e) {
            pbt::fail(pbt::fmt("%s: what is stored cannot be read: %s", when, e.what()));
        }
        if(!(*r.m_conf == p.first())) {
            return r;
        }
        return r;
    }
    void same(const saved& got, const saved& want, const place& p, const char* when) {
        auto wc = want.m_conf ? *want.m_conf : p.first();
        PBT_CHECK(*got.m_conf == wc, "%s: %s instead of %s", when, text(*got.m_conf).c_str(), text(wc).c_str());
        PBT_CHECK(got.m_state.has_value() == want.m_state.has_value(), "%s: %s", when, got.m_state ? "a state nobody saved" : "the state is gone");
        if(want.m_state) {
            PBT_CHECK(*got.m_state == *want.m_state, "%s: %s instead of %s", when, text(*got.m_state).c_str(), text(*want.m_state).c_str());
        }
    }
    place any_place(Src& s, const std::string& dir) {
        place p;
        p.m_dir = dir;
        p.m_id = static_cast<int>(1 + s.below(7));
        auto n = s.below(6);
        for(u64 i = 0; i < n; i++) {
            p.m_eps.emplace_back(s.coin() ? "127.0.0.1" : "host" + std::to_string(s.below(100)), static_cast<unsigned short>(s.below(65536)));
        }
        return p;
    }
    op any_op(Src& s) {
        op o;
        if(s.coin()) {
            o.m_conf = any_conf(s);
        } else {
            o.m_state = any_state(s);
        }
        return o;
    }
    void apply(saved& m, const op& o) {
        if(o.m_conf) {
            m.m_conf = o.m_conf;
        } else {
            m.m_state = o.m_state;
        }
    }

    void history(Src& s) {
        pbt::Scratch d;
        auto p = any_place(s, d.path());
        auto m = p.open();
        PBT_CHECK(m->server_id() == p.m_id, "the id is %d, not %d", m->server_id(), p.m_id);
        saved want;
        same(look(*m, p, "new"), want, p, "new");
        auto n = 1 + s.size(30);
        size_t again = 0;
        for(u64 i = 0; i < n; i++) {
            if(s.chance(1, 4)) {
                m = p.open();
                s.note("restart");
                again++;
            } else {
                auto o = any_op(s);
                s.note("save %s", o.m_conf ? text(*o.m_conf).c_str() : text(*o.m_state).c_str());
                save(*m, o);
                apply(want, o);
            }
            if(s.coin()) {
                same(look(*m, p, "afterwards"), want, p, "afterwards");
            }
        }
        m = p.open();
        same(look(*m, p, "at the end"), want, p, "at the end");
        PBT_CHECK(m->load_log_store() != nullptr, "no log store");
        if(again > 0 && want.m_conf && want.m_state) {
            s.nontrivial();
        }
    }

    // Saves in a process that ends, or finds the disk full, at some byte.
    void ends(Src& s) {
        pbt::Scratch d;
        auto p = any_place(s, d.path());
        saved want;
        bool inside = false;
        auto rounds = 1 + s.below(4);
        for(u64 r = 0; r < rounds; r++) {
            std::vector<op> ops;
            auto n = 1 + s.size(6);
            for(u64 i = 0; i < n; i++) {
                ops.push_back(any_op(s));
                s.note("save %s", ops.back().m_conf ? text(*ops.back().m_conf).c_str() : text(*ops.back().m_state).c_str());
            }
            auto full = s.coin();
            auto limit = static_cast<size_t>(s.coin() ? 1 + s.below(30) : 1 + s.below(400));
            s.note("a file of more than %zu bytes %s", limit, full ? "has no room" : "ends the process");
            auto res = crash_run(limit, full, [&](const std::function<void()>& report) {
                auto m = p.open();
                for(auto& o : ops) {
                    save(*m, o);
                    report();
                }
            });
            PBT_CHECK(res.m_end != crash_result::broken, "before the end: %s", res.m_what.c_str());
            for(size_t i = 0; i < res.m_reports; i++) {
                apply(want, ops[i]);
            }
            auto m = p.open();
            auto got = look(*m, p, "after the process ended");
            if(res.m_reports < ops.size()) {
                inside = true;
                auto next = want;
                apply(next, ops[res.m_reports]);
                saved g = got;
                if((next.m_conf ? *g.m_conf == *next.m_conf : *g.m_conf == p.first()) && g.m_state == next.m_state) {
                    want = next;
                }
            }
            same(got, want, p, "after the process ended");
        }
        if(inside) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C24";
    c.m_rule = "both were saved and the manager restarted; the process ended inside a save";
    c.m_assumptions = {"the consensus library's types are a stand-in with byte layouts of its kind", "crashes end the process, not the machine: what was written to a file stays"};
    c.m_props = {{"history", history, 2000, 200000}, {"ends", ends, 800, 50000}};
    return pbt::run(argc, argv, c);
}
