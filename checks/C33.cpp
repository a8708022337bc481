// The replicated state of a runtime locking shard, and a shard rebuilt from it.
#include "parsec_sim.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/server.hpp"
#include "parsec/runtime_locking_shard/state_machine.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
using namespace sim;

namespace {
    using iface = rs::replicated_shard_interface;
    using tst = iface::ticket_state;

    std::vector<uint8_t> vec(const buffer& b) {
        auto* p = static_cast<const uint8_t*>(b.data());
        return {p, p + b.size()};
    }
    buffer rndbuf(Src& s, u64 max) {
        auto n = s.weighted({1, 6}) == 0 ? 0 : s.size(max);
        auto v = s.bytes(n);
        auto b = buffer();
        b.append(v.data(), v.size());
        return b;
    }

    struct ref {
        struct tk {
            u64 m_broker;
            std::map<u64, std::vector<uint8_t>> m_upd;
            tst m_state;
        };
        std::map<u64, std::vector<uint8_t>> m_state;
        std::map<u64, tk> m_tickets;
    };

    std::optional<rs::rpc::replicated_response> apply(rs::state_machine& sm, u64 idx, const rs::rpc::replicated_request& r) {
        auto b = cbdc::make_buffer<rs::rpc::replicated_request, nuraft::ptr<nuraft::buffer>>(r);
        b->pos(0);
        auto out = sm.commit(idx, *b);
        PBT_CHECK(out != nullptr, "a well-formed command is not executed");
        PBT_CHECK(sm.last_commit_index() == idx, "last index is %llu after entry %llu", (unsigned long long)sm.last_commit_index(), (unsigned long long)idx);
        auto resp = cbdc::from_buffer<rs::rpc::replicated_response>(*out);
        PBT_CHECK(resp.has_value(), "the answer does not decode");
        return resp;
    }

    // What a replica holds, against the reference.
    void compare(rs::state_machine& sm, const ref& m, u64& idx, const char* who) {
        auto st = sm.get_shard()->get_state();
        for(auto& [k, v] : m.m_state) {
            auto it = st.find(key(k));
            PBT_CHECK(it != st.end(), "%s: key %llu is missing", who, (unsigned long long)k);
            PBT_CHECK(vec(it->second) == v, "%s: key %llu holds %s, committed was %s", who, (unsigned long long)k,
                      it->second.to_hex().c_str(), pbt::hex(v.data(), v.size()).c_str());
        }
        PBT_CHECK(st.size() == m.m_state.size(), "%s: %zu keys, %zu were committed", who, st.size(), m.m_state.size());
        auto resp = apply(sm, ++idx, rs::rpc::replicated_get_tickets_request{});
        auto* r = std::get_if<iface::get_tickets_return_type>(&*resp);
        PBT_CHECK(r != nullptr && std::holds_alternative<iface::tickets_type>(*r), "%s: get tickets answers otherwise", who);
        auto& ts = std::get<iface::tickets_type>(*r);
        for(auto& [n, t] : m.m_tickets) {
            auto it = ts.find(n);
            PBT_CHECK(it != ts.end(), "%s: ticket %llu is missing", who, (unsigned long long)n);
            PBT_CHECK(it->second.m_state == t.m_state, "%s: ticket %llu is in state %d", who, (unsigned long long)n, (int)it->second.m_state);
            PBT_CHECK(it->second.m_broker_id == t.m_broker, "%s: ticket %llu has broker %llu", who, (unsigned long long)n,
                      (unsigned long long)it->second.m_broker_id);
            if(t.m_state == tst::prepared) {
                PBT_CHECK(it->second.m_state_update.size() == t.m_upd.size(), "%s: ticket %llu has %zu updates", who, (unsigned long long)n,
                          it->second.m_state_update.size());
                for(auto& [k, v] : t.m_upd) {
                    auto u = it->second.m_state_update.find(key(k));
                    PBT_CHECK(u != it->second.m_state_update.end() && vec(u->second) == v, "%s: ticket %llu: update of key %llu differs", who,
                              (unsigned long long)n, (unsigned long long)k);
                }
            }
        }
        PBT_CHECK(ts.size() == m.m_tickets.size(), "%s: %zu tickets, %zu are unfinished", who, ts.size(), m.m_tickets.size());
    }

    // Logs with repeated commands on two replicas.
    void logs(Src& s) {
        const auto nkeys = s.range(1, 5);
        const auto n = s.range(1, 40);
        auto a = rs::state_machine();
        auto b = rs::state_machine();
        u64 ia = 0, ib = 0;
        ref m;
        u64 next = 1;
        bool rep = false, recommit = false;
        std::map<u64, rs::rpc::replicated_prepare_request> preps;
        auto err = [&](const std::optional<rs::rpc::replicated_response>& r) {
            auto* p = std::get_if<iface::return_type>(&*r);
            PBT_CHECK(p != nullptr, "answer of another kind");
            return *p;
        };
        std::set<u64> writes_locked;
        for(u64 i = 0; i < n; i++) {
            auto both = [&](const rs::rpc::replicated_request& r, std::optional<iface::error_code> want) {
                auto ra = err(apply(a, ++ia, r));
                PBT_CHECK(ra == want, "answer is %d", ra.has_value() ? (int)*ra : -1);
                auto k = 1 + s.weighted({3, 1});
                for(u64 j = 0; j < k; j++) {
                    auto rb = err(apply(b, ++ib, r));
                    if(j == 0) {
                        PBT_CHECK(rb == want, "answer of the other replica is %d", rb.has_value() ? (int)*rb : -1);
                    } else {
                        rep = true;
                    }
                }
            };
            auto any = [&](std::optional<tst> st) -> std::optional<u64> {
                std::vector<u64> v;
                for(auto& [t, x] : m.m_tickets) {
                    if(!st.has_value() || x.m_state == *st) {
                        v.push_back(t);
                    }
                }
                if(v.empty()) {
                    return std::nullopt;
                }
                return s.pick(v);
            };
            switch(s.weighted({5, 4, 2, 2, 2, 1})) {
                case 0: {
                    auto t = next++;
                    auto r = rs::rpc::replicated_prepare_request{t, s.below(3), {}};
                    auto& x = m.m_tickets[t];
                    x.m_broker = r.m_broker_id;
                    x.m_state = tst::prepared;
                    std::set<u64> locked;
                    for(auto& [o, y] : m.m_tickets) {
                        if(o != t && y.m_state == tst::prepared) {
                            for(auto& [k, v] : y.m_upd) {
                                locked.insert(k);
                            }
                        }
                    }
                    for(u64 k = 0; k < nkeys; k++) {
                        if(locked.count(k) == 0 && s.coin()) {
                            auto v = rndbuf(s, 40);
                            x.m_upd[k] = vec(v);
                            r.m_state_update.emplace(key(k), v);
                        }
                    }
                    s.note("prepare %llu (%zu keys)", (unsigned long long)t, x.m_upd.size());
                    preps[t] = r;
                    both(r, std::nullopt);
                    break;
                }
                case 1: {
                    auto t = any(tst::prepared);
                    if(t.has_value()) {
                        s.note("commit %llu", (unsigned long long)*t);
                        both(rs::rpc::commit_request{*t}, std::nullopt);
                        auto& x = m.m_tickets[*t];
                        x.m_state = tst::committed;
                        for(auto& [k, v] : x.m_upd) {
                            m.m_state[k] = v;
                        }
                    }
                    break;
                }
                case 2: {
                    auto t = any(std::nullopt);
                    if(t.has_value()) {
                        s.note("finish %llu", (unsigned long long)*t);
                        both(rs::rpc::finish_request{*t}, std::nullopt);
                        m.m_tickets.erase(*t);
                        if(s.coin()) {
                            both(rs::rpc::commit_request{*t}, iface::error_code::unknown_ticket);
                        }
                    }
                    break;
                }
                case 3: { // commit again, any time later
                    auto t = any(tst::committed);
                    if(t.has_value()) {
                        s.note("commit %llu again", (unsigned long long)*t);
                        (void)apply(a, ++ia, rs::rpc::commit_request{*t});
                        (void)apply(b, ++ib, rs::rpc::commit_request{*t});
                        rep = true;
                        recommit = true;
                    }
                    break;
                }
                case 4: { // prepare again
                    auto t = any(std::nullopt);
                    if(t.has_value()) {
                        s.note("prepare %llu again", (unsigned long long)*t);
                        (void)apply(a, ++ia, preps[*t]);
                        (void)apply(b, ++ib, preps[*t]);
                        rep = true;
                    }
                    break;
                }
                default: {
                    auto t = next + 100 + s.below(3);
                    if(s.coin()) {
                        both(rs::rpc::commit_request{t}, iface::error_code::unknown_ticket);
                    } else {
                        both(rs::rpc::finish_request{t}, std::nullopt);
                    }
                }
            }
            if(s.chance(1, 4) || i + 1 == n) {
                compare(a, m, ia, "replica 1");
                compare(b, m, ib, "replica 2");
            }
        }
        if(recommit) {
            s.label("committed again later");
        }
        if(rep && m.m_state.size() > 0) {
            s.nontrivial();
        }
    }

    // Replication that applies to a state machine at once.
    struct repl : iface {
        rs::state_machine& m_sm;
        u64 m_idx{0};
        bool m_fail{false};
        explicit repl(rs::state_machine& sm) : m_sm(sm) {}
        void ret(const rs::rpc::replicated_request& r, const callback_type& cb) {
            auto resp = apply(m_sm, ++m_idx, r);
            cb(std::get<iface::return_type>(*resp));
        }
        auto prepare(tn_t t, rs::broker_id_type b, state_type u, callback_type cb) -> bool override {
            ret(rs::rpc::replicated_prepare_request{t, b, std::move(u)}, cb);
            return true;
        }
        auto commit(tn_t t, callback_type cb) -> bool override {
            ret(rs::rpc::commit_request{t}, cb);
            return true;
        }
        auto finish(tn_t t, callback_type cb) -> bool override {
            ret(rs::rpc::finish_request{t}, cb);
            return true;
        }
        auto get_tickets(get_tickets_callback_type) const -> bool override { return false; }
    };
    struct wire : cbdc::rpc::async_server<rs::rpc::request, rs::rpc::response> {
        std::optional<rs::rpc::response> m_last;
        // One request through the encoding the TCP server uses.
        std::optional<rs::rpc::response> call(const rs::rpc::request& r) {
            auto b = cbdc::make_buffer(cbdc::rpc::request<rs::rpc::request>{{1}, r});
            auto got = std::make_shared<std::optional<rs::rpc::response>>();
            auto now = async_call(b, [got](cbdc::buffer resp) {
                auto x = cbdc::from_buffer<cbdc::rpc::response<rs::rpc::response>>(resp);
                PBT_CHECK(x.has_value(), "response does not decode");
                *got = x->m_payload;
            });
            PBT_CHECK(!now.has_value(), "the server refuses a request");
            return *got;
        }
    };

    std::map<u64, rs::ticket_state> tickets(rs::interface& sh, u64 broker) {
        std::map<u64, rs::ticket_state> r;
        sh.get_tickets(broker, [&](const rs::interface::get_tickets_return_type& x) {
            for(auto& [t, st] : std::get<rs::interface::get_tickets_success_type>(x)) {
                r[t] = st;
            }
        });
        return r;
    }

    // A live shard behind its server, stopped at a drawn point; another shard
    // starts from the replicated state.
    void failover(Src& s) {
        const auto nkeys = s.range(1, 4);
        constexpr u64 nb = 2;
        auto sm = std::make_shared<rs::state_machine>();
        auto live = std::make_shared<rs::impl>(logger());
        auto rp = std::make_shared<repl>(*sm);
        auto* w = new wire();
        rs::rpc::server srv(logger(), live, rp, std::unique_ptr<wire>(w));
        struct tk {
            u64 broker;
            std::map<u64, int> held; // key -> 1 read, 2 write
            enum { begun, prepared, committed, gone } st{begun};
            std::map<u64, buffer> upd;
        };
        std::map<u64, tk> ts;
        u64 next = 1;
        bool again = false;
        const auto n = s.range(3, 40);
        auto ok = [](const std::optional<rs::rpc::response>& r) {
            return r.has_value() && std::holds_alternative<rs::interface::prepare_return_type>(*r)
                && !std::get<rs::interface::prepare_return_type>(*r).has_value();
        };
        for(u64 i = 0; i < n; i++) {
            std::vector<u64> act;
            for(auto& [t, x] : ts) {
                if(x.st != tk::gone) {
                    act.push_back(t);
                }
            }
            if(act.empty() || s.chance(1, 4)) {
                auto t = next++;
                auto k = s.below(nkeys);
                auto lt = s.chance(1, 4) ? rs::lock_type::read : rs::lock_type::write;
                ts[t].broker = s.below(nb);
                s.note("ticket %llu: lock key %llu%s", (unsigned long long)t, (unsigned long long)k, lt == rs::lock_type::write ? "" : " (read)");
                auto r = w->call(rs::rpc::try_lock_request{t, ts[t].broker, key(k), lt, true});
                if(r.has_value() && std::holds_alternative<rs::interface::try_lock_return_type>(*r)
                   && std::holds_alternative<buffer>(std::get<rs::interface::try_lock_return_type>(*r))) {
                    ts[t].held[k] = lt == rs::lock_type::write ? 2 : 1;
                } else {
                    // waits: undo it, this is not the subject here
                    (void)w->call(rs::rpc::rollback_request{t});
                    ts[t].st = tk::gone;
                }
                continue;
            }
            auto t = s.pick(act);
            auto& x = ts[t];
            switch(s.weighted({3, 4, 4, 2, 1})) {
                case 0:
                    if(x.st == tk::begun) {
                        auto k = s.below(nkeys);
                        if(x.held.count(k) != 0) {
                            break;
                        }
                        auto r = w->call(rs::rpc::try_lock_request{t, x.broker, key(k), rs::lock_type::write, false});
                        if(r.has_value() && std::holds_alternative<rs::interface::try_lock_return_type>(*r)
                           && std::holds_alternative<buffer>(std::get<rs::interface::try_lock_return_type>(*r))) {
                            x.held[k] = 2;
                        } else {
                            (void)w->call(rs::rpc::rollback_request{t});
                            x.st = tk::gone;
                        }
                    }
                    break;
                case 1:
                    if(x.st == tk::begun) {
                        rs::state_update_type u;
                        for(auto& [k, lt] : x.held) {
                            if(lt == 2 && s.chance(3, 4)) {
                                x.upd[k] = rndbuf(s, 30);
                                u.emplace(key(k), x.upd[k]);
                            }
                        }
                        s.note("ticket %llu: prepare %zu", (unsigned long long)t, u.size());
                        // a wounded ticket cannot
                        if(ok(w->call(rs::rpc::prepare_request{t, u, x.broker}))) {
                            x.st = tk::prepared;
                        } else {
                            (void)w->call(rs::rpc::rollback_request{t});
                            x.st = tk::gone;
                        }
                    }
                    break;
                case 2:
                    if(x.st == tk::prepared) {
                        s.note("ticket %llu: commit", (unsigned long long)t);
                        PBT_CHECK(ok(w->call(rs::rpc::commit_request{t})), "a prepared ticket cannot be committed");
                        x.st = tk::committed;
                    } else if(x.st == tk::committed) {
                        // a recovering broker asks again
                        s.note("ticket %llu: commit again", (unsigned long long)t);
                        (void)w->call(rs::rpc::commit_request{t});
                        again = true;
                    }
                    break;
                case 3:
                    if(x.st == tk::committed) {
                        s.note("ticket %llu: finish", (unsigned long long)t);
                        PBT_CHECK(ok(w->call(rs::rpc::finish_request{t})), "a committed ticket cannot be finished");
                        x.st = tk::gone;
                    }
                    break;
                default:
                    if(x.st == tk::begun || x.st == tk::prepared) {
                        s.note("ticket %llu: roll back", (unsigned long long)t);
                        PBT_CHECK(ok(w->call(rs::rpc::rollback_request{t})), "cannot roll back");
                        x.st = tk::gone;
                    }
            }
        }
        // The shard stops; another one starts from its replicated state.
        auto fresh = std::make_shared<rs::impl>(logger());
        auto tickets_repl = iface::tickets_type();
        sm->get_shard()->get_tickets([&](iface::get_tickets_return_type r) { tickets_repl = std::get<iface::tickets_type>(r); });
        PBT_CHECK(fresh->recover(sm->get_shard()->get_state(), tickets_repl), "recovery refused");
        u64 prepared = 0;
        for(u64 b = 0; b < nb; b++) {
            auto l = tickets(*live, b);
            auto f = tickets(*fresh, b);
            for(auto& [t, st] : l) {
                if(st == rs::ticket_state::prepared || st == rs::ticket_state::committed) {
                    prepared += st == rs::ticket_state::prepared ? 1 : 0;
                    PBT_CHECK(f.count(t) != 0 && f[t] == st, "ticket %llu was in state %d, is %d after recovery", (unsigned long long)t, (int)st,
                              f.count(t) != 0 ? (int)f[t] : -1);
                } else {
                    PBT_CHECK(f.count(t) == 0, "ticket %llu, not prepared, is there after recovery", (unsigned long long)t);
                    live->rollback(t, [](auto) {});
                }
            }
            for(auto& [t, st] : f) {
                PBT_CHECK(l.count(t) != 0, "ticket %llu, unknown to the failed shard, is there after recovery", (unsigned long long)t);
            }
        }
        // Reads before and after the prepared tickets are settled.
        auto probe = [&](rs::interface& sh) {
            std::map<u64, std::optional<std::string>> r;
            for(u64 k = 0; k < nkeys; k++) {
                auto got = std::make_shared<std::optional<std::string>>();
                sh.try_lock(1000000 + k, 99, key(k), rs::lock_type::read, true, [got](const rs::interface::try_lock_return_type& v) {
                    if(std::holds_alternative<buffer>(v)) {
                        *got = std::get<buffer>(v).to_hex();
                    }
                });
                r[k] = *got;
                sh.rollback(1000000 + k, [](auto) {});
            }
            return r;
        };
        auto cmp = [&](const char* when) {
            auto l = probe(*live);
            auto f = probe(*fresh);
            for(u64 k = 0; k < nkeys; k++) {
                // A write lock whose holder prepared no update of the key
                // protects nothing and need not survive.
                bool idle = false;
                for(auto& [t, x] : ts) {
                    if(x.st == tk::prepared && x.held.count(k) != 0 && x.held[k] == 2 && x.upd.count(k) == 0) {
                        idle = true;
                    }
                }
                if(!l[k].has_value() && idle) {
                    continue;
                }
                PBT_CHECK(l[k] == f[k], "%s: key %llu reads %s, the failed shard gave %s", when, (unsigned long long)k,
                          f[k].value_or("(locked)").c_str(), l[k].value_or("(locked)").c_str());
            }
        };
        cmp("after recovery");
        for(auto& [t, x] : ts) {
            if(x.st == tk::prepared) {
                auto com = s.coin();
                for(auto* sh : {static_cast<rs::interface*>(live.get()), static_cast<rs::interface*>(fresh.get())}) {
                    std::optional<rs::shard_error> e;
                    auto cb = [&](std::optional<rs::shard_error> r) { e = r; };
                    if(com) {
                        sh->commit(t, cb);
                        PBT_CHECK(!e.has_value(), "ticket %llu cannot be committed after recovery", (unsigned long long)t);
                        sh->finish(t, cb);
                    } else {
                        sh->rollback(t, cb);
                    }
                    PBT_CHECK(!e.has_value(), "ticket %llu cannot be settled after recovery", (unsigned long long)t);
                }
                x.st = tk::gone;
            } else if(x.st == tk::committed) {
                std::optional<rs::shard_error> e;
                fresh->finish(t, [&](std::optional<rs::shard_error> r) { e = r; });
                PBT_CHECK(!e.has_value(), "committed ticket %llu cannot be finished after recovery", (unsigned long long)t);
            }
        }
        cmp("after settling the prepared tickets");
        if(again) {
            s.label("commit asked again");
        }
        if(prepared > 0) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C33";
    c.m_rule = "logs: 1-40 replicated commands, repeated at once or later, on two replicas against a "
               "reference; failover: a live shard behind its server and replicated state, stopped, and a "
               "shard recovered from it. Non-trivial: a command was repeated and something committed; a "
               "ticket was prepared at the stop";
    c.m_assumptions = {"replication applies each command once, in order, on the leader (the consensus library's part)",
                       "a ticket number is not prepared again after it is finished"};
    c.m_props = {{"logs", logs, 60000, 1000000}, {"failover", failover, 60000, 1000000}};
    return pbt::run(argc, argv, c);
}
