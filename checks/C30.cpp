// Brokers that fail at any point and are replaced: recovery completes or
// undoes each of their tickets.
#include "parsec_sim.hpp"
using namespace sim;

namespace {
    void run_case(Src& s) {
        const auto nsh = s.range(1, 3);
        const auto nbr = s.range(1, 2);
        const auto nkeys = s.range(1, 6);
        const auto nclients = s.range(1, 8);
        cluster c(s, nsh, nbr);
        std::vector<std::shared_ptr<client>> cs;
        std::vector<bool> recovering(nbr, false);
        std::vector<int> answers(nbr, 0);
        size_t crashes = 0;
        size_t made = 0;
        bool rec_crash = false;
        s.note("%llu shards, %llu brokers, %llu keys", (unsigned long long)nsh, (unsigned long long)nbr, (unsigned long long)nkeys);
        // With one shard that prepares early, crash points around commit are
        // rare; aim for them at times.
        const auto aim = s.below(4);
        const auto max_crashes = s.range(1, 3);
        auto replace = [&](size_t b) {
            s.note("broker %zu fails%s", b, recovering[b] ? " while recovering" : "");
            rec_crash = rec_crash || recovering[b];
            c.crash(b);
            for(auto& cl : cs) {
                if(cl->m_node->m_id == b && !cl->m_node->m_up) {
                    cl->m_done = true;
                }
            }
            c.m_nodes[b] = c.make(b);
            recovering[b] = true;
            answers[b] = 0;
            crashes++;
            auto* n = c.m_nodes[b].get();
            PBT_CHECK(n->m_broker->recover([&, b, n](br::interface::recover_return_type r) {
                if(c.m_nodes[b].get() != n) {
                    return;
                }
                PBT_CHECK(++answers[b] == 1, "recovery answered twice");
                PBT_CHECK(!r.has_value(), "recovery fails: %d", r ? (int)*r : 0);
                recovering[b] = false;
                s.note("broker %zu has recovered", b);
            }),
                      "recovery refused");
        };
        for(;;) {
            if(made < nclients && (s.chance(1, 6) || made == 0)) {
                auto b = s.below(nbr);
                if(!recovering[b]) {
                    cs.push_back(std::make_shared<client>(c, c.m_nodes[b]));
                    cs.back()->draw(nkeys);
                    cs.back()->start();
                    made++;
                }
            }
            if(crashes < max_crashes) {
                bool now = s.chance(1, 40);
                if(!now && aim > 0) {
                    for(auto& h : c.m_hist) {
                        if(h->m_commit_asked && h->m_outcome == record::unknown) {
                            now = now || s.chance(1, 6);
                        }
                    }
                }
                if(now) {
                    replace(s.below(nbr));
                }
            }
            if(!c.sch.step() && made == nclients) {
                break;
            }
            PBT_CHECK(c.sch.m_steps < 20000, "tickets make no progress");
        }
        for(size_t b = 0; b < nbr; b++) {
            PBT_CHECK(!recovering[b], "recovery of broker %zu never ends", b);
        }
        for(auto& cl : cs) {
            PBT_CHECK(cl->m_done, "ticket %llu waits for ever", (unsigned long long)cl->m_tn.value_or(0));
        }
        c.no_tickets();
        c.check_history(nkeys);
        bool mid = false;
        for(auto& h : c.m_hist) {
            mid = mid || (h->m_outcome == record::unknown && h->m_commit_asked);
        }
        if(mid) {
            s.nontrivial();
            s.label("failed between commit request and answer");
        }
        if(rec_crash) {
            s.label("failed during recovery");
        }
        if(crashes > 0) {
            s.label("failed");
        }
    }

    // The same with shards in the same process, answering at once; recovery
    // repeated on the same broker.
    void direct(Src& s) {
        const auto nsh = s.range(1, 3);
        std::vector<std::shared_ptr<rs::interface>> shards;
        for(u64 i = 0; i < nsh; i++) {
            shards.push_back(std::make_shared<rs::impl>(logger()));
        }
        auto tm = std::make_shared<cbdc::parsec::ticket_machine::impl>(logger(), 1);
        auto dir = std::make_shared<cbdc::parsec::directory::impl>(nsh);
        std::map<u64, u64> values;
        std::map<u64, u64> value_maybe;
        const u64 nkeys = s.range(1, 12);
        u64 token = 1;
        const auto rounds = s.range(1, 4);
        auto mk = [&] {
            return std::make_shared<br::impl>(7, shards, tm, dir, logger());
        };
        auto next = mk();
        for(u64 r = 0; r < rounds; r++) {
            auto b = next;
            for(u64 again = 0; again < 1 + s.below(2); again++) {
                int calls = 0;
                PBT_CHECK(b->recover([&](br::interface::recover_return_type e) {
                    calls++;
                    PBT_CHECK(!e.has_value(), "recovery fails: %d", (int)*e);
                }),
                          "recovery refused");
                PBT_CHECK(calls == 1, "recovery answered %d times", calls);
            }
            // tickets with disjoint keys, left in any phase
            std::vector<u64> keys;
            for(u64 k = 0; k < nkeys; k++) {
                keys.push_back(k);
            }
            const auto nt = s.range(0, 6);
            s.note("round %llu: %llu tickets", (unsigned long long)r, (unsigned long long)nt);
            for(u64 t = 0; t < nt && !keys.empty(); t++) {
                tn_t tn{};
                (void)b->begin([&](br::interface::ticketnum_or_errcode_type x) { tn = std::get<tn_t>(x); });
                auto nk = s.range(1, 3);
                br::state_update_type up;
                std::vector<std::pair<u64, u64>> w;
                for(u64 i = 0; i < nk && !keys.empty(); i++) {
                    auto at = s.below(keys.size());
                    auto k = keys[at];
                    keys.erase(keys.begin() + static_cast<long>(at));
                    bool got = false;
                    (void)b->try_lock(tn, key(k), rs::lock_type::write, [&](const br::interface::try_lock_return_type& x) {
                        PBT_CHECK(std::holds_alternative<buffer>(x), "lock of key %llu fails", (unsigned long long)k);
                        auto v = val(std::get<buffer>(x));
                        PBT_CHECK(v == values[k], "key %llu: %llu, committed is %llu", (unsigned long long)k, (unsigned long long)v,
                                  (unsigned long long)values[k]);
                        got = true;
                    });
                    PBT_CHECK(got, "key %llu is still locked after recovery", (unsigned long long)k);
                    up[key(k)] = mkbuf(token);
                    w.emplace_back(k, token++);
                }
                auto fate = s.below(4);
                s.note("  ticket %llu, %zu keys, %s", (unsigned long long)tn, w.size(),
                       fate == 0 ? "left locked" : fate == 1 ? "committed" : fate == 2 ? "finished" : "prepared on some");
                if(fate == 3) {
                    // straight to the shards, as a failed broker leaves it:
                    // prepared on some, or prepared on all and committed on
                    // some
                    std::map<u64, rs::state_update_type> by;
                    for(auto& [k, v] : w) {
                        (void)dir->key_location(key(k), [&, k = k, v = v](auto loc) { by[loc][key(k)] = mkbuf(v); });
                    }
                    bool all = s.coin();
                    size_t n = 0;
                    auto stop = all ? by.size() : s.below(by.size() + 1);
                    for(auto& [sh, u] : by) {
                        if(n++ < stop) {
                            shards[sh]->prepare(tn, 7, u, [](auto x) { PBT_CHECK(!x.has_value(), "prepare fails"); });
                        }
                    }
                    if(all) {
                        auto nc = s.below(by.size() + 1);
                        n = 0;
                        for(auto& [sh, u] : by) {
                            if(n++ < nc) {
                                shards[sh]->commit(tn, [](auto x) { PBT_CHECK(!x.has_value(), "commit fails"); });
                            }
                        }
                        if(nc > 0) {
                            for(auto& [k, v] : w) {
                                values[k] = v;
                            }
                            s.nontrivial();
                        }
                    }
                } else if(fate != 0) {
                    bool ok = false;
                    (void)b->commit(tn, up, [&](auto x) { ok = !x.has_value(); });
                    PBT_CHECK(ok, "commit fails");
                    for(auto& [k, v] : w) {
                        values[k] = v;
                    }
                    if(fate == 2) {
                        ok = false;
                        (void)b->finish(tn, [&](auto x) { ok = !x.has_value(); });
                        PBT_CHECK(ok, "finish fails");
                    }
                }
            }
            next = mk();
        }
        int calls = 0;
        (void)next->recover([&](br::interface::recover_return_type e) {
            calls++;
            PBT_CHECK(!e.has_value(), "recovery fails: %d", (int)*e);
        });
        PBT_CHECK(calls == 1, "recovery answered %d times", calls);
        tn_t tn{};
        (void)next->begin([&](br::interface::ticketnum_or_errcode_type x) { tn = std::get<tn_t>(x); });
        for(u64 k = 0; k < nkeys; k++) {
            bool got = false;
            (void)next->try_lock(tn, key(k), rs::lock_type::read, [&](const br::interface::try_lock_return_type& x) {
                PBT_CHECK(std::holds_alternative<buffer>(x), "lock of key %llu fails", (unsigned long long)k);
                auto v = val(std::get<buffer>(x));
                PBT_CHECK(v == values[k], "key %llu: %llu, committed is %llu", (unsigned long long)k, (unsigned long long)v,
                          (unsigned long long)values[k]);
                got = true;
            });
            PBT_CHECK(got, "key %llu is still locked after recovery", (unsigned long long)k);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C30";
    c.m_rule = "as C29, with 1-3 failures of brokers at drawn moments (also while recovering), "
               "each broker replaced and recovered; and brokers over in-process shards whose "
               "tickets were left in a drawn phase; non-trivial: a broker failed between a "
               "commit request and its answer (in-process: a ticket was committed on some shard)";
    c.m_assumptions = {"what a failed broker sent and was not delivered when its successor "
                       "starts to recover is lost",
                       "messages between one broker and one shard stay in order"};
    c.m_props = {{"failures", run_case, 400000, 8000000}, {"direct", direct, 300000, 5000000}};
    return pbt::run(argc, argv, c);
}
