// One runtime locking shard against a reference lock manager.
#include "common.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"

#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>

using namespace vt;
namespace rs = cbdc::parsec::runtime_locking_shard;
using cbdc::buffer;
using EC = rs::error_code;
using TS = rs::ticket_state;

namespace {
    buffer mkbuf(u64 v) {
        auto b = buffer();
        b.append(&v, sizeof(v));
        return b;
    }
    u64 val(const buffer& b) {
        if(b.size() == 0) {
            return 0;
        }
        PBT_CHECK(b.size() == sizeof(u64), "value of %zu bytes", b.size());
        u64 v{};
        std::memcpy(&v, b.data(), sizeof(v));
        return v;
    }

    struct m_ticket {
        TS m_st{TS::begun};
        std::map<int, int> m_held;     // key -> 0 read, 1 write
        std::map<int, u64> m_queued;   // key -> request id
        std::map<int, u64> m_update;
        size_t m_broker{};
    };
    struct request {
        u64 m_tn;
        int m_key;
        int m_type;
        int m_answers{0};
        bool m_err{false};
        EC m_ec{};
        u64 m_value{0};
        // what the model expects
        bool m_want{false};
        bool m_want_err{false};
        EC m_want_ec{};
        u64 m_want_value{0};
    };

    struct world {
        Src& s;
        std::shared_ptr<rs::impl> sh;
        std::map<u64, m_ticket> tickets;
        std::map<int, u64> values;
        std::map<int, std::map<u64, u64>> queue; // key -> tn -> request
        std::vector<std::unique_ptr<request>> reqs;
        bool wounds{false};
        bool waits{false};

        void expect(u64 r, bool err, EC e, u64 v) {
            auto& q = *reqs[r];
            PBT_CHECK(!q.m_want, "model answered twice");
            q.m_want = true;
            q.m_want_err = err;
            q.m_want_ec = e;
            q.m_want_value = v;
        }
        std::set<u64> holders(int key, int min_type) {
            std::set<u64> r;
            for(auto& [tn, t] : tickets) {
                auto it = t.m_held.find(key);
                if(it != t.m_held.end() && it->second >= min_type) {
                    r.insert(tn);
                }
            }
            return r;
        }
        void grant(int key) {
            for(;;) {
                auto& q = queue[key];
                if(q.empty()) {
                    return;
                }
                auto [tn, r] = *q.begin();
                auto type = reqs[r]->m_type;
                auto h = holders(key, type == 0 ? 1 : 0);
                h.erase(tn);
                if(!h.empty()) {
                    waits = true;
                    return;
                }
                q.erase(tn);
                tickets[tn].m_queued.erase(key);
                tickets[tn].m_held[key] = type;
                expect(r, false, {}, values[key]);
            }
        }
        // Releases what a ticket holds and answers what it waits for.
        std::set<int> release(u64 tn) {
            auto& t = tickets[tn];
            std::set<int> keys;
            for(auto& [k, r] : t.m_queued) {
                queue[k].erase(tn);
                expect(r, true, EC::wounded, 0);
                keys.insert(k);
            }
            t.m_queued.clear();
            for(auto& [k, ty] : t.m_held) {
                keys.insert(k);
            }
            t.m_held.clear();
            return keys;
        }
        void compare(const char* op) {
            for(size_t i = 0; i < reqs.size(); i++) {
                auto& q = *reqs[i];
                PBT_CHECK(q.m_answers <= 1, "%s: lock request of ticket %llu on key %d answered %d times",
                          op, (unsigned long long)q.m_tn, q.m_key, q.m_answers);
                PBT_CHECK((q.m_answers == 1) == q.m_want,
                          "%s: %s request of ticket %llu on key %d %s",
                          op, q.m_type ? "write" : "read", (unsigned long long)q.m_tn, q.m_key,
                          q.m_want ? "was not answered" : "was answered although it has to wait");
                if(!q.m_want) {
                    continue;
                }
                PBT_CHECK(q.m_err == q.m_want_err && (!q.m_err || q.m_ec == q.m_want_ec),
                          "%s: ticket %llu key %d: got %s %d, expected %s %d",
                          op, (unsigned long long)q.m_tn, q.m_key, q.m_err ? "error" : "the lock", (int)q.m_ec,
                          q.m_want_err ? "error" : "the lock", (int)q.m_want_ec);
                PBT_CHECK(q.m_err || q.m_value == q.m_want_value,
                          "%s: ticket %llu key %d: value %llu, last committed is %llu",
                          op, (unsigned long long)q.m_tn, q.m_key, (unsigned long long)q.m_value,
                          (unsigned long long)q.m_want_value);
            }
        }
        static buffer key(int k) {
            auto b = buffer();
            b.append("k", 1);
            auto c = static_cast<char>('0' + k);
            b.append(&c, 1);
            return b;
        }
        void lock(u64 tn, int k, int type, size_t broker) {
            auto id = reqs.size();
            reqs.push_back(std::make_unique<request>(request{tn, k, type}));
            auto* q = reqs.back().get();
            bool first = tickets.count(tn) == 0;
            s.note("ticket %llu locks %d for %s", (unsigned long long)tn, k, type ? "writing" : "reading");
            // the model
            auto& t = tickets[tn];
            auto held = t.m_held.find(k);
            if(t.m_st == TS::prepared) {
                expect(id, true, EC::prepared, 0);
            } else if(t.m_st == TS::committed) {
                expect(id, true, EC::committed, 0);
            } else if(t.m_st == TS::wounded) {
                expect(id, true, EC::wounded, 0);
            } else if(held != t.m_held.end() && held->second >= type) {
                expect(id, true, EC::lock_held, 0);
            } else if(t.m_queued.count(k) != 0) {
                expect(id, true, EC::lock_queued, 0);
            } else {
                t.m_broker = broker;
                queue[k][tn] = id;
                t.m_queued[k] = id;
                std::set<int> keys{k};
                for(auto h : holders(k, type == 1 ? 0 : 1)) {
                    if(h > tn && tickets[h].m_st != TS::prepared) {
                        auto r = release(h);
                        keys.insert(r.begin(), r.end());
                        tickets[h].m_st = TS::wounded;
                        wounds = true;
                    }
                }
                for(auto kk : keys) {
                    grant(kk);
                }
            }
            auto ok = sh->try_lock(tn, broker, key(k), type ? rs::lock_type::write : rs::lock_type::read, first,
                                   [q](const rs::interface::try_lock_return_type& r) {
                                       q->m_answers++;
                                       if(std::holds_alternative<rs::shard_error>(r)) {
                                           q->m_err = true;
                                           q->m_ec = std::get<rs::shard_error>(r).m_error_code;
                                       } else {
                                           q->m_value = val(std::get<buffer>(r));
                                       }
                                   });
            PBT_CHECK(ok, "try_lock refused");
            compare("lock");
        }
        void result(const char* op, const std::optional<EC>& want, int calls, const rs::interface::prepare_return_type& r) {
            PBT_CHECK(calls == 1, "%s answered %d times", op, calls);
            PBT_CHECK(r.has_value() == want.has_value() && (!want || r->m_error_code == *want),
                      "%s: got %d, expected %d (-1: success)", op, r ? (int)r->m_error_code : -1, want ? (int)*want : -1);
            compare(op);
        }
        void prepare(u64 tn, const std::map<int, u64>& up) {
            std::string d;
            for(auto& [k, v] : up) {
                d += pbt::fmt(" %d=%llu", k, (unsigned long long)v);
            }
            s.note("ticket %llu prepares%s", (unsigned long long)tn, d.c_str());
            std::optional<EC> want;
            auto it = tickets.find(tn);
            std::set<EC> also; // several reasons may apply
            if(it == tickets.end()) {
                want = EC::unknown_ticket;
            } else if(it->second.m_st == TS::prepared) {
                want = EC::prepared;
            } else if(it->second.m_st == TS::committed) {
                want = EC::committed;
            } else if(it->second.m_st == TS::wounded) {
                want = EC::wounded;
            } else if(!it->second.m_queued.empty()) {
                want = EC::lock_queued;
            } else {
                for(auto& [k, v] : up) {
                    auto h = it->second.m_held.find(k);
                    if(h == it->second.m_held.end()) {
                        also.insert(EC::lock_not_held);
                    } else if(h->second != 1) {
                        also.insert(EC::state_update_with_read_lock);
                    }
                }
                if(also.empty()) {
                    it->second.m_st = TS::prepared;
                    it->second.m_update = up;
                } else {
                    want = *also.begin();
                }
            }
            rs::state_update_type u;
            for(auto& [k, v] : up) {
                u[key(k)] = mkbuf(v);
            }
            int calls = 0;
            rs::interface::prepare_return_type r;
            PBT_CHECK(sh->prepare(tn, 1, u, [&](rs::interface::prepare_return_type x) { calls++; r = x; }), "refused");
            if(r && also.count(r->m_error_code) != 0) {
                want = r->m_error_code;
            }
            result("prepare", want, calls, r);
        }
        void commit(u64 tn) {
            s.note("ticket %llu commits", (unsigned long long)tn);
            std::optional<EC> want;
            auto it = tickets.find(tn);
            if(it == tickets.end()) {
                want = EC::unknown_ticket;
            } else if(it->second.m_st != TS::prepared) {
                want = EC::not_prepared;
            } else {
                for(auto& [k, v] : it->second.m_update) {
                    values[k] = v;
                }
                it->second.m_st = TS::committed;
                for(auto k : release(tn)) {
                    grant(k);
                }
            }
            int calls = 0;
            rs::interface::prepare_return_type r;
            PBT_CHECK(sh->commit(tn, [&](rs::interface::prepare_return_type x) { calls++; r = x; }), "refused");
            result("commit", want, calls, r);
        }
        void rollback(u64 tn) {
            s.note("ticket %llu rolls back", (unsigned long long)tn);
            std::optional<EC> want;
            auto it = tickets.find(tn);
            if(it == tickets.end()) {
                want = EC::unknown_ticket;
            } else {
                auto keys = release(tn);
                tickets.erase(tn);
                for(auto k : keys) {
                    grant(k);
                }
            }
            int calls = 0;
            rs::interface::prepare_return_type r;
            PBT_CHECK(sh->rollback(tn, [&](rs::interface::prepare_return_type x) { calls++; r = x; }), "refused");
            result("rollback", want, calls, r);
        }
        void finish(u64 tn) {
            s.note("ticket %llu finishes", (unsigned long long)tn);
            std::optional<EC> want;
            auto it = tickets.find(tn);
            if(it == tickets.end()) {
                want = EC::unknown_ticket;
            } else if(it->second.m_st != TS::committed) {
                want = EC::not_committed;
            } else {
                tickets.erase(it);
            }
            int calls = 0;
            rs::interface::prepare_return_type r;
            PBT_CHECK(sh->finish(tn, [&](rs::interface::prepare_return_type x) { calls++; r = x; }), "refused");
            result("finish", want, calls, r);
        }
        void get(size_t broker) {
            rs::interface::get_tickets_return_type r;
            int calls = 0;
            PBT_CHECK(sh->get_tickets(broker, [&](rs::interface::get_tickets_return_type x) { calls++; r = std::move(x); }), "refused");
            PBT_CHECK(calls == 1 && std::holds_alternative<rs::interface::get_tickets_success_type>(r), "get_tickets failed");
            auto& m = std::get<rs::interface::get_tickets_success_type>(r);
            size_t n = 0;
            for(auto& [tn, t] : tickets) {
                if(t.m_broker != broker) {
                    continue;
                }
                n++;
                PBT_CHECK(m.count(tn) != 0 && m.at(tn) == t.m_st, "ticket %llu: reported state %d, is in %d",
                          (unsigned long long)tn, m.count(tn) ? (int)m.at(tn) : -1, (int)t.m_st);
            }
            PBT_CHECK(m.size() == n, "%zu tickets reported, %zu exist", m.size(), n);
        }
    };

    void history(Src& s) {
        world w{s, std::make_shared<rs::impl>(logger())};
        const int nkeys = s.irange(1, 4);
        const u64 ntick = s.range(2, 7);
        std::map<u64, size_t> broker;
        for(u64 i = 1; i <= ntick; i++) {
            broker[i] = 1 + s.below(2);
        }
        u64 token = 1;
        const auto steps = s.range(3, 60);
        auto writes = [&](u64 tn) {
            std::map<int, u64> up;
            auto it = w.tickets.find(tn);
            if(it != w.tickets.end()) {
                for(auto& [k, ty] : it->second.m_held) {
                    if(ty == 1 && s.chance(3, 4)) {
                        up[k] = token++;
                    }
                }
            }
            return up;
        };
        for(u64 i = 0; i < steps; i++) {
            auto tn = 1 + s.below(ntick);
            switch(s.weighted({12, 4, 4, 2, 2, 1, 1})) {
                case 0:
                    w.lock(tn, s.irange(0, nkeys - 1), s.irange(0, 1), broker[tn]);
                    break;
                case 1:
                    w.prepare(tn, writes(tn));
                    break;
                case 2:
                    w.commit(tn);
                    break;
                case 3:
                    // a committed ticket is never rolled back
                    if(w.tickets.count(tn) == 0 || w.tickets[tn].m_st != TS::committed) {
                        w.rollback(tn);
                    }
                    break;
                case 4:
                    w.finish(tn);
                    break;
                case 5: {
                    auto up = writes(tn);
                    up[s.irange(0, nkeys - 1)] = token++;
                    w.prepare(tn, up);
                    break;
                }
                default:
                    w.get(1 + s.below(2));
            }
        }
        // Everybody finishes; nobody may be left waiting.
        for(u64 tn = 1; tn <= ntick; tn++) {
            if(w.tickets.count(tn) == 0) {
                continue;
            }
            if(w.tickets[tn].m_st == TS::begun && w.tickets[tn].m_queued.empty() && s.coin()) {
                w.prepare(tn, writes(tn));
            }
            if(w.tickets[tn].m_st == TS::prepared) {
                w.commit(tn);
            }
            if(w.tickets[tn].m_st == TS::committed) {
                w.finish(tn);
            } else {
                w.rollback(tn);
            }
        }
        for(auto& q : w.reqs) {
            PBT_CHECK(q->m_answers == 1, "a lock request was never answered");
        }
        w.get(1);
        w.get(2);
        for(int k = 0; k < nkeys; k++) {
            w.lock(100, k, 1, 1);
        }
        if(w.wounds && w.waits) {
            s.nontrivial();
        }
        if(w.wounds) {
            s.label("a ticket was wounded");
        }
        if(w.waits) {
            s.label("a ticket waited");
        }
    }

    // Threads that run whole tickets: every committed increment must count.
    void threads(Src& s) {
        auto sh = std::make_shared<rs::impl>(logger());
        const size_t nthr = s.range(2, 4);
        const int nkeys = s.irange(1, 3);
        const u64 rounds = s.range(5, 30);
        std::atomic<u64> next{1};
        struct plan {
            std::vector<std::vector<int>> m_keys;
        };
        std::vector<plan> plans(nthr);
        for(auto& p : plans) {
            for(u64 r = 0; r < rounds; r++) {
                std::vector<int> ks;
                for(int k = 0; k < nkeys; k++) {
                    if(s.coin()) {
                        ks.push_back(k);
                    }
                }
                if(ks.empty()) {
                    ks.push_back(0);
                }
                if(s.coin()) {
                    std::reverse(ks.begin(), ks.end());
                }
                p.m_keys.push_back(ks);
            }
        }
        s.note("%zu threads, %d keys, %llu tickets each", nthr, nkeys, (unsigned long long)rounds);
        struct waiter {
            std::mutex m;
            std::condition_variable cv;
            bool done{false};
            std::optional<u64> v;
        };
        std::vector<std::map<int, u64>> done(nthr);
        std::atomic<u64> wounds{0};
        std::atomic<bool> stuck{false};
        std::vector<std::thread> ts;
        for(size_t i = 0; i < nthr; i++) {
            ts.emplace_back([&, i] {
                for(auto& ks : plans[i].m_keys) {
                    auto tn = next.fetch_add(1);
                    for(bool again = true; again && !stuck;) {
                        again = false;
                        rs::state_update_type up;
                        bool first = true;
                        for(auto k : ks) {
                            auto w = std::make_shared<waiter>();
                            sh->try_lock(tn, 1, world::key(k), rs::lock_type::write, first,
                                         [w](const rs::interface::try_lock_return_type& r) {
                                             std::unique_lock l(w->m);
                                             if(std::holds_alternative<buffer>(r)) {
                                                 u64 v = 0;
                                                 auto& b = std::get<buffer>(r);
                                                 if(b.size() == 8) {
                                                     std::memcpy(&v, b.data(), 8);
                                                 }
                                                 w->v = v;
                                             }
                                             w->done = true;
                                             w->cv.notify_all();
                                         });
                            first = false;
                            std::unique_lock l(w->m);
                            if(!w->cv.wait_for(l, std::chrono::seconds(10), [&] { return w->done; })) {
                                stuck = true;
                                return;
                            }
                            if(!w->v) {
                                again = true;
                                break;
                            }
                            up[world::key(k)] = mkbuf(*w->v + 1);
                        }
                        bool ok = false;
                        if(!again) {
                            sh->prepare(tn, 1, up, [&](auto r) { ok = !r.has_value(); });
                        }
                        if(!ok) {
                            again = true;
                            wounds++;
                            sh->rollback(tn, [](auto) {});
                            continue;
                        }
                        sh->commit(tn, [&](auto r) { ok = !r.has_value(); });
                        sh->finish(tn, [](auto) {});
                        if(ok) {
                            for(auto k : ks) {
                                done[i][k]++;
                            }
                        }
                    }
                }
            });
        }
        for(auto& t : ts) {
            t.join();
        }
        PBT_CHECK(!stuck, "a lock request was not answered within 10 s");
        for(int k = 0; k < nkeys; k++) {
            u64 sum = 0;
            for(auto& d : done) {
                sum += d[k];
            }
            u64 v = 0;
            bool got = false;
            sh->try_lock(1000000, 1, world::key(k), rs::lock_type::read, k == 0,
                         [&](const rs::interface::try_lock_return_type& r) {
                             if(std::holds_alternative<buffer>(r)) {
                                 got = true;
                                 v = val(std::get<buffer>(r));
                             }
                         });
            PBT_CHECK(got, "key %d is still locked when all tickets are finished", k);
            PBT_CHECK(v == sum, "key %d: %llu increments committed, value %llu", k,
                      (unsigned long long)sum, (unsigned long long)v);
        }
        if(wounds > 0) {
            s.nontrivial();
            s.label("wounds in threads");
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C28";
    c.m_rule = "random requests of 2-7 tickets on 1-4 keys, every answer compared with a "
               "reference lock manager, then all tickets finish; and threads running whole "
               "tickets; non-trivial: a ticket was wounded and a ticket waited (threads: a "
               "ticket was wounded)";
    c.m_assumptions = {"a ticket that has committed is not rolled back",
                       "the first request of a ticket says so, as the broker does"};
    c.m_props = {{"history", history, 600000, 20000000},
                 {"threads", threads, 6000, 200000, true, 40}};
    return pbt::run(argc, argv, c);
}
