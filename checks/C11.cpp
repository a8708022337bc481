// Queues and thread pools under many schedules, against history oracles.
#include "common.hpp"
#include "jit.hpp"

#include "util/common/blocking_queue.hpp"
#include "util/common/thread_pool.hpp"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <future>
#include <thread>

namespace {
    using namespace vt;

    using item = std::pair<u64, u64>; // priority, identity
    struct by_first {
        bool operator()(const item& a, const item& b) const {
            return a.first < b.first;
        }
    };
    using fifo = cbdc::blocking_queue<item>;
    using prio = cbdc::blocking_priority_queue<item, by_first>;
    struct greater_first {
        bool operator()(const item& a, const item& b) const {
            return a.first > b.first;
        }
    };
    using rprio = cbdc::blocking_priority_queue<item, greater_first>;

    jit::setting draw_jit(Src& s) {
        jit::setting j;
        switch(s.below(3)) {
            case 0:
                break;
            case 1:
                j.m_wait = 128;
                j.m_lock = static_cast<unsigned>(s.below(64));
                j.m_us = 300;
                break;
            default:
                j.m_wait = static_cast<unsigned>(s.below(256));
                j.m_lock = static_cast<unsigned>(s.below(256));
                j.m_us = static_cast<unsigned>(s.range(1, 500));
        }
        j.m_seed = s.below(1 << 20) + 1;
        return j;
    }

    // One thread, every operation, against the obvious model.
    template<typename Q, typename Better>
    void sequential(Src& s, Better better, bool is_fifo) {
        Q q;
        std::deque<item> m;
        bool closed = false;
        u64 id = 0;
        const auto n = s.range(1, 60);
        u64 pops = 0;
        for(u64 i = 0; i < n; i++) {
            switch(s.weighted({6, 5, 1, 1})) {
                case 0: {
                    if(closed) {
                        // reset() comes before using the queue again
                        q.reset();
                        closed = false;
                    }
                    item x{s.below(5), id++};
                    auto sz = q.push(x);
                    m.push_back(x);
                    PBT_CHECK(sz == m.size(), "push made %zu elements, not %zu", sz, m.size());
                    break;
                }
                case 1: {
                    if(m.empty() && !closed) {
                        break; // would block
                    }
                    item x{99, 99999};
                    auto ok = q.pop(x);
                    if(m.empty()) {
                        PBT_CHECK(!ok, "pop of a cleared queue gave %llu:%llu", (unsigned long long)x.first, (unsigned long long)x.second);
                        break;
                    }
                    PBT_CHECK(ok, "pop of a queue with %zu elements gave none", m.size());
                    auto it = m.begin();
                    if(!is_fifo) {
                        for(auto j = m.begin(); j != m.end(); ++j) {
                            if(better(*j, *it)) {
                                it = j;
                            }
                        }
                        PBT_CHECK(x.first == it->first, "pop gave priority %llu, the first is %llu", (unsigned long long)x.first,
                                  (unsigned long long)it->first);
                        it = std::find(m.begin(), m.end(), x);
                        PBT_CHECK(it != m.end(), "pop gave an element that is not in the queue");
                    } else {
                        PBT_CHECK(x == *it, "pop gave element %llu, not %llu", (unsigned long long)x.second, (unsigned long long)it->second);
                    }
                    m.erase(it);
                    pops++;
                    break;
                }
                case 2:
                    q.clear();
                    m.clear();
                    closed = true;
                    break;
                default:
                    q.reset();
                    closed = false;
            }
        }
        if(pops > 3) {
            s.nontrivial();
        }
    }
    void seq_fifo(Src& s) {
        sequential<fifo>(s, [](auto&, auto&) {
            return false;
        }, true);
    }
    void seq_prio(Src& s) {
        if(s.coin()) {
            sequential<prio>(s, [](auto& a, auto& b) {
                return a.first > b.first;
            }, false);
        } else {
            sequential<rprio>(s, [](auto& a, auto& b) {
                return a.first < b.first;
            }, false);
        }
    }

    struct ev {
        item m_x;
        u64 m_b;
        u64 m_e;
    };
    template<typename Q>
    void concurrent(Src& s, bool is_fifo, bool with_clear) {
        Q q;
        const auto np = s.range(1, 4);
        const auto nc = s.range(1, 4);
        const auto rounds = with_clear ? s.range(1, 3) : 1;
        auto j = draw_jit(s);
        s.note("%llu producers, %llu consumers, %llu rounds%s; jit wait %u lock %u %u us", (unsigned long long)np, (unsigned long long)nc,
               (unsigned long long)rounds, with_clear ? " with a clear" : "", j.m_wait, j.m_lock, j.m_us);
        std::atomic<u64> clock{0};
        u64 id = 0;
        bool waited = false;
        for(u64 round = 0; round < rounds; round++) {
            std::vector<std::vector<item>> plan(np);
            std::vector<std::vector<u64>> gaps(np);
            u64 total = 0;
            for(u64 p = 0; p < np; p++) {
                const auto n = s.range(0, 12);
                for(u64 i = 0; i < n; i++) {
                    plan[p].push_back({s.below(4), id++});
                    gaps[p].push_back(s.chance(1, 3) ? s.below(200) : 0);
                }
                total += n;
            }
            const auto clear_at = s.below(total + 1);
            const auto clear_gap = s.below(300);
            std::atomic<u64> pushed{0};
            std::atomic<u64> popped{0};
            std::atomic<bool> cleared{false};
            std::mutex mut;
            std::vector<ev> pu;
            std::vector<ev> po;
            std::vector<u64> false_at;
            std::atomic<u64> clear_start{~0ULL};
            // Without a clear, consumers may each take a fixed number and
            // leave: nobody else comes for an element they were woken for.
            std::vector<u64> quota(nc, ~0ULL);
            const bool leave = !with_clear && s.coin();
            if(leave) {
                std::fill(quota.begin(), quota.end(), 0);
                for(u64 i = 0; i < total; i++) {
                    quota[s.below(nc)]++;
                }
            }
            {
                jit::scope sc(j);
                std::vector<std::thread> cons;
                for(u64 c = 0; c < nc; c++) {
                    cons.emplace_back([&, c] {
                        for(u64 k = 0; k < quota[c]; k++) {
                            item x{77, ~0ULL};
                            auto b = clock++;
                            auto ok = q.pop(x);
                            auto e = clock++;
                            if(!ok) {
                                std::lock_guard l(mut);
                                false_at.push_back(e);
                                return;
                            }
                            std::lock_guard l(mut);
                            po.push_back({x, b, e});
                            popped++;
                        }
                    });
                }
                std::vector<std::thread> prod;
                for(u64 p = 0; p < np; p++) {
                    prod.emplace_back([&, p] {
                        for(size_t i = 0; i < plan[p].size(); i++) {
                            if(gaps[p][i] > 0) {
                                std::this_thread::sleep_for(std::chrono::microseconds(gaps[p][i]));
                            }
                            auto b = clock++;
                            q.push(plan[p][i]);
                            auto e = clock++;
                            std::lock_guard l(mut);
                            pu.push_back({plan[p][i], b, e});
                            pushed++;
                        }
                    });
                }
                if(with_clear) {
                    // The queue is in use until clear() is called and not
                    // again before reset(): the producers are done first,
                    // the consumers may be anywhere.
                    while(pushed < clear_at) {
                        std::this_thread::yield();
                    }
                    for(auto& t : prod) {
                        t.join();
                    }
                    std::this_thread::sleep_for(std::chrono::microseconds(clear_gap));
                } else {
                    for(auto& t : prod) {
                        t.join();
                    }
                    while(popped < total) {
                        std::this_thread::sleep_for(std::chrono::microseconds(50));
                    }
                }
                clear_start = clock++;
                cleared = true;
                q.clear();
                for(auto& t : cons) {
                    t.join();
                }
            }
            q.reset();
            std::map<u64, ev> by;
            for(auto& e : pu) {
                by[e.m_x.second] = e;
            }
            std::set<u64> seen;
            for(auto& e : po) {
                PBT_CHECK(by.count(e.m_x.second) != 0 && by[e.m_x.second].m_x == e.m_x, "element %llu was popped, not pushed",
                          (unsigned long long)e.m_x.second);
                PBT_CHECK(seen.insert(e.m_x.second).second, "element %llu was popped twice", (unsigned long long)e.m_x.second);
            }
            for(auto e : false_at) {
                PBT_CHECK(e > clear_start, "pop returned nothing before clear()");
            }
            if(!with_clear) {
                PBT_CHECK(seen.size() == total, "%zu of %llu elements were popped", seen.size(), (unsigned long long)total);
            }
            for(auto& a : po) {
                if(a.m_b > by[a.m_x.second].m_e) {
                    continue;
                }
                waited = true;
            }
            // Order: a was there before b's pop began, should have gone
            // first, and was only asked for after b was gone.
            for(auto& b : po) {
                for(auto& a : po) {
                    const auto& pa = by[a.m_x.second];
                    const auto& pb = by[b.m_x.second];
                    const bool first = is_fifo ? pa.m_e < pb.m_b : pa.m_e < b.m_b && a.m_x.first > b.m_x.first;
                    PBT_CHECK(!(first && b.m_e < a.m_b), "element %llu was popped after element %llu, which comes later",
                              (unsigned long long)a.m_x.second, (unsigned long long)b.m_x.second);
                }
                if(is_fifo) {
                    // left behind while a later element was handed out
                    for(auto& pa : pu) {
                        PBT_CHECK(!(pa.m_e < by[b.m_x.second].m_b && seen.count(pa.m_x.second) == 0),
                                  "element %llu was popped, the earlier element %llu never", (unsigned long long)b.m_x.second,
                                  (unsigned long long)pa.m_x.second);
                    }
                }
            }
        }
        if(waited && nc + np > 2) {
            s.nontrivial();
        }
    }
    void conc_fifo(Src& s) {
        concurrent<fifo>(s, true, false);
    }
    void conc_prio(Src& s) {
        concurrent<prio>(s, false, false);
    }
    void clear_fifo(Src& s) {
        concurrent<fifo>(s, true, true);
    }
    void clear_prio(Src& s) {
        concurrent<prio>(s, false, true);
    }

    // Tasks that are short, long, wait for one another or push more tasks.
    struct latch {
        std::mutex m_m;
        std::condition_variable m_cv;
        bool m_set{false};
        void set() {
            std::lock_guard l(m_m);
            m_set = true;
            m_cv.notify_all();
        }
        bool wait() {
            std::unique_lock l(m_m);
            return m_cv.wait_for(l, std::chrono::seconds(15), [&] {
                return m_set;
            });
        }
    };
    struct spec {
        unsigned m_kind{0};
        u64 m_us{0};
        size_t m_on{0};
        std::vector<size_t> m_children;
    };
    void pool(Src& s) {
        const auto n = 1 + s.size(40);
        std::vector<spec> sp(n);
        std::vector<bool> child(n);
        for(size_t i = 0; i < n; i++) {
            sp[i].m_kind = static_cast<unsigned>(s.weighted({4, 2, 2, 2}));
            sp[i].m_us = s.below(400);
            sp[i].m_on = i;
            if(sp[i].m_kind == 2) {
                // waits for a task that is pushed later
                sp[i].m_on = s.range(i, n - 1);
            }
            if(sp[i].m_kind == 3) {
                const auto k = s.range(0, 2);
                for(u64 c = 0; c < k; c++) {
                    const auto t = s.range(i, n - 1);
                    if(t != i && !child[t]) {
                        child[t] = true;
                        sp[i].m_children.push_back(t);
                    }
                }
            }
        }
        const auto nt = s.range(1, 3);
        const auto gap = s.chance(1, 3) ? s.below(300) : 0;
        const auto settle = s.coin() ? s.below(3000) : 0;
        auto j = draw_jit(s);
        std::vector<std::atomic<int>> ran(n);
        std::vector<std::atomic<int>> done(n);
        std::vector<latch> ev(n);
        std::atomic<bool> stuck{false};
        size_t waits = 0;
        {
            jit::scope sc(j);
            auto p = std::make_unique<cbdc::thread_pool>();
            auto* raw = p.get();
            std::function<void(size_t)> start = [&](size_t i) {
                raw->push([&, i] {
                    ran[i]++;
                    if(sp[i].m_kind == 1) {
                        std::this_thread::sleep_for(std::chrono::microseconds(sp[i].m_us));
                    }
                    for(auto c : sp[i].m_children) {
                        start(c);
                    }
                    if(sp[i].m_kind == 2 && sp[i].m_on != i) {
                        if(!ev[sp[i].m_on].wait()) {
                            stuck = true;
                        }
                    }
                    ev[i].set();
                    done[i]++;
                });
            };
            for(auto& x : sp) {
                waits += x.m_kind == 2 ? 1 : 0;
            }
            std::vector<std::thread> th;
            for(u64 t = 0; t < nt; t++) {
                th.emplace_back([&, t] {
                    for(size_t i = t; i < n; i += nt) {
                        if(!child[i]) {
                            start(i);
                        }
                        if(gap > 0) {
                            std::this_thread::sleep_for(std::chrono::microseconds(gap));
                        }
                    }
                });
            }
            for(auto& t : th) {
                t.join();
            }
            if(settle > 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(settle));
            }
            s.note("%zu tasks (%zu wait for a later one) from %llu threads, gone %llu us after the last push", n, waits,
                   (unsigned long long)nt, (unsigned long long)settle);
            p.reset();
            for(size_t i = 0; i < n; i++) {
                PBT_CHECK(ran[i] == done[i], "task %zu still runs after the pool is gone", i);
                PBT_CHECK(ran[i] == 1, "task %zu ran %d times", i, ran[i].load());
            }
        }
        PBT_CHECK(!stuck, "a task waited in vain for a later one");
        if(n > 3) {
            s.nontrivial();
        }
    }
    // Workers are used again, not piled up: a pool that runs one task at a
    // time keeps reusing its thread, and tasks never share one.
    void pool_reuse(Src& s) {
        const auto n = s.range(2, 30);
        auto j = draw_jit(s);
        jit::scope sc(j);
        std::atomic<int> order{0};
        bool wrong = false;
        {
            cbdc::thread_pool p;
            for(u64 i = 0; i < n; i++) {
                std::promise<void> pr;
                auto f = pr.get_future();
                p.push([&, i] {
                    if(order != static_cast<int>(i)) {
                        wrong = true;
                    }
                    order++;
                    pr.set_value();
                });
                PBT_CHECK(f.wait_for(std::chrono::seconds(15)) == std::future_status::ready, "task %llu never ran",
                          (unsigned long long)i);
                if(s.chance(1, 4)) {
                    std::this_thread::sleep_for(std::chrono::microseconds(s.below(300)));
                }
            }
        }
        PBT_CHECK(!wrong && order == static_cast<int>(n), "%d of %llu tasks ran in order", order.load(), (unsigned long long)n);
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C11";
    c.m_rule = "sequential histories of push, pop, clear and reset against a list; concurrent producers, consumers and clears "
               "under injected delays, judged by the real-time order of the calls; pools of short, long, waiting and pushing "
               "tasks, destroyed at any moment. Non-trivial: more than three pops, a pop that waited among several threads, "
               "more than three tasks";
    c.m_assumptions = {"after clear() nothing is pushed before reset(), and reset() comes after all consumers returned, as documented",
                       "nothing outside a pool's own tasks pushes to it while it is being destroyed"};
    c.m_props = {{"seq_fifo", seq_fifo, 60000, 2000000},
                 {"seq_prio", seq_prio, 60000, 2000000},
                 {"conc_fifo", conc_fifo, 9000, 180000, true, 6},
                 {"conc_prio", conc_prio, 6000, 120000, true, 6},
                 {"clear_fifo", clear_fifo, 6000, 120000, true, 6},
                 {"clear_prio", clear_prio, 3000, 60000, true, 6},
                 {"pool", pool, 4000, 100000, true, 40},
                 {"pool_reuse", pool_reuse, 600, 10000, true, 40}};
    return pbt::run(argc, argv, c);
}
