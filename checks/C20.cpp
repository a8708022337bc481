// Cross-shard batches with a fault at any request, recovered later from the
// recorded phase; real distributed_tx, coordinator state machine and locking
// shards.
#include "common.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/distributed_tx.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/state_machine.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "util/raft/serialization.hpp"
#include "util/serialization/util.hpp"

#include <map>
#include <mutex>
#include <set>

using namespace vt;
namespace ls = cbdc::locking_shard;
using cbdc::coordinator::controller;
using cbdc::coordinator::distributed_tx;
using sm_t = cbdc::coordinator::state_machine;
using cbdc::transaction::compact_tx;

namespace {
    enum point { p_prepare, p_lock, p_commit, p_apply, p_discard, p_forget, p_done, p_none };
    const char* const names[]
        = {"record prepare", "lock", "record commit", "apply", "record discard", "forget", "record done", "none"};

    struct fault {
        point m_p{p_none};
        size_t m_shard{0};
        bool m_delivered{false};
        bool m_hit{false};
    };

    struct link : ls::interface {
        link(std::pair<uint8_t, uint8_t> r, size_t idx, std::shared_ptr<ls::locking_shard> sh)
            : ls::interface(r),
              m_idx(idx),
              m_sh(std::move(sh)) {}
        bool faulty(point p) {
            return m_fault != nullptr && m_fault->m_p == p && m_fault->m_shard == m_idx;
        }
        auto lock_outputs(std::vector<ls::tx>&& txs, const hash_t& id)
            -> std::optional<std::vector<bool>> override {
            bool f = faulty(p_lock);
            if(f) {
                m_fault->m_hit = true;
                if(!m_fault->m_delivered) {
                    return std::nullopt;
                }
            }
            m_locked.insert(id);
            m_events.push_back("lock");
            auto r = m_sh->lock_outputs(std::move(txs), id);
            return f ? std::nullopt : r;
        }
        auto apply_outputs(std::vector<bool>&& c, const hash_t& id) -> bool override {
            bool f = faulty(p_apply);
            if(f) {
                m_fault->m_hit = true;
                if(!m_fault->m_delivered) {
                    return false;
                }
            }
            m_events.push_back("apply");
            auto r = m_sh->apply_outputs(std::move(c), id);
            return !f && r;
        }
        auto discard_dtx(const hash_t& id) -> bool override {
            bool f = faulty(p_forget);
            if(f) {
                m_fault->m_hit = true;
                if(!m_fault->m_delivered) {
                    return false;
                }
            }
            m_forgotten.insert(id);
            auto r = m_sh->discard_dtx(id);
            return !f && r;
        }
        void stop() override {}
        size_t m_idx;
        std::shared_ptr<ls::locking_shard> m_sh;
        fault* m_fault{nullptr};
        std::set<hash_t> m_locked;
        std::set<hash_t> m_forgotten;
        std::vector<std::string> m_events;
    };

    // The unspent and locked ids of one shard, and what it was told.
    struct model_shard {
        unsigned m_lo, m_hi;
        std::set<hash_t> m_unspent;
        std::map<hash_t, std::vector<bool>> m_results;
        std::map<hash_t, std::vector<size_t>> m_txs;
        bool has(const hash_t& h) const { return h[0] >= m_lo && h[0] <= m_hi; }
        bool concerns(const compact_tx& t) const {
            bool r = has(t.m_id);
            for(auto& i : t.m_inputs) {
                r = r || has(i);
            }
            for(auto& o : t.m_uhs_outputs) {
                r = r || has(o);
            }
            return r;
        }
    };

    struct batch {
        hash_t m_id{};
        std::vector<compact_tx> m_txs;
        std::vector<std::vector<size_t>> m_idx;
        point m_next{p_prepare}; // first step not known to be done
        std::set<size_t> m_locked_on, m_applied_on;
        bool m_recorded{false};
        bool m_decided{false};
        std::vector<bool> m_verdict;
    };

    void run_case(Src& s) {
        const size_t n = s.range(1, 3);
        std::vector<unsigned> cuts{0};
        for(size_t i = 1; i < n; i++) {
            cuts.push_back(cuts.back() + 1 + static_cast<unsigned>(s.below(100)));
        }
        std::vector<std::shared_ptr<link>> links;
        std::vector<model_shard> model(n);
        std::vector<std::shared_ptr<ls::interface>> ifs;
        cbdc::config::options opts{};
        opts.m_attestation_threshold = 0;
        for(size_t i = 0; i < n; i++) {
            auto lo = cuts[i];
            auto hi = i + 1 < n ? cuts[i + 1] - 1 : 255U;
            model[i].m_lo = lo;
            model[i].m_hi = hi;
            std::pair<uint8_t, uint8_t> r{static_cast<uint8_t>(lo), static_cast<uint8_t>(hi)};
            links.push_back(std::make_shared<link>(
                r,
                i,
                std::make_shared<ls::locking_shard>(r, logger(), 1000, "", opts)));
            ifs.push_back(links.back());
            s.note("shard %zu range [%u,%u]", i, lo, hi);
        }
        sm_t sm(logger());
        u64 log_idx = 0;
        auto record = [&](const controller::sm_command& c) {
            auto b = nuraft::buffer::alloc(cbdc::serialized_size(c));
            auto ser = cbdc::nuraft_serializer(*b);
            ser << c;
            return sm.commit(++log_idx, *b);
        };

        std::map<hash_t, batch> open;
        std::vector<hash_t> pool;
        std::vector<std::pair<compact_tx, bool>> decided;
        u64 nid = 0;
        u64 ntx = 0;
        u64 ndtx = 0;
        bool crashed = false;
        auto newid = [&](uint8_t tag) {
            // ids near the borders of ranges as well
            auto b = s.chance(1, 3) ? (s.coin() ? s.pick(cuts) : (s.pick(cuts) + 255) & 255U)
                                    : static_cast<unsigned>(s.below(256));
            return mkhash(static_cast<uint8_t>(b), tag, nid++);
        };

        // Runs a batch with a fault, and the same on the model.
        auto go = [&](batch& b, fault f, bool recovery) {
            auto d = distributed_tx(b.m_id, ifs, logger());
            auto start = p_prepare;
            if(recovery) {
                auto res = record({{sm_t::command::get, std::nullopt}, std::nullopt});
                PBT_CHECK(res != nullptr, "no recorded state");
                auto st = controller::coordinator_state();
                auto deser = cbdc::nuraft_serializer(*res);
                PBT_CHECK(static_cast<bool>(deser >> st), "recorded state unreadable");
                PBT_CHECK(st.m_prepare_txs.size() + st.m_commit_txs.size()
                                  + st.m_discard_txs.size()
                              == open.size(),
                          "recorded batches: %zu+%zu+%zu, unfinished: %zu",
                          st.m_prepare_txs.size(),
                          st.m_commit_txs.size(),
                          st.m_discard_txs.size(),
                          open.size());
                if(auto p = st.m_prepare_txs.find(b.m_id); p != st.m_prepare_txs.end()) {
                    d.recover_prepare(p->second);
                    start = p_lock;
                } else if(auto c = st.m_commit_txs.find(b.m_id); c != st.m_commit_txs.end()) {
                    d.recover_commit(c->second.first, c->second.second);
                    start = p_apply;
                } else {
                    PBT_CHECK(st.m_discard_txs.count(b.m_id) != 0, "batch not recorded");
                    d.recover_discard();
                    start = p_forget;
                }
            } else {
                for(size_t i = 0; i < b.m_txs.size(); i++) {
                    PBT_CHECK(d.add_tx(b.m_txs[i]) == i, "wrong index");
                }
            }
            auto cb = [&f](point p) {
                // 0: go on; 1: fail without recording; 2: record, then fail
                if(f.m_p != p) {
                    return 0;
                }
                f.m_hit = true;
                return f.m_delivered ? 2 : 1;
            };
            auto rec = [&](point p, const controller::sm_command& c) {
                auto m = cb(p);
                if(m == 1) {
                    return false;
                }
                record(c);
                if(p == p_prepare) {
                    b.m_recorded = true;
                } else if(p == p_done) {
                    b.m_next = p_none;
                }
                return m == 0;
            };
            // As the coordinator does: no callback for the phase recorded.
            if(start != p_lock) {
                d.set_prepare_cb([&](const hash_t& id, const std::vector<compact_tx>& t) {
                    return rec(p_prepare, {{sm_t::command::prepare, id}, t});
                });
            }
            if(start != p_apply) {
                d.set_commit_cb([&](const hash_t& id,
                                    const std::vector<bool>& c,
                                    const std::vector<std::vector<uint64_t>>& ix) {
                    return rec(p_commit, {{sm_t::command::commit, id}, std::make_pair(c, ix)});
                });
            }
            if(start != p_forget) {
                d.set_discard_cb([&](const hash_t& id) {
                    return rec(p_discard, {{sm_t::command::discard, id}, std::nullopt});
                });
            }
            d.set_done_cb([&](const hash_t& id) {
                return rec(p_done, {{sm_t::command::done, id}, std::nullopt});
            });
            for(auto& l : links) {
                l->m_fault = &f;
            }
            auto r = d.execute();
            for(auto& l : links) {
                l->m_fault = nullptr;
            }

            // the model
            bool ok = true;
            auto hit = [&](point p, size_t i) {
                return f.m_p == p && f.m_shard == i;
            };
            bool rec_fail = false;
            if(start <= p_prepare) {
                rec_fail = f.m_p == p_prepare;
                ok = !rec_fail;
            }
            if(ok && start <= p_lock) {
                for(size_t i = 0; i < n; i++) {
                    if(b.m_idx[i].empty()) {
                        continue;
                    }
                    if(hit(p_lock, i)) {
                        ok = false;
                        if(!f.m_delivered) {
                            continue;
                        }
                    }
                    if(model[i].m_results.count(b.m_id) == 0) {
                        std::vector<bool> res;
                        for(auto t : b.m_idx[i]) {
                            bool can = true;
                            for(auto& in : b.m_txs[t].m_inputs) {
                                can = can && (!model[i].has(in) || model[i].m_unspent.count(in) != 0);
                            }
                            if(can) {
                                for(auto& in : b.m_txs[t].m_inputs) {
                                    model[i].m_unspent.erase(in);
                                }
                            }
                            res.push_back(can);
                        }
                        model[i].m_results[b.m_id] = res;
                    }
                }
            }
            if(ok && start <= p_commit) {
                b.m_verdict.assign(b.m_txs.size(), true);
                for(size_t i = 0; i < n; i++) {
                    for(size_t j = 0; j < b.m_idx[i].size(); j++) {
                        if(!model[i].m_results[b.m_id][j]) {
                            b.m_verdict[b.m_idx[i][j]] = false;
                        }
                    }
                }
                if(f.m_p == p_commit) {
                    ok = false;
                }
                if(ok || f.m_delivered) {
                    b.m_decided = true;
                }
            }
            if(ok && start <= p_apply) {
                for(size_t i = 0; i < n; i++) {
                    if(b.m_idx[i].empty()) {
                        continue;
                    }
                    if(hit(p_apply, i)) {
                        ok = false;
                        if(!f.m_delivered) {
                            continue;
                        }
                    }
                    if(!b.m_applied_on.insert(i).second) {
                        continue;
                    }
                    auto& res = model[i].m_results[b.m_id];
                    for(size_t j = 0; j < b.m_idx[i].size(); j++) {
                        auto& t = b.m_txs[b.m_idx[i][j]];
                        if(b.m_verdict[b.m_idx[i][j]]) {
                            for(auto& o : t.m_uhs_outputs) {
                                if(model[i].has(o)) {
                                    model[i].m_unspent.insert(o);
                                }
                            }
                        } else if(res[j]) {
                            for(auto& in : t.m_inputs) {
                                if(model[i].has(in)) {
                                    model[i].m_unspent.insert(in);
                                }
                            }
                        }
                    }
                }
            }
            if(ok && start <= p_discard && f.m_p == p_discard) {
                ok = false;
            }
            if(ok) {
                for(size_t i = 0; i < n; i++) {
                    if(!b.m_idx[i].empty() && hit(p_forget, i)) {
                        ok = false;
                    }
                }
            }
            if(ok && f.m_p == p_done) {
                ok = false;
            }
            PBT_CHECK(r.has_value() == ok,
                      "batch %u: %s although %s",
                      b.m_id[2],
                      r ? "a verdict was returned" : "no verdict was returned",
                      ok ? "nothing failed" : "a request failed");
            if(r && start != p_forget) {
                PBT_CHECK(*r == b.m_verdict, "batch %u: wrong verdict", b.m_id[2]);
            }
            if(ok || b.m_next == p_none) {
                b.m_next = p_none;
            }
            if(!ok) {
                crashed = true;
            }
        };

        auto finished = [&](const batch& b) {
            for(size_t i = 0; i < b.m_txs.size(); i++) {
                decided.emplace_back(b.m_txs[i], b.m_verdict[i]);
            }
            for(size_t i = 0; i < n; i++) {
                if(links[i]->m_locked.count(b.m_id) != 0) {
                    PBT_CHECK(links[i]->m_forgotten.count(b.m_id) != 0,
                              "batch %u is done but shard %zu was not told to forget it",
                              b.m_id[2],
                              i);
                }
            }
        };
        auto draw_fault = [&](bool none) {
            fault f;
            if(!none && s.chance(2, 3)) {
                f.m_p = static_cast<point>(s.below(7));
                f.m_shard = s.below(n);
                f.m_delivered = s.coin();
                s.note("  fault at %s%s (shard %zu)",
                       names[f.m_p],
                       f.m_delivered ? ", answer lost" : ", not delivered",
                       f.m_shard);
            }
            return f;
        };
        auto run = [&](batch b, fault f, bool recovery) {
            open[b.m_id]; // counted by recovery below
            auto it = open.find(b.m_id);
            it->second = b;
            if(!recovery) {
                open.erase(it);
                go(b, f, false);
                if(b.m_recorded && b.m_next != p_none) {
                    open[b.m_id] = b;
                } else if(b.m_next == p_none) {
                    finished(b);
                }
            } else {
                go(b, f, true);
                if(b.m_next == p_none) {
                    open.erase(b.m_id);
                    finished(b);
                } else {
                    open[b.m_id] = b;
                }
            }
        };
        auto mkbatch = [&](bool mint) {
            batch b;
            b.m_id = mkhash(0, 9, ndtx++);
            s.note("batch %u", b.m_id[2]);
            auto cnt = 1 + s.size(5);
            std::vector<hash_t> fresh;
            for(u64 i = 0; i < cnt; i++) {
                compact_tx t;
                t.m_id = newid(5);
                std::set<hash_t> ins;
                if(!mint && !pool.empty()) {
                    auto k = s.range(0, 3);
                    for(u64 j = 0; j < k; j++) {
                        ins.insert(s.pick(pool));
                    }
                }
                t.m_inputs.assign(ins.begin(), ins.end());
                auto k = s.range(ins.empty() ? 1 : 0, 3);
                std::string d = "  tx " + h8(t.m_id) + " in";
                for(auto& x : ins) {
                    d += " " + h8(x);
                }
                d += " out";
                for(u64 j = 0; j < k; j++) {
                    t.m_uhs_outputs.push_back(newid(1));
                    fresh.push_back(t.m_uhs_outputs.back());
                    d += " " + h8(fresh.back());
                }
                s.note("%s", d.c_str());
                b.m_txs.push_back(t);
                ntx++;
            }
            b.m_idx.resize(n);
            for(size_t i = 0; i < n; i++) {
                for(size_t j = 0; j < b.m_txs.size(); j++) {
                    if(model[i].concerns(b.m_txs[j])) {
                        b.m_idx[i].push_back(j);
                    }
                }
            }
            pool.insert(pool.end(), fresh.begin(), fresh.end());
            return b;
        };

        run(mkbatch(true), fault{}, false);
        const auto steps = s.range(1, 8);
        for(u64 k = 0; k < steps; k++) {
            if(!open.empty() && s.chance(1, 3)) {
                auto it = open.begin();
                std::advance(it, static_cast<long>(s.below(open.size())));
                s.note("recover batch %u", it->second.m_id[2]);
                auto b = it->second;
                run(b, draw_fault(false), true);
            } else {
                auto b = mkbatch(false);
                run(b, draw_fault(false), false);
            }
        }
        while(!open.empty()) {
            auto b = open.begin()->second;
            s.note("finally recover batch %u", b.m_id[2]);
            run(b, fault{}, true);
        }
        // outcome on every shard
        for(auto& [t, v] : decided) {
            for(size_t i = 0; i < n; i++) {
                if(model[i].has(t.m_id)) {
                    auto c = links[i]->m_sh->check_tx_id(t.m_id);
                    PBT_CHECK(c && *c == v,
                              "tx %s: verdict %d, shard %zu says %d",
                              h8(t.m_id).c_str(),
                              v,
                              i,
                              c ? *c : -1);
                }
            }
        }
        for(auto& h : pool) {
            for(size_t i = 0; i < n; i++) {
                auto u = links[i]->m_sh->check_unspent(h);
                PBT_CHECK(u && *u == (model[i].m_unspent.count(h) != 0),
                          "id %s: shard %zu says %d",
                          h8(h).c_str(),
                          i,
                          u ? *u : -1);
            }
        }
        // every unspent id must be spendable: no lock is left
        {
            batch b;
            b.m_id = mkhash(0, 9, ndtx++);
            b.m_idx.resize(n);
            for(size_t i = 0; i < n; i++) {
                for(auto& h : model[i].m_unspent) {
                    compact_tx t;
                    t.m_id = newid(5);
                    t.m_inputs = {h};
                    b.m_txs.push_back(t);
                }
            }
            if(!b.m_txs.empty()) {
                auto d = distributed_tx(b.m_id, ifs, logger());
                for(auto& t : b.m_txs) {
                    d.add_tx(t);
                }
                auto r = d.execute();
                PBT_CHECK(r && r->size() == b.m_txs.size(), "last batch failed");
                for(size_t i = 0; i < r->size(); i++) {
                    PBT_CHECK((*r)[i],
                              "id %s is unspent but cannot be spent: a lock was left",
                              h8(b.m_txs[i].m_inputs[0]).c_str());
                }
            }
        }
        if(crashed) {
            s.nontrivial();
            s.label("interrupted and recovered");
        }
        if(n > 1) {
            s.label("several shards");
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C20";
    c.m_rule = "batches of competing transactions over 1-3 real shards, each with at most one "
               "fault (request lost or answer lost) at a drawn request, interleaved with "
               "recoveries that may fail again; non-trivial: at least one batch was "
               "interrupted";
    c.m_assumptions = {"shards do not lose state: they are replicated",
                       "the recorded phase is kept by the real coordinator state machine, "
                       "driven without the consensus library"};
    c.m_props = {{"faults", run_case, 1500, 60000}};
    return pbt::run(argc, argv, c);
}
