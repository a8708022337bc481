// The replicated coordinator: its state machine against a reference map, and
// whole coordinators over real shards through changes of leader.
#include "../lib/jit.hpp"
#include "sentinels.hpp"
#include "uhs/twophase/coordinator/client.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "uhs/twophase/locking_shard/controller.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "util/raft/serialization.hpp"

#include <map>
#include <mutex>
#include <set>
#include <unistd.h>

using namespace vt;
namespace ls = cbdc::locking_shard;
using cbdc::coordinator::controller;
using sm_t = cbdc::coordinator::state_machine;
using cbdc::transaction::compact_tx;

namespace {
    nuraft::ptr<nuraft::buffer> encode(const controller::sm_command& c) {
        auto b = nuraft::buffer::alloc(cbdc::serialized_size(c));
        auto ser = cbdc::nuraft_serializer(*b);
        ser << c;
        return b;
    }
    controller::coordinator_state decode(nuraft::buffer& b) {
        auto st = controller::coordinator_state();
        auto deser = cbdc::nuraft_serializer(b);
        deser >> st;
        PBT_CHECK(static_cast<bool>(deser) && deser.end_of_buffer(), "the recorded state is unreadable");
        return st;
    }

    // -- state machine

    struct model {
        std::map<hash_t, std::vector<compact_tx>> m_prep;
        std::map<hash_t, controller::commit_tx> m_com;
        std::set<hash_t> m_dis;
    };
    void compare(const controller::coordinator_state& st, const model& m, const char* who) {
        PBT_CHECK(st.m_prepare_txs.size() == m.m_prep.size(),
                  "%s: %zu batches in prepare, expected %zu",
                  who,
                  st.m_prepare_txs.size(),
                  m.m_prep.size());
        PBT_CHECK(st.m_commit_txs.size() == m.m_com.size(),
                  "%s: %zu batches in commit, expected %zu",
                  who,
                  st.m_commit_txs.size(),
                  m.m_com.size());
        PBT_CHECK(st.m_discard_txs.size() == m.m_dis.size(),
                  "%s: %zu batches in discard, expected %zu",
                  who,
                  st.m_discard_txs.size(),
                  m.m_dis.size());
        for(auto& [id, txs] : m.m_prep) {
            auto it = st.m_prepare_txs.find(id);
            PBT_CHECK(it != st.m_prepare_txs.end(), "%s: a batch in prepare is missing", who);
            PBT_CHECK(it->second.size() == txs.size(), "%s: transactions missing", who);
            for(size_t i = 0; i < txs.size(); i++) {
                auto& a = it->second[i];
                PBT_CHECK(sent::same(a, txs[i]) && a.m_attestations == txs[i].m_attestations,
                          "%s: a transaction of a batch in prepare changed",
                          who);
            }
        }
        for(auto& [id, c] : m.m_com) {
            auto it = st.m_commit_txs.find(id);
            PBT_CHECK(it != st.m_commit_txs.end(), "%s: a batch in commit is missing", who);
            PBT_CHECK(it->second == c, "%s: the record of a batch in commit changed", who);
        }
        for(auto& id : m.m_dis) {
            PBT_CHECK(st.m_discard_txs.count(id) == 1, "%s: a batch in discard is missing", who);
        }
    }
    compact_tx any_tx(Src& s) {
        compact_tx t;
        t.m_id = rndhash(s);
        for(auto k = s.size(4); k > 0; k--) {
            t.m_inputs.push_back(rndhash(s));
        }
        for(auto k = s.size(4); k > 0; k--) {
            t.m_uhs_outputs.push_back(rndhash(s));
        }
        for(auto k = s.size(3); k > 0; k--) {
            cbdc::transaction::sentinel_attestation a;
            auto p = s.bytes(a.first.size());
            auto g = s.bytes(a.second.size());
            std::copy(p.begin(), p.end(), a.first.begin());
            std::copy(g.begin(), g.end(), a.second.begin());
            t.m_attestations.insert(a);
        }
        return t;
    }
    void run_sm(Src& s) {
        const size_t n = s.range(1, 3);
        std::vector<std::unique_ptr<sm_t>> sms;
        std::vector<size_t> at(n, 0);
        for(size_t i = 0; i < n; i++) {
            sms.push_back(std::make_unique<sm_t>(logger()));
        }
        struct entry {
            std::shared_ptr<nuraft::buffer> m_buf; // none: configuration
            std::shared_ptr<model> m_get;          // expected answer
        };
        std::vector<entry> log;
        model m;
        u64 nid = 0;
        u64 done = 0;
        auto steps = 1 + s.size(40);
        for(u64 k = 0; k < steps; k++) {
            entry e;
            auto pick = [&](const auto& c) {
                auto it = c.begin();
                std::advance(it, static_cast<long>(s.below(c.size())));
                return it;
            };
            switch(s.weighted({6, 5, 4, 4, 3, 1})) {
                case 0: {
                    std::vector<compact_tx> txs;
                    for(u64 i = s.size(4); i > 0; i--) {
                        txs.push_back(any_tx(s));
                    }
                    auto id = mkhash(static_cast<uint8_t>(s.below(256)), 9, nid++);
                    e.m_buf = encode({{sm_t::command::prepare, id}, txs});
                    m.m_prep[id] = txs;
                    s.note("prepare %s, %zu txs", h8(id).c_str(), txs.size());
                    break;
                }
                case 1: {
                    if(m.m_prep.empty()) {
                        continue;
                    }
                    auto it = pick(m.m_prep);
                    auto id = it->first;
                    controller::commit_tx c;
                    for(size_t i = it->second.size(); i > 0; i--) {
                        c.first.push_back(s.coin());
                    }
                    for(u64 i = s.size(4); i > 0; i--) {
                        c.second.emplace_back();
                        for(u64 j = s.size(5); j > 0; j--) {
                            c.second.back().push_back(s.edgy());
                        }
                    }
                    e.m_buf = encode({{sm_t::command::commit, id}, c});
                    m.m_prep.erase(it);
                    m.m_com[id] = c;
                    s.note("commit %s", h8(id).c_str());
                    break;
                }
                case 2: {
                    if(m.m_com.empty()) {
                        continue;
                    }
                    auto it = pick(m.m_com);
                    auto id = it->first;
                    e.m_buf = encode({{sm_t::command::discard, id}, std::nullopt});
                    m.m_com.erase(it);
                    m.m_dis.insert(id);
                    s.note("discard %s", h8(id).c_str());
                    break;
                }
                case 3: {
                    if(m.m_dis.empty()) {
                        continue;
                    }
                    auto it = pick(m.m_dis);
                    auto id = *it;
                    e.m_buf = encode({{sm_t::command::done, id}, std::nullopt});
                    m.m_dis.erase(it);
                    done++;
                    s.note("done %s", h8(id).c_str());
                    break;
                }
                case 4:
                    e.m_buf = encode({{sm_t::command::get, std::nullopt}, std::nullopt});
                    e.m_get = std::make_shared<model>(m);
                    s.note("get");
                    break;
                default:
                    s.note("configuration");
            }
            log.push_back(e);
        }
        log.push_back({encode({{sm_t::command::get, std::nullopt}, std::nullopt}), std::make_shared<model>(m)});
        // replicas advance at their own pace
        for(;;) {
            std::vector<size_t> left;
            for(size_t i = 0; i < n; i++) {
                if(at[i] < log.size()) {
                    left.push_back(i);
                }
            }
            if(left.empty()) {
                break;
            }
            auto r = s.pick(left);
            auto& e = log[at[r]++];
            if(!e.m_buf) {
                nuraft::ptr<nuraft::cluster_config> c;
                sms[r]->commit_config(at[r], c);
            } else {
                auto b = nuraft::buffer::clone(*e.m_buf);
                auto out = sms[r]->commit(at[r], *b);
                // what the caller does with its buffer afterwards is its own
                // business
                std::memset(b->data_begin(), 0xee, b->size());
                PBT_CHECK(e.m_get == nullptr || out != nullptr, "no answer to get");
                if(e.m_get) {
                    compare(decode(*out), *e.m_get, "replica");
                }
            }
            PBT_CHECK(sms[r]->last_commit_index() == at[r], "wrong commit index");
        }
        if(done != 0 && (!m.m_prep.empty() || !m.m_com.empty() || !m.m_dis.empty())) {
            s.nontrivial();
        }
    }

    // -- coordinators

    struct answers {
        std::mutex m_mut;
        struct one {
            int m_count{0};
            std::optional<bool> m_val;
        };
        std::map<u64, one> m_all;
        u64 m_asked{0};
    };
    struct sub {
        compact_tx m_tx;
        bool m_attested;
        bool m_free; // must be confirmed if nothing fails
        std::vector<u64> m_asked;
    };

    void run_coord(Src& s) {
        pbt::Scratch dir;
        if(chdir(dir.path().c_str()) != 0) {
            throw pbt::Discard{};
        }
        const size_t nsh = s.range(1, 3);
        const size_t nco = s.range(1, 3);
        cbdc::config::options o{};
        const size_t nsent = 3;
        o.m_attestation_threshold = s.below(3);
        for(size_t i = 0; i < nsent; i++) {
            o.m_sentinel_public_keys.insert(sent::skey(i).m_pub);
        }
        o.m_batch_size = s.range(1, 6);
        o.m_coordinator_max_threads = s.range(1, 4);
        o.m_coordinator_endpoints.emplace_back();
        o.m_coordinator_raft_endpoints.emplace_back();
        for(size_t i = 0; i < nco; i++) {
            o.m_coordinator_endpoints[0].push_back(free_ep());
            o.m_coordinator_raft_endpoints[0].push_back(free_ep());
        }
        std::vector<unsigned> cuts{0};
        for(size_t i = 1; i < nsh; i++) {
            cuts.push_back(cuts.back() + 1 + static_cast<unsigned>(s.below(100)));
        }
        for(size_t i = 0; i < nsh; i++) {
            auto hi = i + 1 < nsh ? cuts[i + 1] - 1 : 255U;
            o.m_shard_ranges.emplace_back(static_cast<uint8_t>(cuts[i]), static_cast<uint8_t>(hi));
            o.m_locking_shard_endpoints.push_back({free_ep()});
            o.m_locking_shard_raft_endpoints.push_back({free_ep()});
            o.m_locking_shard_readonly_endpoints.push_back({free_ep()});
        }
        s.note("%zu shards, %zu replicas, batches of %zu, %zu threads, threshold %zu",
               nsh,
               nco,
               o.m_batch_size,
               o.m_coordinator_max_threads,
               o.m_attestation_threshold);

        // What happens to the entries the leader appends.
        struct plan {
            std::mutex m_mut;
            std::set<int> m_coord_ports;
            int m_left{-1}; // entries until the fault
            int m_mode{0};
            bool m_failed{false};
            unsigned m_slow{0};
            std::atomic<u64> m_traffic{0};
            u64 m_coord_entries{0};
        } pl;
        for(auto& e : o.m_coordinator_raft_endpoints[0]) {
            pl.m_coord_ports.insert(e.second);
        }
        auto& ctl = nuraft::stub::ctl();
        ctl.auto_leader = false;
        ctl.on_append = [&](nuraft::raft_server& r, nuraft::buffer&) {
            pl.m_traffic++;
            if(pl.m_coord_ports.count(r.port()) == 0) {
                unsigned us = 0;
                {
                    std::unique_lock<std::mutex> l(pl.m_mut);
                    us = pl.m_slow;
                }
                if(us != 0) {
                    usleep(us);
                }
                return 0;
            }
            std::unique_lock<std::mutex> l(pl.m_mut);
            pl.m_coord_entries++;
            if(pl.m_failed) {
                return 1;
            }
            if(pl.m_left == 0) {
                pl.m_failed = true;
                return pl.m_mode;
            }
            if(pl.m_left > 0) {
                pl.m_left--;
            }
            return 0;
        };
        struct undo {
            ~undo() {
                nuraft::stub::ctl().on_append = nullptr;
                jit::off();
            }
        } un;
        std::vector<std::unique_ptr<ls::controller>> shards;
        for(size_t i = 0; i < nsh; i++) {
            shards.push_back(std::make_unique<ls::controller>(i, 0, o, logger()));
            PBT_CHECK(shards.back()->init(), "shard does not start");
        }
        for(auto& v : o.m_locking_shard_raft_endpoints) {
            ctl.servers.at(v[0].second)->become_leader();
        }
        std::vector<std::unique_ptr<controller>> coords;
        for(size_t i = 0; i < nco; i++) {
            coords.push_back(std::make_unique<controller>(i, 0, o, logger()));
            PBT_CHECK(coords.back()->init(), "coordinator does not start");
        }
        auto srv = [&](size_t i) {
            return ctl.servers.at(o.m_coordinator_raft_endpoints[0][i].second);
        };
        for(size_t i = 0; i < nco; i++) {
            for(size_t j = 0; j < nco; j++) {
                if(i != j) {
                    srv(i)->add_follower(srv(j));
                }
            }
        }
        ls::rpc::status_client status(o.m_locking_shard_readonly_endpoints,
                                      o.m_shard_ranges,
                                      std::chrono::seconds(15));
        PBT_CHECK(status.init(), "cannot reach the shards");
        auto state = [&](size_t i) {
            // on the replica itself; only used when no entry is on its way
            auto b = encode({{sm_t::command::get, std::nullopt}, std::nullopt});
            auto r = srv(i)->append_entries({b});
            PBT_CHECK(r->get_accepted() && r->get_result_code() == nuraft::OK, "get refused");
            auto out = r->get();
            PBT_CHECK(out != nullptr, "no answer to get");
            return decode(*out);
        };

        std::optional<size_t> leader;
        std::unique_ptr<cbdc::coordinator::rpc::client> client;
        auto ans = std::make_shared<answers>();
        auto elect = [&](size_t i) {
            {
                std::unique_lock<std::mutex> l(pl.m_mut);
                pl.m_failed = false;
                pl.m_left = -1;
            }
            leader = i;
            srv(i)->become_leader();
        };
        auto connect = [&]() {
            return wait_for(
                [&]() {
                    client = std::make_unique<cbdc::coordinator::rpc::client>(
                        std::vector<cbdc::network::endpoint_t>{o.m_coordinator_endpoints[0][*leader]});
                    return client->init();
                },
                30);
        };
        // Until the shards have heard nothing for a while: messages of a
        // deposed leader arrive before the next one is elected.
        auto settle = [&]() {
            auto last = pl.m_traffic.load();
            int quiet = 0;
            while(quiet < 5) {
                usleep(10000);
                auto now = pl.m_traffic.load();
                quiet = now == last ? quiet + 1 : 0;
                last = now;
            }
        };
        auto depose = [&]() {
            srv(*leader)->become_follower();
            leader.reset();
        };
        std::vector<sub> subs;
        std::vector<hash_t> pool;     // every output so far
        std::map<hash_t, size_t> used; // ... and the first transaction to name it
        std::set<hash_t> certain;     // known to be unspent
        u64 nid = 0;
        auto newid = [&](uint8_t tag) {
            auto b = s.chance(1, 3) ? (s.coin() ? s.pick(cuts) : (s.pick(cuts) + 255) & 255U)
                                    : static_cast<unsigned>(s.below(256));
            return mkhash(static_cast<uint8_t>(b), tag, nid++);
        };
        auto ask = [&](sub& x) {
            u64 q = 0;
            {
                std::unique_lock<std::mutex> l(ans->m_mut);
                q = ans->m_asked++;
                ans->m_all[q];
            }
            x.m_asked.push_back(q);
            auto sentok = client->execute_transaction(x.m_tx, [ans, q](std::optional<bool> r) {
                std::unique_lock<std::mutex> l(ans->m_mut);
                auto& a = ans->m_all[q];
                a.m_count++;
                a.m_val = r;
            });
            if(!sentok) {
                // not sent: no answer will come
                std::unique_lock<std::mutex> l(ans->m_mut);
                ans->m_all[q].m_count++;
            }
            return sentok;
        };
        auto mktx = [&](bool mint) {
            sub x;
            x.m_tx.m_id = newid(5);
            std::set<hash_t> ins;
            if(!mint && !pool.empty()) {
                for(auto k = s.range(1, 3); k > 0; k--) {
                    ins.insert(s.pick(pool));
                }
            }
            x.m_tx.m_inputs.assign(ins.begin(), ins.end());
            x.m_free = true;
            for(auto& h : ins) {
                auto [it, first] = used.emplace(h, subs.size());
                if(!first) {
                    if(it->second < subs.size()) {
                        subs[it->second].m_free = false;
                    }
                    x.m_free = false;
                }
                if(certain.count(h) == 0) {
                    x.m_free = false;
                }
            }
            for(auto k = s.range(ins.empty() ? 1 : 0, 3); k > 0; k--) {
                x.m_tx.m_uhs_outputs.push_back(newid(1));
            }
            auto k = s.chance(1, 6) ? s.below(3) : o.m_attestation_threshold;
            for(size_t i = 0; i < k; i++) {
                x.m_tx.m_attestations.insert(sent::attest(i, x.m_tx));
            }
            x.m_attested = k >= o.m_attestation_threshold;
            std::string d;
            for(auto& h : ins) {
                d += " " + h8(h);
            }
            d += " ->";
            for(auto& h : x.m_tx.m_uhs_outputs) {
                d += " " + h8(h);
            }
            s.note("  tx %s:%s%s", h8(x.m_tx.m_id).c_str(), d.c_str(), x.m_attested ? "" : " (under-attested)");
            return x;
        };
        auto answered = [&](size_t from) {
            std::unique_lock<std::mutex> l(ans->m_mut);
            for(size_t i = from; i < subs.size(); i++) {
                for(auto q : subs[i].m_asked) {
                    if(ans->m_all[q].m_count == 0) {
                        return false;
                    }
                }
            }
            return true;
        };

        jit::setting js;
        if(s.coin()) {
            js.m_wait = static_cast<unsigned>(s.below(60));
            js.m_lock = static_cast<unsigned>(s.below(60));
            js.m_io = static_cast<unsigned>(s.below(30));
            js.m_us = s.chance(1, 3) ? 8000 : 1000;
            js.m_seed = s.u64v();
        }
        jit::set(js);
        const auto rounds = s.range(1, 4);
        bool faulted = false;
        for(u64 r = 0; r <= rounds; r++) {
            const bool last = r == rounds;
            if(!leader) {
                auto i = s.below(nco);
                s.note("leader: %llu", static_cast<unsigned long long>(i));
                elect(i);
                PBT_CHECK(connect(), "the new leader does not serve");
            }
            // which ids can be relied upon now
            if(r != 0) {
                for(auto& x : subs) {
                    std::optional<bool> a;
                    {
                        std::unique_lock<std::mutex> l(ans->m_mut);
                        for(auto q : x.m_asked) {
                            auto& v = ans->m_all[q].m_val;
                            if(v && *v) {
                                a = true;
                            }
                        }
                    }
                    if(a) {
                        for(auto& h : x.m_tx.m_uhs_outputs) {
                            if(used.count(h) == 0) {
                                certain.insert(h);
                            }
                        }
                    }
                }
            }
            if(last) {
                break;
            }
            enum kind { clean, fault, cut };
            auto k = r == 0 ? clean : static_cast<kind>(s.weighted({3, 3, 3}));
            if(k == fault) {
                std::unique_lock<std::mutex> l(pl.m_mut);
                pl.m_left = static_cast<int>(s.below(10));
                pl.m_mode = static_cast<int>(s.range(1, 3));
                static const char* const modes[] = {"", "refused", "not replicated", "replicated, answer lost"};
                s.note("entry %d from now fails: %s", pl.m_left, modes[pl.m_mode]);
            }
            {
                std::unique_lock<std::mutex> l(pl.m_mut);
                pl.m_slow = s.chance(1, 3) ? static_cast<unsigned>(s.below(20000)) : 0;
            }
            auto from = subs.size();
            auto cnt = 1 + s.size(12);
            auto stop_at = k == cut ? s.below(cnt + 1) : cnt + 1;
            u64 i = 0;
            for(; i < cnt && i != stop_at; i++) {
                if(r != 0 && s.chance(1, 12) && subs.size() > 2) {
                    auto& x = subs[s.below(subs.size())];
                    if(!x.m_tx.m_inputs.empty()) {
                        s.note("  again %s", h8(x.m_tx.m_id).c_str());
                        x.m_free = false;
                        ask(x);
                        continue;
                    }
                }
                auto x = mktx(r == 0 || s.chance(1, 8));
                auto ok = ask(x);
                if(k == clean && !ok) {
                    PBT_CHECK(false, "the leader's connection broke");
                }
                pool.insert(pool.end(), x.m_tx.m_uhs_outputs.begin(), x.m_tx.m_uhs_outputs.end());
                if(!x.m_tx.m_inputs.empty() && ok && s.chance(1, 8)) {
                    s.note("  twice");
                    x.m_free = false;
                    ask(x);
                }
                subs.push_back(std::move(x));
                if(s.chance(1, 4)) {
                    usleep(static_cast<useconds_t>(s.below(3000)));
                }
            }
            if(k == clean) {
                s.note("  until answered");
                PBT_CHECK(wait_for([&]() { return answered(from); }, 30),
                          "transactions remain without an answer although nothing failed");
                std::unique_lock<std::mutex> l(ans->m_mut);
                for(size_t j = from; j < subs.size(); j++) {
                    auto& x = subs[j];
                    if(x.m_free && x.m_attested) {
                        auto& a = ans->m_all[x.m_asked[0]];
                        PBT_CHECK(a.m_val && *a.m_val,
                                  "tx %s was answered %s although it is in order and nothing failed",
                                  h8(x.m_tx.m_id).c_str(),
                                  a.m_val ? "false" : "nothing");
                    }
                }
            } else {
                faulted = true;
                if(k == fault) {
                    wait_for(
                        [&]() {
                            {
                                std::unique_lock<std::mutex> l(pl.m_mut);
                                if(pl.m_failed) {
                                    return true;
                                }
                            }
                            return answered(from);
                        },
                        5);
                }
                if(s.coin()) {
                    usleep(static_cast<useconds_t>(s.below(5000)));
                }
            }
            if(k != clean || s.chance(1, 3)) {
                s.note("  leader deposed");
                auto again = s.chance(1, 4);
                auto who = *leader;
                depose();
                if(again) {
                    s.note("  and elected again");
                    elect(who);
                    // The connection may still be to the server about to be
                    // stopped.
                    bool serves = false;
                    for(int t = 0; t < 30 && !serves; t++) {
                        client.reset();
                        PBT_CHECK(connect(), "the leader does not serve again");
                        auto x = mktx(true);
                        for(size_t i = x.m_tx.m_attestations.size(); i < o.m_attestation_threshold; i++) {
                            x.m_tx.m_attestations.insert(sent::attest(i, x.m_tx));
                        }
                        x.m_attested = true;
                        ask(x);
                        auto q = x.m_asked[0];
                        pool.insert(pool.end(), x.m_tx.m_uhs_outputs.begin(), x.m_tx.m_uhs_outputs.end());
                        subs.push_back(std::move(x));
                        serves = wait_for(
                            [&]() {
                                std::unique_lock<std::mutex> l(ans->m_mut);
                                return ans->m_all[q].m_val.has_value();
                            },
                            1);
                    }
                    PBT_CHECK(serves, "the leader accepts connections but answers nothing");
                } else {
                    settle();
                    client.reset();
                }
            }
        }
        // a leader is in office and nothing fails any more
        {
            std::unique_lock<std::mutex> l(pl.m_mut);
            pl.m_slow = 0;
        }
        PBT_CHECK(wait_for(
                      [&]() {
                          auto st = state(*leader);
                          return st.m_prepare_txs.empty() && st.m_commit_txs.empty() && st.m_discard_txs.empty();
                      },
                      20),
                  "batches remain unfinished under a leader that serves");
        client.reset();
        settle();
        // asked in parallel: the answers take a while each
        std::map<hash_t, std::optional<bool>> is_done, is_unspent;
        {
            std::vector<std::pair<hash_t, bool>> qs;
            for(auto& x : subs) {
                qs.emplace_back(x.m_tx.m_id, true);
            }
            for(auto& h : pool) {
                qs.emplace_back(h, false);
            }
            std::mutex mut;
            std::atomic<size_t> next{0};
            std::vector<std::thread> ts;
            for(int t = 0; t < 16; t++) {
                ts.emplace_back([&]() {
                    for(size_t q = next++; q < qs.size(); q = next++) {
                        auto r = qs[q].second ? status.check_tx_id(qs[q].first) : status.check_unspent(qs[q].first);
                        std::unique_lock<std::mutex> l(mut);
                        (qs[q].second ? is_done : is_unspent)[qs[q].first] = r;
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
        }
        std::map<hash_t, size_t> spent;
        std::set<hash_t> expect;
        for(size_t i = 0; i < subs.size(); i++) {
            auto& x = subs[i];
            auto c = is_done[x.m_tx.m_id];
            PBT_CHECK(c.has_value(), "a shard does not answer");
            bool yes = false;
            bool no = false;
            for(auto q : x.m_asked) {
                std::unique_lock<std::mutex> l(ans->m_mut);
                auto& a = ans->m_all[q];
                PBT_CHECK(a.m_count <= 1, "tx %s was answered %d times", h8(x.m_tx.m_id).c_str(), a.m_count);
                if(a.m_val) {
                    PBT_CHECK(!(yes && *a.m_val), "tx %s was confirmed twice", h8(x.m_tx.m_id).c_str());
                    (*a.m_val ? yes : no) = true;
                }
            }
            PBT_CHECK(!yes || *c, "tx %s was confirmed but not applied", h8(x.m_tx.m_id).c_str());
            PBT_CHECK(!(no && x.m_asked.size() == 1 && *c),
                      "tx %s was refused but applied",
                      h8(x.m_tx.m_id).c_str());
            PBT_CHECK(!*c || x.m_attested, "tx %s was applied without attestations", h8(x.m_tx.m_id).c_str());
            if(*c) {
                for(auto& h : x.m_tx.m_inputs) {
                    PBT_CHECK(spent.emplace(h, i).second, "id %s was spent twice", h8(h).c_str());
                }
                expect.insert(x.m_tx.m_uhs_outputs.begin(), x.m_tx.m_uhs_outputs.end());
            }
        }
        for(auto& [h, i] : spent) {
            PBT_CHECK(expect.erase(h) == 1,
                      "tx %s spent %s, which was never created",
                      h8(subs[i].m_tx.m_id).c_str(),
                      h8(h).c_str());
        }
        for(auto& h : pool) {
            auto u = is_unspent[h];
            PBT_CHECK(u.has_value(), "a shard does not answer");
            PBT_CHECK(*u == (expect.count(h) != 0),
                      "id %s is %s, but the confirmed transactions say otherwise",
                      h8(h).c_str(),
                      *u ? "unspent" : "spent");
        }
        // no lock is left
        auto from = subs.size();
        PBT_CHECK(connect(), "the leader does not serve");
        for(auto& h : expect) {
            sub x;
            x.m_tx.m_id = newid(5);
            x.m_tx.m_inputs = {h};
            for(size_t i = 0; i < o.m_attestation_threshold; i++) {
                x.m_tx.m_attestations.insert(sent::attest(i, x.m_tx));
            }
            PBT_CHECK(ask(x), "the leader's connection broke");
            subs.push_back(std::move(x));
        }
        PBT_CHECK(wait_for([&]() { return answered(from); }, 30), "no answer at the end");
        for(size_t j = from; j < subs.size(); j++) {
            std::unique_lock<std::mutex> l(ans->m_mut);
            auto& a = ans->m_all[subs[j].m_asked[0]];
            PBT_CHECK(a.m_val && *a.m_val,
                      "id %s is unspent but cannot be spent",
                      h8(subs[j].m_tx.m_inputs[0]).c_str());
        }
        // replicas agree
        settle();
        for(size_t i = 0; i < nco; i++) {
            auto b = encode({{sm_t::command::get, std::nullopt}, std::nullopt});
            auto& sm = srv(i)->sm();
            auto out = sm.commit(sm.last_commit_index() + 1, *b);
            PBT_CHECK(out != nullptr, "no answer to get");
            compare(decode(*out), model{}, "replica");
        }
        depose();
        client.reset();
        if(faulted) {
            s.nontrivial();
            s.label("leader lost");
        }
        coords.clear();
        shards.clear();
        if(chdir("/") != 0) {
            throw pbt::Discard{};
        }
    }

    // A coordinator that stops stops its shard clients under the batches that
    // use them.
    void run_stop(Src& s) {
        auto ep = free_ep();
        cbdc::rpc::blocking_tcp_server<ls::rpc::request, ls::rpc::response> server(ep);
        const auto mod = s.chance(1, 10) ? s.range(2, 20) : 1; // how often the server fails to answer
        std::atomic<u64> cnt{0};
        server.register_handler_callback([&](ls::rpc::request r) -> std::optional<ls::rpc::response> {
            if(mod != 1 && cnt++ % mod == 1) {
                return std::nullopt;
            }
            if(std::holds_alternative<ls::rpc::lock_params>(r.m_params)) {
                auto& p = std::get<ls::rpc::lock_params>(r.m_params);
                return ls::rpc::response(ls::rpc::lock_response(p.size(), true));
            }
            if(std::holds_alternative<ls::rpc::apply_params>(r.m_params)) {
                return ls::rpc::response(ls::rpc::apply_response());
            }
            return ls::rpc::response(ls::rpc::discard_response());
        });
        if(!server.init()) {
            throw pbt::Discard{};
        }
        auto client = std::make_shared<ls::rpc::client>(std::vector<cbdc::network::endpoint_t>{ep},
                                                        std::make_pair(uint8_t(0), uint8_t(255)),
                                                        *logger());
        PBT_CHECK(client->init(), "cannot connect");
        jit::setting js;
        js.m_wait = static_cast<unsigned>(s.below(60));
        js.m_lock = static_cast<unsigned>(s.below(100));
        js.m_io = static_cast<unsigned>(s.below(60));
        js.m_us = s.coin() ? 200 : 2000;
        js.m_seed = s.u64v();
        const auto n = s.range(1, 6);
        const auto us = s.below(5000);
        s.note("%llu threads, stopped after %llu us", static_cast<unsigned long long>(n), static_cast<unsigned long long>(us));
        std::atomic<bool> stopping{false}, stopped{false};
        std::atomic<u64> early{0}, wrong{0}, answered{0};
        {
            jit::scope sc(js);
            std::vector<std::thread> ts;
            for(u64 t = 0; t < n; t++) {
                ts.emplace_back([&, t, c = client]() {
                    for(u64 k = 0;; k++) {
                        auto was = stopped.load();
                        bool ok = false;
                        auto id = mkhash(0, 9, k);
                        switch((t + k) % 3) {
                            case 0: {
                                auto r = c->lock_outputs(std::vector<ls::tx>(k % 5), id);
                                ok = r.has_value();
                                if(ok && *r != std::vector<bool>(k % 5, true)) {
                                    wrong++;
                                }
                                break;
                            }
                            case 1:
                                ok = c->apply_outputs(std::vector<bool>(k % 5, true), id);
                                break;
                            default:
                                ok = c->discard_dtx(id);
                        }
                        if(!ok) {
                            if(!stopping) {
                                early++;
                            }
                            return;
                        }
                        answered++;
                        if(was) {
                            wrong++;
                        }
                    }
                });
            }
            usleep(static_cast<useconds_t>(us));
            stopping = true;
            client->stop();
            stopped = true;
            client.reset();
            for(auto& t : ts) {
                t.join();
            }
        }
        PBT_CHECK(early == 0, "a request failed before the client was stopped");
        PBT_CHECK(wrong == 0, "a wrong answer, or one after the client was stopped");
        if(answered != 0 && n > 1) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C21";
    c.m_rule = "state_machine: legal logs of up to 40 commands for concurrent batches on 1-3 "
               "replicas at their own pace (non-trivial: some batches done, some open at the "
               "end); coordinators: 1-3 replicas over 1-3 shards, 1-4 rounds of up to 12 "
               "transactions, rounds undisturbed, with a failing log entry, or with the leader "
               "deposed mid-way (non-trivial: a leader was lost)";
    c.m_assumptions = {"entries are replicated by a stand-in for the consensus library",
                       "what a deposed leader has sent reaches the shards before the next "
                       "leader has recovered"};
    c.m_props = {{"state_machine", run_sm, 3000, 200000},
                 {"client_stop", run_stop, 1000, 20000, true, 60},
                 {"coordinators", run_coord, 110, 6000, true, 75}};
    return pbt::run(argc, argv, c);
}
