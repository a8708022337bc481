// The atomizer's front: notifications add up to complete transactions.
#include "atom.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"

#include <atomic>
#include <secp256k1.h>
#include <thread>
#include <unistd.h>

using namespace vt;
namespace at = cbdc::atomizer;

namespace {
    secp256k1_context* ctx() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN
                                                  | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    constexpr u64 n_keys = 3;
    struct keys {
        std::vector<cbdc::privkey_t> m_k;
        std::vector<cbdc::pubkey_t> m_p;
        keys() {
            for(u64 i = 0; i < n_keys + 1; i++) {
                m_k.push_back(mkkey(i));
                m_p.push_back(cbdc::pubkey_from_privkey(m_k.back(), ctx()));
            }
        }
    };
    const keys& ks() {
        static keys k;
        return k;
    }

    struct node {
        pbt::Scratch m_dir;
        std::unique_ptr<at::atomizer_raft> m_n;
        // Complete transactions as they were put in the log.
        std::vector<at::aggregate_tx_notification> m_out;
        int m_fault{0};

        node(u64 threshold, u64 depth) {
            if(chdir(m_dir.path().c_str()) != 0) {
                pbt::fail("chdir");
            }
            cbdc::config::options o;
            o.m_attestation_threshold = threshold;
            for(u64 i = 0; i < n_keys; i++) {
                o.m_sentinel_public_keys.insert(ks().m_p[i]);
            }
            auto& c = nuraft::stub::ctl();
            c.on_append = [this](nuraft::raft_server&, nuraft::buffer& b) {
                if(m_fault != 0) {
                    return m_fault;
                }
                auto q = cbdc::from_buffer<at::state_machine::request>(b);
                b.pos(0);
                PBT_CHECK(q.has_value(), "the log entry does not decode");
                if(auto* a
                   = std::get_if<at::aggregate_tx_notify_request>(&*q)) {
                    m_out.insert(m_out.end(),
                                 a->m_agg_txs.begin(),
                                 a->m_agg_txs.end());
                }
                return 0;
            };
            m_n = std::make_unique<at::atomizer_raft>(
                0,
                std::vector<cbdc::network::endpoint_t>{{"127.0.0.1", 5999}},
                depth,
                logger(),
                o,
                nullptr);
            PBT_CHECK(m_n->init(nuraft::raft_params()), "raft init");
        }
        ~node() {
            m_n.reset();
            nuraft::stub::ctl().on_append = nullptr;
            (void)!chdir("/");
        }
    };

    ctx_t sign(ctx_t t, u64 n, bool bad) {
        for(u64 i = 0; i < n; i++) {
            t.m_attestations.insert(t.sign(ctx(), ks().m_k[i]));
        }
        if(bad) {
            auto a = t.sign(ctx(), ks().m_k[n_keys]);
            t.m_attestations.insert(a);
        }
        return t;
    }

    void sequential(Src& s) {
        auto thr = s.chance(1, 3) ? s.range(1, 3) : 0;
        auto depth = s.range(1, 5);
        node n(thr, depth);
        s.note("attestation threshold %zu", (size_t)thr);
        struct st {
            ctx_t m_tx;
            // input -> heights reported since it was last complete
            std::map<u64, std::set<u64>> m_rep;
            bool m_any{false};
        };
        std::vector<st> txs;
        auto nt = s.range(1, 4);
        for(u64 i = 0; i < nt; i++) {
            st x;
            x.m_tx.m_id = mkhash(1, 1, i);
            auto ni = s.below(5);
            for(u64 j = 0; j < ni; j++) {
                x.m_tx.m_inputs.push_back(mkhash(2, 2, s.below(8) * 8 + j));
            }
            x.m_tx.m_uhs_outputs.push_back(mkhash(3, 3, i));
            txs.push_back(x);
        }
        auto steps = s.range(1, 30);
        struct want {
            size_t m_tx;
            std::map<u64, std::set<u64>> m_rep;
        };
        std::vector<want> due;
        for(u64 k = 0; k < steps; k++) {
            auto ti = s.below(txs.size());
            auto& x = txs[ti];
            at::tx_notify_request q;
            // Enough signatures, one too few, or a stranger's among them.
            auto how = thr == 0 ? 0 : s.weighted({8, 1, 1});
            q.m_tx = sign(x.m_tx,
                          how == 1 ? thr - 1
                                   : (thr == 0 ? 0 : s.range(thr, n_keys)),
                          how == 2);
            q.m_block_height = s.chance(1, 4) ? 0 : s.below(9);
            for(u64 j = 0; j < x.m_tx.m_inputs.size(); j++) {
                if(s.chance(1, 2)) {
                    q.m_attestations.insert(j);
                }
            }
            s.note("notify tx %zu: %zu of %zu inputs at height %zu%s",
                   (size_t)ti,
                   q.m_attestations.size(),
                   x.m_tx.m_inputs.size(),
                   (size_t)q.m_block_height,
                   how == 0 ? "" : ", not properly attested");
            if(how == 0) {
                for(auto j : q.m_attestations) {
                    x.m_rep[j].insert(q.m_block_height);
                }
                if(x.m_rep.size() == x.m_tx.m_inputs.size()) {
                    due.push_back({ti, x.m_rep});
                    if(x.m_rep.size() > 1) {
                        s.nontrivial();
                    }
                    x.m_rep.clear();
                }
            } else {
                s.label("not properly attested");
            }
            n.m_n->tx_notify(std::move(q));
            if(k + 1 == steps || s.chance(1, 3)) {
                n.m_out.clear();
                auto ok = n.m_n->send_complete_txs(nullptr);
                PBT_CHECK(ok == !due.empty(),
                          "%zu transactions are complete, sending answered "
                          "%d",
                          due.size(),
                          (int)ok);
                PBT_CHECK(n.m_out.size() == due.size(),
                          "%zu transactions handed on, %zu are complete",
                          n.m_out.size(),
                          due.size());
                std::vector<bool> used(due.size());
                for(auto& o : n.m_out) {
                    auto f = false;
                    for(size_t i = 0; i < due.size() && !f; i++) {
                        if(used[i] || !(txs[due[i].m_tx].m_tx == o.m_tx)) {
                            continue;
                        }
                        auto h = o.m_oldest_attestation;
                        auto& rep = due[i].m_rep;
                        auto some = rep.empty();
                        auto all = true;
                        for(auto& [j, hs] : rep) {
                            some = some || hs.count(h) != 0;
                            all = all && *hs.rbegin() >= h;
                        }
                        if(!some || !all) {
                            continue;
                        }
                        used[i] = f = true;
                        auto& t = txs[due[i].m_tx].m_tx;
                        PBT_CHECK(o.m_tx.m_inputs == t.m_inputs
                                      && o.m_tx.m_uhs_outputs
                                             == t.m_uhs_outputs
                                      && o.m_tx.m_attestations.size() >= thr,
                                  "the transaction was changed");
                    }
                    std::string all;
                    for(auto& d : due) {
                        for(auto& [j, hs] : d.m_rep) {
                            all += " " + std::to_string(d.m_tx) + ":"
                                 + std::to_string(j) + "@";
                            for(auto h : hs) {
                                all += std::to_string(h) + ",";
                            }
                        }
                    }
                    PBT_CHECK(f,
                              "tx %s is handed on with oldest height %zu, "
                              "reported were%s",
                              h8(o.m_tx.m_id).c_str(),
                              (size_t)o.m_oldest_attestation,
                              all.c_str());
                }
                due.clear();
            }
        }
    }

    void threads(Src& s) {
        node n(0, 4);
        auto nt = s.range(1, 12);
        std::vector<ctx_t> txs;
        std::vector<at::tx_notify_request> all;
        std::map<hash_t, std::map<u64, std::set<u64>>> rep;
        for(u64 i = 0; i < nt; i++) {
            ctx_t t;
            t.m_id = mkhash(1, 1, i);
            auto ni = s.range(1, 4);
            for(u64 j = 0; j < ni; j++) {
                t.m_inputs.push_back(mkhash(2, 2, i * 8 + j));
                // Each input is vouched for once.
                at::tx_notify_request q;
                q.m_attestations.insert(j);
                q.m_block_height = s.below(6);
                rep[t.m_id][j].insert(q.m_block_height);
                all.push_back(q);
            }
            for(auto it = all.end() - static_cast<long>(ni); it != all.end();
                it++) {
                it->m_tx = t;
            }
            txs.push_back(t);
        }
        auto w = s.range(2, 4);
        std::vector<std::vector<at::tx_notify_request>> part(w);
        for(auto& q : all) {
            part[s.below(w)].push_back(q);
        }
        std::atomic<bool> go{false};
        std::atomic<u64> left{w};
        std::vector<std::thread> ts;
        for(auto& p : part) {
            ts.emplace_back([&]() {
                while(!go) {}
                for(auto& q : p) {
                    n.m_n->tx_notify(std::move(q));
                }
                left--;
            });
        }
        go = true;
        do {
            (void)n.m_n->send_complete_txs(nullptr);
        } while(left != 0);
        for(auto& t : ts) {
            t.join();
        }
        (void)n.m_n->send_complete_txs(nullptr);
        s.nontrivial();
        std::map<hash_t, u64> seen;
        for(auto& o : n.m_out) {
            seen[o.m_tx.m_id]++;
            u64 want = ~0ULL;
            for(auto& [j, hs] : rep[o.m_tx.m_id]) {
                want = std::min(want, *hs.begin());
            }
            PBT_CHECK(o.m_oldest_attestation == want,
                      "oldest height %zu, reported %zu",
                      (size_t)o.m_oldest_attestation,
                      (size_t)want);
        }
        for(auto& t : txs) {
            PBT_CHECK(seen[t.m_id] == 1,
                      "tx %s handed on %zu times",
                      h8(t.m_id).c_str(),
                      (size_t)seen[t.m_id]);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C18";
    c.m_rule = "a transaction of several inputs became complete, or several "
               "threads notified at once";
    c.m_assumptions = {"a notification names inputs the transaction has"};
    c.m_props.push_back({"notifications", sequential, 15000, 400000});
    c.m_props.push_back({"threads", threads, 3000, 40000, true, 20, 3});
    return pbt::run(argc, argv, c);
}
