// The atomizer against a reference model of its window.
#include "atom_model.hpp"
#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"

using namespace vt;
using atm = cbdc::atomizer::atomizer;

namespace {
    void run_case(Src& s, bool incremental) {
        auto depth = s.below(5);
        auto start = s.chance(1, 4) ? s.below(1000) : 0;
        auto truthful = s.coin();
        auto a = std::make_unique<atm>(start, depth);
        amodel m{depth};
        m.m_best = start;
        contenders co;
        co.m_ids = static_cast<unsigned>(s.range(1, 8));
        s.note("window %zu, start %zu, attestations %s",
               (size_t)depth,
               (size_t)start,
               truthful ? "true" : "arbitrary");
        // id -> accepted spends
        std::map<hash_t, unsigned> spends;
        std::map<hash_t, unsigned> blocks_of;
        auto n = s.range(1, 40);
        auto height = [&](const ctx_t& t, const std::set<u64>& which) {
            auto lo = m.m_best > depth + 1 ? m.m_best - depth - 1 : 0;
            auto h = s.range(lo, m.m_best);
            if(!truthful) {
                return h;
            }
            // The newest height at which all of these were still unspent.
            for(auto i : which) {
                auto it = m.m_spent.find(t.m_inputs[i]);
                if(it != m.m_spent.end()) {
                    h = std::min(h, it->second - 1);
                }
            }
            return h;
        };
        auto after_accept = [&](const ctx_t& t) {
            for(auto& i : t.m_inputs) {
                spends[i]++;
                PBT_CHECK(!truthful || spends[i] == 1,
                          "input %s is spent by two accepted transactions "
                          "although every attestation was true",
                          h8(i).c_str());
            }
        };
        for(u64 i = 0; i < n; i++) {
            switch(s.weighted({6, 3, 1})) {
                case 0: {
                    auto t = co.some(s);
                    if(incremental) {
                        std::set<u64> att;
                        for(u64 j = 0; j < t.m_inputs.size(); j++) {
                            if(s.chance(2, 3)) {
                                att.insert(j);
                            }
                        }
                        if(t.m_inputs.empty()) {
                            continue;
                        }
                        auto h = height(t, att);
                        s.note("notify %s att %zu at %zu (best %zu)",
                               desc(t).c_str(),
                               att.size(),
                               (size_t)h,
                               (size_t)m.m_best);
                        auto before = m.m_accepted;
                        auto v = m.insert(h, t, att);
                        auto e = a->insert(
                            h,
                            t,
                            std::unordered_set<uint32_t>(att.begin(),
                                                         att.end()));
                        check_verdict(v, e, t, "notification");
                        if(m.m_accepted != before) {
                            after_accept(t);
                            s.label("accepted");
                        }
                        if(v.m_k == verdict::spent) {
                            s.label("refused: spent");
                            s.nontrivial();
                        } else if(v.m_k == verdict::range) {
                            s.label("refused: range");
                        }
                    } else {
                        std::set<u64> all;
                        for(u64 j = 0; j < t.m_inputs.size(); j++) {
                            all.insert(j);
                        }
                        auto h = height(t, all);
                        if(!t.m_inputs.empty() && s.chance(1, 20)) {
                            h = m.m_best + 1 + s.below(3);
                        }
                        s.note("complete %s at %zu (best %zu)",
                               desc(t).c_str(),
                               (size_t)h,
                               (size_t)m.m_best);
                        auto v = m.insert_complete(h, t);
                        auto c = t;
                        auto e = a->insert_complete(h, std::move(c));
                        check_verdict(v, e, t, "complete transaction");
                        if(v.m_k == verdict::ok) {
                            after_accept(t);
                            s.label("accepted");
                        } else if(v.m_k == verdict::spent) {
                            s.label("refused: spent");
                            s.nontrivial();
                        } else {
                            s.label("refused: range");
                        }
                    }
                    break;
                }
                case 1: {
                    s.note("block");
                    std::set<hash_t> must;
                    std::set<hash_t> may;
                    auto want = m.make_block(must, may);
                    auto [b, errs] = a->make_block();
                    PBT_CHECK(b.m_height == m.m_best,
                              "block height %zu, expected %zu",
                              (size_t)b.m_height,
                              (size_t)m.m_best);
                    check_block_txs(want, b);
                    for(auto& e : errs) {
                        PBT_CHECK(std::holds_alternative<
                                      wt::tx_error_incomplete>(e.info()),
                                  "make_block reports %s",
                                  e.to_string().c_str());
                        PBT_CHECK(must.erase(e.tx_id()) + may.erase(e.tx_id())
                                      == 1,
                                  "transaction %s reported incomplete",
                                  h8(e.tx_id()).c_str());
                        s.label("incomplete");
                    }
                    PBT_CHECK(must.empty(),
                              "%zu incomplete transactions fell out of the "
                              "window unreported",
                              must.size());
                    break;
                }
                default: {
                    auto buf = a->serialize();
                    auto b = std::make_unique<atm>(s.below(3), s.below(3));
                    auto des = cbdc::buffer_serializer(buf);
                    b->deserialize(des);
                    PBT_CHECK(*b == *a, "a copy through serialize differs");
                    a = std::move(b);
                    s.label("serialized");
                    break;
                }
            }
            PBT_CHECK(a->height() == m.m_best, "height");
            PBT_CHECK(a->pending_transactions() == m.m_complete.size(),
                      "%zu transactions pending, %zu accepted",
                      (size_t)a->pending_transactions(),
                      m.m_complete.size());
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C13";
    c.m_rule = "a transaction was refused because an input was spent inside "
               "the window";
    c.m_assumptions = {"an attestation names inputs the transaction has",
                       "no transaction names an input twice (sentinels "
                       "refuse those)"};
    c.m_props.push_back({"complete transactions",
                         [](Src& s) {
                             run_case(s, false);
                         },
                         4000,
                         60000});
    c.m_props.push_back({"notifications",
                         [](Src& s) {
                             run_case(s, true);
                         },
                         4000,
                         60000});
    return pbt::run(argc, argv, c);
}
