// Reference model of the atomizer's transaction window.
#pragma once
#include "atom.hpp"

namespace vt {
    namespace wt = cbdc::watchtower;

    struct verdict {
        enum { ok, range, spent } m_k{ok};
        std::set<hash_t> m_ids;
    };

    struct amodel {
        u64 m_depth;
        u64 m_best{0};
        // Block in which an id was (or will be) spent last.
        std::map<hash_t, u64> m_spent;
        // Accepted, not yet in a block.
        std::vector<ctx_t> m_complete;
        struct pend {
            ctx_t m_tx;
            std::set<u64> m_att;
            bool m_refused{false};
        };
        // Height of the attestation -> transaction -> what was vouched for.
        std::map<u64, std::map<hash_t, pend>> m_pend;
        u64 m_accepted{0};

        bool in_window(u64 h) const {
            return h <= m_best && m_best - h <= m_depth;
        }
        verdict conflicts(const ctx_t& tx, u64 oldest) const {
            verdict v;
            for(const auto& i : tx.m_inputs) {
                auto it = m_spent.find(i);
                if(it != m_spent.end() && it->second > oldest) {
                    v.m_k = verdict::spent;
                    v.m_ids.insert(i);
                }
            }
            return v;
        }
        void accept(const ctx_t& tx) {
            for(const auto& i : tx.m_inputs) {
                m_spent[i] = m_best + 1;
            }
            m_complete.push_back(tx);
            m_accepted++;
        }
        verdict insert_complete(u64 oldest, const ctx_t& tx) {
            if(!in_window(oldest) && !tx.m_inputs.empty()) {
                return {verdict::range, {}};
            }
            auto v = conflicts(tx, oldest);
            if(v.m_k == verdict::ok) {
                accept(tx);
            }
            return v;
        }
        verdict insert(u64 h, const ctx_t& tx, const std::set<u64>& att) {
            if(!in_window(h) && !tx.m_inputs.empty()) {
                return {verdict::range, {}};
            }
            auto& p = m_pend[h][tx.m_id];
            p.m_tx = tx;
            p.m_att.insert(att.begin(), att.end());
            std::set<u64> all;
            u64 oldest = m_best;
            for(auto& [ph, m] : m_pend) {
                auto it = m.find(tx.m_id);
                if(it != m.end()) {
                    all.insert(it->second.m_att.begin(),
                               it->second.m_att.end());
                    oldest = std::min(oldest, ph);
                }
            }
            if(all.size() != tx.m_inputs.size()) {
                return {};
            }
            auto v = conflicts(tx, oldest);
            for(auto& [ph, m] : m_pend) {
                auto it = m.find(tx.m_id);
                if(it == m.end()) {
                    continue;
                }
                if(v.m_k == verdict::ok) {
                    m.erase(it);
                } else {
                    it->second.m_refused = true;
                }
            }
            if(v.m_k == verdict::ok) {
                accept(tx);
            }
            return v;
        }
        // The block's transactions; the incomplete ones that fell out of the
        // window: those that must be reported, those that may be.
        std::vector<ctx_t> make_block(std::set<hash_t>& must,
                                      std::set<hash_t>& may) {
            m_best++;
            for(auto it = m_pend.begin(); it != m_pend.end();) {
                if(m_best - it->first > m_depth) {
                    for(auto& [id, p] : it->second) {
                        (p.m_refused ? may : must).insert(id);
                    }
                    it = m_pend.erase(it);
                } else {
                    it++;
                }
            }
            return std::move(m_complete);
        }
    };

    inline std::string str(const std::optional<wt::tx_error>& e) {
        return e ? e->to_string() : std::string("accepted");
    }
    inline void check_verdict(const verdict& v,
                              const std::optional<wt::tx_error>& e,
                              const ctx_t& tx,
                              const char* what) {
        if(v.m_k == verdict::ok) {
            PBT_CHECK(!e, "%s: %s", what, str(e).c_str());
            return;
        }
        PBT_CHECK(e.has_value(),
                  "%s: no error for tx %s, expected %s",
                  what,
                  h8(tx.m_id).c_str(),
                  v.m_k == verdict::range ? "out of range" : "inputs spent");
        PBT_CHECK(e->tx_id() == tx.m_id, "%s: error for another tx", what);
        if(v.m_k == verdict::range) {
            PBT_CHECK(
                std::holds_alternative<wt::tx_error_stxo_range>(e->info()),
                "%s: expected out of range, got %s",
                what,
                str(e).c_str());
            return;
        }
        auto info = e->info();
        auto* sp = std::get_if<wt::tx_error_inputs_spent>(&info);
        PBT_CHECK(sp != nullptr,
                  "%s: expected inputs spent, got %s",
                  what,
                  str(e).c_str());
        auto ids = sp->input_uhs_ids();
        PBT_CHECK(std::set<hash_t>(ids.begin(), ids.end()) == v.m_ids,
                  "%s: the error names %zu inputs, %zu are spent",
                  what,
                  ids.size(),
                  v.m_ids.size());
    }
    inline void check_block_txs(const std::vector<ctx_t>& want,
                                const block_t& b) {
        PBT_CHECK(b.m_transactions.size() == want.size(),
                  "block %zu has %zu transactions, %zu were accepted",
                  (size_t)b.m_height,
                  b.m_transactions.size(),
                  want.size());
        std::vector<bool> used(want.size());
        for(auto& t : b.m_transactions) {
            auto f = false;
            for(size_t i = 0; i < want.size() && !f; i++) {
                if(!used[i] && same(want[i], t)) {
                    used[i] = f = true;
                }
            }
            PBT_CHECK(f,
                      "block %zu holds %s, which was not accepted as such",
                      (size_t)b.m_height,
                      desc(t).c_str());
        }
    }

    // Transactions competing for a few inputs, with attestations that are
    // true (the input was unspent at that height) or not.
    struct contenders {
        std::vector<ctx_t> m_txs;
        u64 m_n{0};
        unsigned m_ids{6};
        ctx_t make(Src& s) {
            ctx_t t;
            t.m_id = mkhash(1, 1, m_n++);
            auto n = s.below(4);
            for(u64 i = 0; i < n; i++) {
                auto h = mkhash(2, 2, s.below(m_ids));
                if(std::find(t.m_inputs.begin(), t.m_inputs.end(), h)
                   == t.m_inputs.end()) {
                    t.m_inputs.push_back(h);
                }
            }
            auto no = s.below(3);
            for(u64 i = 0; i < no; i++) {
                t.m_uhs_outputs.push_back(mkhash(3, 3, m_n * 4 + i));
            }
            if(s.chance(1, 3)) {
                auto k = cbdc::pubkey_t{};
                k[0] = static_cast<unsigned char>(1 + s.below(3));
                auto g = cbdc::signature_t{};
                g[5] = 77;
                t.m_attestations[k] = g;
            }
            m_txs.push_back(t);
            return t;
        }
        const ctx_t& some(Src& s) {
            if(m_txs.empty() || s.chance(1, 3)) {
                make(s);
                return m_txs.back();
            }
            return m_txs[s.below(m_txs.size())];
        }
    };
}
