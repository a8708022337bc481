// Blocks, transactions and errors for the atomizer-architecture checks.
#pragma once
#include "common.hpp"
#include "uhs/atomizer/atomizer/block.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/transaction/transaction.hpp"

#include <map>
#include <set>

namespace vt {
    using ctx_t = cbdc::transaction::compact_tx;
    using block_t = cbdc::atomizer::block;

    inline bool same(const ctx_t& a, const ctx_t& b) {
        return a.m_id == b.m_id && a.m_inputs == b.m_inputs
            && a.m_uhs_outputs == b.m_uhs_outputs
            && a.m_attestations == b.m_attestations;
    }
    inline bool same(const block_t& a, const block_t& b) {
        if(a.m_height != b.m_height
           || a.m_transactions.size() != b.m_transactions.size()) {
            return false;
        }
        for(size_t i = 0; i < a.m_transactions.size(); i++) {
            if(!same(a.m_transactions[i], b.m_transactions[i])) {
                return false;
            }
        }
        return true;
    }

    // A history of blocks in which every id is created once and spent at most
    // once, after its creation.
    struct chain {
        u64 m_height{0};
        u64 m_n{0};
        std::vector<hash_t> m_unspent;
        std::vector<hash_t> m_spent;
        std::vector<ctx_t> m_txs;
        // First bytes of ids.
        std::vector<uint8_t> m_prefixes;
        // Ids nobody created in a block (preseeded) may be spent too.
        unsigned m_max_tx{4};

        hash_t fresh(Src& s, uint8_t tag) {
            uint8_t f = m_prefixes.empty()
                          ? static_cast<uint8_t>(s.below(256))
                          : s.pick(m_prefixes);
            return mkhash(f, tag, m_n++);
        }
        hash_t take(Src& s) {
            auto i = s.below(m_unspent.size());
            auto h = m_unspent[i];
            m_unspent.erase(m_unspent.begin() + static_cast<long>(i));
            m_spent.push_back(h);
            return h;
        }
        ctx_t tx(Src& s) {
            ctx_t t;
            t.m_id = fresh(s, 1);
            auto ni = s.below(4);
            for(u64 i = 0; i < ni && !m_unspent.empty(); i++) {
                t.m_inputs.push_back(take(s));
            }
            auto no = s.below(4);
            for(u64 i = 0; i < no; i++) {
                t.m_uhs_outputs.push_back(fresh(s, 2));
            }
            return t;
        }
        block_t next(Src& s) {
            block_t b;
            b.m_height = ++m_height;
            auto n = s.below(m_max_tx + 1);
            std::vector<hash_t> made;
            for(u64 i = 0; i < n; i++) {
                auto t = tx(s);
                made.insert(made.end(),
                            t.m_uhs_outputs.begin(),
                            t.m_uhs_outputs.end());
                m_txs.push_back(t);
                b.m_transactions.push_back(std::move(t));
            }
            m_unspent.insert(m_unspent.end(), made.begin(), made.end());
            return b;
        }
    };
    inline std::string desc(const ctx_t& t) {
        auto r = h8(t.m_id) + " in[";
        for(const auto& i : t.m_inputs) {
            r += h8(i) + " ";
        }
        r += "] out[";
        for(const auto& i : t.m_uhs_outputs) {
            r += h8(i) + " ";
        }
        return r + "]";
    }
}
