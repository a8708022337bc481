// What a wallet owns, and what a spend may look like.
#pragma once
#include "utx.hpp"

#include <map>
#include <set>

namespace wm {
    using namespace utx;
    using outpoint = std::pair<hash_t, u64>;
    inline outpoint op(const input& i) {
        return {i.m_prevout.m_tx_id, i.m_prevout.m_index};
    }
    using coins = std::map<outpoint, input>;
    inline unsigned __int128 total(const coins& c) {
        unsigned __int128 t = 0;
        for(auto& [k, i] : c) {
            t += i.m_prevout_data.m_value;
        }
        return t;
    }
    // The inputs of a spend are distinct coins of the model, unchanged; they
    // are taken from it. Their sum.
    inline u64 take_inputs(const full_tx& t, coins& c, const char* who) {
        u64 sum = 0;
        for(auto& in : t.m_inputs) {
            auto it = c.find(op(in));
            PBT_CHECK(it != c.end(), "%s spends %s:%llu, which it does not have or has spent already", who, vt::h8(in.m_prevout.m_tx_id).c_str(),
                      (unsigned long long)in.m_prevout.m_index);
            PBT_CHECK(it->second == in, "%s changes the coin it spends", who);
            sum += in.m_prevout_data.m_value;
            c.erase(it);
        }
        return sum;
    }
    // Checks the outputs: what was asked for, and at most one more that
    // returns the rest to the sender. The change, if any.
    template<typename Owned>
    std::optional<output> check_outputs(const full_tx& t, u64 in_sum, std::vector<output> want, Owned&& mine, const char* who) {
        auto rest = t.m_outputs;
        u64 paid = 0;
        for(auto& w : want) {
            auto it = std::find(rest.begin(), rest.end(), w);
            PBT_CHECK(it != rest.end(), "%s does not pay %llu to %s (%zu outputs)", who, (unsigned long long)w.m_value, vt::h8(w.m_witness_program_commitment).c_str(),
                      t.m_outputs.size());
            rest.erase(it);
            paid += w.m_value;
        }
        PBT_CHECK(rest.size() <= 1, "%s has %zu outputs more than were asked for", who, rest.size());
        if(rest.empty()) {
            PBT_CHECK(paid == in_sum, "%s pays %llu from %llu and keeps no change", who, (unsigned long long)paid, (unsigned long long)in_sum);
            return std::nullopt;
        }
        PBT_CHECK(rest[0].m_value == in_sum - paid, "the change of %s is %llu, not %llu", who, (unsigned long long)rest[0].m_value,
                  (unsigned long long)(in_sum - paid));
        PBT_CHECK(mine(rest[0]), "the change of %s goes to somebody else", who);
        return rest[0];
    }
    inline void check_valid(const full_tx& t, const char* who) {
        auto e = validation::check_tx(t);
        PBT_CHECK(!e.has_value(), "%s is not valid: %s: %s", who, validation::to_string(*e).c_str(), show(t).c_str());
    }
}
