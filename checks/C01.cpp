// C01: transaction and unspent ids.
#include "utx.hpp"

#include <map>

using namespace utx;
using namespace vt;

namespace {
    std::string hs(const hash_t& h) {
        return hx(h);
    }

    void check_compact(const full_tx& t) {
        auto id = tx_id(t);
        auto want = ref_tx_id(t);
        PBT_CHECK(id == want, "the id is %s, not the hash of inputs and outputs, %s: %s", hs(id).c_str(), hs(want).c_str(), show(t).c_str());
        compact_tx c(t);
        PBT_CHECK(c.m_id == id, "the compact form carries another id");
        PBT_CHECK(c.m_attestations.empty(), "a new compact transaction has attestations");
        PBT_CHECK(c.m_inputs.size() == t.m_inputs.size() && c.m_uhs_outputs.size() == t.m_outputs.size(),
                  "%zu inputs and %zu outputs became %zu and %zu", t.m_inputs.size(), t.m_outputs.size(), c.m_inputs.size(), c.m_uhs_outputs.size());
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            auto& in = t.m_inputs[i];
            auto w = ref_uhs_id(in.m_prevout.m_tx_id, in.m_prevout.m_index, in.m_prevout_data);
            PBT_CHECK(c.m_inputs[i] == w && in.hash() == w, "input %zu: unspent id %s, input hash %s, expected %s", i, hs(c.m_inputs[i]).c_str(), hs(in.hash()).c_str(),
                      hs(w).c_str());
        }
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            auto w = ref_uhs_id(id, i, t.m_outputs[i]);
            PBT_CHECK(c.m_uhs_outputs[i] == w && uhs_id_from_output(id, i, t.m_outputs[i]) == w, "output %zu: unspent id %s, expected %s", i,
                      hs(c.m_uhs_outputs[i]).c_str(), hs(w).c_str());
            // created under the id it is spent under
            for(auto in : {input_from_output(t, i), input_from_output(t, i, id)}) {
                PBT_CHECK(in.has_value(), "output %zu gives no input", i);
                PBT_CHECK(in->m_prevout.m_tx_id == id && in->m_prevout.m_index == i && in->m_prevout_data == t.m_outputs[i],
                          "the input made from output %zu is another one", i);
                PBT_CHECK(in->hash() == w, "output %zu is created as %s and spent as %s", i, hs(w).c_str(), hs(in->hash()).c_str());
                full_tx sp;
                sp.m_inputs.push_back(*in);
                sp.m_outputs.push_back(t.m_outputs[i]);
                PBT_CHECK(compact_tx(sp).m_inputs[0] == w, "output %zu is created as %s and spent as something else", i, hs(w).c_str());
            }
        }
        for(auto past : {t.m_outputs.size(), t.m_outputs.size() + 1, ~size_t{0}}) {
            PBT_CHECK(!input_from_output(t, past).has_value() && !input_from_output(t, past, id).has_value(), "there is an input for output %zu of %zu", past,
                      t.m_outputs.size());
        }
    }

    void compact_form(Src& s) {
        auto t = any_tx(s, s.chance(1, 200) ? 300 : 6);
        s.note("%s", show(t).substr(0, 1000).c_str());
        check_compact(t);
        if(!t.m_inputs.empty() || !t.m_outputs.empty()) {
            s.nontrivial();
        }
        // deterministic, and independent of witnesses
        auto u = t;
        auto n = s.below(4);
        u.m_witness.clear();
        for(u64 i = 0; i < n; i++) {
            u.m_witness.push_back(cbdc::witness_t(s.below(100), static_cast<std::byte>(s.below(256))));
        }
        PBT_CHECK(tx_id(u) == tx_id(t), "the id depends on the witnesses");
        compact_tx a(t);
        compact_tx b(u);
        PBT_CHECK(a.m_inputs == b.m_inputs && a.m_uhs_outputs == b.m_uhs_outputs && a.m_id == b.m_id, "the compact form depends on the witnesses");
        PBT_CHECK(a == b, "equal transactions have unequal compact forms");
        PBT_CHECK(a.hash() == b.hash() && a.hash() == ref_attest_hash(a), "the signed hash is not that of the compact form");
    }

    // Any other transaction has other ids.
    void changed(Src& s) {
        auto t = any_tx(s);
        auto u = t;
        auto n = 1 + s.below(3);
        std::string what;
        std::vector<full_tx> all{t};
        for(u64 i = 0; i < n; i++) {
            std::string w;
            if(change(s, u, w)) {
                what += w + "; ";
                all.push_back(u);
            }
        }
        s.note("%s | %s", show(t).c_str(), what.c_str());
        if(all.size() < 2) {
            throw pbt::Discard{};
        }
        s.nontrivial();
        std::map<hash_t, size_t> ids;
        std::map<hash_t, std::tuple<hash_t, u64, hash_t, u64>> coins;
        for(size_t i = 0; i < all.size(); i++) {
            auto id = tx_id(all[i]);
            auto [it, fresh] = ids.emplace(id, i);
            auto& o = all[it->second];
            auto same = o.m_inputs == all[i].m_inputs && o.m_outputs == all[i].m_outputs;
            PBT_CHECK(fresh || same, "two transactions share the id %s: changed %s", hs(id).c_str(), what.c_str());
            compact_tx c(all[i]);
            auto see = [&](const hash_t& h, const hash_t& tx, u64 idx, const output& out) {
                auto v = std::make_tuple(tx, idx, out.m_witness_program_commitment, out.m_value);
                auto [p, f] = coins.emplace(h, v);
                PBT_CHECK(f || p->second == v, "two outputs share the unspent id %s: changed %s", hs(h).c_str(), what.c_str());
            };
            for(size_t k = 0; k < c.m_inputs.size(); k++) {
                auto& in = all[i].m_inputs[k];
                see(c.m_inputs[k], in.m_prevout.m_tx_id, in.m_prevout.m_index, in.m_prevout_data);
            }
            for(size_t k = 0; k < c.m_uhs_outputs.size(); k++) {
                see(c.m_uhs_outputs[k], id, k, all[i].m_outputs[k]);
            }
        }
        auto first = compact_tx(t);
        auto last = compact_tx(all.back());
        auto same = t.m_inputs == all.back().m_inputs && t.m_outputs == all.back().m_outputs;
        PBT_CHECK((first == last) == same, "compact forms of different transactions compare equal");
        PBT_CHECK((first.hash() == last.hash()) == same, "sentinels would sign the same for: changed %s", what.c_str());
    }

    // Chains of transactions spending each other's outputs.
    void chains(Src& s) {
        struct coin {
            input m_in;
            hash_t m_id{};
        };
        std::vector<coin> live;
        std::set<hash_t> created;
        std::set<hash_t> spent;
        auto n = 2 + s.size(20);
        for(u64 i = 0; i < n; i++) {
            full_tx t;
            std::set<hash_t> want;
            auto k = s.below(4);
            if(i == 0 || live.empty()) {
                t.m_inputs.push_back(any_input(s));
                t.m_inputs[0].m_prevout.m_index = i;
            } else {
                for(u64 j = 0; j < k + 1 && !live.empty(); j++) {
                    auto p = s.below(live.size());
                    t.m_inputs.push_back(live[p].m_in);
                    want.insert(live[p].m_id);
                    live.erase(live.begin() + static_cast<ptrdiff_t>(p));
                }
            }
            auto m = 1 + s.below(4);
            output same = any_output(s);
            for(u64 j = 0; j < m; j++) {
                // outputs alike, told apart only by their position
                t.m_outputs.push_back(s.coin() ? same : any_output(s));
            }
            compact_tx c(t);
            for(auto& h : c.m_inputs) {
                PBT_CHECK(want.empty() || want.count(h) == 1, "a transaction spends %s, which is none of the coins it was given", hs(h).c_str());
                PBT_CHECK(spent.insert(h).second, "the unspent id %s is spent twice", hs(h).c_str());
            }
            for(size_t j = 0; j < m; j++) {
                PBT_CHECK(created.insert(c.m_uhs_outputs[j]).second, "the unspent id %s is created twice", hs(c.m_uhs_outputs[j]).c_str());
                live.push_back({input_from_output(t, j).value(), c.m_uhs_outputs[j]});
            }
        }
        s.note("%llu transactions", (unsigned long long)n);
        s.nontrivial();
    }

    // Commitments and the comparison operators.
    void parts(Src& s) {
        auto p = pool(s.below(24)).m_pub;
        if(s.coin()) {
            p = rndhash(s);
        }
        auto q = p;
        flip(s, q);
        auto cp = validation::get_p2pk_witness_commitment(p);
        PBT_CHECK(cp == ref_commitment(p), "the commitment to a key is not the hash of its witness program");
        PBT_CHECK(cp != validation::get_p2pk_witness_commitment(q), "two keys share a commitment");
        auto a = any_input(s);
        auto b = a;
        switch(s.below(5)) {
            case 0:
                flip(s, b.m_prevout.m_tx_id);
                break;
            case 1:
                flip64(s, b.m_prevout.m_index);
                break;
            case 2:
                flip64(s, b.m_prevout_data.m_value);
                break;
            case 3:
                flip(s, b.m_prevout_data.m_witness_program_commitment);
                break;
            default:
                PBT_CHECK(a == b && !(a != b) && a.m_prevout == b.m_prevout && a.m_prevout_data == b.m_prevout_data && !(a.m_prevout_data != b.m_prevout_data),
                          "equal inputs compare unequal");
                PBT_CHECK(!(a.m_prevout < b.m_prevout), "an outpoint is smaller than itself");
                return;
        }
        s.nontrivial();
        auto pd = a.m_prevout.m_tx_id != b.m_prevout.m_tx_id || a.m_prevout.m_index != b.m_prevout.m_index;
        PBT_CHECK(!(a == b) && a != b, "different inputs compare equal");
        PBT_CHECK((a.m_prevout == b.m_prevout) == !pd, "comparison of outpoints");
        PBT_CHECK((a.m_prevout < b.m_prevout || b.m_prevout < a.m_prevout) == pd && !(a.m_prevout < b.m_prevout && b.m_prevout < a.m_prevout), "order of outpoints");
        PBT_CHECK((a.m_prevout_data == b.m_prevout_data) == pd && (a.m_prevout_data != b.m_prevout_data) == !pd, "comparison of outputs");
        full_tx x;
        full_tx y;
        x.m_inputs.push_back(a);
        y.m_inputs.push_back(b);
        PBT_CHECK(!(x == y) && x == x, "comparison of transactions");
        x.m_inputs = y.m_inputs;
        x.m_witness.emplace_back(3, std::byte{1});
        PBT_CHECK(!(x == y), "transactions with other witnesses compare equal");
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C01";
    c.m_rule = "transactions with up to 6 (now and then 300) inputs and outputs of any value; bit flips in any field, "
               "swaps, removals and additions; chains of transactions spending each other's outputs; an independent "
               "serialisation and SHA-256. Non-trivial: the transaction has an input or output, or was changed";
    c.m_assumptions = {"SHA-256 is collision resistant"};
    c.m_props = {{"compact_form", compact_form, 60000, 2000000},
                 {"changed", changed, 120000, 4000000},
                 {"chains", chains, 10000, 300000},
                 {"parts", parts, 60000, 1000000}};
    return pbt::run(argc, argv, c);
}
