// C03: attestations of compact transactions.
#include "utx.hpp"

using namespace utx;
using namespace vt;
namespace val = cbdc::transaction::validation;
using keyset = std::unordered_set<pubkey_t, cbdc::hashing::null>;

namespace {
    compact_tx any_ctx(Src& s) {
        compact_tx c;
        c.m_id = rndhash(s);
        auto n = s.below(5);
        auto m = s.below(5);
        for(u64 i = 0; i < n; i++) {
            c.m_inputs.push_back(rndhash(s));
        }
        for(u64 i = 0; i < m; i++) {
            c.m_uhs_outputs.push_back(rndhash(s));
        }
        return c;
    }
    // Changes the content; false if it stayed the same.
    bool change_content(Src& s, compact_tx& c, std::string& what) {
        switch(s.below(8)) {
            case 0:
                flip(s, c.m_id);
                what = "id";
                return true;
            case 1:
                if(c.m_inputs.empty()) {
                    return false;
                }
                flip(s, c.m_inputs[s.below(c.m_inputs.size())]);
                what = "an input";
                return true;
            case 2:
                if(c.m_uhs_outputs.empty()) {
                    return false;
                }
                flip(s, c.m_uhs_outputs[s.below(c.m_uhs_outputs.size())]);
                what = "an output";
                return true;
            case 3:
                c.m_inputs.push_back(s.coin() && !c.m_inputs.empty() ? c.m_inputs.back() : rndhash(s));
                what = "an input more";
                return true;
            case 4:
                c.m_uhs_outputs.push_back(s.coin() && !c.m_uhs_outputs.empty() ? c.m_uhs_outputs.back() : rndhash(s));
                what = "an output more";
                return true;
            case 5: // the boundary between inputs and outputs
                if(!c.m_inputs.empty() && s.coin()) {
                    c.m_uhs_outputs.insert(c.m_uhs_outputs.begin(), c.m_inputs.back());
                    c.m_inputs.pop_back();
                } else if(!c.m_uhs_outputs.empty()) {
                    c.m_inputs.push_back(c.m_uhs_outputs.front());
                    c.m_uhs_outputs.erase(c.m_uhs_outputs.begin());
                } else {
                    return false;
                }
                what = "an input became an output or back";
                return true;
            case 6: {
                auto& v = s.coin() ? c.m_inputs : c.m_uhs_outputs;
                if(v.size() < 2 || v.front() == v.back()) {
                    return false;
                }
                std::swap(v.front(), v.back());
                what = "order";
                return true;
            }
            default: {
                auto& v = s.coin() ? c.m_inputs : c.m_uhs_outputs;
                if(v.empty()) {
                    return false;
                }
                v.erase(v.begin() + static_cast<ptrdiff_t>(s.below(v.size())));
                what = "one less";
                return true;
            }
        }
    }
    bool ref_attested(const compact_tx& c, const keyset& keys, size_t threshold) {
        if(c.m_attestations.size() < threshold) {
            return false;
        }
        auto h = ref_attest_hash(c);
        for(auto& [k, sig] : c.m_attestations) {
            if(keys.count(k) == 0 || !utx::verify(sig.data(), h.data(), k.data())) {
                return false;
            }
        }
        return true;
    }

    void attested(Src& s) {
        auto c = any_ctx(s);
        keyset keys;
        auto nk = s.below(7);
        for(u64 i = 0; i < nk; i++) {
            keys.insert(pool(i).m_pub);
        }
        auto threshold = s.chance(1, 10) ? s.edgy() : s.below(6);
        auto h = ref_attest_hash(c);
        auto na = s.below(6);
        std::string what;
        for(u64 i = 0; i < na; i++) {
            // mostly configured sentinels
            auto k = s.chance(1, 12) ? 6 + s.below(18) : s.below(std::max<u64>(nk, 1));
            auto att = s.coin() ? c.sign(ctx(), pool(k).m_priv) : sentinel_attestation{pool(k).m_pub, utx::sign(pool(k), h)};
            PBT_CHECK(att.first == pool(k).m_pub, "the attestation is in another's name");
            PBT_CHECK(utx::verify(att.second.data(), h.data(), att.first.data()), "the signature of a new attestation is not valid for the transaction");
            PBT_CHECK(c.verify(ctx(), att), "a new attestation does not verify");
            c.m_attestations.insert(att);
            PBT_CHECK(c.hash() == h, "an attestation changes what is signed");
        }
        auto before = ref_attested(c, keys, threshold);
        PBT_CHECK(val::check_attestations(c, keys, threshold) == before, "%s with %zu attestations, %zu keys, threshold %llu", before ? "not attested" : "attested",
                  c.m_attestations.size(), keys.size(), (unsigned long long)threshold);
        s.label(before ? "attested" : "not attested");
        if(!c.m_attestations.empty()) {
            s.nontrivial();
        }
        // then something goes wrong
        auto changed_content = false;
        switch(s.below(6)) {
            case 0:
                changed_content = change_content(s, c, what);
                break;
            case 1:
                if(!c.m_attestations.empty()) {
                    flip(s, std::next(c.m_attestations.begin(), static_cast<ptrdiff_t>(s.below(c.m_attestations.size())))->second);
                    what = "signature bit";
                }
                break;
            case 2: // one sentinel's signature in the name of another
                if(!c.m_attestations.empty()) {
                    auto sig = c.m_attestations.begin()->second;
                    c.m_attestations[pool(s.below(7)).m_pub] = sig;
                    what = "signature of another";
                }
                break;
            case 3: { // a name that is no key, or no sentinel
                auto p = rndhash(s);
                if(!c.m_attestations.empty()) {
                    p = c.m_attestations.begin()->first;
                    flip(s, p);
                }
                c.m_attestations[p] = c.m_attestations.empty() ? cbdc::signature_t{} : c.m_attestations.begin()->second;
                what = "no such sentinel";
                break;
            }
            case 4: // a sentinel less configured
                if(!keys.empty()) {
                    keys.erase(pool(s.below(nk)).m_pub);
                    what = "sentinel gone";
                }
                break;
            default: { // valid, by someone who is not configured
                auto k = 7 + s.below(17);
                c.m_attestations.insert(c.sign(ctx(), pool(k).m_priv));
                what = "stranger";
            }
        }
        s.note("%zu keys, threshold %llu, %zu attestations, %s", keys.size(), (unsigned long long)threshold, c.m_attestations.size(), what.c_str());
        auto want = ref_attested(c, keys, threshold);
        PBT_CHECK(val::check_attestations(c, keys, threshold) == want, "%s after: %s (%zu attestations, %zu keys, threshold %llu)",
                  want ? "not attested" : "attested", what.c_str(), c.m_attestations.size(), keys.size(), (unsigned long long)threshold);
        if(changed_content) {
            PBT_CHECK(c.hash() != h, "sentinels would sign the same after a change of %s", what.c_str());
            for(auto& a : c.m_attestations) {
                PBT_CHECK(!c.verify(ctx(), a), "an attestation still verifies after a change of %s", what.c_str());
            }
        }
        for(auto& a : c.m_attestations) {
            PBT_CHECK(c.verify(ctx(), a) == utx::verify(a.second.data(), ref_attest_hash(c).data(), a.first.data()), "verify after: %s", what.c_str());
        }
    }

    // The compact form of a transaction is what is attested.
    void of_full(Src& s) {
        auto t = any_tx(s, 4);
        compact_tx a(t);
        auto& k = pool(s.below(24));
        auto att = a.sign(ctx(), k.m_priv);
        auto u = t;
        std::string what;
        if(!change(s, u, what)) {
            throw pbt::Discard{};
        }
        compact_tx b(u);
        auto same = t.m_inputs == u.m_inputs && t.m_outputs == u.m_outputs;
        PBT_CHECK(a.verify(ctx(), att), "an attestation does not verify");
        PBT_CHECK(b.verify(ctx(), att) == same, "an attestation holds for another transaction: %s", what.c_str());
        t.m_witness.clear();
        PBT_CHECK(compact_tx(t).verify(ctx(), att), "an attestation depends on the witnesses");
        s.note("%s", what.c_str());
        s.nontrivial();
    }

    void key_pairs(Src& s) {
        privkey_t k{};
        switch(s.below(4)) {
            case 0:
                k = mkkey(s.below(1000));
                break;
            case 1:
                k[31] = static_cast<unsigned char>(1 + s.below(255));
                break;
            default:
                k = rndhash(s);
        }
        if(secp256k1_ec_seckey_verify(ctx(), k.data()) != 1) {
            throw pbt::Discard{};
        }
        auto key = make_key(k);
        PBT_CHECK(cbdc::pubkey_from_privkey(k, ctx()) == key.m_pub, "public key of %s", hx(k).c_str());
        auto c = any_ctx(s);
        auto att = c.sign(ctx(), k);
        auto h = ref_attest_hash(c);
        PBT_CHECK(att.first == key.m_pub && utx::verify(att.second.data(), h.data(), att.first.data()), "signing with %s", hx(k).c_str());
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C03";
    c.m_rule = "compact transactions of up to 4 inputs and outputs, 0 to 6 configured sentinels, any threshold, up to 5 "
               "attestations by configured sentinels and strangers, then one tampering with content, signature, name or "
               "configuration. Non-trivial: there is an attestation";
    c.m_assumptions = {"libsecp256k1 signs and verifies Schnorr signatures correctly"};
    c.m_props = {{"attested", attested, 40000, 1200000}, {"of_full", of_full, 16000, 500000}, {"key_pairs", key_pairs, 12000, 300000}};
    return pbt::run(argc, argv, c);
}
