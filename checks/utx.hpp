// Full transactions of the UHS systems: keys, an independent serialisation
// and ids, signing.
#pragma once
#include "common.hpp"
#include "refhash.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"

#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>

namespace utx {
    using namespace cbdc::transaction;
    using cbdc::hash_t;
    using cbdc::privkey_t;
    using cbdc::pubkey_t;
    using pbt::Src;
    using pbt::u64;
    using bytes = std::vector<uint8_t>;

    inline secp256k1_context* ctx() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    struct key {
        privkey_t m_priv{};
        pubkey_t m_pub{};
        secp256k1_keypair m_kp{};
    };
    inline key make_key(const privkey_t& p) {
        key k;
        k.m_priv = p;
        if(secp256k1_keypair_create(ctx(), &k.m_kp, p.data()) != 1) {
            throw pbt::Discard{};
        }
        secp256k1_xonly_pubkey x;
        secp256k1_keypair_xonly_pub(ctx(), &x, nullptr, &k.m_kp);
        secp256k1_xonly_pubkey_serialize(ctx(), k.m_pub.data(), &x);
        return k;
    }
    // A fixed pool of keys.
    inline const key& pool(size_t i) {
        static const auto p = [] {
            std::vector<key> r;
            for(u64 n = 0; n < 24; n++) {
                r.push_back(make_key(vt::mkkey(n * 77 + 5)));
            }
            return r;
        }();
        return p[i % p.size()];
    }
    inline std::array<unsigned char, 64> sign(const key& k, const hash_t& msg) {
        std::array<unsigned char, 64> sig{};
        if(secp256k1_schnorrsig_sign32(ctx(), sig.data(), msg.data(), &k.m_kp, nullptr) != 1) {
            throw pbt::Discard{};
        }
        return sig;
    }
    inline bool verify(const unsigned char* sig, const unsigned char* msg, const unsigned char* pub) {
        secp256k1_xonly_pubkey x;
        if(secp256k1_xonly_pubkey_parse(ctx(), &x, pub) != 1) {
            return false;
        }
        // parenthesised: the function of the library, not an overload
        return (static_cast<int (*)(const secp256k1_context*, const unsigned char*, const unsigned char*, size_t, const secp256k1_xonly_pubkey*)>(
                   &::secp256k1_schnorrsig_verify))(ctx(), sig, msg, 32, &x)
            == 1;
    }
    inline bool pubkey_ok(const unsigned char* pub) {
        secp256k1_xonly_pubkey x;
        return secp256k1_xonly_pubkey_parse(ctx(), &x, pub) == 1;
    }

    // ------------------------------------------ independent serialisation
    inline void put64(bytes& b, u64 v) {
        for(int i = 0; i < 8; i++) {
            b.push_back(static_cast<uint8_t>(v >> (8 * i)));
        }
    }
    template<typename A>
    void put(bytes& b, const A& a) {
        b.insert(b.end(), a.begin(), a.end());
    }
    inline void put(bytes& b, const output& o) {
        put(b, o.m_witness_program_commitment);
        put64(b, o.m_value);
    }
    inline void put(bytes& b, const input& i) {
        put(b, i.m_prevout.m_tx_id);
        put64(b, i.m_prevout.m_index);
        put(b, i.m_prevout_data);
    }
    inline hash_t sha(const bytes& b) {
        auto h = ref::sha(b);
        hash_t r{};
        std::copy(h.begin(), h.end(), r.begin());
        return r;
    }
    inline hash_t ref_tx_id(const full_tx& t) {
        bytes b;
        put64(b, t.m_inputs.size());
        for(auto& i : t.m_inputs) {
            put(b, i);
        }
        put64(b, t.m_outputs.size());
        for(auto& o : t.m_outputs) {
            put(b, o);
        }
        return sha(b);
    }
    inline hash_t ref_uhs_id(const hash_t& txid, u64 idx, const output& o) {
        bytes b;
        put(b, txid);
        put64(b, idx);
        put(b, o);
        return sha(b);
    }
    inline hash_t ref_commitment(const pubkey_t& p) {
        bytes b{0};
        put(b, p);
        return sha(b);
    }
    // The message sentinels sign.
    inline hash_t ref_attest_hash(const compact_tx& t) {
        bytes b;
        put(b, t.m_id);
        put64(b, t.m_inputs.size());
        for(auto& h : t.m_inputs) {
            put(b, h);
        }
        put64(b, t.m_uhs_outputs.size());
        for(auto& h : t.m_uhs_outputs) {
            put(b, h);
        }
        put64(b, 0);
        return sha(b);
    }
    inline cbdc::witness_t witness(const key& k, const hash_t& msg) {
        cbdc::witness_t w;
        w.push_back(std::byte{0});
        for(auto c : k.m_pub) {
            w.push_back(std::byte{c});
        }
        for(auto c : sign(k, msg)) {
            w.push_back(std::byte{c});
        }
        return w;
    }

    // ----------------------------------------------------- generation
    inline output any_output(Src& s) {
        output o;
        o.m_witness_program_commitment = vt::rndhash(s);
        if(s.chance(1, 6)) {
            o.m_witness_program_commitment.fill(static_cast<uint8_t>(s.below(3)));
        }
        o.m_value = s.edgy();
        return o;
    }
    inline input any_input(Src& s) {
        input i;
        i.m_prevout.m_tx_id = vt::rndhash(s);
        if(s.chance(1, 6)) {
            i.m_prevout.m_tx_id.fill(static_cast<uint8_t>(s.below(3)));
        }
        i.m_prevout.m_index = s.edgy();
        i.m_prevout_data = any_output(s);
        return i;
    }
    inline full_tx any_tx(Src& s, size_t max = 5) {
        full_tx t;
        auto n = s.below(max + 1);
        auto m = s.below(max + 1);
        for(u64 i = 0; i < n; i++) {
            t.m_inputs.push_back(any_input(s));
        }
        for(u64 i = 0; i < m; i++) {
            t.m_outputs.push_back(any_output(s));
        }
        auto w = s.below(max + 1);
        for(u64 i = 0; i < w; i++) {
            cbdc::witness_t x;
            auto len = s.size(120);
            for(u64 j = 0; j < len; j++) {
                x.push_back(static_cast<std::byte>(s.below(256)));
            }
            t.m_witness.push_back(x);
        }
        return t;
    }
    template<typename A>
    void flip(Src& s, A& a) {
        auto b = s.below(a.size() * 8);
        a[b / 8] = static_cast<typename A::value_type>(static_cast<unsigned>(a[b / 8]) ^ (1U << (b % 8)));
    }
    inline void flip64(Src& s, u64& v) {
        v ^= u64{1} << s.below(64);
    }
    inline std::string show(const full_tx& t) {
        std::string r = "in";
        for(auto& i : t.m_inputs) {
            r += " " + vt::h8(i.m_prevout.m_tx_id) + ":" + std::to_string(i.m_prevout.m_index) + "=" + std::to_string(i.m_prevout_data.m_value) + "@"
               + vt::h8(i.m_prevout_data.m_witness_program_commitment);
        }
        r += " out";
        for(auto& o : t.m_outputs) {
            r += " " + std::to_string(o.m_value) + "@" + vt::h8(o.m_witness_program_commitment);
        }
        r += " wit";
        for(auto& w : t.m_witness) {
            r += " " + std::to_string(w.size());
        }
        return r;
    }
    // Changes one thing that the id must cover; false if nothing to change.
    inline bool change(Src& s, full_tx& t, std::string& what) {
        switch(s.below(12)) {
            case 0:
                if(t.m_inputs.empty()) {
                    return false;
                }
                flip(s, t.m_inputs[s.below(t.m_inputs.size())].m_prevout.m_tx_id);
                what = "prevout id";
                return true;
            case 1:
                if(t.m_inputs.empty()) {
                    return false;
                }
                flip64(s, t.m_inputs[s.below(t.m_inputs.size())].m_prevout.m_index);
                what = "prevout index";
                return true;
            case 2:
                if(t.m_inputs.empty()) {
                    return false;
                }
                flip64(s, t.m_inputs[s.below(t.m_inputs.size())].m_prevout_data.m_value);
                what = "prevout value";
                return true;
            case 3:
                if(t.m_inputs.empty()) {
                    return false;
                }
                flip(s, t.m_inputs[s.below(t.m_inputs.size())].m_prevout_data.m_witness_program_commitment);
                what = "prevout owner";
                return true;
            case 4:
                if(t.m_outputs.empty()) {
                    return false;
                }
                flip64(s, t.m_outputs[s.below(t.m_outputs.size())].m_value);
                what = "output value";
                return true;
            case 5:
                if(t.m_outputs.empty()) {
                    return false;
                }
                flip(s, t.m_outputs[s.below(t.m_outputs.size())].m_witness_program_commitment);
                what = "output owner";
                return true;
            case 6: {
                if(t.m_inputs.size() < 2) {
                    return false;
                }
                auto a = s.below(t.m_inputs.size());
                auto b = s.below(t.m_inputs.size());
                if(t.m_inputs[a] == t.m_inputs[b]) {
                    return false;
                }
                std::swap(t.m_inputs[a], t.m_inputs[b]);
                what = "order of inputs";
                return true;
            }
            case 7: {
                if(t.m_outputs.size() < 2) {
                    return false;
                }
                auto a = s.below(t.m_outputs.size());
                auto b = s.below(t.m_outputs.size());
                if(t.m_outputs[a] == t.m_outputs[b]) {
                    return false;
                }
                std::swap(t.m_outputs[a], t.m_outputs[b]);
                what = "order of outputs";
                return true;
            }
            case 8:
                if(t.m_inputs.empty()) {
                    return false;
                }
                t.m_inputs.erase(t.m_inputs.begin() + static_cast<ptrdiff_t>(s.below(t.m_inputs.size())));
                what = "an input left out";
                return true;
            case 9:
                if(t.m_outputs.empty()) {
                    return false;
                }
                t.m_outputs.erase(t.m_outputs.begin() + static_cast<ptrdiff_t>(s.below(t.m_outputs.size())));
                what = "an output left out";
                return true;
            case 10:
                if(t.m_inputs.empty() || s.coin()) {
                    t.m_inputs.push_back(any_input(s));
                } else {
                    t.m_inputs.push_back(t.m_inputs[s.below(t.m_inputs.size())]);
                }
                what = "an input more";
                return true;
            default:
                if(t.m_outputs.empty() || s.coin()) {
                    t.m_outputs.push_back(any_output(s));
                } else {
                    t.m_outputs.push_back(t.m_outputs[s.below(t.m_outputs.size())]);
                }
                what = "an output more";
                return true;
        }
    }
}
