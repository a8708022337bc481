// Encodings and signatures of EVM transactions.
#include "common.hpp"
#include "parsec/agent/runners/evm/address.hpp"
#include "parsec/agent/runners/evm/format.hpp"
#include "parsec/agent/runners/evm/hash.hpp"
#include "parsec/agent/runners/evm/messages.hpp"
#include "parsec/agent/runners/evm/rlp.hpp"
#include "parsec/agent/runners/evm/serialization.hpp"
#include "parsec/agent/runners/evm/signature.hpp"
#include "parsec/agent/runners/evm/util.hpp"

#include <ethash/keccak.hpp>
#include <functional>
#include <map>
#include <pthread.h>
#include <secp256k1.h>

using namespace vt;
using namespace cbdc::parsec::agent::runner;
using cbdc::buffer;
using cbdc::rlp_value;
using cbdc::rlp_value_type;
using u256 = evmc::uint256be;

namespace {
    std::shared_ptr<secp256k1_context> ctx() {
        static auto c = std::shared_ptr<secp256k1_context>(
            secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY),
            secp256k1_context_destroy);
        return c;
    }
    using str = std::string;
    buffer buf(const str& t) {
        buffer b;
        b.append(t.data(), t.size());
        return b;
    }
    str raw(const buffer& b) {
        return {reinterpret_cast<const char*>(b.data()), b.size()};
    }
    template<typename T>
    str rawb(const T& v) {
        return {reinterpret_cast<const char*>(v.bytes), sizeof(v.bytes)};
    }
    str hexs(const str& b) {
        return pbt::hex(reinterpret_cast<const unsigned char*>(b.data()), b.size());
    }
    str keccak(const str& d) {
        auto h = ethash::keccak256(reinterpret_cast<const uint8_t*>(d.data()), d.size());
        return {reinterpret_cast<const char*>(h.bytes), 32};
    }
    void known() {
        static bool ok = hexs(keccak("")) == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470";
        if(!ok) {
            pbt::fail("the stand-in for keccak is wrong");
        }
    }

    // -- RLP, from the yellow paper

    struct node {
        bool m_list{false};
        str m_data;
        std::vector<node> m_kids;
    };
    str be(u64 v) {
        str o;
        for(; v != 0; v >>= 8U) {
            o.insert(o.begin(), static_cast<char>(v & 0xffU));
        }
        return o;
    }
    str head(size_t n, unsigned base) {
        if(n <= 55) {
            return str(1, static_cast<char>(base + n));
        }
        auto l = be(n);
        return str(1, static_cast<char>(base + 55 + l.size())) + l;
    }
    str enc(const node& n) {
        if(!n.m_list) {
            if(n.m_data.size() == 1 && static_cast<unsigned char>(n.m_data[0]) < 0x80) {
                return n.m_data;
            }
            return head(n.m_data.size(), 0x80) + n.m_data;
        }
        str o;
        for(auto& k : n.m_kids) {
            o += enc(k);
        }
        return head(o.size(), 0xc0) + o;
    }
    node leaf(str d) {
        node n;
        n.m_data = std::move(d);
        return n;
    }
    node list(std::vector<node> k) {
        node n;
        n.m_list = true;
        n.m_kids = std::move(k);
        return n;
    }
    // 0: malformed, 1: not in its only form, 2: good
    int dec(const str& in, size_t& at, size_t end, node& n, int depth) {
        if(at >= end) {
            return 0;
        }
        auto b = static_cast<unsigned char>(in[at++]);
        if(b < 0x80) {
            n = leaf(str(1, static_cast<char>(b)));
            return 2;
        }
        bool isl = b >= 0xc0;
        size_t base = isl ? 0xc0 : 0x80;
        size_t len = b - base;
        int q = 2;
        if(len > 55) {
            auto ll = len - 55;
            if(end - at < ll) {
                return 0;
            }
            if(in[at] == 0) {
                q = 1;
            }
            len = 0;
            for(size_t i = 0; i < ll; i++) {
                len = (len << 8U) | static_cast<unsigned char>(in[at++]);
            }
            if(len <= 55) {
                q = 1;
            }
        }
        if(len > end - at) {
            return 0;
        }
        if(!isl) {
            n = leaf(in.substr(at, len));
            at += len;
            if(len == 1 && static_cast<unsigned char>(n.m_data[0]) < 0x80) {
                q = 1;
            }
            return q;
        }
        n = list({});
        auto stop = at + len;
        if(depth > 16) {
            q = 1; // may be refused
        }
        while(at < stop) {
            node k;
            auto r = dec(in, at, stop, k, depth + 1);
            if(r == 0) {
                return 0;
            }
            q = std::min(q, r);
            n.m_kids.push_back(std::move(k));
        }
        return q;
    }
    str rnd(Src& s, u64 n) {
        str o;
        for(; n > 0; n--) {
            o += static_cast<char>(s.chance(1, 4) ? s.pick(std::vector<int>{0, 0x7f, 0x80, 0xff, 0xb8, 0xc1, 0xf8}) : static_cast<int>(s.below(256)));
        }
        return o;
    }
    node tree(Src& s, int depth) {
        if(depth == 0 || s.coin()) {
            auto n = s.chance(1, 6) ? s.pick(std::vector<u64>{54, 55, 56, 57, 255, 256, 257, 1000}) : s.below(6);
            return leaf(rnd(s, n));
        }
        std::vector<node> k;
        for(auto n = s.size(5); n > 0; n--) {
            k.push_back(tree(s, depth - 1));
        }
        return list(k);
    }
    rlp_value build(const node& n) {
        if(!n.m_list) {
            return rlp_value(buf(n.m_data));
        }
        auto v = rlp_value(rlp_value_type::array);
        for(auto& k : n.m_kids) {
            PBT_CHECK(v.push_back(build(k)), "push_back");
        }
        return v;
    }
    bool same(const node& n, const rlp_value& v) {
        if((v.type() == rlp_value_type::array) != n.m_list) {
            return false;
        }
        if(!n.m_list) {
            return v.size() == n.m_data.size() && (n.m_data.empty() || std::memcmp(v.data(), n.m_data.data(), n.m_data.size()) == 0);
        }
        if(v.size() != n.m_kids.size()) {
            return false;
        }
        for(size_t i = 0; i < n.m_kids.size(); i++) {
            if(!same(n.m_kids[i], v.value_at(i))) {
                return false;
            }
        }
        return true;
    }

    void run_rlp(Src& s) {
        auto n = tree(s, 4);
        auto want = enc(n);
        s.note("%zu bytes: %s", want.size(), hexs(want.substr(0, 60)).c_str());
        auto got = raw(cbdc::make_buffer(build(n)));
        PBT_CHECK(got == want, "encoded as %s", hexs(got.substr(0, 60)).c_str());
        auto b = buf(want);
        auto v = cbdc::from_buffer<rlp_value>(b);
        PBT_CHECK(v.has_value() && same(n, *v), "not decoded");
        auto cut = buf(want.substr(0, s.below(want.size())));
        PBT_CHECK(!cbdc::from_buffer<rlp_value>(cut).has_value(), "%zu of %zu bytes are decoded", cut.size(), want.size());
        if(n.m_list && want.size() > 60) {
            s.nontrivial();
        }
    }

    // -- transactions

    u256 num(Src& s) {
        u256 r{};
        auto n = s.chance(1, 5) ? 0 : s.chance(1, 6) ? 32 : 1 + s.below(10);
        for(size_t i = 32 - n; i < 32; i++) {
            r.bytes[i] = static_cast<uint8_t>(s.chance(1, 6) ? 0 : s.below(256));
        }
        return r;
    }
    str trim(const u256& v) {
        auto t = rawb(v);
        auto i = t.find_first_not_of('\0');
        return i == str::npos ? "" : t.substr(i);
    }
    evmc::address addr(Src& s) {
        evmc::address a{};
        if(!s.chance(1, 8)) {
            for(auto& b : a.bytes) {
                b = static_cast<uint8_t>(s.chance(1, 6) ? 0 : s.below(256));
            }
        }
        return a;
    }
    evm_tx mktx(Src& s) {
        evm_tx t;
        t.m_type = static_cast<evm_tx_type>(s.below(3));
        if(s.chance(3, 4)) {
            t.m_to = addr(s);
        }
        t.m_value = num(s);
        t.m_nonce = num(s);
        t.m_gas_limit = num(s);
        if(t.m_type == evm_tx_type::dynamic_fee) {
            t.m_gas_tip_cap = num(s);
            t.m_gas_fee_cap = num(s);
        } else {
            t.m_gas_price = num(s);
        }
        auto d = rnd(s, s.chance(1, 6) ? s.below(400) : s.size(40));
        t.m_input.assign(d.begin(), d.end());
        if(t.m_type != evm_tx_type::legacy) {
            for(auto n = s.size(3); n > 0; n--) {
                evm_access_tuple at;
                at.m_address = addr(s);
                for(auto m = s.size(3); m > 0; m--) {
                    at.m_storage_keys.push_back(num(s));
                }
                t.m_access_list.push_back(at);
            }
        }
        return t;
    }
    u256 small(u64 v) {
        u256 r{};
        for(int i = 0; i < 8; i++) {
            r.bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
        }
        return r;
    }
    std::vector<node> fields(const evm_tx& t, u64 chain, bool sighash) {
        std::vector<node> k;
        if(t.m_type != evm_tx_type::legacy) {
            k.push_back(leaf(be(chain)));
        }
        k.push_back(leaf(trim(t.m_nonce)));
        if(t.m_type == evm_tx_type::dynamic_fee) {
            k.push_back(leaf(trim(t.m_gas_tip_cap)));
            k.push_back(leaf(trim(t.m_gas_fee_cap)));
        } else {
            k.push_back(leaf(trim(t.m_gas_price)));
        }
        k.push_back(leaf(trim(t.m_gas_limit)));
        k.push_back(leaf(t.m_to ? rawb(*t.m_to) : ""));
        k.push_back(leaf(trim(t.m_value)));
        k.push_back(leaf(str(t.m_input.begin(), t.m_input.end())));
        if(t.m_type != evm_tx_type::legacy) {
            auto al = list({});
            for(auto& e : t.m_access_list) {
                auto keys = list({});
                for(auto& y : e.m_storage_keys) {
                    keys.m_kids.push_back(leaf(rawb(y)));
                }
                al.m_kids.push_back(list({leaf(rawb(e.m_address)), keys}));
            }
            k.push_back(al);
        } else if(sighash) {
            k.push_back(leaf(be(chain)));
            k.push_back(leaf(""));
            k.push_back(leaf(""));
        }
        if(!sighash) {
            k.push_back(leaf(trim(t.m_sig.m_v)));
            k.push_back(leaf(trim(t.m_sig.m_r)));
            k.push_back(leaf(trim(t.m_sig.m_s)));
        }
        return k;
    }
    str typed(const evm_tx& t, const std::vector<node>& k) {
        return (t.m_type == evm_tx_type::legacy ? "" : str(1, static_cast<char>(t.m_type))) + enc(list(k));
    }
    bool same(const evm_tx& a, const evm_tx& b) {
        return a.m_type == b.m_type && a.m_to == b.m_to && a.m_value == b.m_value && a.m_nonce == b.m_nonce
            && a.m_gas_price == b.m_gas_price && a.m_gas_limit == b.m_gas_limit && a.m_gas_tip_cap == b.m_gas_tip_cap
            && a.m_gas_fee_cap == b.m_gas_fee_cap && a.m_input == b.m_input && a.m_access_list == b.m_access_list
            && a.m_sig.m_v == b.m_sig.m_v && a.m_sig.m_r == b.m_sig.m_r && a.m_sig.m_s == b.m_sig.m_s;
    }
    u64 mkchain(Src& s) {
        return s.coin() ? opencbdc_chain_id : s.chance(1, 2) ? 1 + s.below(300) : 1 + (s.edgy() >> 3U);
    }
    str eth_address(const cbdc::privkey_t& k) {
        secp256k1_pubkey p{};
        unsigned char o[65];
        size_t n = 65;
        if(secp256k1_ec_pubkey_create(ctx().get(), &p, k.data()) != 1) {
            throw pbt::Discard{};
        }
        secp256k1_ec_pubkey_serialize(ctx().get(), o, &n, &p, SECP256K1_EC_UNCOMPRESSED);
        return keccak(str(reinterpret_cast<char*>(o) + 1, 64)).substr(12);
    }
    str text(const evm_tx& t, u64 chain) {
        return pbt::fmt("type %d chain %llu: ", static_cast<int>(t.m_type), static_cast<unsigned long long>(chain))
             + hexs(typed(t, fields(t, chain, false))).substr(0, 400);
    }
    // One field is changed.
    str change(Src& s, evm_tx& t) {
        auto flip = [&](auto& v) { v.bytes[s.below(sizeof(v.bytes))] ^= static_cast<uint8_t>(1U << s.below(8)); };
        switch(s.below(9)) {
            case 0:
                flip(t.m_value);
                return "value";
            case 1:
                flip(t.m_nonce);
                return "nonce";
            case 2:
                flip(t.m_gas_limit);
                return "gas limit";
            case 3:
                if(t.m_type == evm_tx_type::dynamic_fee) {
                    flip(s.coin() ? t.m_gas_tip_cap : t.m_gas_fee_cap);
                } else {
                    flip(t.m_gas_price);
                }
                return "price";
            case 4:
                if(t.m_to) {
                    if(s.chance(1, 3)) {
                        t.m_to.reset();
                    } else {
                        flip(*t.m_to);
                    }
                } else {
                    t.m_to = addr(s);
                }
                return "receiver";
            case 5:
                if(t.m_input.empty() || s.coin()) {
                    t.m_input.push_back(static_cast<uint8_t>(s.below(256)));
                } else {
                    t.m_input[s.below(t.m_input.size())] ^= 1U;
                }
                return "input";
            case 6:
                if(t.m_type == evm_tx_type::legacy) {
                    flip(t.m_value);
                    return "value";
                }
                if(t.m_access_list.empty() || s.coin()) {
                    t.m_access_list.push_back({addr(s), {}});
                } else if(s.coin()) {
                    t.m_access_list.back().m_storage_keys.push_back(num(s));
                } else {
                    t.m_access_list.pop_back();
                }
                return "access list";
            case 7: {
                auto was = t.m_type;
                t.m_type = static_cast<evm_tx_type>((static_cast<unsigned>(t.m_type) + 1 + s.below(2)) % 3);
                if(was == evm_tx_type::legacy || t.m_type == evm_tx_type::legacy) {
                    t.m_sig.m_v = small(s.below(2)); // as the other type has it
                }
                return "type";
            }
            default:
                flip(s.coin() ? t.m_sig.m_r : t.m_sig.m_s);
                return "signature";
        }
    }

    void run_tx(Src& s) {
        known();
        auto t = mktx(s);
        auto chain = mkchain(s);
        auto key = mkkey(1 + s.below(1000));
        auto who = eth_address(key);
        PBT_CHECK(rawb(eth_addr(key, ctx())) == who, "eth_addr");
        auto sh = keccak(typed(t, fields(t, chain, true)));
        auto got = sig_hash(t, chain);
        s.note("%s", text(t, chain).c_str());
        PBT_CHECK(str(reinterpret_cast<char*>(got.data()), 32) == sh, "sig_hash");
        t.m_sig = eth_sign(key, got, t.m_type, ctx(), chain);
        // v: recovery id, with the chain in it for legacy transactions
        auto v = to_uint64(t.m_sig.m_v) - (t.m_type == evm_tx_type::legacy ? 35 + 2 * chain : 0);
        PBT_CHECK(v < 2 && t.m_sig.m_v == small(to_uint64(t.m_sig.m_v)), "v %llu", static_cast<unsigned long long>(v));
        auto bytes = typed(t, fields(t, chain, false));
        PBT_CHECK(raw(tx_encode(t, chain)) == bytes, "tx_encode: %s", hexs(raw(tx_encode(t, chain))).c_str());
        auto id = tx_id(t, chain);
        PBT_CHECK(str(reinterpret_cast<char*>(id.data()), 32) == keccak(bytes), "tx_id");
        auto d = tx_decode(buf(bytes), nullptr, chain);
        PBT_CHECK(d.has_value() && same(**d, t), "tx_decode");
        auto from = check_signature(**d, ctx(), chain);
        PBT_CHECK(from.has_value() && rawb(*from) == who, "the signer is not recovered");
        // for no other chain
        auto other = mkchain(s);
        if(other != chain) {
            PBT_CHECK(!tx_decode(buf(bytes), nullptr, other).has_value(), "accepted on chain %llu", static_cast<unsigned long long>(other));
            auto f = check_signature(t, ctx(), other);
            PBT_CHECK(!f.has_value() || rawb(*f) != who, "signed for chain %llu too", static_cast<unsigned long long>(other));
        }
        // nothing else
        auto e = t;
        auto what = change(s, e);
        s.label("changed " + what);
        if(!same(e, t) && e.m_type != evm_tx_type::legacy ? true : !same(e, t)) {
            auto f = check_signature(e, ctx(), chain);
            PBT_CHECK(!f.has_value() || rawb(*f) != who, "the signature holds with another %s", what.c_str());
        }
        // wire format
        auto wb = cbdc::make_buffer(t);
        auto w = cbdc::from_buffer<evm_tx>(wb);
        PBT_CHECK(w.has_value() && same(*w, t), "wire format");
        s.nontrivial();
        s.label("type " + std::to_string(static_cast<int>(t.m_type)));
    }

    // On a thread with a stack of 1 MB.
    void small_stack(std::function<void()> f) {
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1U << 20U);
        pthread_t th{};
        auto run = [](void* p) -> void* {
            (*static_cast<std::function<void()>*>(p))();
            return nullptr;
        };
        if(pthread_create(&th, &a, run, &f) != 0) {
            throw pbt::Discard{};
        }
        pthread_join(th, nullptr);
        pthread_attr_destroy(&a);
    }

    // One thing is wrong with the encoding.
    void run_malformed(Src& s) {
        auto t = mktx(s);
        t.m_sig.m_v = small(t.m_type == evm_tx_type::legacy ? 35 + 2 * opencbdc_chain_id : 1);
        t.m_sig.m_r = num(s);
        t.m_sig.m_s = num(s);
        auto k = fields(t, opencbdc_chain_id, false);
        const size_t to = t.m_type == evm_tx_type::legacy ? 3 : t.m_type == evm_tx_type::access_list ? 4 : 5;
        const bool al = t.m_type != evm_tx_type::legacy;
        std::vector<size_t> nums;
        for(size_t i = 0; i < k.size(); i++) {
            if(i != to && i != to + 2 && !(al && i == to + 3)) {
                nums.push_back(i);
            }
        }
        str what;
        str out;
        switch(s.weighted({3, 3, 2, 2, 2, al ? 8U : 0U, 2, 2, 2, 1, al ? 1U : 0U})) {
            case 0:
                what = "a number of more than 32 bytes";
                k[s.pick(nums)] = leaf("\x01" + rnd(s, 32 + s.below(200)));
                break;
            case 1:
                what = "a list for a number";
                k[s.pick(nums)] = list(s.coin() ? std::vector<node>{} : std::vector<node>{leaf("a")});
                break;
            case 2: {
                what = "a receiver of another size";
                auto n = s.coin() ? 1 + s.below(19) : 21 + s.below(100);
                k[to] = leaf(rnd(s, n));
                break;
            }
            case 3:
                what = "a list for receiver or input";
                k[s.coin() ? to : to + 2] = list(std::vector<node>(s.below(40), leaf("a")));
                break;
            case 4:
                what = "an element more or less";
                if(s.coin()) {
                    k.pop_back();
                } else {
                    k.push_back(leaf("a"));
                }
                break;
            case 5: {
                what = "an access list ";
                auto& l = k[to + 3];
                auto tup = list({leaf(rnd(s, 20)), list({leaf(rnd(s, 32))})});
                switch(s.below(6)) {
                    case 0:
                        what += "that is no list";
                        l = leaf(rnd(s, s.below(40)));
                        break;
                    case 1:
                        what += "with an entry that is no list";
                        tup = leaf(rnd(s, 2 + s.below(3)));
                        break;
                    case 2:
                        what += "with an entry of another length";
                        if(s.coin()) {
                            tup.m_kids.resize(s.below(2));
                        } else {
                            tup.m_kids.push_back(list({}));
                        }
                        break;
                    case 3:
                        what += "with an address of another size";
                        tup.m_kids[0] = s.coin() ? leaf(rnd(s, s.coin() ? s.below(20) : 21 + s.below(40))) : list({});
                        break;
                    case 4:
                        what += "with keys that are no list";
                        tup.m_kids[1] = leaf(rnd(s, s.below(40)));
                        break;
                    default:
                        what += "with a key of another size";
                        tup.m_kids[1].m_kids[0] = s.coin() ? leaf(rnd(s, s.coin() ? s.below(32) : 33 + s.below(40))) : list({});
                }
                if(l.m_list) {
                    l.m_kids.insert(l.m_kids.begin() + static_cast<long>(s.below(l.m_kids.size() + 1)), tup);
                }
                break;
            }
            case 6:
                what = "bytes missing";
                out = typed(t, k);
                out = out.substr(0, s.below(out.size()));
                break;
            case 7:
                what = "no list";
                out = (al ? str(1, static_cast<char>(t.m_type)) : "") + enc(leaf(rnd(s, k.size())));
                break;
            case 8: {
                what = "deep nesting";
                str x;
                for(auto n = s.pick(std::vector<size_t>{10, 100, 1000, 3000, 6000}); n > 0; n--) {
                    // lengths need not be right to be followed
                    x = s.coin() && x.size() < 300 ? head(x.size(), 0xc0) + x : x;
                    if(x.size() >= 300) {
                        auto l = x.size();
                        x.insert(0, str(1, static_cast<char>(0xf9)) + static_cast<char>(l >> 8U) + static_cast<char>(l & 0xffU));
                        if(x.size() > 50000) {
                            break;
                        }
                    } else if(x.empty()) {
                        x = "\xc0";
                    }
                }
                out = (al ? str(1, static_cast<char>(t.m_type)) : "") + x;
                break;
            }
            case 10: {
                what = "a chain ID that is ours in its last 64 bits only";
                auto c = be(opencbdc_chain_id);
                k[0] = leaf(str(1, static_cast<char>(1 + s.below(255))) + str(8 + s.below(10) - c.size(), '\0') + c);
                break;
            }
            default: {
                what = "a huge length";
                auto p = str(1, static_cast<char>(s.coin() ? 0xff : 0xbf)) + (s.coin() ? str(8, '\xff') : "\x7f" + rnd(s, 7));
                out = (al ? str(1, static_cast<char>(t.m_type)) : "") + (s.coin() ? p : head(p.size(), 0xc0) + p) + rnd(s, s.below(20));
            }
        }
        if(out.empty() && what != "bytes missing") {
            out = typed(t, k);
        }
        s.note("type %d, %s: %s", static_cast<int>(t.m_type), what.c_str(), hexs(out.substr(0, 300)).c_str());
        auto ok = false;
        small_stack([&] {
            ok = tx_decode(buf(out), nullptr).has_value();
        });
        PBT_CHECK(!ok, "accepted");
        PBT_CHECK(!raw_tx_from_json(Json::Value("0x" + hexs(out))).has_value(), "accepted as text");
        s.label(what);
        s.nontrivial();
    }

    void run_fuzz(Src& s) {
        str in;
        if(s.coin()) {
            in = rnd(s, s.size(60));
        } else {
            auto t = mktx(s);
            in = typed(t, fields(t, opencbdc_chain_id, false));
            for(auto n = 1 + s.size(4); n > 0 && !in.empty(); n--) {
                auto at = s.below(in.size());
                switch(s.below(4)) {
                    case 0:
                        in[at] = static_cast<char>(s.below(256));
                        break;
                    case 1:
                        in.erase(at, 1 + s.below(3));
                        break;
                    case 2:
                        in.insert(at, rnd(s, 1 + s.below(3)));
                        break;
                    default:
                        in[at] = static_cast<char>(s.pick(std::vector<int>{0x80, 0xb7, 0xb8, 0xbf, 0xc0, 0xf7, 0xf8, 0xff, 0xa0, 0xa1, 0x94}));
                }
            }
        }
        s.note("%s", hexs(in).c_str());
        node n;
        size_t at = 0;
        auto q = dec(in, at, in.size(), n, 0);
        auto b = buf(in);
        auto v = cbdc::from_buffer<rlp_value>(b);
        PBT_CHECK(q != 0 || !v.has_value(), "RLP: malformed, and accepted");
        PBT_CHECK(q != 2 || v.has_value(), "RLP: well-formed, and refused");
        PBT_CHECK(!v.has_value() || same(n, *v), "RLP: decoded as something else");
        auto t = tx_decode(buf(in), nullptr);
        if(t.has_value()) {
            // what was accepted has an encoding of its own
            auto e = tx_encode(**t);
            auto u = tx_decode(e, nullptr);
            PBT_CHECK(u.has_value() && same(**t, **u), "accepted, and different when encoded again");
            (void)check_signature(**t, ctx());
            s.label("a transaction");
        }
        s.label(q == 2 ? "RLP" : q == 1 ? "loose RLP" : "not RLP");
        s.nontrivial();
    }

    // -- JSON

    str quantity(const u256& v) {
        auto t = hexs(rawb(v));
        auto i = t.find_first_not_of('0');
        return "0x" + (i == str::npos ? "0" : t.substr(i));
    }
    str no0x(const str& t) {
        return t.rfind("0x", 0) == 0 ? t.substr(2) : t;
    }
    void run_json(Src& s) {
        auto t = mktx(s);
        auto key = mkkey(1 + s.below(1000));
        auto h = sig_hash(t);
        t.m_sig = eth_sign(key, h, t.m_type, ctx());
        auto bytes = typed(t, fields(t, opencbdc_chain_id, false));
        s.note("%s", text(t, opencbdc_chain_id).c_str());
        auto r = raw_tx_from_json(Json::Value("0x" + hexs(bytes)));
        PBT_CHECK(r.has_value() && same(**r, t), "raw_tx_from_json");
        auto want = [&](const Json::Value& j, const char* f, const str& v) {
            PBT_CHECK(j.isMember(f) && j[f].isString() && j[f].asString() == v, "%s is %s", f, j[f].toStyledString().c_str());
        };
        evm_tx_receipt rc;
        rc.m_tx = t;
        rc.m_gas_used = num(s);
        rc.m_ticket_number = s.edgy();
        rc.m_success = s.coin();
        if(s.coin()) {
            rc.m_create_address = addr(s);
        }
        str bloom(256, '\0');
        auto add = [&](const str& e) {
            auto k = keccak(e);
            for(size_t i = 0; i < 6; i += 2) {
                auto bit = ((static_cast<unsigned char>(k[i]) << 8U) | static_cast<unsigned char>(k[i + 1])) & 2047U;
                bloom[255 - bit / 8] = static_cast<char>(static_cast<unsigned char>(bloom[255 - bit / 8]) | (1U << (bit % 8)));
            }
        };
        for(auto n = s.size(3); n > 0; n--) {
            evm_log l;
            l.m_addr = addr(s);
            add(rawb(l.m_addr));
            auto d = rnd(s, s.size(20));
            l.m_data.assign(d.begin(), d.end());
            for(auto m = s.size(4); m > 0; m--) {
                l.m_topics.push_back(num(s));
                add(rawb(l.m_topics.back()));
            }
            rc.m_logs.push_back(l);
        }
        auto d = rnd(s, s.size(20));
        rc.m_output_data.assign(d.begin(), d.end());
        auto j = tx_receipt_to_json(rc, ctx());
        auto id = "0x" + hexs(keccak(bytes));
        want(j, "transactionHash", id);
        want(j, "from", "0x" + hexs(eth_address(key)));
        want(j, "gasUsed", quantity(rc.m_gas_used));
        want(j, "status", rc.m_success ? "0x1" : "0x0");
        want(j, "blockNumber", quantity(small(rc.m_ticket_number)));
        want(j, "logsBloom", "0x" + hexs(bloom));
        if(rc.m_create_address) {
            want(j, "contractAddress", "0x" + hexs(rawb(*rc.m_create_address)));
        }
        PBT_CHECK(j["logs"].isArray() && j["logs"].size() == rc.m_logs.size(), "logs");
        for(unsigned i = 0; i < rc.m_logs.size(); i++) {
            auto& l = rc.m_logs[i];
            auto& g = j["logs"][i];
            want(g, "address", "0x" + hexs(rawb(l.m_addr)));
            want(g, "data", "0x" + hexs(str(l.m_data.begin(), l.m_data.end())));
            want(g, "transactionHash", id);
            want(g, "blockNumber", quantity(small(rc.m_ticket_number)));
            PBT_CHECK(g["topics"].isArray() && g["topics"].size() == l.m_topics.size(), "topics");
            for(unsigned k = 0; k < l.m_topics.size(); k++) {
                PBT_CHECK(g["topics"][k] == "0x" + hexs(rawb(l.m_topics[k])), "topic");
            }
        }
        auto& x = j["transaction"];
        want(x, "type", quantity(small(static_cast<u64>(t.m_type))));
        if(t.m_to) {
            want(x, "to", "0x" + hexs(rawb(*t.m_to)));
        } else {
            PBT_CHECK(x["to"].isNull(), "to");
        }
        want(x, "value", quantity(t.m_value));
        want(x, "nonce", quantity(t.m_nonce));
        want(x, "gas", quantity(t.m_gas_limit));
        if(t.m_type == evm_tx_type::dynamic_fee) {
            want(x, "maxPriorityFeePerGas", quantity(t.m_gas_tip_cap));
            want(x, "maxFeePerGas", quantity(t.m_gas_fee_cap));
        } else {
            want(x, "gasPrice", quantity(t.m_gas_price));
        }
        want(x, "input", "0x" + hexs(str(t.m_input.begin(), t.m_input.end())));
        want(x, "hash", id);
        want(x, "r", quantity(t.m_sig.m_r));
        want(x, "s", quantity(t.m_sig.m_s));
        want(x, "v", quantity(t.m_sig.m_v));
        if(t.m_type != evm_tx_type::legacy) {
            PBT_CHECK(x["accessList"].isArray() && x["accessList"].size() == t.m_access_list.size(), "accessList");
            for(unsigned i = 0; i < t.m_access_list.size(); i++) {
                auto& a = t.m_access_list[i];
                auto& g = x["accessList"][i];
                PBT_CHECK(no0x(g["address"].asString()) == hexs(rawb(a.m_address)), "accessList address");
                PBT_CHECK(g["storageKeys"].size() == a.m_storage_keys.size(), "accessList keys");
                for(unsigned k = 0; k < a.m_storage_keys.size(); k++) {
                    PBT_CHECK(no0x(g["storageKeys"][k].asString()) == hexs(rawb(a.m_storage_keys[k])), "accessList key");
                }
            }
        }
        // a call object
        auto full = [&](const u256& v) { return s.chance(1, 3) ? "0x" + hexs(rawb(v)) : quantity(v); };
        Json::Value c;
        auto from = addr(s);
        c["from"] = "0x" + hexs(rawb(from));
        if(t.m_to) {
            c["to"] = "0x" + hexs(rawb(*t.m_to));
        }
        c["type"] = static_cast<unsigned>(t.m_type);
        c["value"] = full(t.m_value);
        c["nonce"] = full(t.m_nonce);
        c["gas"] = full(t.m_gas_limit);
        c["gasPrice"] = full(t.m_gas_price);
        c["maxPriorityFeePerGas"] = full(t.m_gas_tip_cap);
        c["maxFeePerGas"] = full(t.m_gas_fee_cap);
        c["data"] = "0x" + hexs(str(t.m_input.begin(), t.m_input.end()));
        c["r"] = full(t.m_sig.m_r);
        c["s"] = full(t.m_sig.m_s);
        c["v"] = full(t.m_sig.m_v);
        auto cd = dryrun_tx_from_json(c);
        PBT_CHECK(cd.has_value(), "dryrun_tx_from_json");
        PBT_CHECK((*cd)->m_from == from, "dryrun_tx_from_json: from");
        auto e = t;
        e.m_access_list.clear(); // not read
        PBT_CHECK(same((*cd)->m_tx, e), "dryrun_tx_from_json: %s", text((*cd)->m_tx, opencbdc_chain_id).c_str());
        s.nontrivial();
    }
    Json::Value anything(Src& s, int depth) {
        switch(s.weighted({3, 2, 2, 1, 1, depth > 0 ? 3U : 0U, depth > 0 ? 2U : 0U})) {
            case 0:
                switch(s.below(5)) {
                    case 0:
                        return "0x" + hexs(rnd(s, s.size(40)));
                    case 1:
                        return "0x" + hexs(rnd(s, s.size(40))).substr(0, s.below(12));
                    case 2:
                        return rnd(s, s.size(4));
                    case 3:
                        return s.pick(std::vector<str>{"", "0", "0x", "x", "latest", "0xg", "0x0", "-1"});
                    default:
                        return hexs(rnd(s, 20));
                }
            case 1:
                return Json::UInt64(s.edgy());
            case 2:
                return Json::Int64(s.edgy());
            case 3:
                return s.pick(std::vector<double>{1e30, -1e30, 1.5, 0.0, 4294967296.0, 1e-300});
            case 4:
                return s.coin() ? Json::Value(true) : Json::Value();
            case 5: {
                Json::Value o(Json::objectValue);
                for(auto f : {"type", "to", "from", "value", "nonce", "gas", "gasPrice", "data", "r", "s", "v", "maxFeePerGas"}) {
                    if(s.chance(1, 4)) {
                        o[f] = anything(s, depth - 1);
                    }
                }
                return o;
            }
            default: {
                Json::Value o(Json::arrayValue);
                for(auto n = s.size(3); n > 0; n--) {
                    o.append(anything(s, depth - 1));
                }
                return o;
            }
        }
    }
    void run_anyjson(Src& s) {
        auto v = anything(s, 2);
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        s.note("%s", Json::writeString(b, v).c_str());
        auto t = tx_from_json(v);
        if(t) {
            auto j = tx_to_json(**t, ctx());
            PBT_CHECK(j.isObject(), "no object");
            PBT_CHECK(static_cast<unsigned>((*t)->m_type) <= 2, "a type that does not exist");
            s.label("a transaction");
        }
        (void)dryrun_tx_from_json(v);
        (void)raw_tx_from_json(v);
        auto a = address_from_json(v);
        PBT_CHECK(!a || v.isString(), "an address from something else");
        auto q = uint256be_from_json(v);
        PBT_CHECK(!q || v.isString(), "a number from something else");
        if(v.isString()) {
            auto d = v.asString();
            bool hex = d.size() > 2 && d.rfind("0x", 0) == 0 && d.find_first_not_of("0123456789abcdefABCDEF", 2) == str::npos;
            if(hex && d.size() == 42) {
                PBT_CHECK(a && hexs(rawb(*a)) == d.substr(2), "address_from_json");
            }
            if(hex && d.size() <= 66) {
                PBT_CHECK(q && no0x(quantity(*q)) == (d.find_first_not_of('0', 2) == str::npos ? "0" : d.substr(d.find_first_not_of('0', 2))), "uint256be_from_json");
            }
            if(hex && d.size() % 2 == 0) {
                auto bb = buffer_from_json(v);
                PBT_CHECK(bb && hexs(raw(*bb)) == d.substr(2), "buffer_from_json");
            }
            if(d.size() < 42) {
                PBT_CHECK(!a, "an address of %zu characters", d.size());
            }
        }
        s.nontrivial();
    }

    void run_address(Src& s) {
        known();
        auto a = addr(s);
        auto n = num(s);
        s.note("%s, %s", hexs(rawb(a)).c_str(), hexs(rawb(n)).c_str());
        PBT_CHECK(rawb(contract_address(a, n)) == keccak(enc(list({leaf(rawb(a)), leaf(trim(n))}))).substr(12), "contract_address");
        auto salt = num(s);
        auto h = rndhash(s);
        PBT_CHECK(rawb(contract_address2(a, salt, h)) == keccak("\xff" + rawb(a) + rawb(salt) + str(reinterpret_cast<char*>(h.data()), 32)).substr(12), "contract_address2");
        auto d = rnd(s, s.size(300));
        auto k = cbdc::keccak_data(d.data(), d.size());
        PBT_CHECK(str(reinterpret_cast<char*>(k.data()), 32) == keccak(d), "keccak_data");
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C36";
    c.m_rule = "rlp: trees of up to 4 levels with strings around the length limits (non-trivial: a list of more than 60 bytes); "
               "tx: transactions of every type, signed, decoded, tampered with in one field, tried on another chain; malformed: "
               "valid encodings with one thing wrong; fuzz: arbitrary and mutated bytes against a reference decoder; json: receipts, "
               "transactions and call objects; anyjson: arbitrary JSON; address: address formulas";
    c.m_assumptions = {"Keccak-256 and the EVMC types are this framework's stand-ins, checked by a known answer",
                       "an equivalent signature of the same transaction is not told from the original",
                       "access lists of call objects are not read (a TODO in the code)"};
    c.m_props = {{"rlp", run_rlp, 40000, 4000000},
                 {"tx", run_tx, 40000, 2000000},
                 {"malformed", run_malformed, 100000, 4000000},
                 {"fuzz", run_fuzz, 400000, 20000000},
                 {"json", run_json, 15000, 1000000},
                 {"anyjson", run_anyjson, 60000, 4000000},
                 {"address", run_address, 20000, 1000000}};
    return pbt::run(argc, argv, c);
}
