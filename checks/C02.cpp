// C02: local validation of transactions.
#include "utx.hpp"

using namespace utx;
using namespace vt;
namespace val = cbdc::transaction::validation;

namespace {
    // A defect: what check_tx may answer.
    using defects = std::vector<val::tx_error>;

    // The documented rules. Every defect a transaction has.
    defects ref_defects(const full_tx& t) {
        defects d;
        if(t.m_inputs.empty()) {
            d.emplace_back(val::tx_error_code::no_inputs);
        }
        if(t.m_outputs.empty()) {
            d.emplace_back(val::tx_error_code::no_outputs);
        }
        if(t.m_witness.size() != t.m_inputs.size()) {
            d.emplace_back(val::tx_error_code::missing_witness);
        }
        unsigned __int128 in = 0;
        unsigned __int128 out = 0;
        for(size_t i = 0; i < t.m_inputs.size(); i++) {
            auto& x = t.m_inputs[i];
            for(size_t j = 0; j < i; j++) {
                auto& y = t.m_inputs[j];
                if(x.m_prevout.m_tx_id == y.m_prevout.m_tx_id && x.m_prevout.m_index == y.m_prevout.m_index) {
                    d.emplace_back(val::input_error{val::input_error_code::duplicate, std::nullopt, i});
                    break;
                }
            }
            if(x.m_prevout_data.m_value == 0) {
                d.emplace_back(val::input_error{val::input_error_code::data_error, val::output_error_code::zero_value, i});
            }
            in += x.m_prevout_data.m_value;
        }
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            if(t.m_outputs[i].m_value == 0) {
                d.emplace_back(val::output_error{val::output_error_code::zero_value, i});
            }
            out += t.m_outputs[i].m_value;
        }
        if((in >> 64) != 0 || (out >> 64) != 0) {
            d.emplace_back(val::tx_error_code::value_overflow);
        }
        if(in != out) {
            d.emplace_back(val::tx_error_code::asymmetric_values);
        }
        auto id = ref_tx_id(t);
        for(size_t i = 0; i < t.m_witness.size() && i < t.m_inputs.size(); i++) {
            auto& w = t.m_witness[i];
            auto bad = [&](val::witness_error_code c) {
                d.emplace_back(val::witness_error{c, i});
            };
            if(w.empty()) {
                bad(val::witness_error_code::missing_witness_program_type);
                continue;
            }
            if(w[0] != std::byte{0}) {
                bad(val::witness_error_code::unknown_witness_program_type);
                continue;
            }
            if(w.size() != 1 + 32 + 64) {
                bad(val::witness_error_code::malformed);
                continue;
            }
            bytes b;
            for(auto x : w) {
                b.push_back(static_cast<uint8_t>(x));
            }
            if(sha(bytes(b.begin(), b.begin() + 33)) != t.m_inputs[i].m_prevout_data.m_witness_program_commitment) {
                bad(val::witness_error_code::program_mismatch);
            }
            if(!pubkey_ok(&b[1])) {
                bad(val::witness_error_code::invalid_public_key);
            } else if(!utx::verify(&b[33], id.data(), &b[1])) {
                bad(val::witness_error_code::invalid_signature);
            }
        }
        return d;
    }

    struct plan {
        full_tx m_tx;
        std::vector<size_t> m_keys; // owner of each input
    };
    void resign(plan& p) {
        auto id = ref_tx_id(p.m_tx);
        p.m_tx.m_witness.clear();
        for(auto k : p.m_keys) {
            p.m_tx.m_witness.push_back(witness(pool(k), id));
        }
    }
    // Splits a total into n positive parts.
    std::vector<u64> split(Src& s, u64 total, size_t n) {
        std::vector<u64> r;
        for(size_t i = 0; i + 1 < n; i++) {
            auto left = total - (n - 1 - i);
            auto v = 1 + (s.coin() ? s.below(left) : s.below(std::min<u64>(left, 100)));
            r.push_back(v);
            total -= v;
        }
        r.push_back(total);
        return r;
    }
    plan valid_tx(Src& s, bool do_sign = true) {
        plan p;
        auto n = 1 + s.size(4);
        auto m = 1 + s.size(4);
        u64 total = 0;
        switch(s.below(4)) {
            case 0:
                total = std::max(n, m) + s.below(1000);
                break;
            case 1:
                total = ~u64{0};
                break;
            case 2:
                total = ~u64{0} - s.below(10);
                break;
            default:
                total = std::max<u64>(s.edgy(), std::max(n, m));
        }
        auto in = split(s, total, n);
        auto out = split(s, total, m);
        hash_t prev = rndhash(s);
        for(size_t i = 0; i < n; i++) {
            auto k = s.below(24);
            p.m_keys.push_back(k);
            input x;
            // outpoints of one transaction, or of several with one index
            if(s.coin()) {
                x.m_prevout.m_tx_id = prev;
                x.m_prevout.m_index = i;
            } else {
                x.m_prevout.m_tx_id = mkhash(static_cast<uint8_t>(i), 9, i);
                x.m_prevout.m_index = s.coin() ? 0 : s.edgy();
            }
            x.m_prevout_data.m_value = in[i];
            x.m_prevout_data.m_witness_program_commitment = ref_commitment(pool(k).m_pub);
            p.m_tx.m_inputs.push_back(x);
        }
        for(size_t i = 0; i < m; i++) {
            output o;
            o.m_value = out[i];
            o.m_witness_program_commitment = s.coin() ? ref_commitment(pool(s.below(24)).m_pub) : rndhash(s);
            p.m_tx.m_outputs.push_back(o);
        }
        if(do_sign) {
            resign(p);
        }
        return p;
    }
    std::string text(const std::optional<val::tx_error>& e) {
        return e ? val::to_string(*e) : std::string("valid");
    }
    bool eq(const val::tx_error& a, const val::tx_error& b) {
        if(a.index() != b.index()) {
            return false;
        }
        if(auto* x = std::get_if<val::input_error>(&a)) {
            auto& y = std::get<val::input_error>(b);
            return x->m_code == y.m_code && x->m_data_err == y.m_data_err && x->m_idx == y.m_idx;
        }
        if(auto* x = std::get_if<val::output_error>(&a)) {
            auto& y = std::get<val::output_error>(b);
            return x->m_code == y.m_code && x->m_idx == y.m_idx;
        }
        if(auto* x = std::get_if<val::witness_error>(&a)) {
            auto& y = std::get<val::witness_error>(b);
            return x->m_code == y.m_code && x->m_idx == y.m_idx;
        }
        return std::get<val::tx_error_code>(a) == std::get<val::tx_error_code>(b);
    }
    void judge(Src& s, const full_tx& t, const char* what) {
        auto d = ref_defects(t);
        auto e = val::check_tx(t);
        std::string have;
        for(auto& x : d) {
            have += val::to_string(x) + "; ";
        }
        if(d.empty()) {
            s.label("valid");
            PBT_CHECK(!e.has_value(), "a valid transaction is rejected with \"%s\": %s (%s)", text(e).c_str(), show(t).c_str(), what);
            return;
        }
        s.label(val::to_string(d.front()).substr(0, 12));
        PBT_CHECK(e.has_value(), "a transaction is accepted although: %s (%s) %s", have.c_str(), what, show(t).c_str());
        bool real = false;
        for(auto& x : d) {
            real |= eq(*e, x);
            PBT_CHECK((*e == x) == eq(*e, x), "comparison of errors");
        }
        PBT_CHECK(real, "rejected with \"%s\", its defects are: %s (%s) %s", text(e).c_str(), have.c_str(), what, show(t).c_str());
    }

    void valid(Src& s) {
        auto p = valid_tx(s);
        s.note("%s", show(p.m_tx).c_str());
        PBT_CHECK(ref_defects(p.m_tx).empty(), "harness");
        judge(s, p.m_tx, "generated");
        s.nontrivial();
    }

    // One bit of a valid transaction changed: never valid.
    void tampered(Src& s) {
        auto p = valid_tx(s);
        auto t = p.m_tx;
        std::string what;
        if(s.coin()) {
            if(!change(s, t, what)) {
                throw pbt::Discard{};
            }
        } else {
            auto& w = t.m_witness[s.below(t.m_witness.size())];
            switch(s.below(4)) {
                case 0:
                    w.resize(s.below(w.size()));
                    what = "witness cut";
                    break;
                case 1:
                    w.resize(w.size() + 1 + s.below(10));
                    what = "witness extended";
                    break;
                default:
                    flip(s, w);
                    what = "witness bit";
            }
        }
        s.note("%s: %s", what.c_str(), show(t).c_str());
        if(t.m_inputs == p.m_tx.m_inputs && t.m_outputs == p.m_tx.m_outputs && t.m_witness == p.m_tx.m_witness) {
            throw pbt::Discard{};
        }
        auto e = val::check_tx(t);
        PBT_CHECK(e.has_value(), "a signed transaction still passes after a change: %s: %s", what.c_str(), show(t).c_str());
        judge(s, t, what.c_str());
        s.nontrivial();
    }

    // Some defects put in; signed afterwards, so that nothing else is wrong.
    void defective(Src& s) {
        auto p = valid_tx(s, false);
        auto& t = p.m_tx;
        std::string what;
        auto n = 1 + s.below(3);
        std::vector<std::pair<size_t, unsigned>> wit; // defects of witnesses, put in after signing
        for(u64 k = 0; k < n; k++) {
            auto kind = s.below(16);
            what += std::to_string(kind) + " ";
            switch(kind) {
                case 0: { // the same outpoint again
                    if(t.m_inputs.empty()) {
                        break;
                    }
                    auto x = s.below(t.m_inputs.size());
                    auto in = t.m_inputs[x];
                    auto owner = p.m_keys[x];
                    auto at = s.below(t.m_inputs.size() + 1);
                    // the copy may claim other data
                    switch(s.below(4)) {
                        case 0:
                            in.m_prevout_data.m_value = 1 + s.below(50);
                            break;
                        case 1:
                            owner = s.below(24);
                            in.m_prevout_data.m_witness_program_commitment = ref_commitment(pool(owner).m_pub);
                            break;
                        default:;
                    }
                    t.m_inputs.insert(t.m_inputs.begin() + static_cast<ptrdiff_t>(at), in);
                    p.m_keys.insert(p.m_keys.begin() + static_cast<ptrdiff_t>(at), owner);
                    if(s.chance(3, 4)) { // nothing else wrong
                        t.m_outputs.push_back({rndhash(s), in.m_prevout_data.m_value});
                    }
                    break;
                }
                case 1: { // a zero among the spent, totals unchanged
                    auto in = any_input(s);
                    auto key = s.below(24);
                    auto at = s.below(t.m_inputs.size() + 1);
                    in.m_prevout_data.m_value = 0;
                    in.m_prevout_data.m_witness_program_commitment = ref_commitment(pool(key).m_pub);
                    t.m_inputs.insert(t.m_inputs.begin() + static_cast<ptrdiff_t>(at), in);
                    p.m_keys.insert(p.m_keys.begin() + static_cast<ptrdiff_t>(at), key);
                    break;
                }
                case 2: // a zero among the created, totals unchanged
                    t.m_outputs.insert(t.m_outputs.begin() + static_cast<ptrdiff_t>(s.below(t.m_outputs.size() + 1)), output{rndhash(s), 0});
                    break;
                case 3:
                    t.m_inputs.clear();
                    p.m_keys.clear();
                    break;
                case 4:
                    t.m_outputs.clear();
                    break;
                case 5: // totals differ by a little
                    if(!t.m_outputs.empty()) {
                        t.m_outputs[s.below(t.m_outputs.size())].m_value += s.coin() ? 1 : ~u64{0};
                    }
                    break;
                case 6: // totals equal only modulo 2^64
                    if(!t.m_outputs.empty()) {
                        auto& o = t.m_outputs[s.below(t.m_outputs.size())];
                        auto v = s.coin() ? u64{1} << 63 : 1 + s.edgy() % (~u64{0} - 1);
                        output a{rndhash(s), v};
                        output b{rndhash(s), u64{0} - v};
                        if(s.coin()) {
                            t.m_outputs.push_back(a);
                            t.m_outputs.push_back(b);
                        } else {
                            auto old = o.m_value;
                            o.m_value = v;
                            t.m_outputs.push_back({rndhash(s), old - v});
                        }
                    }
                    break;
                case 7: { // the same with inputs
                    auto v = s.coin() ? u64{1} << 63 : 1 + s.edgy() % (~u64{0} - 1);
                    for(auto x : {v, u64{0} - v}) {
                        auto in = any_input(s);
                        auto key = s.below(24);
                        in.m_prevout_data.m_value = x;
                        in.m_prevout_data.m_witness_program_commitment = ref_commitment(pool(key).m_pub);
                        t.m_inputs.push_back(in);
                        p.m_keys.push_back(key);
                    }
                    break;
                }
                default:
                    wit.emplace_back(s.below(8), static_cast<unsigned>(kind));
            }
        }
        resign(p);
        for(auto& [at, kind] : wit) {
            if(t.m_witness.empty()) {
                break;
            }
            auto i = at % t.m_witness.size();
            auto& w = t.m_witness[i];
            switch(kind) {
                case 8: // one too few, too many, or none
                    if(s.coin()) {
                        t.m_witness.erase(t.m_witness.begin() + static_cast<ptrdiff_t>(i));
                    } else {
                        t.m_witness.push_back(w);
                    }
                    break;
                case 9:
                    w.clear();
                    break;
                case 10:
                    if(!w.empty()) {
                        w[0] = static_cast<std::byte>(1 + s.below(255));
                    }
                    break;
                case 11:
                    w.resize(s.below(120));
                    break;
                case 12: // another key, correctly signed
                    w = witness(pool(s.below(24)), ref_tx_id(t));
                    break;
                case 13: // the right key, another message
                    if(i < p.m_keys.size()) {
                        auto m = ref_tx_id(t);
                        flip(s, m);
                        w = witness(pool(p.m_keys[i]), m);
                    }
                    break;
                case 14: // signed by another key in the owner's name
                    if(i < p.m_keys.size()) {
                        auto x = witness(pool(p.m_keys[i] + 1 + s.below(23)), ref_tx_id(t));
                        for(size_t b = 33; b < w.size() && b < x.size(); b++) {
                            w[b] = x[b];
                        }
                    }
                    break;
                default: // any bytes at all
                    w.clear();
                    w.push_back(std::byte{0});
                    for(size_t b = 1; b < 97; b++) {
                        w.push_back(static_cast<std::byte>(s.coin() ? 0xff : s.below(256)));
                    }
            }
        }
        s.note("%s: %s", what.c_str(), show(t).c_str());
        judge(s, t, what.c_str());
        s.nontrivial();
    }

    // Witnesses committed to whose key is no key, or whose type is unknown.
    void odd_owner(Src& s) {
        auto p = valid_tx(s, false);
        auto& t = p.m_tx;
        auto i = s.below(t.m_inputs.size());
        bytes prog{static_cast<uint8_t>(s.chance(1, 3) ? s.below(256) : 0)};
        pubkey_t k{};
        switch(s.below(4)) {
            case 0:
                k = rndhash(s);
                break;
            case 1:
                k.fill(0xff);
                k[31] = static_cast<unsigned char>(s.below(256));
                break;
            case 2:
                k.fill(0);
                k[31] = static_cast<unsigned char>(s.below(256));
                break;
            default:
                k = pool(p.m_keys[i]).m_pub;
        }
        put(prog, k);
        if(s.chance(1, 4)) {
            prog.resize(s.below(60));
        }
        t.m_inputs[i].m_prevout_data.m_witness_program_commitment = sha(prog);
        resign(p);
        auto sig = t.m_witness[i];
        cbdc::witness_t w;
        for(auto c : prog) {
            w.push_back(static_cast<std::byte>(c));
        }
        for(size_t b = 33; b < sig.size(); b++) {
            w.push_back(sig[b]);
        }
        t.m_witness[i] = w;
        s.note("program %s", pbt::hex(prog.data(), prog.size()).c_str());
        judge(s, t, "odd owner");
        s.nontrivial();
    }

    // Anything.
    void arbitrary(Src& s) {
        auto t = any_tx(s, 4);
        judge(s, t, "arbitrary");
        if(!t.m_inputs.empty()) {
            s.nontrivial();
        }
    }

    // Every error has a text of its own.
    void texts(Src& s) {
        static const auto all = [] {
            defects d;
            for(int c = 0; c < 5; c++) {
                d.emplace_back(static_cast<val::tx_error_code>(c));
            }
            for(u64 i : {u64{0}, u64{1}, u64{77}}) {
                d.emplace_back(val::input_error{val::input_error_code::duplicate, std::nullopt, i});
                d.emplace_back(val::input_error{val::input_error_code::data_error, val::output_error_code::zero_value, i});
                d.emplace_back(val::output_error{val::output_error_code::zero_value, i});
                for(int c = 0; c < 6; c++) {
                    d.emplace_back(val::witness_error{static_cast<val::witness_error_code>(c), i});
                }
            }
            return d;
        }();
        auto a = s.below(all.size());
        auto b = s.below(all.size());
        PBT_CHECK((val::to_string(all[a]) == val::to_string(all[b])) == (a == b), "two errors read \"%s\"", val::to_string(all[a]).c_str());
        PBT_CHECK((all[a] == all[b]) == (a == b), "errors \"%s\" and \"%s\" compare wrongly", val::to_string(all[a]).c_str(), val::to_string(all[b]).c_str());
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C02";
    c.m_rule = "signed transactions with 1 to 5 inputs and outputs, totals up to 2^64-1; any field or witness of a valid one "
               "changed; one to three defects put in, before or after signing; witnesses whose committed program is no key; "
               "arbitrary ones. Non-trivial: the transaction has inputs";
    c.m_assumptions = {"libsecp256k1 verifies Schnorr signatures correctly",
                       "a transaction with several defects may be rejected with any one of them"};
    c.m_props = {{"valid", valid, 12000, 300000},
                 {"tampered", tampered, 20000, 600000},
                 {"defective", defective, 40000, 1500000},
                 {"odd_owner", odd_owner, 16000, 400000},
                 {"arbitrary", arbitrary, 40000, 1000000},
                 {"texts", texts, 3000, 10000}};
    return pbt::run(argc, argv, c);
}
