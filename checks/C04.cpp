// C04: wallets against a ledger.
#include "jit.hpp"
#include "uhs/transaction/wallet.hpp"
#include "walletmodel.hpp"

#include <atomic>
#include <mutex>
#include <thread>

using namespace wm;
using namespace vt;

namespace {
    struct snapshot {
        std::string m_file;
        coins m_coins;
        std::set<hash_t> m_owned;
        bool m_valid{false};
    };
    struct owner {
        std::unique_ptr<wallet> m_w{std::make_unique<wallet>()};
        coins m_coins;
        coins m_seeds;
        std::set<hash_t> m_owned;      // commitments it can sign for
        std::vector<pubkey_t> m_addrs; // handed out
        snapshot m_old;
        bool m_seeded{false};
    };
    struct pending {
        full_tx m_tx;
        std::set<size_t> m_seen; // who confirmed it
    };

    input mine_in(const hash_t& commit) {
        input i;
        i.m_prevout_data.m_witness_program_commitment = commit;
        i.m_prevout_data.m_value = 1;
        return i;
    }

    void compare(owner& o, size_t n) {
        auto want = total(o.m_coins) + total(o.m_seeds);
        auto cnt = o.m_coins.size() + o.m_seeds.size();
        PBT_CHECK(o.m_w->balance() == static_cast<u64>(want), "wallet %zu: balance %llu, its coins are worth %llu", n, (unsigned long long)o.m_w->balance(),
                  (unsigned long long)want);
        PBT_CHECK(o.m_w->count() == cnt, "wallet %zu: %zu coins, it has %zu", n, o.m_w->count(), cnt);
    }

    struct world {
        Src& s;
        std::vector<owner> m_o;
        std::vector<pending> m_p;
        pbt::Scratch m_dir;
        explicit world(Src& src) : s(src) {}

        pubkey_t addr(size_t i) {
            auto& o = m_o[i];
            if(!o.m_addrs.empty() && s.coin()) {
                return o.m_addrs[s.below(o.m_addrs.size())];
            }
            auto k = o.m_w->generate_key();
            auto c = ref_commitment(k);
            PBT_CHECK(o.m_w->is_spendable(mine_in(c)), "a wallet cannot spend what is paid to its new key");
            o.m_owned.insert(c);
            o.m_addrs.push_back(k);
            return k;
        }
        coins all(owner& o) {
            auto c = o.m_coins;
            c.insert(o.m_seeds.begin(), o.m_seeds.end());
            return c;
        }
        void spend(owner& o, full_tx& t, const std::vector<output>& want, bool is_signed, const char* who) {
            auto c = all(o);
            auto sum = take_inputs(t, c, who);
            check_outputs(
                t,
                sum,
                want,
                [&](const output& out) {
                    auto ok = o.m_w->is_spendable(mine_in(out.m_witness_program_commitment));
                    o.m_owned.insert(out.m_witness_program_commitment);
                    return ok;
                },
                who);
            if(!is_signed) {
                o.m_w->sign(t);
            }
            check_valid(t, who);
            for(auto* m : {&o.m_coins, &o.m_seeds}) {
                for(auto it = m->begin(); it != m->end();) {
                    it = c.count(it->first) == 0 ? m->erase(it) : std::next(it);
                }
            }
            m_p.push_back({t, {}});
        }
        void confirm(size_t i, pending& p) {
            auto& o = m_o[i];
            auto id = ref_tx_id(p.m_tx);
            o.m_w->confirm_transaction(p.m_tx);
            for(size_t k = 0; k < p.m_tx.m_outputs.size(); k++) {
                auto& out = p.m_tx.m_outputs[k];
                if(o.m_owned.count(out.m_witness_program_commitment) > 0) {
                    input in;
                    in.m_prevout = {id, k};
                    in.m_prevout_data = out;
                    o.m_coins.emplace(op(in), in);
                }
            }
            for(auto& in : p.m_tx.m_inputs) {
                o.m_coins.erase(op(in));
            }
            p.m_seen.insert(i);
        }
        void step() {
            auto i = s.below(m_o.size());
            auto& o = m_o[i];
            auto bal = static_cast<u64>(total(o.m_coins) + total(o.m_seeds));
            auto cnt = o.m_coins.size() + o.m_seeds.size();
            switch(s.weighted({3, 6, 4, 4, 8, 4, 2, 2, 2, 1, 2})) {
                case 0: { // mint
                    auto n = 1 + s.size(8);
                    auto v = static_cast<uint32_t>(s.coin() ? 1 + s.below(100) : std::max<u64>(1, s.edgy() & 0xffffffff));
                    auto t = o.m_w->mint_new_coins(n, v);
                    s.note("%llu: mint %llu x %u", (unsigned long long)i, (unsigned long long)n, v);
                    PBT_CHECK(t.m_inputs.empty() && t.m_outputs.size() == n, "a mint of %llu coins has %zu inputs and %zu outputs", (unsigned long long)n,
                              t.m_inputs.size(), t.m_outputs.size());
                    for(auto& out : t.m_outputs) {
                        PBT_CHECK(out.m_value == v, "a minted coin is worth %llu, not %u", (unsigned long long)out.m_value, v);
                        PBT_CHECK(o.m_w->is_spendable(mine_in(out.m_witness_program_commitment)), "a minted coin is not the wallet's");
                        o.m_owned.insert(out.m_witness_program_commitment);
                    }
                    m_p.push_back({t, {}});
                    // minted coins could collide otherwise
                    if(s.chance(3, 4)) {
                        confirm(i, m_p.back());
                    }
                    break;
                }
                case 1: { // send an amount
                    auto to = s.below(m_o.size());
                    auto k = addr(to);
                    u64 a = 1 + s.below(100);
                    switch(s.below(5)) {
                        case 0:
                            a = bal;
                            break;
                        case 1:
                            a = bal + 1;
                            break;
                        case 2:
                            if(!o.m_coins.empty()) {
                                a = std::next(o.m_coins.begin(), static_cast<ptrdiff_t>(s.below(o.m_coins.size())))->second.m_prevout_data.m_value;
                            }
                            break;
                        case 3:
                            a = 1 + s.below(std::max<u64>(bal, 1));
                            break;
                        default:;
                    }
                    a = std::min<u64>(std::max<u64>(a, 1), 0xffffffff);
                    auto sg = s.chance(3, 4);
                    auto t = o.m_w->send_to(static_cast<uint32_t>(a), k, sg);
                    s.note("%llu: send %llu of %llu to %llu%s", (unsigned long long)i, (unsigned long long)a, (unsigned long long)bal, (unsigned long long)to,
                           t ? "" : " no");
                    PBT_CHECK(t.has_value() == (a <= bal), "a wallet with %llu %s %llu", (unsigned long long)bal, t ? "sends" : "cannot send", (unsigned long long)a);
                    if(t) {
                        spend(o, *t, {{ref_commitment(k), a}}, sg, "a payment");
                        auto ex = wallet::export_send_inputs(*t, k);
                        check_export(*t, k, ex);
                        s.label("send");
                    }
                    break;
                }
                case 2: { // fan
                    auto to = s.below(m_o.size());
                    auto k = addr(to);
                    auto n = 1 + s.size(6);
                    u64 v = 1 + s.below(40);
                    if(s.chance(1, 3)) {
                        v = std::min<u64>(0xffffffff, std::max<u64>(1, bal / n + s.below(2)));
                    }
                    auto sg = s.chance(3, 4);
                    auto t = o.m_w->fan(n, static_cast<uint32_t>(v), k, sg);
                    s.note("%llu: fan %llu x %llu of %llu to %llu%s", (unsigned long long)i, (unsigned long long)n, (unsigned long long)v, (unsigned long long)bal,
                           (unsigned long long)to, t ? "" : " no");
                    PBT_CHECK(t.has_value() == (n * v <= bal), "a wallet with %llu %s %llu x %llu", (unsigned long long)bal, t ? "fans" : "cannot fan",
                              (unsigned long long)n, (unsigned long long)v);
                    if(t) {
                        spend(o, *t, std::vector<output>(n, {ref_commitment(k), v}), sg, "a fan");
                        check_export(*t, k, wallet::export_send_inputs(*t, k));
                        s.label("fan");
                    }
                    break;
                }
                case 3: { // a number of coins into a number of coins
                    auto to = s.below(m_o.size());
                    auto k = addr(to);
                    auto n = 1 + (s.coin() ? s.below(4) : s.below(cnt + 2));
                    auto m = 1 + s.size(8);
                    auto sg = s.chance(3, 4);
                    auto t = o.m_w->send_to(n, m, k, sg);
                    s.note("%llu: send %llu coins as %llu to %llu%s", (unsigned long long)i, (unsigned long long)n, (unsigned long long)m, (unsigned long long)to,
                           t ? "" : " no");
                    if(!t) {
                        // the poorest choice of coins
                        std::vector<u64> vs;
                        for(auto& [q, in] : all(o)) {
                            vs.push_back(in.m_prevout_data.m_value);
                        }
                        std::sort(vs.begin(), vs.end());
                        unsigned __int128 least = 0;
                        for(size_t q = 0; q < n && q < vs.size(); q++) {
                            least += vs[q];
                        }
                        PBT_CHECK(n > cnt || least < m, "a wallet with %zu coins cannot send %llu as %llu", cnt, (unsigned long long)n, (unsigned long long)m);
                        break;
                    }
                    PBT_CHECK(t->m_inputs.size() == n && t->m_outputs.size() == m, "asked to spend %llu coins as %llu, it spends %zu as %zu", (unsigned long long)n,
                              (unsigned long long)m, t->m_inputs.size(), t->m_outputs.size());
                    for(auto& out : t->m_outputs) {
                        PBT_CHECK(out.m_witness_program_commitment == ref_commitment(k), "an output goes to somebody else");
                    }
                    spend(o, *t, t->m_outputs, sg, "a transfer of coins");
                    check_export(*t, k, wallet::export_send_inputs(*t, k));
                    s.label("coins");
                    break;
                }
                case 4: // someone learns that a transaction is confirmed
                    if(!m_p.empty()) {
                        auto& p = m_p[s.below(m_p.size())];
                        if(p.m_seen.count(i) == 0) {
                            confirm(i, p);
                            s.note("%llu: confirms", (unsigned long long)i);
                        }
                    }
                    break;
                case 5: // the receiver is handed the inputs only
                    if(!m_p.empty() && !o.m_addrs.empty()) {
                        auto& p = m_p[s.below(m_p.size())];
                        if(p.m_seen.count(i) == 0) {
                            std::vector<input> in;
                            std::set<hash_t> done;
                            for(auto& k : o.m_addrs) {
                                if(o.m_owned.count(ref_commitment(k)) > 0 && done.insert(ref_commitment(k)).second) {
                                    auto e = wallet::export_send_inputs(p.m_tx, k);
                                    in.insert(in.end(), e.begin(), e.end());
                                }
                            }
                            o.m_w->confirm_inputs(in);
                            for(auto& x : in) {
                                o.m_coins.emplace(op(x), x);
                            }
                            s.note("%llu: receives %zu", (unsigned long long)i, in.size());
                            if(!in.empty()) {
                                p.m_seen.insert(i);
                                s.label("import");
                            }
                        }
                    }
                    break;
                case 6: { // a coin of any value
                    auto k = addr(i);
                    input in;
                    in.m_prevout = {rndhash(s), s.below(3)};
                    in.m_prevout_data = {ref_commitment(k), std::max<u64>(1, s.edgy() >> 8)};
                    if(total(o.m_coins) + total(o.m_seeds) > (u64{1} << 60)) {
                        break;
                    }
                    o.m_w->confirm_inputs({in});
                    o.m_coins.emplace(op(in), in);
                    s.note("%llu: gets %llu", (unsigned long long)i, (unsigned long long)in.m_prevout_data.m_value);
                    break;
                }
                case 7: // save
                    o.m_old.m_file = m_dir.path() + "/w" + std::to_string(i);
                    o.m_w->save(o.m_old.m_file);
                    o.m_old.m_coins = o.m_coins;
                    o.m_old.m_owned = o.m_owned;
                    o.m_old.m_valid = true;
                    s.note("%llu: save", (unsigned long long)i);
                    break;
                case 8: // load what was saved last
                    if(o.m_old.m_valid) {
                        if(!o.m_seeded && s.coin()) {
                            o.m_w = std::make_unique<wallet>();
                        }
                        o.m_w->load(o.m_old.m_file);
                        o.m_coins = o.m_old.m_coins;
                        o.m_owned = o.m_old.m_owned;
                        std::erase_if(o.m_addrs, [&](auto& k) {
                            return o.m_owned.count(ref_commitment(k)) == 0;
                        });
                        s.note("%llu: load", (unsigned long long)i);
                        s.label("load");
                    }
                    break;
                case 9: // a file that is not there changes nothing
                    o.m_w->load(m_dir.path() + "/none");
                    break;
                default: { // spendable is what it has the key for
                    auto h = s.coin() || o.m_owned.empty() ? rndhash(s) : *std::next(o.m_owned.begin(), static_cast<ptrdiff_t>(s.below(o.m_owned.size())));
                    PBT_CHECK(o.m_w->is_spendable(mine_in(h)) == (o.m_owned.count(h) > 0), "spendable or not");
                    auto other = s.below(m_o.size());
                    for(auto& c : m_o[other].m_owned) {
                        PBT_CHECK(other == i || o.m_owned.count(c) > 0 || !o.m_w->is_spendable(mine_in(c)), "a wallet claims another's key");
                    }
                }
            }
            for(size_t q = 0; q < m_o.size(); q++) {
                compare(m_o[q], q);
            }
        }
        void check_export(const full_tx& t, const pubkey_t& k, const std::vector<input>& ex) {
            auto id = ref_tx_id(t);
            std::vector<input> want;
            for(size_t q = 0; q < t.m_outputs.size(); q++) {
                if(t.m_outputs[q].m_witness_program_commitment == ref_commitment(k)) {
                    input in;
                    in.m_prevout = {id, q};
                    in.m_prevout_data = t.m_outputs[q];
                    want.push_back(in);
                }
            }
            PBT_CHECK(ex == want, "the receiver is handed %zu inputs, %zu are his", ex.size(), want.size());
        }
    };

    void histories(Src& s) {
        world w(s);
        auto n = 1 + s.below(3);
        w.m_o.resize(n);
        for(size_t i = 0; i < n; i++) {
            if(s.chance(1, 3)) {
                auto& o = w.m_o[i];
                auto key = pool(i * 3 + s.below(3));
                auto from = s.below(3);
                auto cnt = s.below(9);
                auto v = static_cast<uint32_t>(1 + s.below(60));
                auto ok = o.m_w->seed(key.m_priv, v, from, from + cnt);
                PBT_CHECK(ok == (cnt > 0), "seeding with %llu coins", (unsigned long long)cnt);
                s.note("%zu: seeds %llu..%llu of %u", i, (unsigned long long)from, (unsigned long long)(from + cnt), v);
                if(cnt > 0) {
                    o.m_seeded = true;
                    auto c = ref_commitment(key.m_pub);
                    o.m_owned.insert(c);
                    o.m_addrs.push_back(key.m_pub);
                    for(u64 k = from; k < from + cnt; k++) {
                        auto t = o.m_w->create_seeded_transaction(k);
                        PBT_CHECK(t.has_value() && t->m_outputs.size() == 1 && t->m_outputs[0].m_value == v && t->m_outputs[0].m_witness_program_commitment == c,
                                  "seeded coin %llu is another one", (unsigned long long)k);
                        input in;
                        in.m_prevout = {ref_tx_id(*t), 0};
                        in.m_prevout_data = t->m_outputs[0];
                        o.m_seeds.emplace(op(in), in);
                    }
                    PBT_CHECK(o.m_seeds.size() == cnt, "seeded coins share an outpoint");
                    PBT_CHECK(!o.m_w->seed(pool(20).m_priv, v, 0, 5), "a wallet with keys can be seeded again");
                    s.label("seeded");
                }
            }
            compare(w.m_o[i], i);
        }
        auto steps = 4 + s.size(40);
        for(u64 k = 0; k < steps; k++) {
            w.step();
        }
        if(!w.m_p.empty()) {
            s.nontrivial();
        }
    }

    // A transaction with inputs of several wallets, each signing its own.
    void joint(Src& s) {
        auto n = 1 + s.below(3);
        std::vector<wallet> w(n);
        full_tx t;
        std::vector<size_t> who;
        auto m = 1 + s.size(5);
        u64 sum = 0;
        for(u64 k = 0; k < m; k++) {
            auto i = s.below(n);
            auto key = w[i].generate_key();
            input in;
            in.m_prevout = {rndhash(s), k};
            in.m_prevout_data = {ref_commitment(key), 1 + s.below(1000)};
            sum += in.m_prevout_data.m_value;
            t.m_inputs.push_back(in);
            who.push_back(i);
        }
        t.m_outputs.push_back({rndhash(s), sum});
        std::vector<size_t> order;
        for(size_t i = 0; i < n; i++) {
            order.insert(order.begin() + static_cast<ptrdiff_t>(s.below(order.size() + 1)), i);
        }
        std::set<size_t> did;
        for(auto i : order) {
            w[i].sign(t);
            did.insert(i);
            auto e = validation::check_tx(t);
            auto all = std::all_of(who.begin(), who.end(), [&](auto x) {
                return did.count(x) > 0;
            });
            PBT_CHECK(e.has_value() == !all, "after %zu of %llu wallets signed: %s", did.size(), (unsigned long long)n,
                      e ? validation::to_string(*e).c_str() : "valid");
        }
        s.note("%llu wallets, %llu inputs", (unsigned long long)n, (unsigned long long)m);
        s.nontrivial();
    }

    // Wallets with so many keys that keys are used again.
    void many_keys(Src& s) {
        wallet w;
        auto n = 9990 + s.below(40);
        auto t = w.mint_new_coins(n, 3);
        coins c;
        auto id = ref_tx_id(t);
        w.confirm_transaction(t);
        for(size_t i = 0; i < n; i++) {
            input in;
            in.m_prevout = {id, i};
            in.m_prevout_data = t.m_outputs[i];
            c.emplace(op(in), in);
        }
        pbt::Scratch dir;
        for(int k = 0; k < 60; k++) {
            auto a = 1 + s.below(20);
            auto pay = pool(s.below(24)).m_pub;
            auto x = w.send_to(static_cast<uint32_t>(a), pay, true);
            PBT_CHECK(x.has_value(), "cannot send");
            auto sum = take_inputs(*x, c, "a payment");
            check_outputs(
                *x, sum, {{ref_commitment(pay), a}}, [&](const output& o) { return w.is_spendable(mine_in(o.m_witness_program_commitment)); }, "a payment");
            check_valid(*x, "a payment");
            if(s.coin()) {
                w.confirm_transaction(*x);
                auto xid = ref_tx_id(*x);
                for(size_t i = 0; i < x->m_outputs.size(); i++) {
                    if(x->m_outputs[i].m_witness_program_commitment != ref_commitment(pay)) {
                        input in;
                        in.m_prevout = {xid, i};
                        in.m_prevout_data = x->m_outputs[i];
                        c.emplace(op(in), in);
                    }
                }
            }
            if(k == 30) {
                w.save(dir.path() + "/w");
                w.load(dir.path() + "/w");
            }
            PBT_CHECK(w.balance() == static_cast<u64>(total(c)) && w.count() == c.size(), "balance %llu with %zu coins, expected %llu with %zu",
                      (unsigned long long)w.balance(), w.count(), (unsigned long long)total(c), c.size());
        }
        s.note("%llu keys", (unsigned long long)n);
        s.nontrivial();
    }

    // Several threads spending from one wallet.
    void threads(Src& s) {
        jit::setting js;
        js.m_lock = static_cast<unsigned>(s.below(3)) * 40;
        js.m_us = 60;
        js.m_seed = s.u64v();
        wallet w;
        if(s.coin()) {
            w.seed(pool(0).m_priv, 7, 0, s.below(20) + 1);
        }
        auto start_count = 4 + s.below(30);
        w.confirm_transaction(w.mint_new_coins(start_count, static_cast<uint32_t>(1 + s.below(50))));
        auto start = w.balance();
        struct one {
            unsigned m_kind;
            u64 m_a;
            u64 m_b;
            bool m_confirm;
        };
        auto nt = 2 + s.below(3);
        std::vector<std::vector<one>> progs(nt);
        for(auto& p : progs) {
            auto n = 1 + s.below(12);
            for(u64 i = 0; i < n; i++) {
                p.push_back({static_cast<unsigned>(s.below(5)), 1 + s.below(40), 1 + s.below(4), s.coin()});
            }
        }
        std::mutex mut;
        std::vector<full_tx> txs;
        auto pay = pool(9).m_pub;
        std::atomic<u64> returned{0};
        std::atomic<bool> wrong{false};
        {
            jit::scope sc(js);
            std::vector<std::thread> ts;
            for(auto& p : progs) {
                ts.emplace_back([&, p] {
                    for(auto& o : p) {
                        std::optional<full_tx> t;
                        switch(o.m_kind) {
                            case 0:
                            case 1:
                                t = w.send_to(static_cast<uint32_t>(o.m_a), pay, true);
                                break;
                            case 2:
                                t = w.fan(o.m_b, static_cast<uint32_t>(o.m_a), pay, true);
                                break;
                            case 3:
                                t = w.send_to(o.m_b, o.m_a % 3 + 1, pay, true);
                                break;
                            default:
                                if(w.balance() > start || w.count() > 1000) {
                                    wrong = true;
                                }
                        }
                        if(t) {
                            {
                                std::lock_guard<std::mutex> l(mut);
                                txs.push_back(*t);
                            }
                            if(o.m_confirm) {
                                for(auto& out : t->m_outputs) {
                                    if(out.m_witness_program_commitment != ref_commitment(pay)) {
                                        returned += out.m_value;
                                    }
                                }
                                w.confirm_transaction(*t);
                            }
                        }
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
        }
        PBT_CHECK(!wrong, "a balance above what the wallet started with");
        std::set<outpoint> used;
        u64 spent = 0;
        for(auto& t : txs) {
            check_valid(t, "a payment");
            for(auto& in : t.m_inputs) {
                PBT_CHECK(used.insert(op(in)).second, "two threads spent the same coin");
                spent += in.m_prevout_data.m_value;
            }
        }
        PBT_CHECK(w.balance() == start - spent + returned, "balance %llu after spending %llu of %llu and getting back %llu", (unsigned long long)w.balance(),
                  (unsigned long long)spent, (unsigned long long)start, (unsigned long long)returned.load());
        // what is left can be spent, to the last coin
        auto left = w.balance();
        if(left > 0) {
            auto t = w.send_to(static_cast<uint32_t>(left), pay, true);
            PBT_CHECK(t.has_value(), "the rest of %llu cannot be spent", (unsigned long long)left);
            check_valid(*t, "the last payment");
            for(auto& in : t->m_inputs) {
                PBT_CHECK(used.insert(op(in)).second, "a coin is spent again");
            }
            PBT_CHECK(w.balance() == 0 && w.count() == 0, "something is left after everything was spent");
        }
        s.note("%llu threads, %zu transactions", (unsigned long long)nt, txs.size());
        if(txs.size() > 1) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C04";
    c.m_rule = "histories of up to 44 operations of 1 to 3 wallets, some seeded: mints, payments, fans, transfers of a "
               "number of coins, confirmations, imports, coins of up to 2^56, saves, loads of the last save into the same or a "
               "new wallet; jointly signed transactions; wallets beyond the number of keys where keys are reused; "
               "several threads on one wallet. Non-trivial: a transaction was made";
    c.m_assumptions = {"amounts asked for are positive and what a wallet holds is below 2^64",
                       "a transaction or input is reported as confirmed once to each wallet",
                       "seeded coins are not part of a saved wallet (the file format has no place for them)"};
    c.m_props = {{"histories", histories, 6000, 200000},
                 {"joint", joint, 3000, 60000},
                 {"many_keys", many_keys, 8, 100, false, 120},
                 {"threads", threads, 1500, 50000, true}};
    return pbt::run(argc, argv, c);
}
