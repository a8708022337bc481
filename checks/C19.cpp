// Locking shard against a reference model: interleaved batches of
// transactions that compete for the same unspent ids.
#include "common.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"

#include <map>
#include <secp256k1.h>
#include <set>

using namespace vt;
using cbdc::locking_shard::locking_shard;
using tx_t = cbdc::locking_shard::tx;

namespace {
    secp256k1_context* secp() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN
                                                  | SECP256K1_CONTEXT_VERIFY);
        return c;
    }

    struct batch {
        std::vector<tx_t> m_txs;
        std::vector<bool> m_want;
        hash_t m_id{};
        std::vector<bool> m_flags;
    };

    // What a coordinator may legally do with one shard, in any interleaving.
    void history(Src& s, bool attest) {
        const unsigned lo = s.coin() ? 0 : static_cast<unsigned>(s.below(200));
        const unsigned hi
            = s.coin() ? 255 : lo + static_cast<unsigned>(s.below(256 - lo));
        auto in_range = [&](const hash_t& h) {
            return h[0] >= lo && h[0] <= hi;
        };
        cbdc::config::options opts{};
        const size_t nkeys = 3;
        opts.m_attestation_threshold = attest ? 1 + s.below(3) : 0;
        std::vector<cbdc::privkey_t> keys;
        for(size_t i = 0; i < nkeys + 1; i++) {
            keys.push_back(mkkey(i));
            if(i < nkeys) {
                opts.m_sentinel_public_keys.insert(
                    cbdc::pubkey_from_privkey(keys[i], secp()));
            }
        }
        locking_shard sh({static_cast<uint8_t>(lo), static_cast<uint8_t>(hi)},
                         logger(),
                         100000,
                         "",
                         opts);
        s.note("shard range [%u,%u] threshold %zu",
               lo,
               hi,
               opts.m_attestation_threshold);

        // model
        std::set<hash_t> unspent;
        std::map<hash_t, hash_t> locked; // id -> batch
        std::set<hash_t> completed;
        std::set<hash_t> aborted_only;
        std::vector<hash_t> pool; // ids that existed at some time
        std::map<hash_t, batch> prepared;
        std::map<hash_t, batch> applied;
        std::vector<tx_t> seen_txs;
        u64 next_id = 0;
        u64 next_tx = 0;
        u64 next_dtx = 0;
        bool conflict = false;

        auto first_byte = [&]() {
            switch(s.below(6)) {
                case 0:
                    return lo;
                case 1:
                    return hi;
                case 2:
                    return lo == 0 ? 255U : lo - 1;
                case 3:
                    return (hi + 1) & 255U;
                default:
                    return lo + static_cast<unsigned>(s.below(hi - lo + 1));
            }
        };
        auto new_id = [&]() {
            auto h = mkhash(static_cast<uint8_t>(first_byte()), 1, next_id++);
            pool.push_back(h);
            return h;
        };
        auto sign = [&](tx_t& t, bool& valid) {
            valid = true;
            if(!attest) {
                return;
            }
            auto mode = s.weighted({8, 1, 1, 1, 1});
            auto n = opts.m_attestation_threshold;
            if(mode == 1) {
                n--;
                valid = false;
            }
            for(size_t i = 0; i < n; i++) {
                t.m_tx.m_attestations.insert(t.m_tx.sign(secp(), keys[i]));
            }
            if(mode == 2) {
                // one attestation of a key that is no sentinel's
                t.m_tx.m_attestations.insert(
                    t.m_tx.sign(secp(), keys[nkeys]));
                valid = false;
            } else if(mode == 3) {
                t.m_tx.m_attestations.begin()->second[s.below(64)] ^= 1;
                valid = false;
            } else if(mode == 4) {
                // content changed after it was attested
                t.m_tx.m_uhs_outputs.push_back(new_id());
                valid = false;
            }
        };
        auto check_all = [&]() {
            for(const auto& h : pool) {
                auto r = sh.check_unspent(h);
                PBT_CHECK(r.has_value(), "status query refused");
                bool want = unspent.count(h) != 0 || locked.count(h) != 0;
                PBT_CHECK(*r == want,
                          "id %s: shard says %s, model says %s",
                          h8(h).c_str(),
                          *r ? "unspent" : "not unspent",
                          want ? "unspent" : "not unspent");
            }
            for(const auto& t : seen_txs) {
                auto r = sh.check_tx_id(t.m_tx.m_id);
                PBT_CHECK(r.has_value(), "status query refused");
                bool want = completed.count(t.m_tx.m_id) != 0
                         && in_range(t.m_tx.m_id);
                PBT_CHECK(*r == want,
                          "tx %s: shard says %s, model says %s",
                          h8(t.m_tx.m_id).c_str(),
                          *r ? "completed" : "not completed",
                          want ? "completed" : "not completed");
            }
        };
        auto do_lock = [&](batch b, const std::vector<bool>& valid) {
            auto id = mkhash(static_cast<uint8_t>(next_dtx), 9, next_dtx);
            next_dtx++;
            b.m_id = id;
            for(size_t i = 0; i < b.m_txs.size(); i++) {
                bool okay = valid[i];
                for(const auto& in : b.m_txs[i].m_tx.m_inputs) {
                    if(in_range(in) && unspent.count(in) == 0) {
                        if(locked.count(in) != 0) {
                            conflict = true;
                        }
                        okay = false;
                    }
                }
                if(okay) {
                    for(const auto& in : b.m_txs[i].m_tx.m_inputs) {
                        if(in_range(in)) {
                            unspent.erase(in);
                            locked[in] = id;
                        }
                    }
                }
                b.m_want.push_back(okay);
            }
            auto txs = b.m_txs;
            auto r = sh.lock_outputs(std::move(txs), id);
            PBT_CHECK(r.has_value(), "lock refused");
            PBT_CHECK(*r == b.m_want, "batch %s: wrong lock results", h8(id).c_str());
            prepared[id] = b;
        };
        auto describe = [&](const tx_t& t) {
            std::string d = "tx " + h8(t.m_tx.m_id) + " in";
            for(const auto& i : t.m_tx.m_inputs) {
                d += " " + h8(i);
            }
            d += " out";
            for(const auto& o : t.m_tx.m_uhs_outputs) {
                d += " " + h8(o);
            }
            return d;
        };

        const auto steps = s.range(4, 60);
        for(u64 k = 0; k < steps; k++) {
            auto op = s.weighted({5, 4, 2, 1, 1});
            if(op == 0) {
                batch b;
                std::vector<bool> valid;
                auto n = 1 + s.size(4);
                std::set<hash_t> outs;
                for(u64 i = 0; i < n; i++) {
                    tx_t t;
                    t.m_tx.m_id = mkhash(static_cast<uint8_t>(first_byte()),
                                         5,
                                         next_tx++);
                    auto nin = pool.empty() ? 0 : s.below(4);
                    std::set<hash_t> ins;
                    for(u64 j = 0; j < nin; j++) {
                        // recent ids more often: those are unspent
                        auto w = std::min<u64>(pool.size(), 10);
                        auto ix = s.chance(1, 6)
                                    ? s.below(pool.size())
                                    : pool.size() - 1 - s.below(w);
                        if(outs.count(pool[ix]) == 0) {
                            ins.insert(pool[ix]);
                        }
                    }
                    if(s.chance(1, 12)) {
                        // never existed
                        ins.insert(
                            mkhash(static_cast<uint8_t>(first_byte()),
                                   7,
                                   s.below(4)));
                    }
                    t.m_tx.m_inputs.assign(ins.begin(), ins.end());
                    auto nout = s.below(3) + (nin == 0 ? 1 : 0);
                    for(u64 j = 0; j < nout; j++) {
                        t.m_tx.m_uhs_outputs.push_back(new_id());
                        outs.insert(t.m_tx.m_uhs_outputs.back());
                    }
                    bool v = true;
                    sign(t, v);
                    for(const auto& o : t.m_tx.m_uhs_outputs) {
                        outs.insert(o);
                    }
                    valid.push_back(v);
                    seen_txs.push_back(t);
                    b.m_txs.push_back(t);
                }
                s.note("lock batch %llu:", static_cast<unsigned long long>(next_dtx));
                for(size_t i = 0; i < b.m_txs.size(); i++) {
                    s.note("  %s%s",
                           describe(b.m_txs[i]).c_str(),
                           valid[i] ? "" : " (bad attestations)");
                }
                do_lock(b, valid);
            } else if(op == 1 && !prepared.empty()) {
                auto it = prepared.begin();
                std::advance(it, static_cast<long>(s.below(prepared.size())));
                auto b = it->second;
                std::vector<bool> f;
                std::string fs;
                bool all = s.chance(2, 3);
                for(size_t i = 0; i < b.m_txs.size(); i++) {
                    f.push_back(b.m_want[i] && (all || s.coin()));
                    fs += f.back() ? '1' : '0';
                }
                s.note("apply batch %u flags %s", b.m_id[2], fs.c_str());
                auto g = f;
                PBT_CHECK(sh.apply_outputs(std::move(g), b.m_id),
                          "apply refused");
                for(size_t i = 0; i < f.size(); i++) {
                    const auto& t = b.m_txs[i].m_tx;
                    for(const auto& in : t.m_inputs) {
                        auto l = locked.find(in);
                        if(b.m_want[i] && l != locked.end()
                           && l->second == b.m_id) {
                            locked.erase(l);
                            if(!f[i]) {
                                unspent.insert(in);
                            }
                        }
                    }
                    if(f[i]) {
                        completed.insert(t.m_id);
                        for(const auto& o : t.m_uhs_outputs) {
                            if(in_range(o)) {
                                unspent.insert(o);
                            }
                        }
                    }
                }
                b.m_flags = f;
                applied[b.m_id] = b;
                prepared.erase(b.m_id);
            } else if(op == 2 && !prepared.empty()) {
                // the coordinator asks again (recovery, retry)
                auto it = prepared.begin();
                std::advance(it, static_cast<long>(s.below(prepared.size())));
                auto& b = it->second;
                s.note("lock batch %u again", b.m_id[2]);
                auto txs = b.m_txs;
                auto r = sh.lock_outputs(std::move(txs), b.m_id);
                PBT_CHECK(r.has_value() && *r == b.m_want,
                          "a repeated lock gives a different answer");
            } else if(op == 3 && !applied.empty()) {
                auto it = applied.begin();
                std::advance(it, static_cast<long>(s.below(applied.size())));
                auto f = it->second.m_flags;
                s.note("apply batch %u again", it->first[2]);
                PBT_CHECK(sh.apply_outputs(std::move(f), it->first),
                          "repeated apply refused");
            } else if(op == 4 && !applied.empty()) {
                auto it = applied.begin();
                std::advance(it, static_cast<long>(s.below(applied.size())));
                s.note("discard batch %u", it->first[2]);
                PBT_CHECK(sh.discard_dtx(it->first), "discard refused");
                if(s.coin()) {
                    PBT_CHECK(sh.discard_dtx(it->first),
                              "repeated discard refused");
                }
                applied.erase(it);
            }
            check_all();
        }
        if(conflict) {
            s.label("a lock met another batch's lock");
            s.nontrivial();
        }
        if(completed.size() > 2) {
            s.label("3+ completed");
        }
        if(s.coin()) {
            sh.stop();
            std::vector<tx_t> none;
            PBT_CHECK(!sh.lock_outputs(std::move(none), mkhash(0, 9, 9999)),
                      "lock accepted after stop");
            PBT_CHECK(!sh.apply_outputs({}, mkhash(0, 9, 9999)),
                      "apply accepted after stop");
            PBT_CHECK(!sh.discard_dtx(mkhash(0, 9, 9999)),
                      "discard accepted after stop");
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C19";
    c.m_rule = "random interleavings of lock/apply/discard (with repeats) of "
               "competing batches on one shard, compared with a reference "
               "model after every step; non-trivial: some transaction met an "
               "id locked by another batch";
    c.m_assumptions
        = {"a coordinator completes only transactions every shard locked",
           "an unspent id is created at most once"};
    c.m_props = {
        {"history", [](Src& s) { history(s, false); }, 2500, 200000},
        {"attested", [](Src& s) { history(s, true); }, 700, 40000},
    };
    return pbt::run(argc, argv, c);
}
