// Bounded caches: the set of ids, the watchtower's blocks and errors.
#include "atom.hpp"
#include "uhs/atomizer/watchtower/block_cache.hpp"
#include "uhs/atomizer/watchtower/error_cache.hpp"
#include "util/common/cache_set.hpp"

#include <atomic>
#include <deque>
#include <optional>
#include <thread>

using namespace vt;
namespace wt = cbdc::watchtower;

namespace {
    // A hasher that puts many values in one bucket.
    struct bad_hash {
        size_t operator()(u64 v) const { return v % 3; }
    };

    template<typename H>
    void set_case(Src& s) {
        auto n = s.range(1, 12);
        auto dom = s.range(1, 3 * n);
        cbdc::cache_set<u64, H> c(n);
        std::deque<u64> q;
        auto steps = s.size(80);
        s.note("capacity %zu, values below %zu", (size_t)n, (size_t)dom);
        for(u64 i = 0; i < steps; i++) {
            auto v = s.below(dom);
            auto isnew = std::find(q.begin(), q.end(), v) == q.end();
            auto r = c.add(v);
            PBT_CHECK(r == isnew,
                      "step %zu: adding %zu reported %d",
                      (size_t)i,
                      (size_t)v,
                      (int)r);
            if(isnew) {
                q.push_back(v);
                if(q.size() > n) {
                    q.pop_front();
                    s.label("evicted");
                    s.nontrivial();
                }
            } else {
                s.label("repeated");
            }
            for(u64 x = 0; x < dom; x++) {
                auto in = std::find(q.begin(), q.end(), x) != q.end();
                PBT_CHECK(c.contains(x) == in,
                          "step %zu, capacity %zu: %zu is %s the last %zu "
                          "distinct values but contains() says %d",
                          (size_t)i,
                          (size_t)n,
                          (size_t)x,
                          in ? "among" : "not among",
                          q.size(),
                          (int)c.contains(x));
            }
        }
    }
    void set_prop(Src& s) {
        if(s.coin()) {
            set_case<bad_hash>(s);
        } else {
            set_case<std::hash<u64>>(s);
        }
    }

    void set_threads(Src& s) {
        auto nt = s.range(2, 4);
        auto dom = s.range(1, 400);
        auto big = s.coin();
        cbdc::cache_set<u64> c(big ? dom + 1 : s.range(1, dom));
        std::vector<std::vector<u64>> in(nt);
        for(auto& v : in) {
            auto k = s.range(1, 60);
            auto b = s.below(dom);
            for(u64 i = 0; i < k; i++) {
                v.push_back((b + i * 7) % dom);
            }
        }
        std::vector<std::atomic<unsigned>> news(dom);
        std::vector<std::thread> ts;
        std::atomic<bool> go{false};
        for(u64 t = 0; t < nt; t++) {
            ts.emplace_back([&, t]() {
                while(!go) {}
                for(auto v : in[t]) {
                    if(c.add(v)) {
                        news[v]++;
                    }
                    (void)c.contains(v);
                }
            });
        }
        go = true;
        for(auto& t : ts) {
            t.join();
        }
        s.nontrivial();
        if(big) {
            for(u64 v = 0; v < dom; v++) {
                auto any = false;
                for(auto& x : in) {
                    any = any || std::find(x.begin(), x.end(), v) != x.end();
                }
                PBT_CHECK(news[v] == (any ? 1U : 0U)
                              && c.contains(v) == any,
                          "value %zu was reported new %u times",
                          (size_t)v,
                          news[v].load());
            }
        }
    }

    void blocks(Src& s) {
        auto k = s.chance(1, 5) ? 0 : s.range(1, 4);
        wt::block_cache bc(k);
        chain ch;
        if(s.coin()) {
            ch.m_prefixes = {7};
        }
        std::deque<block_t> last;
        u64 best = 0;
        auto n = s.range(1, 12);
        // Joined somewhere in the middle of the chain.
        auto skip = s.below(3);
        s.note("keeps %zu blocks, joins after %zu", (size_t)k, (size_t)skip);
        for(u64 i = 0; i < skip; i++) {
            ch.next(s);
        }
        for(u64 i = 0; i < n; i++) {
            auto b = ch.next(s);
            last.push_back(b);
            if(k != 0 && last.size() > k) {
                last.pop_front();
                s.label("evicted");
                s.nontrivial();
            }
            best = b.m_height;
            bc.push_block(std::move(b));
            PBT_CHECK(bc.best_block_height() == best,
                      "best height %zu after block %zu",
                      (size_t)bc.best_block_height(),
                      (size_t)best);
            std::map<hash_t, std::pair<u64, hash_t>> un;
            std::map<hash_t, std::pair<u64, hash_t>> sp;
            for(auto& lb : last) {
                for(auto& t : lb.m_transactions) {
                    for(auto& o : t.m_inputs) {
                        un.erase(o);
                        sp[o] = {lb.m_height, t.m_id};
                    }
                    for(auto& o : t.m_uhs_outputs) {
                        un[o] = {lb.m_height, t.m_id};
                    }
                }
            }
            auto all = ch.m_unspent;
            all.insert(all.end(), ch.m_spent.begin(), ch.m_spent.end());
            all.push_back(mkhash(9, 9, 9));
            for(auto& id : all) {
                auto u = bc.check_unspent(id);
                auto p = bc.check_spent(id);
                auto ui = un.find(id);
                auto pi = sp.find(id);
                PBT_CHECK(u.has_value() == (ui != un.end())
                              && (!u || (u->first == ui->second.first
                                         && u->second == ui->second.second)),
                          "at height %zu, keeping %zu blocks, unspent query "
                          "of %s answers %d (height %zu)",
                          (size_t)best,
                          (size_t)k,
                          h8(id).c_str(),
                          (int)u.has_value(),
                          u ? (size_t)u->first : 0);
                PBT_CHECK(p.has_value() == (pi != sp.end())
                              && (!p || (p->first == pi->second.first
                                         && p->second == pi->second.second)),
                          "at height %zu, keeping %zu blocks, spent query of "
                          "%s answers %d (height %zu)",
                          (size_t)best,
                          (size_t)k,
                          h8(id).c_str(),
                          (int)p.has_value(),
                          p ? (size_t)p->first : 0);
                if(p) {
                    s.label("spent");
                }
            }
        }
    }

    wt::tx_error mkerr(Src& s, const hash_t& tx, std::set<hash_t>& ids) {
        auto kind = s.below(5);
        auto some = [&]() {
            auto n = s.below(4);
            for(u64 i = 0; i < n; i++) {
                ids.insert(mkhash(3, 2, s.below(6)));
            }
        };
        switch(kind) {
            case 0:
                return {tx, wt::tx_error_sync{}};
            case 1: {
                some();
                return {tx,
                        wt::tx_error_inputs_dne{
                            std::vector<hash_t>(ids.begin(), ids.end())}};
            }
            case 2:
                return {tx, wt::tx_error_stxo_range{}};
            case 3:
                return {tx, wt::tx_error_incomplete{}};
            default:
                some();
                return {tx,
                        wt::tx_error_inputs_spent{
                            std::unordered_set<hash_t, cbdc::hashing::null>(
                                ids.begin(),
                                ids.end())}};
        }
    }

    void errors(Src& s) {
        struct rec {
            wt::tx_error m_e;
            std::set<hash_t> m_ids;
        };
        auto k = s.chance(1, 5) ? 0 : s.range(1, 6);
        wt::error_cache ec(k);
        std::deque<rec> last;
        auto n = s.range(1, 15);
        auto ntx = s.range(1, 8);
        s.note("keeps %zu errors", (size_t)k);
        for(u64 i = 0; i < n; i++) {
            auto m = s.range(1, 3);
            std::vector<wt::tx_error> v;
            for(u64 j = 0; j < m; j++) {
                auto tx = mkhash(1, 1, s.below(ntx));
                std::set<hash_t> ids;
                auto e = mkerr(s, tx, ids);
                for(auto& r : last) {
                    if(r.m_e.tx_id() == tx) {
                        s.label("same tx again");
                    }
                }
                s.note("error for tx %s: %s, %zu ids",
                       h8(tx).c_str(),
                       e.to_string().c_str(),
                       ids.size());
                v.push_back(e);
                last.push_back({e, ids});
                if(k != 0 && last.size() > k) {
                    last.pop_front();
                    s.label("evicted");
                    s.nontrivial();
                }
            }
            ec.push_errors(std::move(v));
            for(u64 t = 0; t <= ntx; t++) {
                auto tx = mkhash(1, 1, t);
                std::optional<wt::tx_error> want;
                for(auto& r : last) {
                    if(r.m_e.tx_id() == tx) {
                        want = r.m_e;
                    }
                }
                auto got = ec.check_tx_id(tx);
                PBT_CHECK(got.has_value() == want.has_value()
                              && (!got || *got == *want),
                          "tx %s: got %s, latest error remembered is %s",
                          h8(tx).c_str(),
                          got ? got->to_string().c_str() : "nothing",
                          want ? want->to_string().c_str() : "none");
            }
            for(u64 t = 0; t <= 6; t++) {
                auto id = mkhash(3, 2, t);
                std::optional<wt::tx_error> want;
                for(auto& r : last) {
                    if(r.m_ids.count(id) != 0) {
                        want = r.m_e;
                    }
                }
                auto got = ec.check_uhs_id(id);
                PBT_CHECK(got.has_value() == want.has_value()
                              && (!got || *got == *want),
                          "id %s: got %s, latest error remembered is %s",
                          h8(id).c_str(),
                          got ? got->to_string().c_str() : "nothing",
                          want ? want->to_string().c_str() : "none");
            }
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C12";
    c.m_rule = "an entry was evicted, or several threads added at once";
    c.m_assumptions = {
        "caches of at least one element; block histories in which an id is "
        "created once and spent at most once"};
    c.m_props.push_back({"id set", set_prop, 40000, 600000});
    c.m_props.push_back(
        {"id set, threads", set_threads, 300, 6000, true, 20, 2});
    c.m_props.push_back({"block cache", blocks, 700, 15000});
    c.m_props.push_back({"error cache", errors, 30000, 600000});
    return pbt::run(argc, argv, c);
}
