// Replicas of the atomizer state machine: the same log, snapshots, restarts.
#include "atom_model.hpp"
#include "crash.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/istream_serializer.hpp"

#include <filesystem>
#include <fstream>

using namespace vt;
namespace at = cbdc::atomizer;
using sm_t = at::state_machine;

namespace {
    struct entry {
        std::optional<sm_t::request> m_req; // nothing: configuration
    };

    nuraft::ptr<nuraft::buffer> bytes(const sm_t::request& r) {
        auto b = cbdc::make_buffer<sm_t::request,
                                   nuraft::ptr<nuraft::buffer>>(r);
        b->pos(0);
        return b;
    }
    std::optional<sm_t::response> apply(sm_t& sm, u64 idx, const entry& e) {
        std::optional<sm_t::response> r;
        if(!e.m_req) {
            auto c = nuraft::cs_new<nuraft::cluster_config>(idx);
            sm.commit_config(idx, c);
        } else {
            auto b = bytes(*e.m_req);
            auto out = sm.commit(idx, *b);
            if(out) {
                r = cbdc::from_buffer<sm_t::response>(*out);
                PBT_CHECK(r.has_value(), "an answer does not decode");
            }
        }
        PBT_CHECK(sm.last_commit_index() == idx,
                  "last index %zu after entry %zu",
                  (size_t)sm.last_commit_index(),
                  (size_t)idx);
        return r;
    }
    bool eq(const std::optional<sm_t::response>& a,
            const std::optional<sm_t::response>& b) {
        if(a.has_value() != b.has_value()) {
            return false;
        }
        if(!a) {
            return true;
        }
        if(a->index() != b->index()) {
            return false;
        }
        if(auto* x = std::get_if<at::make_block_response>(&*a)) {
            auto& y = std::get<at::make_block_response>(*b);
            return same(x->m_blk, y.m_blk) && x->m_errs == y.m_errs;
        }
        if(auto* x = std::get_if<at::get_block_response>(&*a)) {
            return same(x->m_blk, std::get<at::get_block_response>(*b).m_blk);
        }
        return std::get<at::errors>(*a) == std::get<at::errors>(*b);
    }

    nuraft::ptr<nuraft::snapshot> snap(sm_t& sm, u64 idx) {
        auto cfg = nuraft::cs_new<nuraft::cluster_config>(idx);
        auto s = nuraft::cs_new<nuraft::snapshot>(idx, 3, cfg);
        size_t done = 0;
        nuraft::async_result<bool>::handler_type h
            = [&](bool& ok, nuraft::ptr<std::exception>& e) {
                  done += ok && !e ? 1 : 100;
              };
        sm.create_snapshot(*s, h);
        PBT_CHECK(done == 1, "creating a snapshot reported %zu", done);
        return s;
    }
    struct image {
        at::atomizer m_a{0, 0};
        std::map<u64, block_t> m_blocks;
    };
    std::unique_ptr<image> load(const std::string& dir, u64 idx) {
        std::ifstream f(dir + "/" + std::to_string(idx), std::ios::binary);
        PBT_CHECK(f.good(), "no snapshot %zu", (size_t)idx);
        auto d = cbdc::istream_serializer(f);
        auto a = std::make_shared<at::atomizer>(0, 0);
        auto s = sm_t::snapshot{a,
                                nullptr,
                                std::make_shared<sm_t::blockstore_t>()};
        PBT_CHECK(static_cast<bool>(d >> s), "the snapshot does not decode");
        auto r = std::make_unique<image>();
        auto buf = a->serialize();
        auto bd = cbdc::buffer_serializer(buf);
        r->m_a.deserialize(bd);
        for(auto& [h, b] : *s.m_blocks) {
            PBT_CHECK(b.m_height == h, "block filed under another height");
            r->m_blocks[h] = b;
        }
        return r;
    }

    struct world {
        Src& s;
        u64 m_depth;
        pbt::Scratch m_dir;
        std::vector<entry> m_log;
        std::vector<std::optional<sm_t::response>> m_resp;
        amodel m_m;
        std::map<u64, block_t> m_blocks;
        contenders m_co;

        explicit world(Src& src) : s(src), m_depth(s.below(4)), m_m{m_depth} {
            m_co.m_ids = static_cast<unsigned>(s.range(1, 6));
        }
        std::string dir(const char* n) { return m_dir.path() + "/" + n; }
        entry gen() {
            switch(s.weighted({6, 4, 3, 1, 1})) {
                case 0: {
                    auto r = at::aggregate_tx_notify_request();
                    auto n = s.below(4);
                    for(u64 i = 0; i < n; i++) {
                        auto t = m_co.some(s);
                        auto lo = m_m.m_best > m_depth + 1
                                    ? m_m.m_best - m_depth - 1
                                    : 0;
                        r.m_agg_txs.push_back(
                            {t,
                             t.m_inputs.empty() ? 0
                                                : s.range(lo, m_m.m_best)});
                    }
                    return {r};
                }
                case 1:
                    return {at::make_block_request{}};
                case 2:
                    return {at::get_block_request{s.below(m_m.m_best + 2)}};
                case 3:
                    return {at::prune_request{s.below(m_m.m_best + 3)}};
                default:
                    return {std::nullopt};
            }
        }
        // The reference's answer to an entry.
        void check_model(const entry& e,
                         const std::optional<sm_t::response>& r) {
            if(!e.m_req) {
                return;
            }
            std::visit(
                cbdc::overloaded{
                    [&](const at::aggregate_tx_notify_request& q) {
                        std::vector<std::pair<verdict, ctx_t>> bad;
                        for(auto& t : q.m_agg_txs) {
                            auto v = m_m.insert_complete(t.m_oldest_attestation,
                                                         t.m_tx);
                            if(v.m_k != verdict::ok) {
                                bad.emplace_back(v, t.m_tx);
                            }
                        }
                        if(bad.empty()) {
                            PBT_CHECK(!r, "errors for accepted transactions");
                            return;
                        }
                        s.label("refused");
                        PBT_CHECK(r && std::holds_alternative<at::errors>(*r),
                                  "%zu refused transactions, no errors",
                                  bad.size());
                        auto& es = std::get<at::errors>(*r);
                        PBT_CHECK(es.size() == bad.size(),
                                  "%zu errors for %zu refused transactions",
                                  es.size(),
                                  bad.size());
                        for(size_t i = 0; i < es.size(); i++) {
                            check_verdict(bad[i].first,
                                          es[i],
                                          bad[i].second,
                                          "state machine");
                        }
                    },
                    [&](const at::make_block_request&) {
                        std::set<hash_t> must;
                        std::set<hash_t> may;
                        auto want = m_m.make_block(must, may);
                        PBT_CHECK(
                            r
                                && std::holds_alternative<
                                    at::make_block_response>(*r),
                            "making a block answers otherwise");
                        auto& b = std::get<at::make_block_response>(*r);
                        PBT_CHECK(b.m_blk.m_height == m_m.m_best
                                      && b.m_errs.empty(),
                                  "block height %zu, expected %zu",
                                  (size_t)b.m_blk.m_height,
                                  (size_t)m_m.m_best);
                        check_block_txs(want, b.m_blk);
                        m_blocks[m_m.m_best] = b.m_blk;
                    },
                    [&](const at::get_block_request& q) {
                        auto it = m_blocks.find(q.m_block_height);
                        if(it == m_blocks.end()) {
                            PBT_CHECK(!r,
                                      "block %zu is answered, it was %s",
                                      (size_t)q.m_block_height,
                                      q.m_block_height <= m_m.m_best
                                              && q.m_block_height > 0
                                          ? "pruned"
                                          : "never made");
                            return;
                        }
                        PBT_CHECK(
                            r
                                && std::holds_alternative<
                                    at::get_block_response>(*r)
                                && same(std::get<at::get_block_response>(*r)
                                            .m_blk,
                                        it->second),
                            "block %zu is not returned as it was made",
                            (size_t)q.m_block_height);
                        s.label("block read");
                    },
                    [&](const at::prune_request& q) {
                        PBT_CHECK(!r, "pruning answers");
                        m_blocks.erase(m_blocks.begin(),
                                       m_blocks.lower_bound(
                                           q.m_block_height));
                    }},
                *e.m_req);
        }
        void replay(sm_t& sm, const char* who) {
            for(auto i = sm.last_commit_index() + 1; i <= m_log.size(); i++) {
                auto r = apply(sm, i, m_log[i - 1]);
                PBT_CHECK(eq(r, m_resp[i - 1]),
                          "%s answers entry %zu otherwise than the first "
                          "replica",
                          who,
                          (size_t)i);
            }
        }
        void compare(const char* a, sm_t& sa, const char* b, sm_t& sb) {
            auto i = m_log.size();
            snap(sa, i);
            snap(sb, i);
            auto x = load(dir(a), i);
            auto y = load(dir(b), i);
            PBT_CHECK(x->m_a == y->m_a, "%s and %s differ", a, b);
            PBT_CHECK(x->m_a.height() == m_m.m_best
                          && x->m_a.pending_transactions()
                                 == m_m.m_complete.size(),
                      "replica %s is at height %zu",
                      a,
                      (size_t)x->m_a.height());
            for(auto* im : {x.get(), y.get()}) {
                PBT_CHECK(im->m_blocks.size() == m_blocks.size(),
                          "%zu blocks held, %zu expected",
                          im->m_blocks.size(),
                          m_blocks.size());
                for(auto& [h, blk] : m_blocks) {
                    auto it = im->m_blocks.find(h);
                    PBT_CHECK(it != im->m_blocks.end()
                                  && same(it->second, blk),
                              "block %zu is not held as made",
                              (size_t)h);
                }
            }
        }
    };

    void run_case(Src& s) {
        world w(s);
        auto a = std::make_unique<sm_t>(w.m_depth, w.dir("A"));
        auto b = std::make_unique<sm_t>(w.m_depth, w.dir("B"));
        std::unique_ptr<sm_t> c;
        auto n = s.range(1, 25);
        // The last snapshot B took for certain.
        u64 b_snap = 0;
        std::optional<std::pair<std::string, std::string>> old;
        for(u64 k = 0; k < n; k++) {
            auto e = w.gen();
            auto i = w.m_log.size() + 1;
            s.note("entry %zu: %s",
                   (size_t)i,
                   !e.m_req ? "config"
                            : std::array<const char*, 4>{
                                "txs",
                                "make block",
                                "get block",
                                "prune"}[e.m_req->index()]);
            auto r = apply(*a, i, e);
            w.m_log.push_back(e);
            w.m_resp.push_back(r);
            w.check_model(e, r);
            if(b && s.chance(4, 5)) {
                w.replay(*b, "a replica");
            }
            if(c && s.chance(1, 2)) {
                w.replay(*c, "a joined replica");
            }
            switch(s.weighted({8, 2, 2, 1, 1})) {
                case 1: {
                    auto bi = b->last_commit_index();
                    if(bi != 0 && bi != b_snap) {
                        s.note("snapshot at %zu", (size_t)bi);
                        if(b_snap != 0) {
                            auto p = w.dir("B") + "/" + std::to_string(b_snap);
                            std::ifstream f(p, std::ios::binary);
                            old = {p,
                                   std::string(
                                       std::istreambuf_iterator<char>(f),
                                       {})};
                        }
                        snap(*b, bi);
                        b_snap = bi;
                        s.label("snapshot");
                    }
                    break;
                }
                case 2: {
                    b.reset();
                    if(s.chance(1, 3)) {
                        std::ofstream t(w.dir("B") + "/tmp");
                        t << "unfinished";
                        s.label("unfinished snapshot left over");
                    }
                    if(old && s.chance(1, 2)) {
                        std::ofstream t(old->first, std::ios::binary);
                        t << old->second;
                        s.label("older snapshot left over");
                    }
                    s.note("restart (snapshot %zu)", (size_t)b_snap);
                    b = std::make_unique<sm_t>(w.m_depth, w.dir("B"));
                    PBT_CHECK(b->last_commit_index() == b_snap,
                              "restarted at index %zu, the snapshot is of "
                              "%zu",
                              (size_t)b->last_commit_index(),
                              (size_t)b_snap);
                    auto ls = b->last_snapshot();
                    PBT_CHECK((ls != nullptr) == (b_snap != 0)
                                  && (!ls
                                      || (ls->get_last_log_idx() == b_snap
                                          && ls->get_last_log_term() == 3)),
                              "last_snapshot() after the restart");
                    s.label("restart");
                    if(b_snap != 0) {
                        s.nontrivial();
                    }
                    break;
                }
                case 3: {
                    // A new replica gets the snapshot of B.
                    if(b_snap == 0) {
                        break;
                    }
                    auto cfg
                        = nuraft::cs_new<nuraft::cluster_config>(b_snap);
                    auto sn = nuraft::snapshot(b_snap, 3, cfg);
                    void* uc = nullptr;
                    nuraft::ptr<nuraft::buffer> data;
                    bool last = false;
                    auto rc
                        = b->read_logical_snp_obj(sn, uc, 0, data, last);
                    PBT_CHECK(rc == 0 && last && data,
                              "snapshot %zu cannot be read",
                              (size_t)b_snap);
                    if(!c || s.coin()) {
                        c = std::make_unique<sm_t>(w.m_depth, w.dir("C"));
                    }
                    if(c->last_commit_index() >= b_snap) {
                        break;
                    }
                    s.note("join from snapshot %zu", (size_t)b_snap);
                    nuraft::ulong oid = 0;
                    data->pos(0);
                    c->save_logical_snp_obj(sn, oid, *data, true, true);
                    PBT_CHECK(oid == 1, "object id %zu", (size_t)oid);
                    PBT_CHECK(c->apply_snapshot(sn), "snapshot not applied");
                    PBT_CHECK(c->last_commit_index() == b_snap,
                              "index after applying a snapshot");
                    s.label("joined");
                    s.nontrivial();
                    break;
                }
                case 4: {
                    // Stop somewhere in the middle of writing a snapshot.
                    auto bi = b->last_commit_index();
                    if(bi == 0 || bi == b_snap) {
                        break;
                    }
                    auto limit = s.range(1, 3000);
                    auto full = s.coin();
                    auto r2 = crash_run(limit, full, [&](auto&&) {
                        snap(*b, bi);
                    });
                    s.note("stop while writing snapshot %zu (byte %zu, %s): "
                           "%d",
                           (size_t)bi,
                           (size_t)limit,
                           full ? "full" : "killed",
                           (int)r2.m_end);
                    PBT_CHECK(r2.m_end != crash_result::broken,
                              "writing a snapshot: %s",
                              r2.m_what.c_str());
                    b.reset();
                    b = std::make_unique<sm_t>(w.m_depth, w.dir("B"));
                    auto now = b->last_commit_index();
                    if(r2.m_end == crash_result::finished) {
                        PBT_CHECK(now == bi,
                                  "the snapshot was taken but the restart is "
                                  "at %zu",
                                  (size_t)now);
                    } else {
                        s.label("stopped in a snapshot");
                        s.nontrivial();
                    }
                    PBT_CHECK(now == bi || now == b_snap,
                              "restarted at %zu, snapshots were %zu and %zu",
                              (size_t)now,
                              (size_t)b_snap,
                              (size_t)bi);
                    b_snap = now;
                    old.reset();
                    break;
                }
                default:
                    break;
            }
        }
        w.replay(*b, "a replica");
        w.compare("A", *a, "B", *b);
        if(c) {
            w.replay(*c, "a joined replica");
            w.compare("A", *a, "C", *c);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C14";
    c.m_rule = "a replica restarted from a snapshot, joined from one, or "
               "stopped while writing one";
    c.m_assumptions = {
        "the raft library calls the state machine as NuRaft documents; a "
        "stand-in for it is compiled in"};
    c.m_props.push_back({"replicas", run_case, 3000, 40000});
    return pbt::run(argc, argv, c);
}
