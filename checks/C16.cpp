// The archiver against the chain it was given, in any order of arrival.
#include "atom.hpp"
#include "crash.hpp"
#include "net.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/raft/messages.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <filesystem>

using namespace vt;
namespace at = cbdc::atomizer;
using archiver_t = cbdc::archiver::controller;

namespace {
    cbdc::config::options opts(const std::string& db) {
        cbdc::config::options o;
        o.m_archiver_db_dirs = {db};
        return o;
    }
    std::unique_ptr<archiver_t> open(const std::string& db) {
        auto a = std::make_unique<archiver_t>(0, opts(db), logger(), 0);
        PBT_CHECK(a->init_leveldb(), "the database does not open");
        PBT_CHECK(a->init_best_block(), "no best height");
        return a;
    }
    std::vector<block_t> make_chain(Src& s, u64 n, bool big = false) {
        chain ch;
        ch.m_max_tx = big ? 60 : 4;
        std::vector<block_t> b;
        for(u64 i = 0; i < n; i++) {
            b.push_back(ch.next(s));
            for(auto& t : b.back().m_transactions) {
                if(s.chance(1, 4)) {
                    static auto* cx
                        = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
                    t.m_attestations.insert(t.sign(cx, mkkey(1)));
                }
            }
        }
        return b;
    }
    cbdc::network::message_t msg(cbdc::buffer b) {
        return {std::make_shared<cbdc::buffer>(std::move(b)), 0};
    }
    // What the archiver says about height h.
    std::optional<block_t> ask(Src& s, archiver_t& a, u64 h) {
        if(s.coin()) {
            return a.get_block(h);
        }
        auto r = a.server_handler(msg(cbdc::make_buffer(h)));
        PBT_CHECK(r, "no answer for block %zu", (size_t)h);
        auto b = cbdc::from_buffer<std::optional<block_t>>(*r);
        PBT_CHECK(b, "the answer for block %zu does not decode", (size_t)h);
        return *b;
    }
    void look(Src& s,
              archiver_t& a,
              const std::vector<block_t>& blks,
              u64 best,
              u64 h,
              const char* when) {
        auto b = ask(s, a, h);
        if(h == 0 || h > best) {
            PBT_CHECK(!b,
                      "%s, best height %zu: it returns a block for height "
                      "%zu",
                      when,
                      (size_t)best,
                      (size_t)h);
            return;
        }
        PBT_CHECK(b,
                  "%s, best height %zu: block %zu is missing",
                  when,
                  (size_t)best,
                  (size_t)h);
        PBT_CHECK(same(*b, blks[h - 1]),
                  "%s: block %zu is not as it was made",
                  when,
                  (size_t)h);
    }

    // Which heights a model archiver holds and waits for.
    struct model {
        u64 m_best{0};
        std::set<u64> m_waiting;
        void digest(u64 h) {
            if(h <= m_best) {
                return;
            }
            m_waiting.insert(h);
            while(m_waiting.erase(m_best + 1) != 0) {
                m_best++;
            }
        }
    };

    void order(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        auto n = s.range(1, 14);
        auto blks = make_chain(s, n);
        auto a = open(db);
        model m;
        auto k = s.range(1, 30);
        auto reach = s.range(1, 6);
        for(u64 i = 0; i < k; i++) {
            switch(s.weighted({8, 3, 1})) {
                case 0: {
                    auto lo = m.m_best > 2 ? m.m_best - 2 : 1;
                    auto h = std::min(n, s.range(lo, m.m_best + reach));
                    s.note("block %zu", (size_t)h);
                    if(h > m.m_best + 1) {
                        s.label("ahead");
                    } else if(h <= m.m_best) {
                        s.label("repeated");
                    } else if(m.m_waiting.count(h + 1) != 0) {
                        s.label("gap closed");
                        s.nontrivial();
                    }
                    auto b = blks[h - 1];
                    if(s.coin()) {
                        a->digest_block(b);
                    } else {
                        a->atomizer_handler(msg(cbdc::make_buffer(b)));
                    }
                    m.digest(h);
                    break;
                }
                case 1:
                    look(s, *a, blks, m.m_best, s.range(0, n + 1), "query");
                    break;
                default:
                    s.note("restart");
                    a.reset();
                    a = open(db);
                    m.m_waiting.clear();
                    s.label("restart");
            }
            PBT_CHECK(a->best_block_height() == m.m_best,
                      "best height %zu, expected %zu",
                      (size_t)a->best_block_height(),
                      (size_t)m.m_best);
        }
        for(u64 h = 0; h <= n + 1; h++) {
            look(s, *a, blks, m.m_best, h, "at the end");
        }
        a.reset();
        a = open(db);
        PBT_CHECK(a->best_block_height() == m.m_best,
                  "after the restart the best height is %zu, it was %zu",
                  (size_t)a->best_block_height(),
                  (size_t)m.m_best);
        for(u64 h = 0; h <= n + 1; h++) {
            look(s, *a, blks, m.m_best, h, "after the restart");
        }
    }

    void crashes(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        auto n = s.range(1, 12);
        auto blks = make_chain(s, n, s.coin());
        u64 at = 0;
        auto rounds = s.range(1, 3);
        for(u64 r = 0; r < rounds; r++) {
            // Within two steps of the right order.
            std::vector<u64> seq;
            for(u64 h = at + 1; h <= n; h++) {
                seq.push_back(h);
            }
            for(size_t i = 0; i + 1 < seq.size(); i++) {
                if(s.chance(1, 3)) {
                    std::swap(seq[i], seq[i + 1]);
                }
            }
            size_t total = 0;
            for(auto& b : blks) {
                total += cbdc::make_buffer(b).size() + 40;
            }
            auto limit = s.range(20, 200 + total);
            auto full = s.chance(1, 3);
            auto res = crash_run(limit, full, [&](auto&& report) {
                archiver_t a(0, opts(db), logger(), 0);
                if(!a.init_leveldb() || !a.init_best_block()) {
                    _exit(3);
                }
                PBT_CHECK(a.best_block_height() == at, "height at start");
                auto was = at;
                for(auto h : seq) {
                    a.digest_block(blks[h - 1]);
                    for(; was < a.best_block_height(); was++) {
                        report();
                    }
                }
            });
            s.note("from height %zu, limit %zu, %s: end %d, %zu blocks",
                   (size_t)at,
                   (size_t)limit,
                   full ? "disk full" : "killed",
                   (int)res.m_end,
                   res.m_reports);
            PBT_CHECK(res.m_end != crash_result::broken,
                      "archiver: %s",
                      res.m_what.c_str());
            if(res.m_end != crash_result::finished && res.m_reports > 0) {
                s.nontrivial();
                s.label(full ? "disk full" : "killed");
            }
            auto a = open(db);
            auto h = a->best_block_height();
            PBT_CHECK(h >= at + res.m_reports && h <= n,
                      "restarted at height %zu, it had reached %zu",
                      (size_t)h,
                      (size_t)(at + res.m_reports));
            for(u64 i = 0; i <= n + 1; i++) {
                look(s, *a, blks, h, i, "after the crash");
            }
            at = h;
        }
    }

    // The archiver's process between an atomizer and its clients.
    void process(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        auto n = s.range(2, 14);
        auto blks = make_chain(s, n);
        std::mutex mut;
        std::multiset<u64> asked;
        std::vector<u64> pruned;
        std::atomic<bool> answer{s.coin()};
        std::atomic<u64> newest{0};
        stub_server atomizer([&](auto&& p) -> std::optional<cbdc::buffer> {
            auto e = cbdc::from_buffer<at::request>(*p.m_pkt);
            if(!e) {
                return std::nullopt;
            }
            std::unique_lock l(mut);
            if(auto* g = std::get_if<at::get_block_request>(&*e)) {
                asked.insert(g->m_block_height);
                if(answer && g->m_block_height >= 1
                   && g->m_block_height <= newest) {
                    return cbdc::make_buffer(blks[g->m_block_height - 1]);
                }
            } else if(auto* g = std::get_if<at::prune_request>(&*e)) {
                pruned.push_back(g->m_block_height);
            }
            return std::nullopt;
        });
        auto o = opts(db);
        o.m_atomizer_endpoints = {atomizer.m_ep};
        o.m_archiver_endpoints = {free_ep()};
        auto a = std::make_unique<archiver_t>(0, o, logger(), 0);
        if(!a->init()) {
            throw pbt::Discard{};
        }
        PBT_CHECK(wait_for([&]() {
                      return atomizer.m_net.peer_count() == 1;
                  }),
                  "no connection to the atomizer");
        // Sent in this order; a block that is left out has to be asked for
        // where the atomizer answers, and comes later where it does not.
        std::string sent;
        std::vector<u64> later;
        std::set<u64> must_ask;
        model m;
        for(u64 h = 1; h <= n; h++) {
            newest = h;
            if(h < n && s.chance(1, 3)) {
                later.push_back(h);
                continue;
            }
            if(h > 1 && m.m_waiting.count(h - 1) == 0 && m.m_best != h - 1) {
                must_ask.insert(h - 1);
            }
            sent += " " + std::to_string(h);
            atomizer.m_net.broadcast(blks[h - 1]);
            m.digest(h);
            if(s.chance(1, 4)) {
                auto d = s.range(1, h);
                if(std::find(later.begin(), later.end(), d) == later.end()) {
                    sent += " " + std::to_string(d);
                    atomizer.m_net.broadcast(blks[d - 1]);
                }
            }
        }
        s.note("%zu blocks, sent:%s, the atomizer %s",
               (size_t)n,
               sent.c_str(),
               answer ? "answers" : "does not answer");
        auto all_asked = [&]() {
            std::unique_lock l(mut);
            for(auto h : must_ask) {
                if(asked.count(h) == 0) {
                    return false;
                }
            }
            return true;
        };
        PBT_CHECK(wait_for(all_asked, 15),
                  "a missing block has not been asked for");
        if(!answer) {
            PBT_CHECK(wait_for(
                          [&]() {
                              return a->best_block_height() == m.m_best;
                          },
                          15),
                      "best height %zu, expected %zu",
                      (size_t)a->best_block_height(),
                      (size_t)m.m_best);
            for(auto h : later) {
                sent += " " + std::to_string(h);
                atomizer.m_net.broadcast(blks[h - 1]);
            }
            s.note("then:%s", sent.c_str());
        }
        PBT_CHECK(wait_for(
                      [&]() {
                          return a->best_block_height() == n;
                      },
                      15),
                  "best height %zu, expected %zu",
                  (size_t)a->best_block_height(),
                  (size_t)n);
        if(!later.empty()) {
            s.nontrivial();
            s.label(answer ? "fetched" : "late");
        }
        PBT_CHECK(wait_for(
                      [&]() {
                          std::unique_lock l(mut);
                          return pruned.size() >= n;
                      },
                      15),
                  "%zu prune requests for %zu blocks",
                  pruned.size(),
                  (size_t)n);
        {
            std::unique_lock l(mut);
            for(size_t i = 0; i < pruned.size(); i++) {
                PBT_CHECK(pruned[i] == i + 1,
                          "prune request %zu is for height %zu",
                          i,
                          (size_t)pruned[i]);
            }
            for(auto h : asked) {
                PBT_CHECK(std::find(later.begin(), later.end(), h)
                              != later.end(),
                          "it asked for block %zu, which it had",
                          (size_t)h);
            }
        }
        cbdc::archiver::client c(o.m_archiver_endpoints[0], logger());
        PBT_CHECK(c.init(), "no connection to the archiver");
        for(int i = 0; i < 4; i++) {
            auto h = s.range(0, n + 1);
            auto b = c.get_block(h);
            if(h == 0 || h > n) {
                PBT_CHECK(!b, "it returns a block for height %zu", (size_t)h);
            } else {
                PBT_CHECK(b && same(*b, blks[h - 1]),
                          "block %zu is not as it was made",
                          (size_t)h);
            }
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C16";
    c.m_rule = "a block closed a gap before blocks that had arrived earlier; "
               "a process stopped after it had stored a block; a block was "
               "left out and fetched or sent later";
    c.m_assumptions = {"the atomizer never makes two blocks of one height",
                       "LevelDB keeps what it has written to the operating "
                       "system"};
    c.m_props.push_back({"order", order, 2500, 40000});
    c.m_props.push_back({"crashes", crashes, 1000, 20000});
    c.m_props.push_back({"process", process, 60, 1500, true, 30, 4});
    return pbt::run(argc, argv, c);
}
