// The watchtower's answers against the blocks and errors it remembers.
#include "atom.hpp"
#include "net.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/client.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/atomizer/watchtower/messages.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/atomizer/watchtower/status_update_messages.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <deque>

using namespace vt;
namespace wt = cbdc::watchtower;

namespace {
    using state = wt::status_update_state;
    using answers = std::map<hash_t, std::vector<state>>;

    struct model {
        u64 m_k{0};
        u64 m_e{0};
        std::deque<block_t> m_blocks;
        struct rec {
            hash_t m_tx;
            // 0 sync, 1 dne, 2 stxo range, 3 incomplete, 4 spent
            unsigned m_kind;
            std::set<hash_t> m_ids;
        };
        std::deque<rec> m_errs;
        u64 m_best{0};
        using where = std::map<hash_t, std::pair<u64, hash_t>>;
        where m_un;
        where m_sp;

        void block(const block_t& b) {
            m_blocks.push_back(b);
            if(m_k != 0 && m_blocks.size() > m_k) {
                m_blocks.pop_front();
            }
            m_best = b.m_height;
            m_un.clear();
            m_sp.clear();
            for(auto& lb : m_blocks) {
                for(auto& t : lb.m_transactions) {
                    for(auto& o : t.m_inputs) {
                        m_un.erase(o);
                        m_sp[o] = {lb.m_height, t.m_id};
                    }
                    for(auto& o : t.m_uhs_outputs) {
                        m_un[o] = {lb.m_height, t.m_id};
                    }
                }
            }
        }
        static bool has(const where& w, const hash_t& id, const hash_t& tx) {
            auto it = w.find(id);
            return it != w.end() && it->second.second == tx;
        }
        // Returns whether it counts: an error about ids which the block with
        // that same transaction dealt with only means the transaction was
        // sent again.
        bool error(const rec& r) {
            if(r.m_kind == 1 || r.m_kind == 4) {
                for(auto& id : r.m_ids) {
                    if(has(m_sp, id, r.m_tx) || has(m_un, id, r.m_tx)) {
                        return false;
                    }
                }
            }
            m_errs.push_back(r);
            if(m_e != 0 && m_errs.size() > m_e) {
                m_errs.pop_front();
            }
            return true;
        }
        std::vector<state> ask(const hash_t& tx,
                               const std::vector<hash_t>& ids) const {
            const rec* last = nullptr;
            for(auto& e : m_errs) {
                if(e.m_tx == tx) {
                    last = &e;
                }
            }
            std::vector<state> r;
            for(auto& id : ids) {
                auto n = r.size();
                if(last != nullptr) {
                    auto named = false;
                    for(auto& e : m_errs) {
                        named = named || e.m_ids.count(id) != 0;
                    }
                    auto st = last->m_kind == 0 || last->m_kind == 2
                                ? wt::search_status::internal_error
                            : named ? wt::search_status::invalid_input
                                    : wt::search_status::tx_rejected;
                    r.emplace_back(st, m_best, id);
                }
                if(has(m_sp, id, tx)) {
                    r.emplace_back(wt::search_status::spent,
                                   m_sp.at(id).first,
                                   id);
                } else if(m_sp.count(id) == 0 && has(m_un, id, tx)) {
                    r.emplace_back(wt::search_status::unspent,
                                   m_un.at(id).first,
                                   id);
                }
                if(r.size() == n) {
                    r.emplace_back(wt::search_status::no_history, m_best, id);
                }
            }
            return r;
        }
        answers ask(const wt::tx_id_uhs_ids& q) const {
            answers a;
            for(auto& [tx, ids] : q) {
                a.emplace(tx, ask(tx, ids));
            }
            return a;
        }
    };

    std::string text(const answers& a) {
        static const char* names[] = {"no history",
                                      "unspent",
                                      "spent",
                                      "rejected",
                                      "invalid input",
                                      "internal error"};
        std::string r;
        for(auto& [tx, v] : a) {
            r += "tx " + h8(tx) + ":";
            for(auto& x : v) {
                r += " " + h8(x.uhs_id()) + "="
                   + names[static_cast<size_t>(x.status()) % 6] + "@"
                   + std::to_string(x.block_height());
            }
            r += "; ";
        }
        return r;
    }
    answers plain(const wt::tx_id_states& s) {
        return {s.begin(), s.end()};
    }
    answers from(wt::response& r) {
        auto* p = std::get_if<wt::status_request_check_success>(&r.payload());
        PBT_CHECK(p != nullptr, "an answer of another kind");
        return plain(p->states());
    }
    u64 height(wt::watchtower& w) {
        auto r = w.handle_best_block_height_request({});
        auto* p = std::get_if<wt::best_block_height_response>(&r->payload());
        PBT_CHECK(p != nullptr, "an answer of another kind");
        return p->height();
    }

    // Something to ask or complain about: transactions of the chain, their
    // ids and foreign ones.
    hash_t some_tx(Src& s, const chain& ch) {
        if(!ch.m_txs.empty() && s.chance(5, 6)) {
            auto back = s.below(std::min<size_t>(ch.m_txs.size(), 12));
            return ch.m_txs[ch.m_txs.size() - 1 - back].m_id;
        }
        return mkhash(50, 50, s.below(3));
    }
    hash_t some_id(Src& s, const chain& ch, const hash_t& tx) {
        if(s.chance(3, 4)) {
            for(auto& t : ch.m_txs) {
                if(t.m_id == tx) {
                    auto all = t.m_inputs;
                    all.insert(all.end(),
                               t.m_uhs_outputs.begin(),
                               t.m_uhs_outputs.end());
                    if(!all.empty()) {
                        return s.pick(all);
                    }
                }
            }
        }
        switch(s.below(3)) {
            case 0:
                if(!ch.m_spent.empty()) {
                    return s.pick(ch.m_spent);
                }
                [[fallthrough]];
            case 1:
                if(!ch.m_unspent.empty()) {
                    return s.pick(ch.m_unspent);
                }
                [[fallthrough]];
            default:
                return mkhash(51, 51, s.below(3));
        }
    }
    model::rec mkerr(Src& s, const chain& ch) {
        model::rec r;
        r.m_tx = some_tx(s, ch);
        r.m_kind = static_cast<unsigned>(s.weighted({1, 3, 1, 2, 3}));
        if(r.m_kind == 1 || r.m_kind == 4) {
            auto n = s.below(4);
            for(u64 i = 0; i < n; i++) {
                r.m_ids.insert(some_id(s, ch, r.m_tx));
            }
        }
        return r;
    }
    wt::tx_error real(const model::rec& r) {
        switch(r.m_kind) {
            case 0:
                return {r.m_tx, wt::tx_error_sync{}};
            case 1:
                return {r.m_tx,
                        wt::tx_error_inputs_dne{
                            {r.m_ids.begin(), r.m_ids.end()}}};
            case 2:
                return {r.m_tx, wt::tx_error_stxo_range{}};
            case 3:
                return {r.m_tx, wt::tx_error_incomplete{}};
            default:
                return {r.m_tx,
                        wt::tx_error_inputs_spent{
                            {r.m_ids.begin(), r.m_ids.end()}}};
        }
    }
    wt::tx_id_uhs_ids mkquery(Src& s, const chain& ch) {
        wt::tx_id_uhs_ids q;
        auto n = s.range(1, 3);
        for(u64 i = 0; i < n; i++) {
            auto tx = some_tx(s, ch);
            auto& v = q[tx];
            auto k = s.below(4);
            for(u64 j = 0; j < k; j++) {
                v.push_back(some_id(s, ch, tx));
            }
        }
        return q;
    }
    std::string text(const model::rec& r) {
        std::string t = "error " + std::to_string(r.m_kind) + " for tx "
                      + h8(r.m_tx) + ":";
        for(auto& i : r.m_ids) {
            t += " " + h8(i);
        }
        return t;
    }
    void see(Src& s, const answers& a) {
        for(auto& [tx, v] : a) {
            for(auto& x : v) {
                s.label(x.status() == wt::search_status::no_history
                            ? "no history"
                        : x.status() == wt::search_status::unspent
                            ? "unspent"
                        : x.status() == wt::search_status::spent
                            ? "spent"
                        : x.status() == wt::search_status::tx_rejected
                            ? "rejected"
                        : x.status() == wt::search_status::invalid_input
                            ? "invalid input"
                            : "internal error");
                if(x.status() != wt::search_status::no_history) {
                    s.nontrivial();
                }
            }
        }
    }

    void history(Src& s) {
        model m;
        m.m_k = s.weighted({6, 1, 1, 1});
        m.m_e = s.weighted({2, 1, 1, 1, 1, 1});
        wt::watchtower w(m.m_k, m.m_e);
        chain ch;
        auto n = s.range(1, 40);
        s.note("keeps %zu blocks, %zu errors", (size_t)m.m_k, (size_t)m.m_e);
        for(u64 i = 0; i < n; i++) {
            switch(s.weighted({3, 3, 4})) {
                case 0: {
                    auto b = ch.next(s);
                    s.note("block %zu", (size_t)b.m_height);
                    for(auto& t : b.m_transactions) {
                        s.note("  %s", desc(t).c_str());
                    }
                    m.block(b);
                    w.add_block(std::move(b));
                    break;
                }
                case 1: {
                    std::vector<wt::tx_error> v;
                    auto k = s.range(1, 3);
                    for(u64 j = 0; j < k; j++) {
                        auto e = mkerr(s, ch);
                        v.push_back(real(e));
                        auto kept = m.error(e);
                        s.note("%s%s",
                               text(e).c_str(),
                               kept ? "" : " (repeated)");
                        if(!kept) {
                            s.label("repeated transaction");
                        }
                    }
                    w.add_errors(std::move(v));
                    break;
                }
                default: {
                    auto q = mkquery(s, ch);
                    auto r = w.handle_status_update_request(
                        wt::status_update_request(q));
                    auto got = from(*r);
                    auto want = m.ask(q);
                    PBT_CHECK(got == want,
                              "answer: %s expected: %s",
                              text(got).c_str(),
                              text(want).c_str());
                    see(s, got);
                }
            }
            PBT_CHECK(height(w) == m.m_best,
                      "best height %zu, it is %zu",
                      (size_t)height(w),
                      (size_t)m.m_best);
        }
    }

    // Each answer is the one of a single moment.
    void concurrent(Src& s) {
        model m;
        m.m_k = s.weighted({6, 1, 1});
        m.m_e = s.below(4);
        wt::watchtower w(m.m_k, m.m_e);
        chain ch;
        ch.m_max_tx = 6;
        std::vector<model> states{m};
        struct op {
            std::optional<block_t> m_b;
            std::vector<wt::tx_error> m_e;
        };
        std::vector<op> ops;
        auto n = s.range(5, 30);
        for(u64 i = 0; i < n; i++) {
            op o;
            if(s.coin()) {
                o.m_b = ch.next(s);
                m.block(*o.m_b);
            } else {
                auto e = mkerr(s, ch);
                o.m_e.push_back(real(e));
                m.error(e);
            }
            ops.push_back(std::move(o));
            states.push_back(m);
        }
        std::vector<std::vector<wt::tx_id_uhs_ids>> qs(3);
        for(auto& v : qs) {
            for(int i = 0; i < 10; i++) {
                v.push_back(mkquery(s, ch));
            }
        }
        std::atomic<u64> lo{0};
        std::atomic<u64> hi{0};
        std::atomic<bool> done{false};
        std::mutex mut;
        std::string bad;
        std::vector<std::thread> ts;
        for(auto& v : qs) {
            ts.emplace_back([&]() {
                for(u64 i = 0; !done || i < v.size(); i++) {
                    auto& q = v[i % v.size()];
                    auto a = lo.load();
                    auto r = w.handle_status_update_request(
                        wt::status_update_request(q));
                    auto b = hi.load();
                    auto* p = std::get_if<wt::status_request_check_success>(
                        &r->payload());
                    auto ok = false;
                    for(auto h = a; p != nullptr && h <= b && !ok; h++) {
                        ok = states[h].ask(q) == plain(p->states());
                    }
                    if(!ok) {
                        std::unique_lock l(mut);
                        bad = p == nullptr
                                ? "no answer"
                                : "answer of no moment between steps "
                                      + std::to_string(a) + " and "
                                      + std::to_string(b) + ": "
                                      + text(plain(p->states()));
                        return;
                    }
                }
            });
        }
        for(auto& o : ops) {
            hi++;
            if(o.m_b) {
                w.add_block(std::move(*o.m_b));
            } else {
                w.add_errors(std::move(o.m_e));
            }
            lo++;
            std::this_thread::sleep_for(std::chrono::microseconds(20));
        }
        done = true;
        for(auto& t : ts) {
            t.join();
        }
        s.nontrivial();
        PBT_CHECK(bad.empty(), "%s", bad.c_str());
    }

    // The watchtower's process.
    void process(Src& s) {
        chain ch;
        std::vector<block_t> blks;
        auto n = s.range(2, 9);
        for(u64 i = 0; i < n; i++) {
            blks.push_back(ch.next(s));
        }
        std::atomic<u64> known{0};
        stub_server archiver([&](auto&& p) -> std::optional<cbdc::buffer> {
            auto h = cbdc::from_buffer<uint64_t>(*p.m_pkt);
            std::optional<block_t> r;
            if(h && *h >= 1 && *h <= known) {
                r = blks[*h - 1];
            } else {
                known = n;
            }
            return cbdc::make_buffer(r);
        });
        stub_server atomizer([](auto&&) -> std::optional<cbdc::buffer> {
            return std::nullopt;
        });
        model m;
        m.m_k = s.weighted({6, 1, 1});
        m.m_e = s.below(4);
        cbdc::config::options o;
        o.m_watchtower_block_cache_size = m.m_k;
        o.m_watchtower_error_cache_size = m.m_e;
        o.m_archiver_endpoints = {archiver.m_ep};
        o.m_atomizer_endpoints = {atomizer.m_ep};
        o.m_watchtower_internal_endpoints = {free_ep()};
        o.m_watchtower_client_endpoints = {free_ep()};
        auto c = std::make_unique<wt::controller>(0, o, logger());
        if(!c->init()) {
            throw pbt::Discard{};
        }
        PBT_CHECK(wait_for([&]() {
                      return atomizer.m_net.peer_count() == 1;
                  }),
                  "no connection to the atomizer");
        cbdc::network::connection_manager internal;
        PBT_CHECK(
            internal.cluster_connect({o.m_watchtower_internal_endpoints[0]}),
            "no connection to the watchtower");
        wt::blocking_client client(o.m_watchtower_client_endpoints[0]);
        PBT_CHECK(client.init(), "no connection to the watchtower");
        u64 h = 0;
        std::string sent;
        auto rounds = s.range(1, 5);
        for(u64 r = 0; r < rounds; r++) {
            auto k = s.range(1, 3);
            for(u64 i = 0; i < k && h < n; i++) {
                auto was = h;
                if(h > 0 && s.chance(1, 4)) {
                    // One it has seen.
                    auto old = s.range(1, h);
                    sent += " " + std::to_string(old);
                    atomizer.m_net.broadcast(blks[old - 1]);
                    s.label("repeated block");
                }
                h = s.coin() ? h + 1 : std::min(n, h + s.range(1, 3));
                if(h > was + 1) {
                    s.label("gap");
                    if(s.coin()) {
                        known = h - 1;
                    }
                }
                for(auto j = was; j < h; j++) {
                    m.block(blks[j]);
                }
                sent += " " + std::to_string(h);
                atomizer.m_net.broadcast(blks[h - 1]);
            }
            s.note("blocks sent:%s", sent.c_str());
            PBT_CHECK(wait_for(
                          [&]() {
                              auto x = client.request_best_block_height();
                              PBT_CHECK(x, "no answer to a height request");
                              PBT_CHECK(x->height() <= h,
                                        "best height %zu of %zu",
                                        (size_t)x->height(),
                                        (size_t)h);
                              return x->height() == h;
                          },
                          15),
                      "it does not reach height %zu",
                      (size_t)h);
            std::vector<wt::tx_error> v;
            auto ne = s.below(4);
            for(u64 j = 0; j < ne; j++) {
                auto e = mkerr(s, ch);
                v.push_back(real(e));
                m.error(e);
                s.note("%s", text(e).c_str());
            }
            // Shows that the errors have arrived.
            model::rec last;
            last.m_tx = mkhash(60, 60, r);
            last.m_kind = 3;
            v.push_back(real(last));
            m.error(last);
            internal.broadcast(v);
            wt::tx_id_uhs_ids lq;
            lq[last.m_tx] = {last.m_tx};
            PBT_CHECK(wait_for(
                          [&]() {
                              auto a = client.request_status_update(
                                  wt::status_update_request(lq));
                              return a && plain(a->states()) == m.ask(lq);
                          },
                          15),
                      "errors do not arrive");
            for(int i = 0; i < 3; i++) {
                auto q = mkquery(s, ch);
                auto a = client.request_status_update(
                    wt::status_update_request(q));
                PBT_CHECK(a, "no answer");
                auto got = plain(a->states());
                auto want = m.ask(q);
                PBT_CHECK(got == want,
                          "answer: %s expected: %s",
                          text(got).c_str(),
                          text(want).c_str());
                see(s, got);
            }
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C17";
    c.m_rule = "an answer other than 'no history' was given; queries were "
               "answered while blocks and errors arrived";
    c.m_assumptions = {"block histories in which an id is created once and "
                       "spent at most once"};
    c.m_props.push_back({"history", history, 6000, 120000});
    c.m_props.push_back({"concurrent", concurrent, 150, 3000, true, 20, 2});
    c.m_props.push_back({"process", process, 40, 1500, true, 30, 4});
    return pbt::run(argc, argv, c);
}
