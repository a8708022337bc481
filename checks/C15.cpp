// The atomizer architecture's shard.
#include "atom.hpp"
#include "crash.hpp"
#include "net.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/shard/controller.hpp"
#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"

#include <filesystem>
#include <atomic>
#include <leveldb/db.h>
#include <mutex>
#include <thread>

using namespace vt;
namespace at = cbdc::atomizer;
namespace wt = cbdc::watchtower;
using shard_t = cbdc::shard::shard;
using range_t = std::pair<uint8_t, uint8_t>;

namespace {
    struct ref {
        range_t m_range;
        u64 m_height{0};
        std::set<hash_t> m_ids;
        bool owns(const hash_t& h) const {
            return h[0] >= m_range.first && h[0] <= m_range.second;
        }
        void apply(const block_t& b) {
            m_height = b.m_height;
            for(auto& t : b.m_transactions) {
                for(auto& o : t.m_uhs_outputs) {
                    if(owns(o)) {
                        m_ids.insert(o);
                    }
                }
                for(auto& i : t.m_inputs) {
                    m_ids.erase(i);
                }
            }
        }
    };
    using answer = std::variant<at::tx_notify_request, wt::tx_error>;

    // Empty if the answer is the one the reference gives.
    std::string differs(const ref& m, const ctx_t& t, const answer& a) {
        if(auto* n = std::get_if<at::tx_notify_request>(&a)) {
            if(!same(n->m_tx, t)) {
                return "the transaction was changed";
            }
            if(m.m_height == 0) {
                return "it vouches before its first block";
            }
            if(n->m_block_height != m.m_height) {
                return "it vouches at height "
                     + std::to_string(n->m_block_height) + ", it is at "
                     + std::to_string(m.m_height);
            }
            if(t.m_inputs.empty()) {
                return "a transaction without inputs is vouched for";
            }
            std::unordered_set<uint64_t> want;
            for(u64 i = 0; i < t.m_inputs.size(); i++) {
                if(m.owns(t.m_inputs[i])) {
                    if(m.m_ids.count(t.m_inputs[i]) == 0) {
                        return "it vouches although input "
                             + std::to_string(i) + " is not unspent";
                    }
                    want.insert(i);
                }
            }
            return want == n->m_attestations
                     ? ""
                     : "it vouches for "
                           + std::to_string(n->m_attestations.size())
                           + " inputs instead of "
                           + std::to_string(want.size());
        }
        auto& e = std::get<wt::tx_error>(a);
        if(e.tx_id() != t.m_id) {
            return "error for another transaction";
        }
        auto info = e.info();
        if(m.m_height == 0) {
            return std::holds_alternative<wt::tx_error_sync>(info)
                     ? ""
                     : "before its first block: " + e.to_string();
        }
        auto* d = std::get_if<wt::tx_error_inputs_dne>(&info);
        if(d == nullptr) {
            return "error " + e.to_string();
        }
        std::multiset<hash_t> want;
        for(auto& i : t.m_inputs) {
            if(m.owns(i) && m.m_ids.count(i) == 0) {
                want.insert(i);
            }
        }
        auto ids = d->input_uhs_ids();
        if(want.empty() && !t.m_inputs.empty()) {
            return "reports missing inputs, none is";
        }
        return std::multiset<hash_t>(ids.begin(), ids.end()) == want
                 ? ""
                 : "reports " + std::to_string(ids.size()) + " inputs, "
                       + std::to_string(want.size()) + " are missing";
    }

    std::vector<uint8_t> edges(const range_t& r) {
        std::set<uint8_t> v{r.first,
                            r.second,
                            static_cast<uint8_t>((r.first + r.second) / 2),
                            static_cast<uint8_t>(r.first - 1),
                            static_cast<uint8_t>(r.second + 1),
                            0,
                            255};
        return {v.begin(), v.end()};
    }
    range_t mkrange(Src& s) {
        auto a = s.pick(std::vector<uint8_t>{0, 1, 127, 128, 255});
        auto b = s.pick(std::vector<uint8_t>{0, 1, 127, 128, 254, 255});
        return {std::min(a, b), std::max(a, b)};
    }
    void seed(const std::string& dir, const std::vector<hash_t>& ids) {
        leveldb::Options o;
        o.create_if_missing = true;
        leveldb::DB* p{};
        auto st = leveldb::DB::Open(o, dir, &p);
        std::unique_ptr<leveldb::DB> db(p);
        PBT_CHECK(st.ok(), "leveldb: %s", st.ToString().c_str());
        leveldb::WriteBatch b;
        for(auto& h : ids) {
            b.Put(leveldb::Slice(reinterpret_cast<const char*>(h.data()),
                                 h.size()),
                  leveldb::Slice());
        }
        db->Write(leveldb::WriteOptions(), &b);
    }
    ctx_t probe(Src& s, const chain& ch, u64 n) {
        ctx_t t;
        t.m_id = mkhash(77, 7, n);
        auto k = s.below(5);
        for(u64 i = 0; i < k; i++) {
            switch(s.weighted({6, 2, 1})) {
                case 0:
                    if(!ch.m_unspent.empty()) {
                        t.m_inputs.push_back(s.pick(ch.m_unspent));
                    }
                    break;
                case 1:
                    if(!ch.m_spent.empty()) {
                        t.m_inputs.push_back(s.pick(ch.m_spent));
                    }
                    break;
                default:
                    t.m_inputs.push_back(
                        mkhash(s.pick(ch.m_prefixes), 8, s.below(5)));
            }
        }
        t.m_uhs_outputs.push_back(mkhash(4, 4, n));
        return t;
    }
    void start(Src& s, ref& m, chain& ch, const std::string& dir) {
        ch.m_prefixes = edges(m.m_range);
        if(s.coin()) {
            std::vector<hash_t> mine;
            auto k = s.below(8);
            for(u64 i = 0; i < k; i++) {
                auto h = ch.fresh(s, 5);
                ch.m_unspent.push_back(h);
                if(m.owns(h)) {
                    mine.push_back(h);
                    m.m_ids.insert(h);
                }
            }
            seed(dir, mine);
            s.label("preseeded");
        }
    }

    void sequential(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        ref m;
        m.m_range = mkrange(s);
        chain ch;
        start(s, m, ch, db);
        auto sh = std::make_unique<shard_t>(m.m_range);
        PBT_CHECK(!sh->open_db(db), "the database does not open");
        auto n = s.range(1, 25);
        s.note("range %d-%d", m.m_range.first, m.m_range.second);
        for(u64 k = 0; k < n; k++) {
            switch(s.weighted({5, 6, 2, 1})) {
                case 0: {
                    auto b = ch.next(s);
                    s.note("block %zu, %zu txs",
                           (size_t)b.m_height,
                           b.m_transactions.size());
                    PBT_CHECK(sh->digest_block(b),
                              "block %zu refused",
                              (size_t)b.m_height);
                    m.apply(b);
                    break;
                }
                case 1: {
                    auto t = probe(s, ch, k);
                    auto a = sh->digest_transaction(t);
                    auto d = differs(m, t, a);
                    PBT_CHECK(d.empty(),
                              "shard %d-%d at height %zu, %s: %s",
                              m.m_range.first,
                              m.m_range.second,
                              (size_t)m.m_height,
                              desc(t).c_str(),
                              d.c_str());
                    if(m.m_height > 0 && !t.m_inputs.empty()) {
                        s.label(std::holds_alternative<wt::tx_error>(a)
                                    ? "missing"
                                    : "vouched");
                        s.nontrivial();
                    }
                    break;
                }
                case 2: {
                    // Not the next block.
                    auto c = ch;
                    auto b = c.next(s);
                    b.m_height = s.coin() ? ch.m_height - s.below(3)
                                          : ch.m_height + 2 + s.below(3);
                    if(b.m_height == ch.m_height + 1) {
                        break;
                    }
                    PBT_CHECK(!sh->digest_block(b),
                              "block %zu accepted after %zu",
                              (size_t)b.m_height,
                              (size_t)ch.m_height);
                    s.label("not contiguous");
                    break;
                }
                default:
                    s.note("restart");
                    sh.reset();
                    sh = std::make_unique<shard_t>(m.m_range);
                    PBT_CHECK(!sh->open_db(db), "the database does not open");
                    s.label("restart");
            }
            PBT_CHECK(sh->best_block_height() == m.m_height,
                      "height %zu, expected %zu",
                      (size_t)sh->best_block_height(),
                      (size_t)m.m_height);
        }
    }

    // Every id of the history, one by one.
    void sweep(shard_t& sh, const ref& m, const chain& ch, const char* when) {
        auto all = ch.m_unspent;
        all.insert(all.end(), ch.m_spent.begin(), ch.m_spent.end());
        u64 n = 0;
        for(auto& h : all) {
            ctx_t t;
            t.m_id = mkhash(78, 7, n++);
            t.m_inputs.push_back(h);
            auto d = differs(m, t, sh.digest_transaction(t));
            if(!d.empty()) {
                pbt::fail(pbt::fmt("%s, at height %zu, id %s: %s",
                                   when,
                                   (size_t)m.m_height,
                                   h8(h).c_str(),
                                   d.c_str()));
            }
        }
    }

    void crashes(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        ref m;
        m.m_range = mkrange(s);
        chain ch;
        start(s, m, ch, db);
        std::vector<ref> states;
        std::vector<block_t> blks;
        states.push_back(m);
        auto n = s.range(1, 12);
        for(u64 i = 0; i < n; i++) {
            blks.push_back(ch.next(s));
            m.apply(blks.back());
            states.push_back(m);
        }
        u64 at = 0;
        auto rounds = s.range(1, 3);
        for(u64 r = 0; r < rounds; r++) {
            auto limit = s.range(20, 300 + 200 * n);
            auto full = s.chance(1, 3);
            auto res = crash_run(limit, full, [&](auto&& report) {
                shard_t sh(m.m_range);
                if(sh.open_db(db)) {
                    _exit(3);
                }
                PBT_CHECK(sh.best_block_height() == at, "height at start");
                for(auto h = at; h < n; h++) {
                    if(!sh.digest_block(blks[h])) {
                        // Refused: it must still be where it was.
                        PBT_CHECK(sh.best_block_height() == h,
                                  "after a failed block the height is %zu",
                                  (size_t)sh.best_block_height());
                        sweep(sh, states[h], ch, "after a failed write");
                        _exit(3);
                    }
                    report();
                    sweep(sh, states[h + 1], ch, "with little space");
                }
            });
            s.note("from height %zu, limit %zu, %s: end %d, %zu blocks "
                   "acknowledged",
                   (size_t)at,
                   (size_t)limit,
                   full ? "disk full" : "killed",
                   (int)res.m_end,
                   res.m_reports);
            PBT_CHECK(res.m_end != crash_result::broken,
                      "shard: %s",
                      res.m_what.c_str());
            if(res.m_end != crash_result::finished && res.m_reports > 0) {
                s.nontrivial();
                s.label(full ? "disk full" : "killed");
            }
            shard_t sh(m.m_range);
            auto e = sh.open_db(db);
            PBT_CHECK(!e, "the database does not open: %s", e->c_str());
            auto h = sh.best_block_height();
            PBT_CHECK(h >= at + res.m_reports && h <= n
                          && h <= at + res.m_reports + 1,
                      "restarted at height %zu, %zu blocks had been "
                      "acknowledged after %zu",
                      (size_t)h,
                      res.m_reports,
                      (size_t)at);
            sweep(sh, states[h], ch, "after the restart");
            at = h;
        }
    }

    // A table of the database is cut short (a failing disk): the shard may
    // refuse to start or say less, but vouches for nothing that is not there.
    void damage(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        ref m;
        m.m_range = mkrange(s);
        chain ch;
        start(s, m, ch, db);
        auto n = s.range(1, 8);
        auto restart = s.below(n);
        {
            auto sh = std::make_unique<shard_t>(m.m_range);
            PBT_CHECK(!sh->open_db(db), "the database does not open");
            for(u64 i = 0; i < n; i++) {
                auto b = ch.next(s);
                PBT_CHECK(sh->digest_block(b), "block refused");
                m.apply(b);
                if(i == restart) {
                    sh.reset();
                    sh = std::make_unique<shard_t>(m.m_range);
                    PBT_CHECK(!sh->open_db(db), "it does not open");
                }
            }
        }
        std::vector<std::string> tables;
        for(auto& e : std::filesystem::directory_iterator(db)) {
            if(e.path().extension() == ".ldb") {
                tables.push_back(e.path());
            }
        }
        std::sort(tables.begin(), tables.end());
        if(tables.empty()) {
            throw pbt::Discard{};
        }
        auto f = s.pick(tables);
        auto size = std::filesystem::file_size(f);
        auto to = s.coin() ? s.below(48) : s.below(size);
        to = std::min<u64>(to, size - 1);
        shard_t sh(m.m_range);
        std::filesystem::resize_file(f, to);
        s.note("height %zu, a table of %zu bytes cut to %zu",
               (size_t)m.m_height,
               (size_t)size,
               (size_t)to);
        if(sh.open_db(db)) {
            s.label("refused");
            return;
        }
        s.nontrivial();
        PBT_CHECK(sh.best_block_height() == m.m_height,
                  "it starts at height %zu",
                  (size_t)sh.best_block_height());
        for(int k = 0; k < 12; k++) {
            auto t = probe(s, ch, 100 + static_cast<u64>(k));
            auto a = sh.digest_transaction(t);
            if(auto* y = std::get_if<at::tx_notify_request>(&a)) {
                for(auto i : y->m_attestations) {
                    PBT_CHECK(i < t.m_inputs.size() && m.owns(t.m_inputs[i])
                                  && m.m_ids.count(t.m_inputs[i]) == 1,
                              "it vouches for input %zu of %s, which is not "
                              "unspent",
                              (size_t)i,
                              desc(t).c_str());
                }
            }
        }
    }

    void concurrent(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        ref m;
        m.m_range = {0, 255};
        chain ch;
        ch.m_max_tx = 8;
        start(s, m, ch, db);
        std::vector<ref> states;
        std::vector<block_t> blks;
        states.push_back(m);
        auto n = s.range(5, 30);
        for(u64 i = 0; i < n; i++) {
            blks.push_back(ch.next(s));
            m.apply(blks.back());
            states.push_back(m);
        }
        shard_t sh(m.m_range);
        PBT_CHECK(!sh.open_db(db), "the database does not open");
        std::vector<std::vector<ctx_t>> probes(3);
        for(auto& p : probes) {
            for(u64 i = 0; i < 20; i++) {
                p.push_back(probe(s, ch, i));
            }
        }
        std::atomic<bool> done{false};
        std::atomic<u64> lo{0};
        std::mutex mut;
        std::string bad;
        std::vector<std::thread> ts;
        std::set<u64> heights;
        for(auto& p : probes) {
            ts.emplace_back([&]() {
                for(u64 i = 0; !done; i++) {
                    auto& t = p[i % p.size()];
                    auto from = lo.load();
                    auto a = sh.digest_transaction(t);
                    auto to = std::min<u64>(lo.load() + 1, n);
                    auto ok = false;
                    std::string why;
                    for(auto h = from; h <= to && !ok; h++) {
                        why = differs(states[h], t, a);
                        ok = why.empty();
                        if(ok) {
                            std::unique_lock l(mut);
                            heights.insert(h);
                        }
                    }
                    if(!ok) {
                        std::unique_lock l(mut);
                        bad = pbt::fmt("between heights %zu and %zu: %s: %s",
                                       (size_t)from,
                                       (size_t)to,
                                       desc(t).c_str(),
                                       why.c_str());
                        return;
                    }
                }
            });
        }
        for(u64 i = 0; i < n; i++) {
            if(!sh.digest_block(blks[i])) {
                std::unique_lock l(mut);
                bad = "a block was refused";
                break;
            }
            lo = i + 1;
        }
        done = true;
        for(auto& t : ts) {
            t.join();
        }
        PBT_CHECK(bad.empty(), "%s", bad.c_str());
        if(heights.size() > 2) {
            s.nontrivial();
        }
    }

    // The shard's process: blocks from the atomizer, missing ones from the
    // archiver, transactions from sentinels.
    void process(Src& s) {
        pbt::Scratch dir;
        auto db = dir.path() + "/db";
        ref m;
        m.m_range = mkrange(s);
        chain ch;
        start(s, m, ch, db);
        std::vector<block_t> blks;
        std::vector<ref> states{m};
        auto pre = s.range(1, 3);
        auto n = pre + s.range(1, 8);
        for(u64 i = 0; i < n; i++) {
            blks.push_back(ch.next(s));
            m.apply(blks.back());
            states.push_back(m);
        }
        {
            shard_t sh(m.m_range);
            PBT_CHECK(!sh.open_db(db), "the database does not open");
            for(u64 i = 0; i < pre; i++) {
                sh.digest_block(blks[i]);
            }
        }
        std::mutex mut;
        std::vector<answer> got;
        std::atomic<u64> known{pre};
        std::atomic<u64> asked{0};
        stub_server archiver([&](auto&& p) -> std::optional<cbdc::buffer> {
            auto h = cbdc::from_buffer<uint64_t>(*p.m_pkt);
            asked++;
            std::optional<block_t> r;
            if(h && *h >= 1 && *h <= known) {
                r = blks[*h - 1];
            } else {
                known = n;
            }
            return cbdc::make_buffer(r);
        });
        stub_server tower([&](auto&& p) -> std::optional<cbdc::buffer> {
            auto e = cbdc::from_buffer<std::vector<wt::tx_error>>(*p.m_pkt);
            std::unique_lock l(mut);
            if(e) {
                for(auto& x : *e) {
                    got.emplace_back(x);
                }
            }
            return std::nullopt;
        });
        stub_server atomizer([&](auto&& p) -> std::optional<cbdc::buffer> {
            auto e = cbdc::from_buffer<at::request>(*p.m_pkt);
            std::unique_lock l(mut);
            if(e && std::holds_alternative<at::tx_notify_request>(*e)) {
                got.emplace_back(std::get<at::tx_notify_request>(*e));
            }
            return std::nullopt;
        });
        cbdc::config::options o;
        auto threshold = s.coin() ? 1 : 0;
        o.m_attestation_threshold = static_cast<size_t>(threshold);
        static auto* cx = secp256k1_context_create(
            SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
        o.m_sentinel_public_keys.insert(
            cbdc::pubkey_from_privkey(mkkey(1), cx));
        o.m_shard_ranges = {m.m_range};
        o.m_shard_db_dirs = {db};
        o.m_shard_endpoints = {free_ep()};
        o.m_archiver_endpoints = {archiver.m_ep};
        o.m_watchtower_internal_endpoints = {tower.m_ep};
        o.m_atomizer_endpoints = {atomizer.m_ep};
        auto c = std::make_unique<cbdc::shard::controller>(0, o, logger());
        if(!c->init()) {
            throw pbt::Discard{};
        }
        PBT_CHECK(wait_for([&]() {
                      return atomizer.m_net.peer_count() == 1;
                  }),
                  "no connection to the atomizer");
        auto h = pre;
        std::string sent;
        auto gap = false;
        while(h < n) {
            switch(s.weighted({4, 2, 1})) {
                case 0:
                    h++;
                    break;
                case 1:
                    if(h + 1 < n) {
                        gap = true;
                    }
                    h = std::min(n, h + 2 + s.below(3));
                    break;
                default: {
                    // An old one again.
                    auto old = s.range(1, h);
                    sent += " " + std::to_string(old);
                    atomizer.m_net.broadcast(blks[old - 1]);
                    continue;
                }
            }
            if(s.coin()) {
                known = h - 1;
            }
            sent += " " + std::to_string(h);
            atomizer.m_net.broadcast(blks[h - 1]);
        }
        s.note("blocks 1-%zu held, sent:%s", (size_t)pre, sent.c_str());
        cbdc::network::connection_manager client;
        PBT_CHECK(client.cluster_connect({o.m_shard_endpoints[0]}),
                  "no connection to the shard");
        // Until it is at the last height.
        u64 pn = 1000000;
        auto caught = false;
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(15);
        while(!caught && std::chrono::steady_clock::now() < until) {
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
            ctx_t t;
            t.m_id = mkhash(79, 7, pn++);
            t.m_inputs.push_back(mkhash(
                static_cast<uint8_t>(m.m_range.first == 0
                                         ? m.m_range.second + 1
                                         : m.m_range.first - 1),
                6,
                6));
            if(m.m_range == range_t{0, 255}) {
                if(m.m_ids.empty()) {
                    throw pbt::Discard{};
                }
                t.m_inputs[0] = *m.m_ids.begin();
            }
            t.m_attestations.insert(t.sign(cx, mkkey(1)));
            client.broadcast(t);
            wait_for(
                [&]() {
                    std::unique_lock l(mut);
                    return !got.empty();
                },
                5);
            std::unique_lock l(mut);
            for(auto& a : got) {
                if(auto* x = std::get_if<at::tx_notify_request>(&a)) {
                    caught = caught || x->m_block_height == n;
                    PBT_CHECK(x->m_block_height <= n, "height");
                }
            }
            got.clear();
        }
        PBT_CHECK(caught,
                  "the shard does not reach height %zu",
                  (size_t)n);
        s.nontrivial();
        if(gap) {
            s.label("gap");
        }
        std::vector<ctx_t> ps;
        size_t signed_n = 0;
        auto np = s.range(1, 10);
        for(u64 i = 0; i < np; i++) {
            auto t = probe(s, ch, i);
            if(threshold == 0 || s.chance(3, 4)) {
                t.m_attestations.insert(t.sign(cx, mkkey(1)));
                signed_n++;
            } else if(s.coin()) {
                t.m_attestations.insert(t.sign(cx, mkkey(2)));
            }
            ps.push_back(t);
            client.broadcast(t);
        }
        // One more that is always answered comes last.
        {
            ctx_t t;
            t.m_id = mkhash(80, 7, 0);
            t.m_attestations.insert(t.sign(cx, mkkey(1)));
            ps.push_back(t);
            signed_n++;
            client.broadcast(t);
        }
        PBT_CHECK(wait_for(
                      [&]() {
                          std::unique_lock l(mut);
                          return got.size() >= signed_n;
                      },
                      5),
                  "%zu transactions, %zu answers",
                  signed_n,
                  got.size());
        client.close();
        c.reset();
        std::unique_lock l(mut);
        PBT_CHECK(got.size() == signed_n,
                  "%zu properly attested transactions, %zu answers",
                  signed_n,
                  got.size());
        for(auto& a : got) {
            auto id = std::holds_alternative<wt::tx_error>(a)
                        ? std::get<wt::tx_error>(a).tx_id()
                        : std::get<at::tx_notify_request>(a).m_tx.m_id;
            auto it = std::find_if(ps.begin(), ps.end(), [&](auto& t) {
                return t.m_id == id;
            });
            PBT_CHECK(it != ps.end(), "answer for an unknown transaction");
            PBT_CHECK(threshold == 0
                          || (it->m_attestations.size() == 1
                              && it->m_attestations.begin()->first
                                     == *o.m_sentinel_public_keys.begin()),
                      "an unattested transaction is answered");
            auto d = differs(states[n], *it, a);
            PBT_CHECK(d.empty(), "%s: %s", desc(*it).c_str(), d.c_str());
            ps.erase(it);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C15";
    c.m_rule = "a transaction with inputs was answered after a block; a "
               "process stopped after acknowledging a block; answers at "
               "several heights were seen while blocks were applied";
    c.m_assumptions = {"histories in which an id is created once and spent "
                       "at most once",
                       "LevelDB keeps what it has written to the operating "
                       "system"};
    c.m_props.push_back({"history", sequential, 3000, 60000});
    c.m_props.push_back({"crashes", crashes, 1000, 20000});
    c.m_props.push_back({"damage", damage, 400, 8000});
    c.m_props.push_back({"concurrent", concurrent, 300, 6000, true, 20, 2});
    c.m_props.push_back({"process", process, 200, 4000, true, 40, 6});
    return pbt::run(argc, argv, c);
}
