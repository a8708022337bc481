// C39: seeded coins, from the configuration file to being spent.
#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "uhs/transaction/wallet.hpp"
#include "util/common/config.hpp"
#include "walletmodel.hpp"

#include <leveldb/db.h>

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace wm;
using namespace vt;
using range_t = cbdc::config::shard_range_t;

namespace {
    struct setting {
        bool m_two{};
        std::vector<range_t> m_ranges; // by shard
        u64 m_from{};
        u64 m_to{};
        uint32_t m_value{};
        key m_key;
        pbt::Scratch m_dir;
        cbdc::config::options m_opts;
        u64 count() const { return m_to - m_from; }
    };

    std::vector<range_t> ranges(Src& s, u64 n) {
        std::set<u64> cuts;
        if(s.coin()) {
            for(u64 i = 1; i < n; i++) {
                cuts.insert(256 / n * i);
            }
        } else {
            while(cuts.size() + 1 < n) {
                cuts.insert(1 + s.below(255));
            }
        }
        std::vector<range_t> r;
        u64 lo = 0;
        for(auto c : cuts) {
            r.emplace_back(lo, c - 1);
            lo = c;
        }
        r.emplace_back(lo, 255);
        return r;
    }

    void configure(Src& s, setting& x) {
        x.m_two = s.coin();
        x.m_ranges = ranges(s, 1 + s.below(5));
        if(s.chance(1, 3)) {
            for(size_t i = x.m_ranges.size(); i > 1; i--) {
                std::swap(x.m_ranges[i - 1], x.m_ranges[s.below(i)]);
            }
        }
        if(!x.m_two && s.chance(1, 3)) { // replicated shards
            auto n = x.m_ranges.size();
            for(size_t i = 0; i < n; i++) {
                x.m_ranges.push_back(x.m_ranges[i]);
            }
        }
        x.m_from = s.chance(1, 3) ? 0 : s.below(100);
        x.m_to = x.m_from + 1 + s.size(60);
        x.m_value = static_cast<uint32_t>(1 + s.below(1000));
        x.m_key = pool(s.below(20));
        std::string c;
        auto put = [&](const std::string& k, const std::string& v) {
            c += k + "=" + v + "\n";
        };
        auto ep = [&](const std::string& k) {
            put(k, "\"127.0.0.1:5000\"");
        };
        if(x.m_two) {
            put("2pc", "1");
            put("coordinator_count", "1");
            put("coordinator0_count", "1");
            ep("coordinator0_0_endpoint");
            ep("coordinator0_0_raft_endpoint");
        } else {
            put("atomizer_count", "1");
            ep("atomizer0_endpoint");
            ep("atomizer0_raft_endpoint");
            put("archiver_count", "1");
            ep("archiver0_endpoint");
            put("archiver0_db", "\"a\"");
            put("watchtower_count", "1");
            ep("watchtower0_client_endpoint");
            ep("watchtower0_internal_endpoint");
        }
        put("sentinel_count", "1");
        ep("sentinel0_endpoint");
        put("sentinel0_private_key", "\"" + hx(pool(22).m_priv) + "\"");
        put("sentinel0_public_key", "\"" + hx(pool(22).m_pub) + "\"");
        put("attestation_threshold", "0");
        put("shard_count", std::to_string(x.m_ranges.size()));
        for(size_t i = 0; i < x.m_ranges.size(); i++) {
            auto p = "shard" + std::to_string(i) + "_";
            put(p + "start", std::to_string(x.m_ranges[i].first));
            put(p + "end", std::to_string(x.m_ranges[i].second));
            if(x.m_two) {
                put(p + "count", "1");
                ep(p + "0_endpoint");
                ep(p + "0_raft_endpoint");
                ep(p + "0_readonly_endpoint");
            } else {
                ep(p + "endpoint");
                put(p + "db", "\"d\"");
            }
        }
        put("seed_privkey", "\"" + hx(x.m_key.m_priv) + "\"");
        put("seed_value", std::to_string(x.m_value));
        put("seed_from", std::to_string(x.m_from));
        put("seed_to", std::to_string(x.m_to));
        put("loadgen_count", std::to_string(1 + s.below(4)));
        auto f = x.m_dir.path() + "/cfg";
        std::ofstream(f) << c;
        auto r = cbdc::config::load_options(f);
        PBT_CHECK(std::holds_alternative<cbdc::config::options>(r), "the configuration is refused: %s", std::get<std::string>(r).c_str());
        x.m_opts = std::get<cbdc::config::options>(r);
        x.m_opts.m_attestation_threshold = 0;
        std::string rs;
        for(auto& q : x.m_ranges) {
            rs += " " + std::to_string(q.first) + "-" + std::to_string(q.second);
        }
        s.note("%s, coins %llu..%llu of %u, shards%s", x.m_two ? "two-phase" : "atomizer", (unsigned long long)x.m_from, (unsigned long long)x.m_to, x.m_value,
               rs.c_str());
    }

    std::string self() {
        static const auto p = std::filesystem::read_symlink("/proc/self/exe").string();
        return p;
    }
    // The seeder, as the program it is.
    void run_seeder(const setting& x) {
        auto pid = fork();
        if(pid == 0) {
            auto n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            if(getenv("SEEDLOG") == nullptr) { dup2(n, 2); }
            if(chdir(x.m_dir.path().c_str()) != 0) {
                _exit(99);
            }
            execl((self() + ".seeder").c_str(), "seeder", "cfg", nullptr);
            _exit(98);
        }
        int st{};
        waitpid(pid, &st, 0);
        PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the seeder fails: %d", st);
    }

    // The seeded coin of an index, as the documentation of the wallet says:
    // the output of a transaction whose only input is made up from the index.
    input coin(const setting& x, u64 idx) {
        full_tx t;
        t.m_inputs.resize(1);
        t.m_inputs[0].m_prevout.m_tx_id = {0};
        t.m_inputs[0].m_prevout.m_index = idx;
        t.m_inputs[0].m_prevout_data = {{0}, x.m_value};
        t.m_outputs.push_back({ref_commitment(x.m_key.m_pub), x.m_value});
        input in;
        in.m_prevout = {ref_tx_id(t), 0};
        in.m_prevout_data = t.m_outputs[0];
        return in;
    }
    hash_t uhs(const input& in) {
        return ref_uhs_id(in.m_prevout.m_tx_id, in.m_prevout.m_index, in.m_prevout_data);
    }
    bool covers(const range_t& r, const hash_t& h) {
        return h[0] >= r.first && h[0] <= r.second;
    }

    // The wallets of the load generators hold what the shards hold.
    std::vector<std::unique_ptr<wallet>> wallets(Src& s, const setting& x) {
        std::vector<std::unique_ptr<wallet>> w;
        auto n = x.m_opts.m_loadgen_count;
        if(n > 1 && x.count() / n > 1) {
            std::set<u64> seen;
            for(size_t g = 0; g < n; g++) {
                auto [a, b] = cbdc::config::loadgen_seed_range(x.m_opts, g);
                PBT_CHECK(a >= x.m_from && b < x.m_to && a <= b, "load generator %zu of %zu gets %zu..%zu of %llu..%llu", g, (size_t)n, a, b,
                          (unsigned long long)x.m_from, (unsigned long long)x.m_to);
                for(auto i = a; i <= b; i++) {
                    PBT_CHECK(seen.insert(i).second, "coin %zu belongs to two load generators", i);
                }
                w.push_back(std::make_unique<wallet>());
                PBT_CHECK(w.back()->seed(*x.m_opts.m_seed_privkey, static_cast<uint32_t>(x.m_opts.m_seed_value), a, b), "a wallet cannot be seeded");
            }
            PBT_CHECK(seen.size() + n > x.count(), "%zu of %llu coins belong to a load generator", seen.size(), (unsigned long long)x.count());
            s.label("several wallets");
        } else {
            w.push_back(std::make_unique<wallet>());
            PBT_CHECK(w.back()->seed(*x.m_opts.m_seed_privkey, static_cast<uint32_t>(x.m_opts.m_seed_value), x.m_from, x.m_to), "a wallet cannot be seeded");
        }
        return w;
    }

    using lshard = cbdc::locking_shard::locking_shard;
    struct two_system {
        std::vector<std::unique_ptr<lshard>> m_sh;
        u64 m_n{0};
        bool spend(const full_tx& t) {
            auto ctx = compact_tx(t);
            hash_t dtx{};
            std::memcpy(dtx.data(), &++m_n, sizeof(m_n));
            bool all = true;
            for(auto& sh : m_sh) {
                auto v = std::vector<cbdc::locking_shard::tx>{{ctx}};
                auto r = sh->lock_outputs(std::move(v), dtx);
                PBT_CHECK(r.has_value() && r->size() == 1, "no answer to a lock");
                all = all && (*r)[0];
            }
            for(auto& sh : m_sh) {
                PBT_CHECK(sh->apply_outputs({all}, dtx), "no answer to an apply");
                sh->discard_dtx(dtx);
            }
            return all;
        }
    };
    struct atom_system {
        std::vector<std::unique_ptr<cbdc::shard::shard>> m_sh;
        u64 m_height{0};
        void block(const std::vector<compact_tx>& t) {
            cbdc::atomizer::block b;
            b.m_height = ++m_height;
            b.m_transactions = t;
            for(auto& sh : m_sh) {
                PBT_CHECK(sh->digest_block(b), "a block is refused");
            }
        }
        bool spend(const full_tx& t) {
            auto ctx = compact_tx(t);
            std::set<u64> att;
            for(auto& sh : m_sh) {
                auto r = sh->digest_transaction(ctx);
                if(auto* q = std::get_if<cbdc::atomizer::tx_notify_request>(&r)) {
                    att.insert(q->m_attestations.begin(), q->m_attestations.end());
                } else {
                    return false;
                }
            }
            if(att.size() != ctx.m_inputs.size()) {
                return false;
            }
            block({ctx});
            return true;
        }
    };

    template<typename Sys>
    void spend_all(Src& s, const setting& x, Sys& sys) {
        auto w = wallets(s, x);
        std::vector<full_tx> done;
        std::vector<coins> left;
        for(auto& q : w) {
            coins c;
            for(u64 i = x.m_from; i < x.m_to; i++) {
                auto in = coin(x, i);
                c.emplace(op(in), in);
            }
            left.push_back(c);
        }
        auto steps = 1 + s.size(12);
        for(u64 k = 0; k < steps; k++) {
            auto i = s.below(w.size());
            if(!done.empty() && s.chance(1, 4)) {
                auto& t = done[s.below(done.size())];
                PBT_CHECK(!sys.spend(t), "seeded coins are spent twice");
                s.label("again");
                continue;
            }
            if(w[i]->count() == 0) {
                continue;
            }
            auto key = pool(s.below(20)).m_pub;
            auto n = 1 + s.below(std::min<u64>(w[i]->count(), 6));
            auto t = w[i]->send_to(static_cast<uint32_t>(n * x.m_value), key, true);
            PBT_CHECK(t.has_value(), "a wallet with %zu coins cannot spend %llu", w[i]->count(), (unsigned long long)n);
            take_inputs(*t, left[i], "a payment");
            for(size_t q = 0; q < w.size(); q++) {
                for(auto& in : t->m_inputs) {
                    PBT_CHECK(q == i || left[q].erase(op(in)) > 0, "two wallets spend one seeded coin");
                }
            }
            check_valid(*t, "a payment");
            PBT_CHECK(sys.spend(*t), "the shards refuse seeded coins");
            done.push_back(*t);
            s.label("spent");
        }
    }

    void seeded(Src& s) {
        setting x;
        configure(s, x);
        run_seeder(x);
        std::vector<hash_t> decoys;
        for(auto i : {x.m_to, x.m_to + 1, x.m_from - 1, x.m_from - x.count(), x.m_to + x.count()}) {
            if(i < x.m_from || i >= x.m_to) {
                decoys.push_back(uhs(coin(x, i)));
            }
        }
        for(int i = 0; i < 20; i++) {
            decoys.push_back(rndhash(s));
        }
        if(x.m_two) {
            two_system sys;
            for(size_t i = 0; i < x.m_ranges.size(); i++) {
                auto f = x.m_dir.path() + "/2pc_shard_preseed_" + std::to_string(x.count()) + "_" + std::to_string(i);
                PBT_CHECK(std::filesystem::exists(f), "no seeds for shard %zu", i);
                sys.m_sh.push_back(std::make_unique<lshard>(x.m_ranges[i], logger(), 100000, f, x.m_opts));
                auto want = 0U;
                for(u64 c = x.m_from; c < x.m_to; c++) {
                    auto h = uhs(coin(x, c));
                    auto has = sys.m_sh.back()->check_unspent(h);
                    PBT_CHECK(has.has_value() && *has == covers(x.m_ranges[i], h), "shard %zu (%d-%d) %s seeded coin %llu (%d)", i, x.m_ranges[i].first,
                              x.m_ranges[i].second, has && *has ? "has" : "lacks", (unsigned long long)c, h[0]);
                    want += *has ? 1U : 0U;
                }
                // the file holds these and nothing else
                PBT_CHECK(std::filesystem::file_size(f) == 8 + want * 32, "shard %zu is seeded with something else", i);
                for(auto& d : decoys) {
                    PBT_CHECK(!sys.m_sh.back()->check_unspent(d).value(), "shard %zu has a coin nobody seeded", i);
                }
            }
            spend_all(s, x, sys);
        } else {
            atom_system sys;
            // a shard's seeds are those of its range, in order
            std::set<range_t> uniq(x.m_ranges.begin(), x.m_ranges.end());
            for(size_t i = 0; i < x.m_ranges.size(); i++) {
                auto k = std::distance(uniq.begin(), uniq.find(x.m_ranges[i]));
                auto src = x.m_dir.path() + "/shard_preseed_" + std::to_string(x.count()) + "_" + std::to_string(k);
                auto dir = x.m_dir.path() + "/db" + std::to_string(i);
                PBT_CHECK(std::filesystem::exists(src), "no seeds for shard %zu", i);
                std::filesystem::copy(src, dir, std::filesystem::copy_options::recursive);
                {
                    leveldb::DB* p{};
                    PBT_CHECK(leveldb::DB::Open({}, dir, &p).ok(), "the seeds of shard %zu cannot be read", i);
                    std::unique_ptr<leveldb::DB> db(p);
                    std::unique_ptr<leveldb::Iterator> it(db->NewIterator({}));
                    std::set<std::string> have;
                    for(it->SeekToFirst(); it->Valid(); it->Next()) {
                        have.insert(it->key().ToString());
                    }
                    std::set<std::string> want;
                    for(u64 c = x.m_from; c < x.m_to; c++) {
                        auto h = uhs(coin(x, c));
                        if(covers(x.m_ranges[i], h)) {
                            want.emplace(reinterpret_cast<char*>(h.data()), h.size());
                        }
                    }
                    PBT_CHECK(have == want, "shard %zu (%d-%d) is seeded with %zu coins, %zu of its range exist", i, x.m_ranges[i].first, x.m_ranges[i].second,
                              have.size(), want.size());
                }
                sys.m_sh.push_back(std::make_unique<cbdc::shard::shard>(x.m_ranges[i]));
                auto e = sys.m_sh.back()->open_db(dir);
                PBT_CHECK(!e.has_value(), "a seeded database cannot be opened: %s", e->c_str());
                PBT_CHECK(sys.m_sh.back()->best_block_height() == 0, "a seeded shard has seen a block");
            }
            sys.block({});
            spend_all(s, x, sys);
        }
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C39";
    c.m_rule = "configurations of both systems with 1 to 5 shards, of equal or unequal ranges in any order, replicated or not, 1 to 61 "
               "seeded coins from any index and 1 to 4 load generators; the seeder runs as the program it is, its output is loaded by the "
               "shards of the tree, compared coin by coin, and spent through the wallets. Non-trivial: every case";
    c.m_assumptions = {"a shard of the two-phase system loads the file of its number; replicas of an atomizer shard get copies of the directory of their range",
                       "a load generator's range is inclusive and the tools leave out its last coin"};
    c.m_props = {{"seeded", seeded, 500, 12000, false, 60}};
    return pbt::run(argc, argv, c);
}
