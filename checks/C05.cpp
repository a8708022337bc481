// C05: the clients of both systems against a ledger, across restarts.
#include "../lib/jit.hpp"
#include "net.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/client/atomizer_client.hpp"
#include "uhs/client/twophase_client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/util.hpp"
#include "walletmodel.hpp"

#include <condition_variable>
#include <filesystem>
#include <mutex>

using namespace wm;
using namespace vt;
namespace sen = cbdc::sentinel;

namespace {
    // Both clients with what they keep for subclasses.
    template<typename C>
    struct open_client : public C {
        using C::C;
        auto txs() const { return this->pending_txs(); }
        auto inputs() const { return this->pending_inputs(); }
    };
    struct any_client {
        std::unique_ptr<open_client<cbdc::twophase_client>> m_two;
        std::unique_ptr<open_client<cbdc::atomizer_client>> m_atom;
        cbdc::client& get() {
            if(m_two) {
                return *m_two;
            }
            return *m_atom;
        }
        std::map<hash_t, full_tx> txs() {
            std::map<hash_t, full_tx> r;
            for(auto& [k, v] : m_two ? m_two->txs() : m_atom->txs()) {
                r.emplace(k, v);
            }
            return r;
        }
        std::map<outpoint, input> inputs() {
            std::map<outpoint, input> r;
            for(auto& [k, v] : m_two ? m_two->inputs() : m_atom->inputs()) {
                PBT_CHECK(r.emplace(op(v), v).second, "an input is pending twice");
            }
            return r;
        }
        void close() {
            m_two.reset();
            m_atom.reset();
        }
    };

    // The system behind the clients.
    struct network_of_servers {
        std::mutex m_mut;
        std::condition_variable m_cv;
        std::set<hash_t> m_done;
        std::vector<full_tx> m_got;       // at the sentinel
        std::vector<compact_tx> m_mints;  // at the coordinator or atomizer
        std::optional<sen::execute_response> m_answer;
        int m_mint{0}; // 0 done, 1 refused, 2 no answer, 3 later
        bool m_status_down{false};
        bool m_wrong_shard{false};
        std::vector<std::function<void(std::optional<bool>)>> m_late;

        std::unique_ptr<cbdc::rpc::blocking_tcp_server<sen::request, sen::response>> m_sen;
        std::unique_ptr<cbdc::rpc::async_tcp_server<cbdc::coordinator::rpc::request, cbdc::coordinator::rpc::response>> m_coord;
        using status_srv = cbdc::rpc::blocking_tcp_server<cbdc::locking_shard::rpc::status_request, cbdc::locking_shard::rpc::status_response>;
        std::vector<std::unique_ptr<status_srv>> m_shards;
        std::unique_ptr<cbdc::watchtower::watchtower> m_wt;
        std::unique_ptr<stub_server> m_wts;
        std::unique_ptr<stub_server> m_atoms;
        u64 m_height{0};
        cbdc::config::options m_opts;

        explicit network_of_servers(bool two, u64 nshards) {
            m_opts.m_attestation_threshold = 0;
            auto ep = free_ep();
            m_sen = std::make_unique<cbdc::rpc::blocking_tcp_server<sen::request, sen::response>>(ep);
            m_sen->register_handler_callback([this](sen::request r) -> std::optional<sen::response> {
                std::unique_lock l(m_mut);
                if(auto* e = std::get_if<sen::execute_request>(&r)) {
                    m_got.push_back(*e);
                }
                if(m_answer) {
                    return *m_answer;
                }
                return std::nullopt;
            });
            start(*m_sen);
            m_opts.m_sentinel_endpoints = {ep};
            if(two) {
                ep = free_ep();
                m_coord = std::make_unique<cbdc::rpc::async_tcp_server<cbdc::coordinator::rpc::request, bool>>(ep);
                m_coord->register_handler_callback([this](const compact_tx& t, std::function<void(std::optional<bool>)> cb) {
                    std::unique_lock l(m_mut);
                    m_mints.push_back(t);
                    if(m_mint == 0) {
                        m_done.insert(t.m_id);
                    }
                    if(m_mint == 3) {
                        m_late.push_back(std::move(cb));
                        m_cv.notify_all();
                        return true;
                    }
                    if(m_mint == 2) {
                        return false;
                    }
                    l.unlock();
                    cb(m_mint == 0);
                    return true;
                });
                start(*m_coord);
                m_opts.m_coordinator_endpoints = {{ep}};
                for(u64 i = 0; i < nshards; i++) {
                    auto lo = static_cast<uint8_t>(256 * i / nshards);
                    auto hi = static_cast<uint8_t>(256 * (i + 1) / nshards - 1);
                    ep = free_ep();
                    m_opts.m_shard_ranges.emplace_back(lo, hi);
                    m_opts.m_locking_shard_readonly_endpoints.push_back({ep});
                    m_shards.push_back(std::make_unique<status_srv>(ep));
                    m_shards.back()->register_handler_callback([this, lo, hi](const cbdc::locking_shard::rpc::status_request& r) -> std::optional<bool> {
                        std::unique_lock l(m_mut);
                        auto* q = std::get_if<cbdc::locking_shard::rpc::tx_status_request>(&r);
                        if(q == nullptr) {
                            return std::nullopt;
                        }
                        if(q->m_tx_id[0] < lo || q->m_tx_id[0] > hi) {
                            m_wrong_shard = true;
                        }
                        if(m_status_down) {
                            return std::nullopt;
                        }
                        return m_done.count(q->m_tx_id) > 0;
                    });
                    start(*m_shards.back());
                }
            } else {
                m_wt = std::make_unique<cbdc::watchtower::watchtower>(0, 1000);
                m_wts = std::make_unique<stub_server>([this](cbdc::network::message_t&& m) -> std::optional<cbdc::buffer> {
                    auto deser = cbdc::buffer_serializer(*m.m_pkt);
                    auto r = cbdc::watchtower::request(deser);
                    if(!deser) {
                        return std::nullopt;
                    }
                    std::unique_lock l(m_mut);
                    std::unique_ptr<cbdc::watchtower::response> a;
                    if(auto* q = std::get_if<cbdc::watchtower::status_update_request>(&r.payload())) {
                        a = m_wt->handle_status_update_request(*q);
                    } else {
                        a = m_wt->handle_best_block_height_request(cbdc::watchtower::best_block_height_request{});
                    }
                    return cbdc::make_buffer(*a);
                });
                m_atoms = std::make_unique<stub_server>([](cbdc::network::message_t&&) -> std::optional<cbdc::buffer> {
                    return std::nullopt;
                });
                m_opts.m_watchtower_client_endpoints = {m_wts->m_ep};
                m_opts.m_atomizer_endpoints = {m_atoms->m_ep};
            }
        }
        template<typename S>
        void start(S& s) {
            if(!s.init()) {
                throw pbt::Discard{};
            }
        }
        void settle(const full_tx& t) {
            std::unique_lock l(m_mut);
            if(!m_done.insert(ref_tx_id(t)).second) {
                return;
            }
            if(m_wt) {
                cbdc::atomizer::block b;
                b.m_height = ++m_height;
                b.m_transactions.emplace_back(t);
                m_wt->add_block(std::move(b));
            }
        }
        void reject(const full_tx& t) {
            if(!m_wt) {
                return;
            }
            std::unique_lock l(m_mut);
            auto c = compact_tx(t);
            std::vector<cbdc::watchtower::tx_error> e;
            e.emplace_back(c.m_id, cbdc::watchtower::tx_error_inputs_dne({c.m_inputs.begin(), c.m_inputs.end()}));
            m_wt->add_errors(std::move(e));
        }
        ~network_of_servers() {
            m_sen.reset();
            m_coord.reset();
            m_shards.clear();
            m_wts.reset();
            m_atoms.reset();
        }
    };

    struct person {
        any_client m_c;
        int m_gen{0};
        coins m_coins;
        coins m_held; // inputs of created transactions
        std::map<hash_t, full_tx> m_txs;
        std::map<outpoint, input> m_in;
        std::set<hash_t> m_owned;
        std::vector<pubkey_t> m_addrs;
        std::set<outpoint> m_had; // ever credited
        std::string m_files;
    };

    struct world {
        Src& s;
        bool m_two;
        pbt::Scratch m_dir;
        network_of_servers m_net;
        std::vector<person> m_p;
        std::map<hash_t, full_tx> m_all;     // created so far
        std::map<hash_t, std::vector<input>> m_exports;
        std::set<hash_t> m_spent_up;         // transactions whose inputs are gone

        world(Src& src, bool two) : s(src), m_two(two), m_net(two, 1 + src.below(3)) {}

        void open(size_t i) {
            auto& p = m_p[i];
            auto lg = logger();
            auto w = p.m_files + ".wallet";
            auto c = p.m_files + ".client";
            if(m_two) {
                p.m_c.m_two = std::make_unique<open_client<cbdc::twophase_client>>(m_net.m_opts, lg, w, c);
            } else {
                p.m_c.m_atom = std::make_unique<open_client<cbdc::atomizer_client>>(m_net.m_opts, lg, w, c);
            }
            PBT_CHECK(p.m_c.get().init(), "a client cannot be opened");
        }
        void add() {
            m_p.emplace_back();
            m_p.back().m_files = m_dir.path() + "/p" + std::to_string(m_p.size());
            open(m_p.size() - 1);
        }
        void compare(size_t i) {
            auto& p = m_p[i];
            auto& c = p.m_c.get();
            auto n = std::to_string(i);
            PBT_CHECK(c.balance() == static_cast<u64>(total(p.m_coins)), "client %zu: balance %llu, its coins are worth %llu", i,
                      (unsigned long long)c.balance(), (unsigned long long)total(p.m_coins));
            PBT_CHECK(c.utxo_count() == p.m_coins.size(), "client %zu: %zu coins, it has %zu", i, c.utxo_count(), p.m_coins.size());
            auto txs = p.m_c.txs();
            PBT_CHECK(c.pending_tx_count() == p.m_txs.size() && txs.size() == p.m_txs.size(), "client %zu: %zu pending transactions, %zu expected", i,
                      c.pending_tx_count(), p.m_txs.size());
            for(auto& [id, t] : p.m_txs) {
                auto it = txs.find(id);
                PBT_CHECK(it != txs.end(), "client %zu lost pending transaction %s", i, h8(id).c_str());
                PBT_CHECK(it->second == t, "client %zu changed pending transaction %s", i, h8(id).c_str());
                for(auto& in : t.m_inputs) {
                    PBT_CHECK(c.check_pending(in), "an input of a pending transaction is not pending");
                }
            }
            for(auto& [o, in] : p.m_held) {
                bool used = false;
                for(auto& [id, t] : p.m_txs) {
                    for(auto& x : t.m_inputs) {
                        used = used || x == in;
                    }
                }
                PBT_CHECK(c.check_pending(in) == used, "check_pending");
            }
            auto in = p.m_c.inputs();
            PBT_CHECK(c.pending_input_count() == p.m_in.size() && in.size() == p.m_in.size(), "client %zu: %zu pending inputs, %zu expected", i,
                      c.pending_input_count(), p.m_in.size());
            for(auto& [o, x] : p.m_in) {
                auto it = in.find(o);
                PBT_CHECK(it != in.end() && it->second == x, "client %zu lost a pending input", i);
            }
        }
        void credit(person& p, const input& in) {
            p.m_coins.emplace(op(in), in);
            p.m_had.insert(op(in));
        }
        bool confirmed(person& p, const hash_t& id) {
            bool any = false;
            auto it = p.m_txs.find(id);
            if(it != p.m_txs.end()) {
                any = true;
                auto& t = it->second;
                for(size_t k = 0; k < t.m_outputs.size(); k++) {
                    if(p.m_owned.count(t.m_outputs[k].m_witness_program_commitment) > 0) {
                        input in;
                        in.m_prevout = {id, k};
                        in.m_prevout_data = t.m_outputs[k];
                        credit(p, in);
                    }
                }
                for(auto& in : t.m_inputs) {
                    p.m_coins.erase(op(in));
                    p.m_held.erase(op(in));
                }
                p.m_txs.erase(it);
            }
            for(auto k = p.m_in.begin(); k != p.m_in.end();) {
                if(k->second.m_prevout.m_tx_id == id) {
                    any = true;
                    credit(p, k->second);
                    k = p.m_in.erase(k);
                } else {
                    k++;
                }
            }
            return any;
        }
        // May this transaction still be accepted by the system?
        bool possible(const full_tx& t) {
            for(auto& in : t.m_inputs) {
                auto by = m_net.m_done.count(ref_tx_id(t)) > 0;
                if(!by && m_taken.count(op(in)) > 0) {
                    return false;
                }
                if(m_net.m_done.count(in.m_prevout.m_tx_id) == 0) {
                    return false;
                }
            }
            return true;
        }
        std::set<outpoint> m_taken;
        void settle(const full_tx& t) {
            m_net.settle(t);
            for(auto& in : t.m_inputs) {
                m_taken.insert(op(in));
            }
        }
        pubkey_t addr(size_t i) {
            auto& p = m_p[i];
            if(!p.m_addrs.empty() && s.chance(2, 3)) {
                return p.m_addrs[s.below(p.m_addrs.size())];
            }
            auto k = p.m_c.get().new_address();
            p.m_owned.insert(ref_commitment(k));
            p.m_addrs.push_back(k);
            return k;
        }
        // What the next transaction meets at the sentinel.
        sen::tx_status plan(bool can) {
            std::unique_lock l(m_net.m_mut);
            m_net.m_answer.reset();
            sen::execute_response r;
            if(s.chance(1, 10)) {
                return sen::tx_status::pending;
            }
            auto k = s.weighted({can && m_two ? 5u : 0u, 3, 1, 1});
            static const sen::tx_status st[] = {sen::tx_status::confirmed, sen::tx_status::pending, sen::tx_status::static_invalid, sen::tx_status::state_invalid};
            r.m_tx_status = st[k];
            if(k == 2) {
                r.m_tx_error = validation::tx_error{validation::tx_error_code::no_outputs};
            }
            m_net.m_answer = r;
            return r.m_tx_status;
        }
        bool maybe_settle(const full_tx& t) {
            if(possible(t) && s.coin()) {
                settle(t);
                return true;
            }
            return false;
        }
        void took(size_t i, full_tx& t, const std::vector<output>& want, const char* who) {
            auto& p = m_p[i];
            auto before = p.m_coins;
            auto sum = take_inputs(t, p.m_coins, who);
            check_outputs(
                t,
                sum,
                want,
                [&](const output& o) {
                    for(size_t q = 0; q < m_p.size(); q++) {
                        if(q != i && m_p[q].m_owned.count(o.m_witness_program_commitment) > 0) {
                            return false;
                        }
                    }
                    p.m_owned.insert(o.m_witness_program_commitment);
                    return true;
                },
                who);
            check_valid(t, who);
            for(auto& in : t.m_inputs) {
                p.m_held.emplace(op(in), in);
            }
            m_all.emplace(ref_tx_id(t), t);
        }
        // After a transaction went to the sentinel.
        void sent(size_t i, const full_tx& t, const std::optional<sen::execute_response>& r, size_t got) {
            auto& p = m_p[i];
            auto id = ref_tx_id(t);
            p.m_txs.emplace(id, t);
            std::optional<sen::execute_response> want;
            {
                std::unique_lock l(m_net.m_mut);
                want = m_net.m_answer;
                PBT_CHECK(m_net.m_got.size() == got + 1, "%zu messages at the sentinel for one transaction", m_net.m_got.size() - got);
                PBT_CHECK(same_tx(m_net.m_got.back(), t), "the sentinel got another transaction");
            }
            PBT_CHECK(r.has_value() == want.has_value(), "the caller %s an answer", r ? "got" : "did not get");
            if(r) {
                PBT_CHECK(*r == *want, "the caller got another answer");
                if(r->m_tx_status == sen::tx_status::confirmed) {
                    settle(t);
                    confirmed(p, id);
                }
            }
        }
        static bool same_tx(const full_tx& a, const full_tx& b) {
            return a.m_inputs == b.m_inputs && a.m_outputs == b.m_outputs && a.m_witness == b.m_witness;
        }
        void exports(const full_tx& t, const pubkey_t& k) {
            auto e = cbdc::client::export_send_inputs(t, k);
            auto id = ref_tx_id(t);
            std::vector<input> want;
            for(size_t q = 0; q < t.m_outputs.size(); q++) {
                if(t.m_outputs[q].m_witness_program_commitment == ref_commitment(k)) {
                    input in;
                    in.m_prevout = {id, q};
                    in.m_prevout_data = t.m_outputs[q];
                    want.push_back(in);
                }
            }
            PBT_CHECK(e == want, "the receiver is handed %zu inputs, %zu are his", e.size(), want.size());
            auto& v = m_exports[id];
            for(auto& x : e) {
                if(std::find(v.begin(), v.end(), x) == v.end()) {
                    v.push_back(x);
                }
            }
        }
        // A confirmed or pending one, as known to somebody.
        std::optional<full_tx> some_tx() {
            if(m_all.empty()) {
                return std::nullopt;
            }
            return std::next(m_all.begin(), static_cast<ptrdiff_t>(s.below(m_all.size())))->second;
        }
        void sync(size_t i) {
            auto& p = m_p[i];
            m_net.m_status_down = m_two && s.chance(1, 10);
            auto none = p.m_txs.empty() && p.m_in.empty();
            auto r = p.m_c.get().sync();
            s.note("%zu: sync%s -> %d", i, m_net.m_status_down ? " (down)" : "", r ? 1 : 0);
            std::set<hash_t> ids;
            for(auto& [id, t] : p.m_txs) {
                ids.insert(id);
            }
            for(auto& [o, in] : p.m_in) {
                ids.insert(in.m_prevout.m_tx_id);
            }
            bool every = true;
            if(!m_net.m_status_down) {
                for(auto& id : ids) {
                    if(m_net.m_done.count(id) > 0) {
                        confirmed(p, id);
                        s.label("synced");
                    } else {
                        every = false;
                    }
                }
            }
            if(m_two) {
                PBT_CHECK(r == (!m_net.m_status_down || none), "sync says %d", r ? 1 : 0);
            } else {
                PBT_CHECK(!every || r, "sync fails although everything is confirmed");
            }
            PBT_CHECK(!m_net.m_wrong_shard, "a shard is asked about a transaction outside its range");
            m_net.m_status_down = false;
        }
        void step() {
            auto i = s.below(m_p.size());
            auto& p = m_p[i];
            auto& c = p.m_c.get();
            auto bal = static_cast<u64>(total(p.m_coins));
            switch(s.weighted({4, 7, 3, 3, 3, 5, 4, 4, 5, 4, 1})) {
                case 0: { // mint
                    auto n = 1 + s.size(5);
                    auto v = static_cast<uint32_t>(1 + s.below(100));
                    m_net.m_mint = static_cast<int>(s.weighted({4, 1, 1}));
                    auto t = c.mint(n, v);
                    auto id = ref_tx_id(t);
                    s.note("%zu: mint %llu x %u (%d)", i, (unsigned long long)n, v, m_net.m_mint);
                    PBT_CHECK(t.m_inputs.empty() && t.m_outputs.size() == n, "a mint of another shape");
                    for(auto& o : t.m_outputs) {
                        PBT_CHECK(o.m_value == v, "a minted coin is worth %llu", (unsigned long long)o.m_value);
                        p.m_owned.insert(o.m_witness_program_commitment);
                    }
                    p.m_txs.emplace(id, t);
                    m_all.emplace(id, t);
                    if(m_two) {
                        std::unique_lock l(m_net.m_mut);
                        PBT_CHECK(m_net.m_mints.size() == 1, "%zu mints at the coordinator", m_net.m_mints.size());
                        PBT_CHECK(m_net.m_mints[0].m_id == id && m_net.m_mints[0].m_inputs.empty() && m_net.m_mints[0].m_uhs_outputs == compact_tx(t).m_uhs_outputs, "the coordinator got another mint");
                        m_net.m_mints.clear();
                        l.unlock();
                        if(m_net.m_mint == 0) {
                            settle(t);
                            confirmed(p, id);
                        }
                    } else if(s.chance(3, 4)) {
                        settle(t);
                    }
                    break;
                }
                case 1:
                case 2: { // pay
                    auto to = s.below(m_p.size());
                    auto k = addr(to);
                    auto cnt = s.coin() ? 1 : 1 + s.size(4);
                    u64 a = 1 + s.below(60);
                    if(s.chance(1, 4)) {
                        a = bal / cnt + s.below(2);
                    }
                    a = std::min<u64>(std::max<u64>(a, 1), 0xffffffff);
                    auto fan = cnt > 1 || s.chance(1, 4);
                    plan(true);
                    auto got = m_net.m_got.size();
                    auto r = fan ? c.fan(static_cast<uint32_t>(cnt), static_cast<uint32_t>(a), k) : c.send(static_cast<uint32_t>(a), k);
                    s.note("%zu: %s %llu x %llu of %llu to %zu", i, fan ? "fan" : "send", (unsigned long long)cnt, (unsigned long long)a, (unsigned long long)bal,
                           (size_t)to);
                    auto can = cnt * a <= bal;
                    if(!can) {
                        PBT_CHECK(!r.first && !r.second, "a client with %llu sends %llu", (unsigned long long)bal, (unsigned long long)(cnt * a));
                        PBT_CHECK(m_net.m_got.size() == got, "a message for nothing");
                        break;
                    }
                    PBT_CHECK(m_net.m_got.size() == got + 1, "a client with %llu does not send %llu", (unsigned long long)bal, (unsigned long long)(cnt * a));
                    PBT_CHECK(r.first.has_value() == r.second.has_value(), "half an answer");
                    PBT_CHECK(r.first.has_value() == m_net.m_answer.has_value(), "an answer or none");
                    auto t = static_cast<full_tx>(m_net.m_got.back());
                    if(r.first) {
                        PBT_CHECK(same_tx(*r.first, t), "the caller is told another transaction");
                    }
                    took(i, t, std::vector<output>(cnt, {ref_commitment(k), a}), "a payment");
                    sent(i, t, r.second, got);
                    exports(t, k);
                    s.label(fan ? "fan" : "send");
                    break;
                }
                case 3: { // create only
                    auto to = s.below(m_p.size());
                    auto k = addr(to);
                    u64 a = 1 + s.below(60);
                    auto t = c.create_transaction(static_cast<uint32_t>(a), k);
                    s.note("%zu: create %llu of %llu to %zu", i, (unsigned long long)a, (unsigned long long)bal, (size_t)to);
                    PBT_CHECK(t.has_value() == (a <= bal), "a client with %llu %s %llu", (unsigned long long)bal, t ? "creates" : "cannot create", (unsigned long long)a);
                    if(t) {
                        took(i, *t, {{ref_commitment(k), a}}, "a transaction");
                        exports(*t, k);
                        s.label("create");
                    }
                    break;
                }
                case 4: // send one made before, by anybody
                    if(auto t = some_tx(); t && !t->m_inputs.empty()) {
                        auto id = ref_tx_id(*t);
                        if(m_net.m_done.count(id) > 0) {
                            break;
                        }
                        plan(possible(*t));
                        auto got = m_net.m_got.size();
                        s.note("%zu: hands in %s", i, h8(id).c_str());
                        auto r = c.send_transaction(*t);
                        sent(i, *t, r, got);
                        s.label("hand in");
                    }
                    break;
                case 5: // the system accepts or refuses
                    if(auto t = some_tx()) {
                        if(possible(*t)) {
                            if(s.chance(3, 4)) {
                                settle(*t);
                                s.note("settled %s", h8(ref_tx_id(*t)).c_str());
                            } else if(m_net.m_done.count(ref_tx_id(*t)) == 0) {
                                m_net.reject(*t);
                                s.note("rejected %s", h8(ref_tx_id(*t)).c_str());
                            }
                        }
                    }
                    break;
                case 6: // import what others handed over
                    if(!m_exports.empty()) {
                        auto& [id, v] = *std::next(m_exports.begin(), static_cast<ptrdiff_t>(s.below(m_exports.size())));
                        for(auto& in : v) {
                            if(p.m_had.count(op(in)) > 0 || s.chance(1, 6)) {
                                continue;
                            }
                            c.import_send_input(in);
                            s.note("%zu: imports %s:%llu", i, h8(in.m_prevout.m_tx_id).c_str(), (unsigned long long)in.m_prevout.m_index);
                            if(p.m_owned.count(in.m_prevout_data.m_witness_program_commitment) > 0) {
                                p.m_in.emplace(op(in), in);
                                s.label("import");
                            }
                            compare(i);
                        }
                    }
                    break;
                case 7: { // confirm or abandon
                    auto id = rndhash(s);
                    if(!p.m_txs.empty() && s.chance(3, 4)) {
                        id = std::next(p.m_txs.begin(), static_cast<ptrdiff_t>(s.below(p.m_txs.size())))->first;
                    } else if(!p.m_in.empty() && s.coin()) {
                        id = std::next(p.m_in.begin(), static_cast<ptrdiff_t>(s.below(p.m_in.size())))->first.first;
                    } else if(auto t = some_tx(); t && s.coin()) {
                        id = ref_tx_id(*t);
                    }
                    auto known = p.m_txs.find(id) != p.m_txs.end();
                    if(m_net.m_done.count(id) > 0) {
                        auto r = c.confirm_transaction(id);
                        s.note("%zu: confirm %s -> %d", i, h8(id).c_str(), r ? 1 : 0);
                        auto w = confirmed(p, id);
                        PBT_CHECK(r == w, "confirming says %d", r ? 1 : 0);
                    } else {
                        auto r = c.abandon_transaction(id);
                        s.note("%zu: abandon %s -> %d", i, h8(id).c_str(), r ? 1 : 0);
                        PBT_CHECK(r == known, "abandoning says %d", r ? 1 : 0);
                        if(known) {
                            auto t = p.m_txs[id];
                            p.m_txs.erase(id);
                            for(auto& in : t.m_inputs) {
                                auto used = false;
                                for(auto& [q, u] : p.m_txs) {
                                    used = used || std::find(u.m_inputs.begin(), u.m_inputs.end(), in) != u.m_inputs.end();
                                }
                                if(!used && p.m_held.erase(op(in)) > 0) {
                                    p.m_coins.emplace(op(in), in);
                                }
                            }
                            s.label("abandon");
                        }
                    }
                    break;
                }
                case 8:
                    sync(i);
                    break;
                case 9: { // killed here, opened again from what is on disk
                    auto old = p.m_files;
                    p.m_files = m_dir.path() + "/p" + std::to_string(i) + "g" + std::to_string(++p.m_gen);
                    for(auto* e : {".wallet", ".client"}) {
                        if(std::filesystem::exists(old + e)) {
                            std::filesystem::copy_file(old + e, p.m_files + e);
                        }
                    }
                    p.m_c.close();
                    open(i);
                    s.note("%zu: opened again", i);
                    if(!p.m_txs.empty() || !p.m_in.empty() || !p.m_held.empty()) {
                        s.label("reopened with something pending");
                    }
                    break;
                }
                default:
                    addr(i);
            }
            for(size_t q = 0; q < m_p.size(); q++) {
                compare(q);
            }
        }
    };

    void run(Src& s, bool two) {
        world w(s, two);
        auto n = 1 + s.below(2);
        for(u64 i = 0; i < n; i++) {
            w.add();
            w.compare(i);
        }
        auto steps = 4 + s.size(50);
        for(u64 k = 0; k < steps; k++) {
            w.step();
        }
        if(!w.m_all.empty()) {
            s.nontrivial();
        }
    }
    void twophase(Src& s) {
        run(s, true);
    }
    void atomizer(Src& s) {
        run(s, false);
    }

    // The coordinator answers a mint when nobody waits for it any more.
    void late_mint(Src& s) {
        world w(s, true);
        w.add();
        auto& p = w.m_p[0];
        auto& c = p.m_c.get();
        w.m_net.m_mint = 3;
        auto n = 1 + s.below(3);
        auto v = static_cast<uint32_t>(1 + s.below(50));
        auto late = s.below(3); // late accept, late refusal, early answer
        std::thread th;
        if(late == 2) {
            th = std::thread([&] {
                std::unique_lock l(w.m_net.m_mut);
                w.m_net.m_cv.wait(l, [&] { return !w.m_net.m_late.empty(); });
                auto cb = w.m_net.m_late.back();
                l.unlock();
                std::this_thread::sleep_for(std::chrono::milliseconds(300));
                cb(true);
            });
        }
        s.note("mint %llu x %u answer %llu", (unsigned long long)n, v, (unsigned long long)late);
        auto t = c.mint(n, v);
        if(th.joinable()) {
            th.join();
        }
        auto id = ref_tx_id(t);
        p.m_txs.emplace(id, t);
        for(auto& o : t.m_outputs) {
            p.m_owned.insert(o.m_witness_program_commitment);
        }
        if(late == 2) {
            w.settle(t);
            w.confirmed(p, id);
            w.compare(0);
        } else {
            w.compare(0);
            // use the stack again
            auto deep = [](auto&& self, int d) -> int {
                volatile char pad[256];
                for(auto& x : pad) {
                    x = static_cast<char>(0x5a);
                }
                return d == 0 ? pad[3] : self(self, d - 1) + pad[7];
            };
            deep(deep, 20);
            PBT_CHECK(w.m_net.m_late.size() == 1, "no mint arrived");
            w.m_net.m_late[0](late == 0);
            if(late == 0) {
                w.settle(t);
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(300));
            // another mint in between is not confused with it
            w.m_net.m_mint = 0;
            auto t2 = c.mint(1, 7);
            auto id2 = ref_tx_id(t2);
            p.m_txs.emplace(id2, t2);
            p.m_owned.insert(t2.m_outputs[0].m_witness_program_commitment);
            w.confirmed(p, id2);
            PBT_CHECK(c.balance() == 7 || c.balance() == 7 + n * v, "balance %llu after a late answer", (unsigned long long)c.balance());
            PBT_CHECK(c.sync(), "sync fails");
            if(late == 0) {
                w.confirmed(p, id);
            }
            w.compare(0);
        }
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C05";
    c.m_rule = "histories of up to 54 operations of 1 or 2 clients of the two-phase or the atomizer system against stub servers and a "
               "ledger: mints, payments, fans, transactions created and handed in later or by the other client, imports, confirmations, "
               "abandonments, syncs, refusals, lost answers, a client killed between two operations and opened from copies of its files; "
               "answers to a mint that come after the caller gave up. Non-trivial: a transaction was made";
    c.m_assumptions = {"amounts are positive",
                       "an input already received is not imported again, and a transaction already confirmed by the system is not handed in again",
                       "a client is killed between operations, not inside one"};
    c.m_props = {{"twophase", twophase, 500, 8000, true, 40},
                 {"atomizer", atomizer, 500, 8000, true, 40},
                 {"late_mint", late_mint, 6, 60, true, 60}};
    return pbt::run(argc, argv, c);
}
