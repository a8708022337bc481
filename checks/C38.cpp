// EVM execution: every generated history of transactions, run by the
// repository's runner and host with a scripted virtual machine, against a
// world kept by a reference host.
#include "common.hpp"
#include "parsec/agent/runners/evm/address.hpp"
#include "parsec/agent/runners/evm/format.hpp"
#include "parsec/agent/runners/evm/hash.hpp"
#include "parsec/agent/runners/evm/impl.hpp"
#include "parsec/agent/runners/evm/serialization.hpp"
#include "parsec/agent/runners/evm/signature.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <boost/multiprecision/cpp_int.hpp>
#include <ethash/keccak.hpp>
#include <future>
#include <map>
#include <mutex>
#include <secp256k1.h>
#include <set>

using namespace vt;
using namespace cbdc::parsec;
using namespace cbdc::parsec::agent::runner;
using cbdc::buffer;
using u256 = evmc::uint256be;
using big = boost::multiprecision::cpp_int;
using str = std::string;

namespace {
    std::shared_ptr<secp256k1_context> ctx() {
        static auto c = std::shared_ptr<secp256k1_context>(
            secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY),
            secp256k1_context_destroy);
        return c;
    }
    big to_big(const u256& v) {
        big r = 0;
        for(auto b : v.bytes) {
            r = (r << 8) + b;
        }
        return r;
    }
    u256 to_u256(big v) {
        u256 r{};
        for(int i = 31; i >= 0; i--) {
            r.bytes[i] = static_cast<uint8_t>(static_cast<unsigned>(v & 0xff));
            v >>= 8;
        }
        return r;
    }
    const big lim = big(1) << 256;
    template<typename T>
    str rawb(const T& v) {
        return {reinterpret_cast<const char*>(v.bytes), sizeof(v.bytes)};
    }
    template<typename T>
    str hexb(const T& v) {
        return pbt::hex(v.bytes, sizeof(v.bytes));
    }
    str hexs(const str& b) {
        return pbt::hex(reinterpret_cast<const unsigned char*>(b.data()), b.size());
    }
    str raw(const buffer& b) {
        return {reinterpret_cast<const char*>(b.data()), b.size()};
    }
    buffer buf(const str& t) {
        buffer b;
        b.append(t.data(), t.size());
        return b;
    }
    str keccak(const str& d) {
        auto h = ethash::keccak256(reinterpret_cast<const uint8_t*>(d.data()), d.size());
        return {reinterpret_cast<const char*>(h.bytes), 32};
    }
    u256 b32(const str& t) {
        u256 r{};
        std::memcpy(r.bytes, t.data(), 32);
        return r;
    }
    // Contract addresses, from the yellow paper and EIP-1014.
    evmc::address tail(const str& h) {
        evmc::address a{};
        std::memcpy(a.bytes, h.data() + 12, 20);
        return a;
    }
    evmc::address addr_create(const evmc::address& a, const big& nonce) {
        str n;
        for(auto v = nonce; v != 0; v >>= 8) {
            n.insert(n.begin(), static_cast<char>(static_cast<unsigned>(v & 0xff)));
        }
        if(n.size() != 1 || static_cast<unsigned char>(n[0]) >= 0x80) {
            n.insert(n.begin(), static_cast<char>(0x80 + n.size()));
        }
        auto body = str(1, static_cast<char>(0x94)) + rawb(a) + n;
        return tail(keccak(str(1, static_cast<char>(0xc0 + body.size())) + body));
    }
    evmc::address addr_create2(const evmc::address& a, const u256& salt, const str& init) {
        return tail(keccak(str(1, static_cast<char>(0xff)) + rawb(a) + rawb(salt) + keccak(init)));
    }

    // -- programs: what a contract's code stands for

    enum kind { sload, sstore, balance, codesize, codehash, copycode, blog, call, create, destroy, context, touch, burn };
    enum ending { ret, revert, out_of_gas, invalid };
    struct op {
        kind m_kind{sload};
        unsigned m_addr{0};
        unsigned m_prog{0};
        evmc_call_kind m_call{EVMC_CALL};
        u64 m_key{0};
        u64 m_val{0};
        // Value to send: of 256 parts of the balance; 255 stands for 1.
        unsigned m_value{0};
        bool m_bubble{false};
        std::vector<u64> m_topics;
        str m_data;
    };
    struct program {
        std::vector<op> m_ops;
        ending m_end{ret};
        str m_out;
        // A constructor returns this program's code.
        std::optional<unsigned> m_deploys;
    };
    constexpr auto magic = "PROG";
    str code_of(unsigned p) {
        auto c = str(magic);
        c += static_cast<char>(p);
        c += str(p % 7, 'x');
        return c;
    }
    std::optional<unsigned> prog_of(const str& c) {
        if(c.size() < 5 || c.substr(0, 4) != magic) {
            return std::nullopt;
        }
        return static_cast<unsigned char>(c[4]);
    }

    struct outcome {
        evmc_status_code m_status{EVMC_SUCCESS};
        int64_t m_gas{0};
        str m_out;
        evmc::address m_created{};
    };
    // What an interpreter asks of its host.
    struct world_if {
        virtual ~world_if() = default;
        virtual u256 get(const evmc::address&, const u256&) = 0;
        virtual void set(const evmc::address&, const u256&, const u256&) = 0;
        virtual u256 balance(const evmc::address&) = 0;
        virtual size_t code_size(const evmc::address&) = 0;
        virtual u256 code_hash(const evmc::address&) = 0;
        virtual str code(const evmc::address&, size_t off, size_t n) = 0;
        virtual void destroy(const evmc::address&, const evmc::address&) = 0;
        virtual void log(const evmc::address&, const str&, const std::vector<u256>&) = 0;
        virtual outcome call(const evmc_message&) = 0;
        virtual str context() = 0;
        virtual void touch(const evmc::address&, const u256&) = 0;
    };

    struct universe {
        std::vector<program> m_progs;
        std::vector<evmc::address> m_addrs;
        // Frames still allowed, so that every run ends.
        unsigned m_max_frames{40};
    };
    const universe* g_uni{nullptr};

    // One run of the scripted machine.
    struct machine {
        const universe& m_u;
        std::vector<str> m_seen;
        unsigned m_frames{0};
        std::vector<evmc::address> m_made;

        evmc::address where(const op& o, const evmc_message& m) const {
            auto n = o.m_addr;
            if(n == 0) {
                return m.recipient;
            }
            if(n == 1) {
                return m.sender;
            }
            n -= 2;
            auto made = m_made.size();
            if(made != 0 && n < 6) {
                return m_made[made - 1 - (n % made)];
            }
            return m_u.m_addrs[n % m_u.m_addrs.size()];
        }

        outcome run(world_if& w, const evmc_message& m, const str& code) {
            auto p = prog_of(code);
            if(!p.has_value() || *p >= m_u.m_progs.size()) {
                return {EVMC_SUCCESS, m.gas, "", {}};
            }
            auto& prog = m_u.m_progs[*p];
            auto gas = m.gas;
            m_frames++;
            if(m_frames > m_u.m_max_frames || m.depth > 8) {
                return {EVMC_REVERT, gas, "", {}};
            }
            auto self = m.recipient;
            m_seen.push_back(pbt::fmt("frame %u of %s from %s depth %d with %s: %s",
                                      *p,
                                      hexb(self).c_str(),
                                      hexb(m.sender).c_str(),
                                      m.depth,
                                      hexb(m.value).c_str(),
                                      hexs(str(reinterpret_cast<const char*>(m.input_data), m.input_size)).c_str()));
            for(auto& o : prog.m_ops) {
                gas -= 7;
                if(gas < 0) {
                    return {EVMC_OUT_OF_GAS, 0, "", {}};
                }
                auto to = where(o, m);
                switch(o.m_kind) {
                    case sload:
                        m_seen.push_back("sload " + hexb(w.get(self, u256(o.m_key))));
                        break;
                    case sstore:
                        if((m.flags & EVMC_STATIC) != 0) {
                            return {EVMC_INVALID_INSTRUCTION, 0, "", {}};
                        }
                        w.set(self, u256(o.m_key), u256(o.m_val));
                        break;
                    case balance:
                        m_seen.push_back("balance " + hexb(to) + " " + hexb(w.balance(to)));
                        break;
                    case codesize:
                        m_seen.push_back(pbt::fmt("codesize %s %zu", hexb(to).c_str(), w.code_size(to)));
                        break;
                    case codehash:
                        if(w.code_size(to) > 1) {
                            m_seen.push_back("codehash " + hexb(to) + " " + hexb(w.code_hash(to)));
                        }
                        break;
                    case copycode:
                        m_seen.push_back("code " + hexb(to) + " " + hexs(w.code(to, o.m_key, o.m_val)));
                        break;
                    case context:
                        m_seen.push_back("context " + w.context());
                        break;
                    case touch:
                        w.touch(to, u256(o.m_key));
                        break;
                    case burn:
                        gas -= static_cast<int64_t>(o.m_val);
                        if(gas < 0) {
                            return {EVMC_OUT_OF_GAS, 0, "", {}};
                        }
                        break;
                    case blog: {
                        if((m.flags & EVMC_STATIC) != 0) {
                            return {EVMC_INVALID_INSTRUCTION, 0, "", {}};
                        }
                        auto t = std::vector<u256>();
                        for(auto v : o.m_topics) {
                            t.push_back(u256(v));
                        }
                        w.log(self, o.m_data, t);
                        break;
                    }
                    case destroy:
                        if((m.flags & EVMC_STATIC) != 0) {
                            return {EVMC_INVALID_INSTRUCTION, 0, "", {}};
                        }
                        w.destroy(self, to);
                        return {EVMC_SUCCESS, gas, "", {}};
                    case call:
                    case create: {
                        // As the real machine does before it asks its host.
                        auto make = o.m_kind == create;
                        auto have = to_big(w.balance(self));
                        big v = 0;
                        if(make || o.m_call == EVMC_CALL || o.m_call == EVMC_CALLCODE) {
                            v = o.m_value == 255 ? big(1) : big(have * o.m_value / 256);
                        }
                        if((m.flags & EVMC_STATIC) != 0 && (make || v != 0)) {
                            return {EVMC_INVALID_INSTRUCTION, 0, "", {}};
                        }
                        if(v > have || m.depth >= 8) {
                            m_seen.push_back("no call");
                            break;
                        }
                        evmc_message c{};
                        c.depth = m.depth + 1;
                        c.sender = self;
                        c.value = to_u256(v);
                        c.flags = m.flags;
                        c.gas = gas - gas / 64;
                        auto given = c.gas;
                        auto init = code_of(o.m_prog);
                        if(make) {
                            c.kind = o.m_key % 2 == 0 ? EVMC_CREATE : EVMC_CREATE2;
                            c.create2_salt = u256(o.m_val);
                            c.input_data = reinterpret_cast<const uint8_t*>(init.data());
                            c.input_size = init.size();
                        } else {
                            c.kind = o.m_call;
                            c.input_data = reinterpret_cast<const uint8_t*>(o.m_data.data());
                            c.input_size = o.m_data.size();
                            c.code_address = to;
                            c.recipient = to;
                            if(o.m_call == EVMC_DELEGATECALL) {
                                c.recipient = self;
                                c.sender = m.sender;
                                c.value = m.value;
                            }
                            if(o.m_call == EVMC_CALLCODE) {
                                c.recipient = self;
                            }
                            if(o.m_key % 4 == 0 && o.m_call == EVMC_CALL && v == 0) {
                                c.flags |= EVMC_STATIC;
                            }
                        }
                        auto r = w.call(c);
                        gas -= given - r.m_gas;
                        m_seen.push_back(pbt::fmt("%s %s: %d out %s gas %lld",
                                                  make ? "create" : "call",
                                                  make ? "" : hexb(to).c_str(),
                                                  static_cast<int>(r.m_status),
                                                  hexs(r.m_out).c_str(),
                                                  static_cast<long long>(r.m_gas)));
                        if(r.m_status == EVMC_SUCCESS) {
                            if(make) {
                                m_seen.push_back("made " + hexb(r.m_created));
                                m_made.push_back(r.m_created);
                            }
                        } else if(o.m_bubble) {
                            return {EVMC_REVERT, gas, r.m_out, {}};
                        }
                        break;
                    }
                }
            }
            switch(prog.m_end) {
                case ret:
                    break;
                case revert:
                    return {EVMC_REVERT, gas, prog.m_out, {}};
                case out_of_gas:
                    return {EVMC_OUT_OF_GAS, 0, "", {}};
                case invalid:
                    return {EVMC_INVALID_INSTRUCTION, 0, "", {}};
            }
            return {EVMC_SUCCESS, gas, prog.m_deploys ? code_of(*prog.m_deploys) : prog.m_out, {}};
        }
    };

    // The repository's host as seen by the machine.
    struct real_world : world_if {
        evmc::Host& m_h;
        explicit real_world(evmc::Host& h) : m_h(h) {}
        u256 get(const evmc::address& a, const u256& k) override { return m_h.get_storage(a, k); }
        void set(const evmc::address& a, const u256& k, const u256& v) override { m_h.set_storage(a, k, v); }
        u256 balance(const evmc::address& a) override { return m_h.get_balance(a); }
        size_t code_size(const evmc::address& a) override { return m_h.get_code_size(a); }
        u256 code_hash(const evmc::address& a) override { return m_h.get_code_hash(a); }
        str code(const evmc::address& a, size_t off, size_t n) override {
            str o(n, '\0');
            o.resize(m_h.copy_code(a, off, reinterpret_cast<uint8_t*>(o.data()), n));
            return o;
        }
        void destroy(const evmc::address& a, const evmc::address& b) override { m_h.selfdestruct(a, b); }
        void log(const evmc::address& a, const str& d, const std::vector<u256>& t) override {
            m_h.emit_log(a, reinterpret_cast<const uint8_t*>(d.data()), d.size(), t.data(), t.size());
        }
        outcome call(const evmc_message& m) override {
            auto r = m_h.call(m);
            return {r.status_code,
                    r.gas_left,
                    r.output_size == 0 ? str() : str(reinterpret_cast<const char*>(r.output_data), r.output_size),
                    r.create_address};
        }
        str context() override {
            auto c = m_h.get_tx_context();
            return hexb(c.tx_origin) + " " + hexb(c.chain_id);
        }
        void touch(const evmc::address& a, const u256& k) override {
            m_h.access_account(a);
            m_h.access_storage(a, k);
            m_h.account_exists(a);
            m_h.get_block_hash(1);
        }
    };

    bool precompile(const evmc::address& a) {
        for(size_t i = 0; i < 18; i++) {
            if(a.bytes[i] != 0) {
                return false;
            }
        }
        return a.bytes[19] != 0;
    }

    // -- reference world

    struct logline {
        str m_addr;
        str m_data;
        std::vector<str> m_topics;
        bool operator==(const logline& o) const = default;
    };
    struct state {
        std::map<str, big> m_bal;
        std::map<str, big> m_nonce;
        std::map<str, str> m_code;
        std::map<std::pair<str, str>, str> m_store;
        big total() const {
            big t = 0;
            for(auto& [a, b] : m_bal) {
                t += b;
            }
            return t;
        }
    };
    struct ref_world : world_if {
        struct live {
            state m_s;
            std::set<str> m_gone;
            std::vector<logline> m_logs;
        };
        live m_l;
        machine* m_m{nullptr};
        str m_context;

        u256 get(const evmc::address& a, const u256& k) override {
            auto it = m_l.m_s.m_store.find({rawb(a), rawb(k)});
            return it == m_l.m_s.m_store.end() ? u256{} : b32(it->second);
        }
        void set(const evmc::address& a, const u256& k, const u256& v) override {
            m_l.m_s.m_store[{rawb(a), rawb(k)}] = rawb(v);
        }
        u256 balance(const evmc::address& a) override { return to_u256(m_l.m_s.m_bal[rawb(a)]); }
        size_t code_size(const evmc::address& a) override { return precompile(a) ? 1 : m_l.m_s.m_code[rawb(a)].size(); }
        u256 code_hash(const evmc::address& a) override {
            auto it = m_l.m_s.m_code.find(rawb(a));
            if(it == m_l.m_s.m_code.end() || it->second.empty()) {
                return {};
            }
            return b32(keccak(it->second));
        }
        str code(const evmc::address& a, size_t off, size_t n) override {
            auto& c = m_l.m_s.m_code[rawb(a)];
            return off >= c.size() ? str() : c.substr(off, n);
        }
        void destroy(const evmc::address& a, const evmc::address& b) override {
            auto v = m_l.m_s.m_bal[rawb(a)];
            m_l.m_s.m_bal[rawb(a)] = 0;
            m_l.m_s.m_bal[rawb(b)] += v;
            m_l.m_gone.insert(rawb(a));
        }
        void log(const evmc::address& a, const str& d, const std::vector<u256>& t) override {
            logline l{rawb(a), d, {}};
            for(auto& x : t) {
                l.m_topics.push_back(rawb(x));
            }
            m_l.m_logs.push_back(l);
        }
        void move(const evmc::address& a, const evmc::address& b, const big& v) {
            m_l.m_s.m_bal[rawb(a)] -= v;
            m_l.m_s.m_bal[rawb(b)] += v;
        }
        outcome call(const evmc_message& m) override {
            if(m.kind == EVMC_CREATE || m.kind == EVMC_CREATE2) {
                return make(m);
            }
            auto before = m_l;
            if(m.kind == EVMC_CALL) {
                move(m.sender, m.recipient, to_big(m.value));
            }
            auto at = m.kind == EVMC_CALL ? m.recipient : m.code_address;
            auto& c = m_l.m_s.m_code[rawb(at)];
            if(c.empty()) {
                return {EVMC_SUCCESS, m.gas, "", {}};
            }
            auto r = m_m->run(*this, m, str(c));
            if(r.m_status != EVMC_SUCCESS) {
                m_l = before;
            }
            return r;
        }
        outcome make(const evmc_message& m) {
            auto init = str(reinterpret_cast<const char*>(m.input_data), m.input_size);
            auto& n = m_l.m_s.m_nonce[rawb(m.sender)];
            auto a = m.kind == EVMC_CREATE2 ? addr_create2(m.sender, m.create2_salt, init) : addr_create(m.sender, n);
            if(m.depth > 0) {
                n += 1;
            }
            if(!m_l.m_s.m_code[rawb(a)].empty()) {
                return {EVMC_FAILURE, 0, "", {}};
            }
            auto before = m_l;
            move(m.sender, a, to_big(m.value));
            evmc_message c{};
            c.depth = m.depth;
            c.sender = m.sender;
            c.recipient = a;
            c.value = m.value;
            c.gas = m.gas;
            auto r = m_m->run(*this, c, init);
            if(r.m_status != EVMC_SUCCESS) {
                m_l = before;
                return r;
            }
            m_l.m_s.m_code[rawb(a)] = r.m_out;
            r.m_created = a;
            return r;
        }
        str context() override { return m_context; }
        void touch(const evmc::address&, const u256&) override {}
        // What the world is once the transaction is over.
        void settle() {
            for(auto& a : m_l.m_gone) {
                m_l.m_s.m_bal.erase(a);
                m_l.m_s.m_nonce.erase(a);
                m_l.m_s.m_code.erase(a);
            }
        }
    };

    // -- the shards, and what the runner asks of them

    struct shards {
        std::map<str, str> m_kv;
        std::mutex m_mut;
        std::map<str, broker::lock_type> m_locked;
        size_t m_asked{0};
        // Number of the request that fails, and how.
        std::optional<size_t> m_fail;
        unsigned m_how{0};
        bool m_wounded{false};
        bool m_failed{false};
        bool m_wrote{false};

        bool ask(const buffer& k, broker::lock_type t, const broker::interface::try_lock_callback_type& cb) {
            broker::interface::try_lock_return_type res = buffer();
            {
                std::unique_lock l(m_mut);
                auto n = m_asked++;
                m_wrote = m_wrote || t == broker::lock_type::write;
                if(m_fail.has_value() && n == *m_fail) {
                    m_failed = true;
                    if(m_how == 0) {
                        m_wounded = true;
                    } else if(m_how == 1) {
                        return false;
                    } else {
                        res = broker::interface::error_code::shard_unreachable;
                    }
                }
                if(m_wounded) {
                    res = runtime_locking_shard::shard_error{runtime_locking_shard::error_code::wounded, std::nullopt};
                }
                if(std::holds_alternative<buffer>(res)) {
                    auto key = raw(k);
                    auto it = m_locked.find(key);
                    if(it == m_locked.end() || it->second == broker::lock_type::read) {
                        m_locked[key] = t;
                    }
                    auto v = m_kv.find(key);
                    if(v != m_kv.end()) {
                        res = buf(v->second);
                    }
                }
            }
            cb(res);
            return true;
        }
        void fresh() {
            m_locked.clear();
            m_asked = 0;
            m_fail.reset();
            m_how = 0;
            m_wounded = m_failed = m_wrote = false;
        }
    };
    str key_code(const evmc::address& a) {
        return raw(cbdc::make_buffer(code_key{a}));
    }

    struct result {
        std::optional<runtime_locking_shard::state_update_type> m_updates;
        std::optional<interface::error_code> m_error;
        int m_answers{0};
        std::vector<str> m_seen;
    };
    const config& cfg() {
        static config c{};
        return c;
    }

    result run(shards& sh, const universe& u, evm_runner_function f, const buffer& param, bool readonly, u64 ticket) {
        result r;
        machine m{u, {}, 0, {}};
        evmc::stub::exec() = [&](evmc::Host& h, const evmc_message& msg, const uint8_t* c, size_t n) {
            real_world w(h);
            auto o = m.run(w, msg, str(reinterpret_cast<const char*>(c), n));
            return evmc::Result(o.m_status,
                                o.m_gas,
                                0,
                                reinterpret_cast<const uint8_t*>(o.m_out.data()),
                                o.m_out.size());
        };
        auto done = std::promise<void>();
        auto fut = done.get_future();
        std::mutex mut;
        {
            auto fn = buffer();
            auto b = static_cast<uint8_t>(f);
            fn.append(&b, 1);
            auto runner = std::make_unique<evm_runner>(
                logger(),
                cfg(),
                fn,
                param,
                readonly,
                [&](const interface::run_return_type& res) {
                    std::unique_lock l(mut);
                    if(r.m_answers++ > 0) {
                        return;
                    }
                    if(std::holds_alternative<interface::error_code>(res)) {
                        r.m_error = std::get<interface::error_code>(res);
                    } else {
                        r.m_updates = std::get<runtime_locking_shard::state_update_type>(res);
                    }
                    done.set_value();
                },
                [&](const broker::key_type& k, broker::lock_type t, const broker::interface::try_lock_callback_type& cb) {
                    return sh.ask(k, t, cb);
                },
                ctx(),
                nullptr,
                ticket);
            if(!runner->run()) {
                pbt::fail("the runner does not start");
            }
            fut.wait();
        }
        r.m_seen = m.m_seen;
        return r;
    }

    // -- generated worlds

    struct eoa {
        cbdc::privkey_t m_key{};
        evmc::address m_addr{};
    };
    const std::vector<eoa>& people() {
        static auto v = [] {
            auto o = std::vector<eoa>();
            for(u64 i = 1; i <= 4; i++) {
                eoa e;
                e.m_key = mkkey(i);
                e.m_addr = eth_addr(e.m_key, ctx());
                o.push_back(e);
            }
            return o;
        }();
        return v;
    }
    constexpr size_t contracts = 4;
    evmc::address contract(size_t i) {
        return evmc::address(0xc0de0000ULL + i * 0x1000000000000ULL);
    }
    op gen_op(Src& s, size_t progs) {
        op o;
        o.m_kind = s.pick(std::vector<kind>{sload,   sstore, sstore, balance, blog,   call,    call,  call,    call,
                                            create,  create, destroy, codesize, codehash, copycode, context, touch, burn});
        o.m_addr = static_cast<unsigned>(s.below(16));
        o.m_prog = static_cast<unsigned>(s.below(progs));
        o.m_call = s.weighted({6, 2, 1}) == 0 ? EVMC_CALL : s.coin() ? EVMC_DELEGATECALL : EVMC_CALLCODE;
        o.m_key = s.below(4);
        o.m_val = s.below(4);
        auto w = s.weighted({4, 3, 1});
        o.m_value = w == 0 ? 0 : w == 1 ? 255 : static_cast<unsigned>(s.below(255));
        o.m_bubble = s.chance(1, 4);
        if(o.m_kind == blog) {
            for(u64 n = s.below(3); n > 0; n--) {
                o.m_topics.push_back(s.below(3));
            }
        }
        if(o.m_kind == burn && s.chance(1, 3)) {
            o.m_val = 1ULL << s.below(40);
        }
        if(s.coin()) {
            o.m_data = str(s.below(5), 'd');
        }
        if(o.m_kind == destroy && s.chance(2, 3)) {
            // Programs end with it, so keep it rare.
            o.m_kind = call;
        }
        return o;
    }
    program gen_prog(Src& s, size_t progs, bool ctor) {
        program p;
        for(u64 n = s.below(6); n > 0; n--) {
            p.m_ops.push_back(gen_op(s, progs));
        }
        p.m_end = static_cast<ending>(s.weighted({12, 4, 1, 1}));
        p.m_out = str(s.below(4), 'o');
        if(ctor) {
            p.m_deploys = static_cast<unsigned>(s.below(progs));
        }
        return p;
    }
    str describe(const universe& u) {
        static const char* names[] = {"sload", "sstore", "balance", "codesize", "codehash", "copycode", "log",
                                      "call", "create", "selfdestruct", "context", "touch", "burn"};
        str t;
        for(size_t i = 0; i < u.m_progs.size(); i++) {
            auto& p = u.m_progs[i];
            t += pbt::fmt("p%zu:", i);
            for(auto& o : p.m_ops) {
                t += pbt::fmt(" %s(a%u p%u k%llu v%llu c%d val%u%s)",
                              names[o.m_kind],
                              o.m_addr,
                              o.m_prog,
                              static_cast<unsigned long long>(o.m_key),
                              static_cast<unsigned long long>(o.m_val),
                              static_cast<int>(o.m_call),
                              o.m_value,
                              o.m_bubble ? " bubble" : "");
            }
            t += pbt::fmt(" end%d%s; ", static_cast<int>(p.m_end), p.m_deploys ? pbt::fmt(" deploys p%u", *p.m_deploys).c_str() : "");
        }
        return t;
    }

    struct setup {
        universe m_u;
        state m_s;
        shards m_sh;
        u64 m_ticket{1};
    };
    void generate(Src& s, setup& t) {
        auto progs = s.range(3, 8);
        for(u64 i = 0; i < progs; i++) {
            t.m_u.m_progs.push_back(gen_prog(s, progs, s.chance(1, 3)));
        }
        for(auto& e : people()) {
            t.m_u.m_addrs.push_back(e.m_addr);
            big b = 0;
            switch(s.weighted({6, 2, 1, 1})) {
                case 0:
                    b = big(1000000000ULL) * (1 + s.below(1000000));
                    break;
                case 1:
                    b = 21000 + s.below(100000);
                    break;
                case 2:
                    b = (big(1) << static_cast<unsigned>(s.range(64, 250))) + s.below(1000);
                    break;
                default:
                    continue;
            }
            t.m_s.m_bal[rawb(e.m_addr)] = b;
            t.m_s.m_nonce[rawb(e.m_addr)] = s.chance(1, 8) ? big(s.edgy() >> 1U) : big(s.below(3));
        }
        for(size_t i = 0; i < contracts; i++) {
            auto a = contract(i);
            t.m_u.m_addrs.push_back(a);
            t.m_s.m_code[rawb(a)] = code_of(static_cast<unsigned>(s.below(progs)));
            t.m_s.m_bal[rawb(a)] = s.below(1000000);
            t.m_s.m_nonce[rawb(a)] = s.below(2);
            if(s.coin()) {
                t.m_s.m_store[{rawb(a), rawb(u256(s.below(4)))}] = rawb(u256(1 + s.below(4)));
            }
        }
        t.m_u.m_addrs.push_back(evmc::address(1 + s.below(9)));
        t.m_u.m_addrs.push_back(evmc::address(0xdeadULL));
        t.m_u.m_addrs.push_back(evmc::address(0x77770000ULL));
        for(auto& [a, b] : t.m_s.m_bal) {
            evm_account acc;
            acc.m_balance = to_u256(b);
            acc.m_nonce = to_u256(t.m_s.m_nonce[a]);
            t.m_sh.m_kv[a] = raw(cbdc::make_buffer(acc));
        }
        for(auto& [a, c] : t.m_s.m_code) {
            auto v = evm_account_code(c.begin(), c.end());
            evmc::address ad{};
            std::memcpy(ad.bytes, a.data(), 20);
            t.m_sh.m_kv[key_code(ad)] = raw(cbdc::make_buffer(v));
        }
        for(auto& [k, v] : t.m_s.m_store) {
            storage_key sk{};
            std::memcpy(sk.m_addr.bytes, k.first.data(), 20);
            std::memcpy(sk.m_key.bytes, k.second.data(), 32);
            t.m_sh.m_kv[raw(cbdc::make_buffer(sk))] = raw(cbdc::make_buffer(b32(v)));
        }
    }

    struct txcase {
        evm_tx m_tx;
        evmc::address m_from{};
        cbdc::privkey_t m_key{};
        std::optional<str> m_bad;
        big m_fee_limit;
        u64 m_min_gas{0};
    };
    void sign(txcase& c) {
        auto h = sig_hash(c.m_tx);
        c.m_tx.m_sig = eth_sign(c.m_key, h, c.m_tx.m_type, ctx());
    }
    txcase gen_tx(Src& s, setup& t) {
        txcase c;
        auto& e = s.pick(people());
        c.m_from = e.m_addr;
        c.m_key = e.m_key;
        auto& tx = c.m_tx;
        tx.m_type = static_cast<evm_tx_type>(s.below(3));
        auto bal = t.m_s.m_bal[rawb(c.m_from)];
        auto nonce = big(t.m_s.m_nonce[rawb(c.m_from)] + 1);
        if(s.chance(1, 4)) {
            auto p = static_cast<unsigned>(s.below(t.m_u.m_progs.size()));
            auto code = code_of(p);
            tx.m_input.assign(code.begin(), code.end());
            c.m_min_gas = 53000;
        } else {
            tx.m_to = s.weighted({4, 1}) == 0 ? contract(s.below(contracts)) : s.pick(t.m_u.m_addrs);
            tx.m_input.assign(s.below(4), 'i');
            c.m_min_gas = 21000;
        }
        big limit = c.m_min_gas + (s.chance(1, 6) ? s.below(200) : 1000 + s.below(1000000));
        big price = s.weighted({2, 3}) == 0 ? 0 : s.below(4);
        big value = 0;
        switch(s.weighted({3, 3, 1, 1})) {
            case 0:
                break;
            case 1:
                value = s.below(100000);
                break;
            case 2:
                value = bal;
                price = 0;
                break;
            default:
                value = bal - limit * price;
                if(value < 0) {
                    value = 0;
                }
                break;
        }
        // Transactions meant to be refused, or to get past the checks.
        switch(s.weighted({14, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0:
                break;
            case 1:
                nonce = s.coin() ? big(nonce + 1 + s.below(3)) : big(nonce - 1);
                break;
            case 2:
                limit = s.below(c.m_min_gas);
                break;
            case 3:
                value = bal - limit * price + 1 + s.below(5);
                break;
            case 4: // value + cost wraps
                value = lim - 1 - s.below(static_cast<u64>(limit));
                price = 1 + s.below(3);
                break;
            case 5: { // limit * price wraps
                auto k = static_cast<unsigned>(s.range(16, 62));
                limit = big(1) << k;
                price = (big(1) << (256 - k)) + (s.coin() ? 0 : s.below(2));
                break;
            }
            case 6: // more gas than the machine can count
                limit = (big(1) << static_cast<unsigned>(s.range(62, 254))) + s.below(100000);
                price = s.weighted({3, 1}) == 0 ? big(0) : big(big(1) << static_cast<unsigned>(s.below(200)));
                break;
            case 7: { // all random
                auto r = [&] {
                    big x = 0;
                    for(int i = 0; i < 4; i++) {
                        x = (x << 64) + s.edgy();
                    }
                    return x;
                };
                value = r();
                price = r();
                limit = r();
                break;
            }
            default: // exactly what it takes
                if(bal >= limit) {
                    price = bal / limit;
                    value = bal - price * limit;
                }
                break;
        }
        if(value < 0) {
            value = 0;
        }
        auto most = big(std::numeric_limits<int64_t>::max());
        if(limit > most && limit - c.m_min_gas <= most) {
            // Whether the base gas counts is of no account.
            limit = most + c.m_min_gas + 1;
        }
        nonce %= lim;
        tx.m_nonce = to_u256(nonce);
        tx.m_value = to_u256(value);
        tx.m_gas_price = to_u256(price);
        tx.m_gas_limit = to_u256(limit);
        c.m_fee_limit = limit * price;
        if(nonce != t.m_s.m_nonce[rawb(c.m_from)] + 1) {
            c.m_bad = "nonce";
        } else if(limit < c.m_min_gas) {
            c.m_bad = "too little gas";
        } else if(limit * price + value > bal) {
            c.m_bad = "funds";
        } else if(limit - c.m_min_gas > std::numeric_limits<int64_t>::max()) {
            c.m_bad = "gas beyond counting";
        }
        sign(c);
        return c;
    }

    struct expected {
        ref_world m_w;
        outcome m_o;
        std::vector<str> m_seen;
        big m_fee;
        evmc_message m_msg{};
    };
    // What a transaction should do to the world.
    expected predict(const setup& t, const txcase& c, bool dry) {
        expected e;
        machine m{t.m_u, {}, 0, {}};
        e.m_w.m_m = &m;
        e.m_w.m_l.m_s = t.m_s;
        auto& s = e.m_w.m_l.m_s;
        auto from = rawb(c.m_from);
        if(!dry) {
            s.m_bal[from] -= c.m_fee_limit;
            s.m_nonce[from] += 1;
        }
        e.m_w.m_context = hexb(c.m_from) + " " + hexb(u256(opencbdc_chain_id));
        evmc_message msg{};
        msg.sender = c.m_from;
        msg.value = c.m_tx.m_value;
        msg.gas = dry ? std::numeric_limits<int64_t>::max()
                      : static_cast<int64_t>(to_big(c.m_tx.m_gas_limit) - c.m_min_gas);
        msg.input_data = c.m_tx.m_input.data();
        msg.input_size = c.m_tx.m_input.size();
        msg.kind = c.m_tx.m_to.has_value() ? EVMC_CALL : EVMC_CREATE;
        if(c.m_tx.m_to.has_value()) {
            msg.recipient = *c.m_tx.m_to;
        }
        e.m_o = e.m_w.call(msg);
        e.m_fee = dry ? big(0) : big((to_big(c.m_tx.m_gas_limit) - e.m_o.m_gas) * to_big(c.m_tx.m_gas_price));
        if(!dry) {
            s.m_bal[from] += big(e.m_o.m_gas) * to_big(c.m_tx.m_gas_price);
        }
        e.m_w.settle();
        e.m_seen = m.m_seen;
        e.m_w.m_m = nullptr;
        return e;
    }
    

    void compare_seen(const std::vector<str>& got, const std::vector<str>& want, const char* what) {
        for(size_t i = 0; i < std::max(got.size(), want.size()); i++) {
            auto g = i < got.size() ? got[i] : str("nothing");
            auto w = i < want.size() ? want[i] : str("nothing");
            PBT_CHECK(g == w, "%s: step %zu saw [%s], should be [%s]", what, i, g.c_str(), w.c_str());
        }
    }
    std::vector<logline> lines(const std::vector<evm_log>& v) {
        std::vector<logline> o;
        for(auto& l : v) {
            logline x{rawb(l.m_addr), str(l.m_data.begin(), l.m_data.end()), {}};
            for(auto& t : l.m_topics) {
                x.m_topics.push_back(rawb(t));
            }
            o.push_back(x);
        }
        return o;
    }
    evm_tx_receipt receipt_of(const result& r, const txcase& c) {
        auto it = r.m_updates->find(cbdc::make_buffer(tx_id(c.m_tx)));
        PBT_CHECK(it != r.m_updates->end(), "no receipt under the transaction's ID");
        auto b = it->second;
        auto rc = cbdc::from_buffer<evm_tx_receipt>(b);
        PBT_CHECK(rc.has_value(), "the receipt cannot be read");
        return *rc;
    }
    void check_receipt(const evm_tx_receipt& rc, const txcase& c, const expected& e, u64 ticket, const char* what) {
        PBT_CHECK(rc.m_success == (e.m_o.m_status == EVMC_SUCCESS),
                  "%s: the receipt says success=%d, the outcome was %d",
                  what,
                  static_cast<int>(rc.m_success),
                  static_cast<int>(e.m_o.m_status));
        auto out = str(rc.m_output_data.begin(), rc.m_output_data.end());
        PBT_CHECK(out == e.m_o.m_out, "%s: output %s, should be %s", what, hexs(out).c_str(), hexs(e.m_o.m_out).c_str());
        PBT_CHECK(lines(rc.m_logs) == e.m_w.m_l.m_logs,
                  "%s: the receipt has %zu log lines, should be %zu others",
                  what,
                  rc.m_logs.size(),
                  e.m_w.m_l.m_logs.size());
        PBT_CHECK(rc.m_ticket_number == ticket, "%s: receipt of ticket %llu", what, static_cast<unsigned long long>(rc.m_ticket_number));
        PBT_CHECK(tx_id(rc.m_tx) == tx_id(c.m_tx), "%s: receipt of another transaction", what);
    }

    void apply(Src& s, setup& t, const txcase& c, const result& r, const expected& e) {
        auto& up = *r.m_updates;
        for(auto& [k, v] : up) {
            auto it = t.m_sh.m_locked.find(raw(k));
            PBT_CHECK(it != t.m_sh.m_locked.end() && it->second == broker::lock_type::write,
                      "an update of key %s without a write lock on it",
                      k.to_hex().c_str());
        }
        // In full: what a key without update holds stays.
        auto kv = t.m_sh.m_kv;
        for(auto& [k, v] : up) {
            if(v.size() == 0) {
                kv.erase(raw(k));
            } else {
                kv[raw(k)] = raw(v);
            }
        }
        auto rc = receipt_of(r, c);
        check_receipt(rc, c, e, t.m_ticket, "run");
        PBT_CHECK(to_big(rc.m_gas_used) == to_big(c.m_tx.m_gas_limit) - e.m_o.m_gas,
                  "gas used %s, but %s was paid for",
                  to_big(rc.m_gas_used).str().c_str(),
                  big(to_big(c.m_tx.m_gas_limit) - e.m_o.m_gas).str().c_str());
        if(!c.m_tx.m_to.has_value() && e.m_o.m_status == EVMC_SUCCESS) {
            PBT_CHECK(rc.m_create_address.has_value() && *rc.m_create_address == e.m_o.m_created,
                      "the receipt names another contract address");
        }
        // Indexes.
        auto tn = cbdc::make_buffer(t.m_ticket);
        auto sha = [](const str& d) {
            return raw(cbdc::make_buffer(cbdc::hash_data(reinterpret_cast<const std::byte*>(d.data()), d.size())));
        };
        PBT_CHECK(kv[sha(raw(tn))] == raw(cbdc::make_buffer(tx_id(c.m_tx))), "the ticket does not name the transaction");
        std::map<str, std::vector<logline>> by;
        for(auto& l : e.m_w.m_l.m_logs) {
            by[l.m_addr].push_back(l);
        }
        for(auto& a : t.m_u.m_addrs) {
            auto it = kv.find(sha(rawb(a) + raw(tn)));
            PBT_CHECK((it != kv.end()) == (by.count(rawb(a)) != 0), "log index of %s: there=%d", hexb(a).c_str(), static_cast<int>(it != kv.end()));
        }
        for(auto& [a, l] : by) {
            auto it = kv.find(sha(a + raw(tn)));
            PBT_CHECK(it != kv.end(), "no log index for an address that logged");
            auto idx = [&] {
                auto b = buf(it->second);
                return cbdc::from_buffer<evm_log_index>(b);
            }();
            PBT_CHECK(idx.has_value(), "the log index cannot be read");
            PBT_CHECK(lines(idx->m_logs) == l && idx->m_ticket_number == t.m_ticket && idx->m_txid == tx_id(c.m_tx),
                      "the log index of an address is not what it logged");
        }
        // The world.
        auto& w = e.m_w.m_l.m_s;
        std::set<str> addrs;
        for(auto& [k, v] : kv) {
            if(k.size() == 20) {
                addrs.insert(k);
            } else if(k.size() == 21) {
                addrs.insert(k.substr(0, 20));
            }
        }
        for(const auto* m : {&std::as_const(t.m_s.m_bal), &w.m_bal}) {
            for(auto& [a, b] : *m) {
                addrs.insert(a);
            }
        }
        for(auto& [a, b] : w.m_code) {
            addrs.insert(a);
        }
        big total = 0;
        for(auto& a : addrs) {
            evm_account acc;
            auto it = kv.find(a);
            if(it != kv.end()) {
                auto b = buf(it->second);
                auto ma = cbdc::from_buffer<evm_account>(b);
                PBT_CHECK(ma.has_value(), "an account cannot be read");
                acc = *ma;
            }
            auto wb = w.m_bal.count(a) != 0 ? w.m_bal.at(a) : big(0);
            auto wn = w.m_nonce.count(a) != 0 ? w.m_nonce.at(a) : big(0);
            total += to_big(acc.m_balance);
            PBT_CHECK(to_big(acc.m_balance) == wb,
                      "balance of %s is %s, should be %s",
                      hexs(a).c_str(),
                      to_big(acc.m_balance).str().c_str(),
                      wb.str().c_str());
            PBT_CHECK(to_big(acc.m_nonce) == wn,
                      "nonce of %s is %s, should be %s",
                      hexs(a).c_str(),
                      to_big(acc.m_nonce).str().c_str(),
                      wn.str().c_str());
            evmc::address ad{};
            std::memcpy(ad.bytes, a.data(), 20);
            str code;
            auto ci = kv.find(key_code(ad));
            if(ci != kv.end()) {
                auto b = buf(ci->second);
                auto mc = cbdc::from_buffer<evm_account_code>(b);
                PBT_CHECK(mc.has_value(), "code cannot be read");
                code = str(mc->begin(), mc->end());
            }
            auto wc = w.m_code.count(a) != 0 ? w.m_code.at(a) : str();
            PBT_CHECK(code == wc, "code of %s is %s, should be %s", hexs(a).c_str(), hexs(code).c_str(), hexs(wc).c_str());
        }
        // Nothing is created; what is gone is the fee and what was destroyed.
        PBT_CHECK(total <= t.m_s.total() - e.m_fee,
                  "the balances sum to %s after, %s before with a fee of %s",
                  total.str().c_str(),
                  t.m_s.total().str().c_str(),
                  e.m_fee.str().c_str());
        if(e.m_w.m_l.m_gone.empty()) {
            PBT_CHECK(total == t.m_s.total() - e.m_fee, "balances are lost");
        }
        for(auto& [k, v] : kv) {
            if(k.size() == 52) {
                auto b = buf(v);
                auto mv = cbdc::from_buffer<evmc::bytes32>(b);
                PBT_CHECK(mv.has_value(), "storage cannot be read");
                auto key = std::make_pair(k.substr(0, 20), k.substr(20));
                auto want = w.m_store.count(key) != 0 ? w.m_store.at(key) : str(32, '\0');
                PBT_CHECK(rawb(*mv) == want,
                          "storage %s of %s is %s, should be %s",
                          hexs(key.second).c_str(),
                          hexs(key.first).c_str(),
                          hexb(*mv).c_str(),
                          hexs(want).c_str());
            }
        }
        for(auto& [key, v] : w.m_store) {
            auto it = kv.find(key.first + key.second);
            PBT_CHECK(it != kv.end() || v == str(32, '\0'), "storage of %s is lost", hexs(key.first).c_str());
        }
        t.m_sh.m_kv = kv;
        t.m_s = w;
        (void)s;
    }

    void history(Src& s) {
        setup t;
        generate(s, t);
        s.note("%s", describe(t.m_u).c_str());
        auto n = s.range(1, 6);
        for(u64 i = 0; i < n; i++) {
            auto c = gen_tx(s, t);
            t.m_ticket++;
            s.note("tx from %s to %s value %s limit %s price %s: %s",
                   hexb(c.m_from).c_str(),
                   c.m_tx.m_to ? hexb(*c.m_tx.m_to).c_str() : "create",
                   to_big(c.m_tx.m_value).str().c_str(),
                   to_big(c.m_tx.m_gas_limit).str().c_str(),
                   to_big(c.m_tx.m_gas_price).str().c_str(),
                   c.m_bad ? c.m_bad->c_str() : "good");
            auto par = cbdc::make_buffer(c.m_tx);
            if(s.chance(1, 3)) {
                // What a dry run tells, and that it changes nothing.
                auto dry = evm_dryrun_tx{c.m_from, c.m_tx};
                t.m_sh.fresh();
                auto r = run(t.m_sh, t.m_u, evm_runner_function::dryrun_transaction, cbdc::make_buffer(dry), true, t.m_ticket);
                PBT_CHECK(!t.m_sh.m_wrote, "a dry run asks for a write lock");
                PBT_CHECK(r.m_updates.has_value() && r.m_answers == 1, "a dry run gets no answer but %d errors", r.m_answers);
                if(t.m_s.m_bal[rawb(c.m_from)] >= to_big(c.m_tx.m_value) && c.m_tx.m_to.has_value()) {
                    auto e = predict(t, c, true);
                    compare_seen(r.m_seen, e.m_seen, "dry run");
                    check_receipt(receipt_of(r, c), c, e, t.m_ticket, "dry run");
                    s.label("dry run");
                }
            }
            if(s.chance(1, 3)) {
                // A lock that is not granted at any point.
                t.m_sh.fresh();
                auto at = s.below(24);
                t.m_sh.m_fail = at;
                t.m_sh.m_how = static_cast<unsigned>(s.below(3));
                auto r = run(t.m_sh, t.m_u, evm_runner_function::execute_transaction, par, false, t.m_ticket);
                if(t.m_sh.m_failed) {
                    s.label("lock refused");
                    s.nontrivial();
                    PBT_CHECK(!r.m_updates.has_value(),
                              "lock request %llu of %zu was refused (%u), yet the transaction went on",
                              static_cast<unsigned long long>(at),
                              t.m_sh.m_asked,
                              t.m_sh.m_how);
                }
            }
            t.m_sh.fresh();
            auto r = run(t.m_sh, t.m_u, evm_runner_function::execute_transaction, par, false, t.m_ticket);
            PBT_CHECK(r.m_answers == 1, "%d answers", r.m_answers);
            if(c.m_bad.has_value()) {
                PBT_CHECK(r.m_error.has_value(), "a transaction went through that should be refused: %s", c.m_bad->c_str());
                PBT_CHECK(r.m_seen.empty(), "a refused transaction ran: %s", c.m_bad->c_str());
                s.label(c.m_bad->c_str());
                continue;
            }
            PBT_CHECK(r.m_updates.has_value(), "a good transaction got error %d", static_cast<int>(*r.m_error));
            auto e = predict(t, c, false);
            compare_seen(r.m_seen, e.m_seen, "run");
            auto reverted = false;
            for(auto& l : e.m_seen) {
                reverted = reverted || l.find(": 2 ") != str::npos || l.find(": 3 ") != str::npos;
            }
            if(e.m_seen.size() > 3) {
                s.nontrivial();
            }
            if(reverted) {
                s.label("nested call undone");
            }
            if(e.m_o.m_status != EVMC_SUCCESS) {
                s.label("transaction undone");
            }
            if(!e.m_w.m_l.m_gone.empty()) {
                s.label("self-destruct");
            }
            apply(s, t, c, r, e);
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C38";
    c.m_rule = "a transaction whose programs did more than three visible things, or whose lock was refused on the way";
    c.m_assumptions = {"the virtual machine is a scripted stand-in that checks balances, depth and static calls before it asks its host, as evmone does",
                       "keccak is a stand-in checked against its published test value",
                       "storage of a destroyed contract stays behind (a limit the code names)"};
    c.m_props = {{"history", history, 60000, 1500000, true}};
    return pbt::run(argc, argv, c);
}
