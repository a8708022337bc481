// Lua contracts: the runner against a reference interpreter, function bytes,
// and the payment contract on agents, brokers and shards.
#include "parsec/agent/impl.hpp"
#include "parsec/agent/runners/lua/impl.hpp"
#include "parsec/util.hpp"
#include "parsec_sim.hpp"
#include "refhash.hpp"

#include <fstream>
#include <lua.hpp>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>

using namespace sim;
namespace ag = cbdc::parsec::agent;
using run_error = ag::runner::interface::error_code;

namespace {
    secp256k1_context* secp() {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
        return c;
    }
    struct signer {
        secp256k1_keypair m_kp{};
        std::string m_pub;
        explicit signer(u64 n) {
            unsigned char sk[32] = {};
            sk[0] = 7;
            for(int i = 0; i < 8; i++) {
                sk[31 - i] = static_cast<unsigned char>(n >> (8 * i));
            }
            secp256k1_xonly_pubkey x{};
            unsigned char out[32];
            if(secp256k1_keypair_create(secp(), &m_kp, sk) != 1
               || secp256k1_keypair_xonly_pub(secp(), &x, nullptr, &m_kp) != 1
               || secp256k1_xonly_pubkey_serialize(secp(), out, &x) != 1) {
                abort();
            }
            m_pub.assign(reinterpret_cast<char*>(out), 32);
        }
        std::string sign(const std::string& msg) const {
            auto h = ref::sha(msg.data(), msg.size());
            unsigned char sig[64];
            if(secp256k1_schnorrsig_sign(secp(), sig, h.data(), &m_kp, nullptr, nullptr) != 1) {
                abort();
            }
            return {reinterpret_cast<char*>(sig), 64};
        }
    };
    const signer& key_of(u64 n) {
        static std::vector<signer> v = [] {
            std::vector<signer> r;
            for(u64 i = 0; i < 6; i++) {
                r.emplace_back(i + 1);
            }
            return r;
        }();
        return v[n % v.size()];
    }

    std::string lit(const std::string& b) {
        std::string o = "\"";
        for(unsigned char c : b) {
            char t[8];
            snprintf(t, sizeof(t), "\\%03u", c);
            o += t;
        }
        return o + "\"";
    }
    buffer buf(const std::string& t) {
        buffer b;
        b.append(t.data(), t.size());
        return b;
    }
    std::string str(const buffer& b) {
        return {reinterpret_cast<const char*>(b.data()), b.size()};
    }
    // A compiled chunk.
    std::string compile(const std::string& src, bool strip) {
        auto* L = luaL_newstate();
        std::string out;
        if(luaL_loadbuffer(L, src.data(), src.size(), "gen") != LUA_OK) {
            std::string e = lua_tostring(L, -1);
            lua_close(L);
            pbt::fail("the generated contract does not compile: " + e);
        }
        lua_dump(
            L,
            [](lua_State*, const void* p, size_t n, void* o) {
                static_cast<std::string*>(o)->append(static_cast<const char*>(p), n);
                return 0;
            },
            &out,
            strip ? 1 : 0);
        lua_close(L);
        return out;
    }

    // -- contracts: text and meaning

    struct expr {
        enum { literal, var, param, cat, sub, len } m_k{literal};
        std::string m_lit;
        size_t m_v{0};
        std::vector<expr> m_a;
        int m_i{0};
        int m_j{0};
    };
    constexpr size_t nvars = 4;
    struct stmt {
        enum { lock, set, branch, loop, sig, trysig, fail, bad_yield } m_k{set};
        size_t m_v{0};
        std::vector<expr> m_e;
        std::vector<stmt> m_a, m_b;
        u64 m_n{0};
        bool m_valid{false};
        std::string m_text; // for sig and fail
        run_error m_err{};
    };
    struct entry {
        expr m_key, m_val;
        std::string m_ktext, m_vtext; // instead
        std::string m_vval;
        bool m_none{false};
    };
    struct contract {
        std::vector<stmt> m_body;
        std::vector<entry> m_ret;
        std::string m_end; // instead of a table
        std::optional<run_error> m_err;
    };

    std::string rnd(Src& s, u64 max) {
        std::string o;
        for(auto n = s.size(max); n > 0; n--) {
            o += s.coin() ? static_cast<char>('a' + s.below(4)) : static_cast<char>(s.pick(std::vector<int>{0, 10, 13, 34, 92, 255, 128, 0x1b, '%'}));
        }
        return o;
    }
    expr mkexpr(Src& s, int depth) {
        expr e;
        switch(s.weighted({4, 4, 2, depth > 0 ? 3U : 0U, depth > 0 ? 2U : 0U, depth > 0 ? 1U : 0U})) {
            case 0:
                e.m_lit = rnd(s, 12);
                break;
            case 1:
                e.m_k = expr::var;
                e.m_v = s.below(nvars);
                break;
            case 2:
                e.m_k = expr::param;
                break;
            case 3:
                e.m_k = expr::cat;
                e.m_a = {mkexpr(s, depth - 1), mkexpr(s, depth - 1)};
                break;
            case 4:
                e.m_k = expr::sub;
                e.m_a = {mkexpr(s, depth - 1)};
                e.m_i = static_cast<int>(s.below(6)) + 1;
                e.m_j = static_cast<int>(s.below(12));
                break;
            default:
                e.m_k = expr::len;
                e.m_a = {mkexpr(s, depth - 1)};
        }
        return e;
    }
    // Keys that are seen again.
    expr mkkeyexpr(Src& s) {
        if(s.chance(1, 4)) {
            return mkexpr(s, 2);
        }
        expr e;
        e.m_lit = "k" + std::to_string(s.below(5));
        return e;
    }
    std::string text(const expr& e) {
        switch(e.m_k) {
            case expr::literal:
                return lit(e.m_lit);
            case expr::var:
                return "v" + std::to_string(e.m_v);
            case expr::param:
                return "param";
            case expr::cat:
                return "(" + text(e.m_a[0]) + ".." + text(e.m_a[1]) + ")";
            case expr::sub:
                return "string.sub(" + text(e.m_a[0]) + "," + std::to_string(e.m_i) + "," + std::to_string(e.m_j) + ")";
            default:
                return "tostring(#" + text(e.m_a[0]) + ")";
        }
    }
    struct sig_args {
        std::string m_text;
        bool m_valid;
    };
    sig_args mksig(Src& s) {
        auto& k = key_of(s.below(6));
        auto msg = rnd(s, 20);
        auto pub = k.m_pub;
        auto sg = k.sign(msg);
        auto a = lit(pub);
        auto b = lit(sg);
        auto c = lit(msg);
        switch(s.weighted({10, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1})) {
            case 0:
                return {a + "," + b + "," + c, true};
            case 1:
                sg[s.below(64)] ^= static_cast<char>(1U << s.below(8));
                return {a + "," + lit(sg) + "," + c, false};
            case 2:
                return {a + "," + b + "," + lit(msg + "x"), false};
            case 3:
                return {lit(s.coin() ? signer(99).m_pub : std::string(32, s.coin() ? '\xff' : '\0')) + "," + b + "," + c, false};
            case 4:
                return {a + "," + b, false};
            case 5:
                return {a + "," + b + "," + c + "," + c, false};
            case 6:
                return {a + "," + b + "," + s.pick(std::vector<std::string>{"nil", "true", "{}"}), false};
            case 7:
                return {lit(pub.substr(0, s.below(32))) + "," + b + "," + c, false};
            case 8:
                return {lit(pub + "x") + "," + b + "," + c, false};
            case 9:
                return {a + "," + lit(s.coin() ? sg.substr(0, s.below(64)) : sg + "x") + "," + c, false};
            default:
                return {"", false};
        }
    }
    std::vector<stmt> mkblock(Src& s, u64 n, int depth) {
        std::vector<stmt> r;
        for(; n > 0; n--) {
            stmt t;
            t.m_v = s.below(nvars);
            switch(s.weighted({8, 4, depth > 0 ? 2U : 0U, 1, 1, 1, 1, 1})) {
                case 0:
                    t.m_k = stmt::lock;
                    t.m_e = {mkkeyexpr(s)};
                    break;
                case 1:
                    t.m_k = stmt::set;
                    t.m_e = {mkexpr(s, 2)};
                    break;
                case 2:
                    t.m_k = stmt::branch;
                    t.m_e = {mkexpr(s, 1), mkexpr(s, 1)};
                    t.m_a = mkblock(s, s.below(3), depth - 1);
                    t.m_b = mkblock(s, s.below(3), depth - 1);
                    break;
                case 3:
                    t.m_k = stmt::loop;
                    t.m_n = s.below(5);
                    t.m_e = {mkkeyexpr(s)};
                    break;
                case 4:
                case 5: {
                    t.m_k = s.coin() ? stmt::sig : stmt::trysig;
                    auto a = mksig(s);
                    t.m_text = a.m_text;
                    t.m_valid = a.m_valid;
                    t.m_err = run_error::exec_error;
                    break;
                }
                case 6:
                    if(!s.chance(1, 3)) {
                        continue;
                    }
                    t.m_k = stmt::fail;
                    t.m_text = s.pick(std::vector<std::string>{"error('no')",
                                                               "error()",
                                                               "error({})",
                                                               "nofunction()",
                                                               "local x = nil .. 'a'",
                                                               "string.rep('x', -1, 1, 2)()",
                                                               "error(12)"});
                    t.m_err = run_error::exec_error;
                    break;
                default:
                    if(!s.chance(1, 3)) {
                        continue;
                    }
                    t.m_k = stmt::bad_yield;
                    if(s.coin()) {
                        t.m_text = s.coin() ? "coroutine.yield()" : "coroutine.yield('a','b')";
                        t.m_err = run_error::yield_count;
                    } else {
                        t.m_text = "coroutine.yield(" + s.pick(std::vector<std::string>{"nil", "true", "{}", "print"}) + ")";
                        t.m_err = run_error::yield_type;
                    }
            }
            r.push_back(t);
        }
        return r;
    }
    void text(std::string& o, const std::vector<stmt>& b) {
        for(auto& t : b) {
            auto v = "v" + std::to_string(t.m_v);
            switch(t.m_k) {
                case stmt::lock:
                    o += v + " = coroutine.yield(" + text(t.m_e[0]) + ")\n";
                    break;
                case stmt::set:
                    o += v + " = " + text(t.m_e[0]) + "\n";
                    break;
                case stmt::branch:
                    o += "if " + text(t.m_e[0]) + " == " + text(t.m_e[1]) + " then\n";
                    text(o, t.m_a);
                    o += "else\n";
                    text(o, t.m_b);
                    o += "end\n";
                    break;
                case stmt::loop:
                    o += "for i = 1," + std::to_string(t.m_n) + " do " + v + " = " + v + "..coroutine.yield("
                       + text(t.m_e[0]) + "..tostring(i)) end\n";
                    break;
                case stmt::sig:
                    o += "check_sig(" + t.m_text + ")\n";
                    break;
                case stmt::trysig:
                    o += "if pcall(check_sig" + (t.m_text.empty() ? "" : "," + t.m_text) + ") then " + v
                       + " = \"valid\" else " + v + " = \"not\" end\n";
                    break;
                default:
                    o += t.m_text + "\n";
            }
        }
    }
    contract mkcontract(Src& s) {
        contract c;
        c.m_body = mkblock(s, s.size(10), 2);
        for(auto n = s.size(4); n > 0; n--) {
            entry e;
            e.m_key = mkkeyexpr(s);
            e.m_val = mkexpr(s, 2);
            if(s.chance(1, 8)) {
                auto v = s.edgy() >> 1U;
                e.m_vtext = e.m_vval = std::to_string(v);
            } else if(s.chance(1, 16)) {
                e.m_vtext = e.m_vval = "1.5";
            } else if(s.chance(1, 16)) {
                e.m_vtext = "nil";
                e.m_none = true;
            }
            c.m_ret.push_back(e);
        }
        switch(s.weighted({10, 1, 1, 1, 1})) {
            case 0:
                break;
            case 1:
                c.m_end = s.pick(std::vector<std::string>{"", "return", "return {},{}", "return {}, 'x', 'y'"});
                c.m_err = run_error::result_count;
                break;
            case 2:
                c.m_end = "return " + s.pick(std::vector<std::string>{"nil", "'x'", "1", "true", "print"});
                c.m_err = run_error::result_type;
                break;
            case 3: {
                entry e;
                e.m_ktext = s.pick(std::vector<std::string>{"true", "{}", "print", "1", "7", "1.5", "2^60"});
                e.m_vtext = "'x'";
                c.m_ret.push_back(e);
                c.m_err = run_error::result_key_type;
                break;
            }
            default: {
                entry e;
                e.m_ktext = "'bad'";
                e.m_vtext = s.pick(std::vector<std::string>{"true", "{}", "print", "false"});
                c.m_ret.push_back(e);
                c.m_err = run_error::result_value_type;
            }
        }
        return c;
    }
    std::string text(const contract& c) {
        std::string o = "local param = ...\nlocal v0, v1, v2, v3 = '', '', '', ''\n";
        text(o, c.m_body);
        if(!c.m_end.empty() || c.m_err == run_error::result_count) {
            return o + "do " + c.m_end + " end\n";
        }
        if(c.m_err == run_error::result_type) {
            return o;
        }
        o += "local t = {}\n";
        for(auto& e : c.m_ret) {
            o += "t[" + (e.m_ktext.empty() ? text(e.m_key) : e.m_ktext) + "] = "
               + (e.m_vtext.empty() ? text(e.m_val) : e.m_vtext) + "\n";
        }
        return o + "return t\n";
    }

    // What a lock request gets.
    struct answer {
        int m_kind{0}; // 0 a value, 1 broker error, 2 wounded, 3 other shard error, 4 not accepted
    };
    struct meaning {
        std::vector<std::string> m_vars{std::vector<std::string>(nvars)};
        std::string m_param;
        std::map<std::string, std::string> m_state;
        std::vector<std::string> m_locks;
        std::map<size_t, int> m_faults;
        std::optional<run_error> m_err;
        std::map<std::string, std::string> m_updates;

        std::string ev(const expr& e) {
            switch(e.m_k) {
                case expr::literal:
                    return e.m_lit;
                case expr::var:
                    return m_vars[e.m_v];
                case expr::param:
                    return m_param;
                case expr::cat:
                    return ev(e.m_a[0]) + ev(e.m_a[1]);
                case expr::sub: {
                    auto v = ev(e.m_a[0]);
                    auto i = static_cast<size_t>(e.m_i) - 1;
                    auto j = std::min(static_cast<size_t>(e.m_j), v.size());
                    return i < j ? v.substr(i, j - i) : "";
                }
                default:
                    return std::to_string(ev(e.m_a[0]).size());
            }
        }
        bool lock(const std::string& k, std::string& v) {
            auto n = m_locks.size();
            m_locks.push_back(k);
            auto f = m_faults.find(n);
            if(f != m_faults.end()) {
                m_err = f->second == 2 ? run_error::wounded
                      : f->second == 4 ? run_error::internal_error
                                       : run_error::lock_error;
                return false;
            }
            auto it = m_state.find(k);
            v = it == m_state.end() ? "" : it->second;
            return true;
        }
        bool run(const std::vector<stmt>& b) {
            for(auto& t : b) {
                auto& v = m_vars[t.m_v];
                switch(t.m_k) {
                    case stmt::lock:
                        if(!lock(ev(t.m_e[0]), v)) {
                            return false;
                        }
                        break;
                    case stmt::set:
                        v = ev(t.m_e[0]);
                        break;
                    case stmt::branch:
                        if(!run(ev(t.m_e[0]) == ev(t.m_e[1]) ? t.m_a : t.m_b)) {
                            return false;
                        }
                        break;
                    case stmt::loop:
                        for(u64 i = 1; i <= t.m_n; i++) {
                            auto old = v;
                            std::string got;
                            if(!lock(ev(t.m_e[0]) + std::to_string(i), got)) {
                                return false;
                            }
                            v = old + got;
                        }
                        break;
                    case stmt::sig:
                        if(!t.m_valid) {
                            m_err = t.m_err;
                            return false;
                        }
                        break;
                    case stmt::trysig:
                        v = t.m_valid ? "valid" : "not";
                        break;
                    default:
                        m_err = t.m_err;
                        return false;
                }
            }
            return true;
        }
        void run(const contract& c) {
            if(!run(c.m_body)) {
                return;
            }
            if(c.m_err) {
                m_err = c.m_err;
                return;
            }
            for(auto& e : c.m_ret) {
                auto k = ev(e.m_key);
                if(e.m_none) {
                    m_updates.erase(k);
                } else {
                    m_updates[k] = e.m_vtext.empty() ? ev(e.m_val) : e.m_vval;
                }
            }
        }
    };

    // One run of a function, driven by hand.
    struct execution {
        std::vector<std::string> m_locks;
        std::deque<std::pair<std::string, cbdc::parsec::broker::interface::try_lock_callback_type>> m_pending;
        int m_results{0};
        std::optional<ag::runner::interface::run_return_type> m_res;
        std::string m_bad;
        std::unique_ptr<ag::runner::interface> m_r;
    };
    void start(execution& x,
               const std::string& fn,
               const std::string& param,
               std::function<int(execution&, const std::string&, cbdc::parsec::broker::interface::try_lock_callback_type)> lock) {
        static const auto cfg = cbdc::parsec::config{};
        x.m_r = ag::runner::factory<ag::runner::lua_runner>::create(
            logger(),
            cfg,
            buf(fn),
            buf(param),
            false,
            [&x](ag::runner::interface::run_return_type r) {
                x.m_results++;
                x.m_res = std::move(r);
            },
            [&x, lock](br::key_type k, br::lock_type t, br::interface::try_lock_callback_type cb) {
                if(x.m_results != 0 && x.m_bad.empty()) {
                    x.m_bad = "locks a key after its result";
                }
                if(t != br::lock_type::write && x.m_bad.empty()) {
                    x.m_bad = "takes a read lock";
                }
                x.m_locks.push_back(str(k));
                return lock(x, str(k), std::move(cb)) != 0;
            },
            nullptr,
            nullptr,
            1);
    }

    void run_program(Src& s) {
        struct one {
            contract c;
            meaning m;
            execution x;
            bool m_later{false};
        };
        const auto n = s.range(1, 3);
        std::vector<std::unique_ptr<one>> v;
        bool interesting = false;
        for(u64 i = 0; i < n; i++) {
            v.push_back(std::make_unique<one>());
            auto& o = *v.back();
            o.c = mkcontract(s);
            o.m.m_param = rnd(s, 30);
            o.m_later = s.coin();
            for(int k = 0; k < 5; k++) {
                if(s.coin()) {
                    o.m.m_state["k" + std::to_string(k)] = rnd(s, 20);
                }
            }
            if(s.chance(1, 4)) {
                o.m.m_faults[s.below(6)] = static_cast<int>(s.range(1, 4));
            }
            auto t = text(o.c);
            auto bytes = compile(t, s.coin());
            s.note("contract %llu:\n%s", static_cast<unsigned long long>(i), t.c_str());
            o.m.run(o.c);
            interesting = interesting || !o.m.m_locks.empty() || o.m.m_err;
            auto* po = &o;
            start(o.x, bytes, o.m.m_param, [po](execution& x, const std::string& k, br::interface::try_lock_callback_type cb) {
                auto f = po->m.m_faults.find(x.m_locks.size() - 1);
                if(f != po->m.m_faults.end() && f->second == 4) {
                    return 0;
                }
                if(po->m_later) {
                    x.m_pending.emplace_back(k, std::move(cb));
                    return 1;
                }
                if(f != po->m.m_faults.end()) {
                    if(f->second == 1) {
                        cb(br::interface::error_code::shard_unreachable);
                    } else {
                        cb(rs::shard_error{f->second == 2 ? rs::error_code::wounded : rs::error_code::unknown_ticket, {}});
                    }
                    return 1;
                }
                auto it = po->m.m_state.find(k);
                cb(buf(it == po->m.m_state.end() ? "" : it->second));
                return 1;
            });
        }
        for(auto& o : v) {
            PBT_CHECK(o->x.m_r->run(), "run refused");
        }
        for(;;) {
            std::vector<one*> ready;
            for(auto& o : v) {
                if(!o->x.m_pending.empty()) {
                    ready.push_back(o.get());
                }
            }
            if(ready.empty()) {
                break;
            }
            auto* o = ready[s.below(ready.size())];
            auto [k, cb] = std::move(o->x.m_pending.front());
            o->x.m_pending.pop_front();
            auto f = o->m.m_faults.find(o->x.m_locks.size() - 1);
            if(f != o->m.m_faults.end()) {
                if(f->second == 1) {
                    cb(br::interface::error_code::shard_unreachable);
                } else {
                    cb(rs::shard_error{f->second == 2 ? rs::error_code::wounded : rs::error_code::unknown_ticket, {}});
                }
            } else {
                auto it = o->m.m_state.find(k);
                cb(buf(it == o->m.m_state.end() ? "" : it->second));
            }
        }
        for(auto& o : v) {
            auto& x = o->x;
            PBT_CHECK(x.m_bad.empty(), "%s", x.m_bad.c_str());
            PBT_CHECK(x.m_results == 1, "%d results", x.m_results);
            PBT_CHECK(x.m_locks.size() == o->m.m_locks.size(), "%zu locks instead of %zu", x.m_locks.size(), o->m.m_locks.size());
            for(size_t i = 0; i < x.m_locks.size(); i++) {
                PBT_CHECK(x.m_locks[i] == o->m.m_locks[i], "lock %zu is of another key", i);
            }
            auto* e = std::get_if<run_error>(&*x.m_res);
            if(o->m.m_err) {
                PBT_CHECK(e != nullptr, "succeeds instead of error %d", static_cast<int>(*o->m.m_err));
                PBT_CHECK(*e == *o->m.m_err, "error %d instead of %d", static_cast<int>(*e), static_cast<int>(*o->m.m_err));
                s.label("error " + std::to_string(static_cast<int>(*e)));
                continue;
            }
            PBT_CHECK(e == nullptr, "error %d", static_cast<int>(*e));
            auto& up = std::get<rs::state_update_type>(*x.m_res);
            PBT_CHECK(up.size() == o->m.m_updates.size(), "%zu updates instead of %zu", up.size(), o->m.m_updates.size());
            for(auto& [k, val] : o->m.m_updates) {
                auto it = up.find(buf(k));
                PBT_CHECK(it != up.end() && str(it->second) == val, "wrong update of a key");
            }
        }
        if(interesting) {
            s.nontrivial();
        }
    }

    // Bytes that are no compiled function.
    void run_bytes(Src& s) {
        std::string fn;
        auto good = compile(text(mkcontract(s)), s.coin());
        switch(s.weighted({2, 2, 4, 4, 1})) {
            case 0:
                fn = rnd(s, 60);
                if(s.coin()) {
                    fn = "\x1bLua" + fn;
                }
                break;
            case 1:
                fn = s.coin() ? "return {}" : text(mkcontract(s));
                break;
            case 2:
                fn = good.substr(0, s.below(good.size()));
                break;
            case 3: {
                fn = good;
                auto at = s.below(31);
                fn[at] = static_cast<char>(static_cast<unsigned>(fn[at]) ^ (1U << s.below(8)));
                break;
            }
            default:
                break;
        }
        s.note("%zu bytes: %s", fn.size(), pbt::hex(reinterpret_cast<const unsigned char*>(fn.data()), std::min<size_t>(fn.size(), 64)).c_str());
        execution x;
        start(x, fn, rnd(s, 10), [](execution&, const std::string&, br::interface::try_lock_callback_type) { return 0; });
        PBT_CHECK(x.m_r->run(), "run refused");
        PBT_CHECK(x.m_results == 1, "%d results", x.m_results);
        auto* e = std::get_if<run_error>(&*x.m_res);
        PBT_CHECK(e != nullptr && *e == run_error::function_load, "not refused");
        PBT_CHECK(x.m_locks.empty(), "locks a key");
        s.nontrivial();
    }

    // -- the payment contract

    std::string pay_contract() {
        auto* L = luaL_newstate();
        luaL_openlibs(L);
        auto file = std::string(getenv("PBT_REPO") != nullptr ? getenv("PBT_REPO") : "/repo") + "/scripts/gen_bytecode.lua";
        if(luaL_dofile(L, file.c_str()) != LUA_OK || (lua_getglobal(L, "gen_bytecode"), lua_pcall(L, 0, 1, 0)) != LUA_OK) {
            pbt::fail(std::string("the contract cannot be built: ") + lua_tostring(L, -1));
        }
        std::string hex = lua_tostring(L, -1);
        lua_close(L);
        std::string o;
        for(size_t i = 0; i + 1 < hex.size(); i += 2) {
            o += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
        }
        return o;
    }
    std::string le(u64 v) {
        return {reinterpret_cast<char*>(&v), 8};
    }
    struct payment {
        u64 m_from, m_to, m_value, m_seq;
        bool m_signed{true};
        std::shared_ptr<ag::impl> m_agent;
        std::optional<ag::interface::exec_return_type> m_answer;
        int m_answers{0};
        int m_retries{0};
    };
    void run_pay(Src& s) {
        static const auto code = pay_contract();
        const auto nsh = s.range(1, 3);
        const auto nbr = s.range(1, 2);
        const auto nacc = s.range(1, 4);
        cluster c(s, nsh, nbr);
        static auto sp = std::shared_ptr<secp256k1_context>(secp(), [](secp256k1_context*) {});
        static cbdc::parsec::config cfg{};
        auto put = [&](const std::string& k, const std::string& v) {
            bool ok = false;
            PBT_CHECK(cbdc::parsec::put_row(c.m_nodes[0]->m_broker, buf(k), buf(v), [&](bool r) { ok = r; }), "put refused");
            while(c.sch.step()) {}
            PBT_CHECK(ok, "a row cannot be written");
        };
        put("pay", code);
        std::vector<u64> bal;
        u64 total = 0;
        for(u64 i = 0; i < nacc; i++) {
            bal.push_back(s.chance(1, 5) ? 0 : s.below(20));
            total += bal.back();
            if(bal.back() != 0) {
                put("account_" + key_of(i).m_pub, le(bal.back()) + le(0));
            }
        }
        std::vector<std::unique_ptr<payment>> ps;
        for(auto n = 1 + s.size(7); n > 0; n--) {
            ps.push_back(std::make_unique<payment>());
            auto& p = *ps.back();
            p.m_from = s.below(nacc);
            p.m_to = s.below(nacc);
            p.m_value = s.chance(1, 10) ? s.edgy() : s.below(12);
            p.m_seq = s.chance(1, 2) ? ps.size() - 1 : s.below(4);
            p.m_signed = !s.chance(1, 10);
            s.note("pay %llu from %llu to %llu, sequence %llu%s",
                   static_cast<unsigned long long>(p.m_value),
                   static_cast<unsigned long long>(p.m_from),
                   static_cast<unsigned long long>(p.m_to),
                   static_cast<unsigned long long>(p.m_seq),
                   p.m_signed ? "" : ", not signed by the payer");
        }
        auto q = c.sch.add();
        auto go = [&](payment& p) {
            auto from = key_of(p.m_from).m_pub;
            auto to = key_of(p.m_to).m_pub;
            auto load = to + le(p.m_value) + le(p.m_seq);
            auto sig = (p.m_signed ? key_of(p.m_from) : key_of(p.m_from + 1)).sign(load);
            auto param = from + to + le(p.m_value) + le(p.m_seq) + sig;
            auto* pp = &p;
            p.m_agent = std::make_shared<ag::impl>(
                logger(),
                cfg,
                &ag::runner::factory<ag::runner::lua_runner>::create,
                c.m_nodes[s.below(nbr)]->m_broker,
                buf("pay"),
                buf(param),
                [&, pp](ag::interface::exec_return_type r) {
                    auto* e = std::get_if<ag::interface::error_code>(&r);
                    if(e != nullptr && *e == ag::interface::error_code::retry) {
                        pp->m_retries++;
                        c.sch.post(q, [pp] { PBT_CHECK(pp->m_agent->exec(), "exec refused"); });
                        return;
                    }
                    pp->m_answers++;
                    pp->m_answer = r;
                },
                ag::runner::lua_runner::initial_lock_type,
                false,
                sp,
                nullptr);
            PBT_CHECK(p.m_agent->exec(), "exec refused");
        };
        size_t started = 0;
        for(;;) {
            if(started < ps.size() && (started == 0 || s.chance(1, 5))) {
                go(*ps[started++]);
            }
            if(!c.sch.step() && started == ps.size()) {
                break;
            }
            PBT_CHECK(c.sch.m_steps < 30000, "payments make no progress");
        }
        std::vector<u64> want = bal;
        std::vector<u64> seq(nacc, 0);
        std::set<std::pair<u64, u64>> done;
        u64 paid = 0;
        u64 retries = 0;
        for(auto& p : ps) {
            PBT_CHECK(p->m_answers == 1, "a payment is answered %d times", p->m_answers);
            retries += static_cast<u64>(p->m_retries);
            if(!std::holds_alternative<ag::return_type>(*p->m_answer)) {
                continue;
            }
            PBT_CHECK(p->m_signed, "a payment its payer did not sign is made");
            PBT_CHECK(done.insert({p->m_from, p->m_seq}).second, "two payments with one sequence number are made");
            seq[p->m_from] = std::max(seq[p->m_from], p->m_seq + 1);
            // values are signed numbers in the contract; others move nothing
            if(static_cast<int64_t>(p->m_value) > 0) {
                want[p->m_from] -= p->m_value;
                want[p->m_to] += p->m_value;
                paid++;
            }
        }
        u64 sum = 0;
        for(u64 i = 0; i < nacc; i++) {
            std::optional<std::string> v;
            std::optional<tn_t> tn;
            auto& b2 = *c.m_nodes[0]->m_broker;
            PBT_CHECK(b2.begin([&](br::interface::ticketnum_or_errcode_type r) { tn = std::get<tn_t>(r); }), "begin refused");
            (void)b2.try_lock(*tn, buf("account_" + key_of(i).m_pub), rs::lock_type::read, [&](const br::interface::try_lock_return_type& r) {
                PBT_CHECK(std::holds_alternative<buffer>(r), "an account cannot be read");
                v = str(std::get<buffer>(r));
            });
            while(c.sch.step()) {}
            (void)b2.rollback(*tn, [](auto) {});
            while(c.sch.step()) {}
            PBT_CHECK(v.has_value() && (v->empty() || v->size() == 16), "account %llu is unreadable", static_cast<unsigned long long>(i));
            u64 b = 0;
            u64 q2 = 0;
            if(!v->empty()) {
                std::memcpy(&b, v->data(), 8);
                std::memcpy(&q2, v->data() + 8, 8);
            }
            PBT_CHECK(b == want[i], "account %llu has %llu instead of %llu", static_cast<unsigned long long>(i), static_cast<unsigned long long>(b), static_cast<unsigned long long>(want[i]));
            PBT_CHECK(q2 == seq[i], "account %llu is at sequence %llu instead of %llu", static_cast<unsigned long long>(i), static_cast<unsigned long long>(q2), static_cast<unsigned long long>(seq[i]));
            sum += b;
        }
        PBT_CHECK(sum == total, "%llu in all instead of %llu", static_cast<unsigned long long>(sum), static_cast<unsigned long long>(total));
        if(paid > 0 && ps.size() > 1) {
            s.nontrivial();
        }
        if(retries > 0) {
            s.label("retried");
        }
        s.label(paid > 0 ? "paid" : "nothing paid");
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C35";
    c.m_rule = "program: 1-3 generated contracts run interleaved, with up to 10 statements (locks, "
               "string operations, branches, loops, signature checks, failures) and every kind of result, lock "
               "requests answered at once or later, or failing (non-trivial: one locks a key or fails); bytes: random, "
               "cut or damaged function bytes and source text; pay: the payment contract of scripts/ with up to 8 "
               "concurrent payments between up to 4 accounts over 1-3 shards (non-trivial: at least two payments, some made)";
    c.m_assumptions = {"the Lua library installed here; functions are chunks its compiler made: it does not verify the code in a chunk"};
    c.m_props = {{"program", run_program, 250000, 6000000}, {"bytes", run_bytes, 60000, 2000000}, {"pay", run_pay, 80000, 2000000}};
    return pbt::run(argc, argv, c);
}
