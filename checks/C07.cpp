// Arbitrary bytes given to every decoder and to the servers.
#include "atom.hpp"
#include "messages.hpp"
#include "net.hpp"
#include "parsec/runtime_locking_shard/state_machine.hpp"
#include "parsec/ticket_machine/state_machine.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/client.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/twophase/locking_shard/state_machine.hpp"
#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/tcp_server.hpp"

#include <csignal>

// The sanitizer runtime's allocation hooks.
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(
    void (*on_malloc)(const volatile void*, size_t),
    void (*on_free)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void* p);
}

using namespace vt;
using namespace msgs;

namespace {
    // Bytes allocated and not yet freed since the meter was started.
    std::atomic<bool> g_meter{false};
    std::atomic<int64_t> g_live{0};
    std::atomic<int64_t> g_peak{0};
    void on_alloc(const volatile void*, size_t n) {
        if(!g_meter.load(std::memory_order_relaxed)) {
            return;
        }
        auto v = g_live.fetch_add(static_cast<int64_t>(n))
               + static_cast<int64_t>(n);
        auto p = g_peak.load();
        while(v > p && !g_peak.compare_exchange_weak(p, v)) {}
    }
    void on_free(const volatile void* p) {
        if(!g_meter.load(std::memory_order_relaxed) || p == nullptr) {
            return;
        }
        g_live.fetch_sub(static_cast<int64_t>(
            __sanitizer_get_allocated_size(const_cast<const void*>(p))));
    }
    struct meter {
        meter() {
            static bool once = [] {
                __sanitizer_install_malloc_and_free_hooks(on_alloc, on_free);
                return true;
            }();
            (void)once;
            g_live = 0;
            g_peak = 0;
            g_meter = true;
        }
        ~meter() { g_meter = false; }
        size_t peak() const { return static_cast<size_t>(g_peak.load()); }
    };
    size_t allowance(size_t input) {
        return 8 * 1024 * 1024 + 80 * input;
    }

    void put64(vec& v, size_t at, u64 x) {
        for(size_t i = 0; i < 8 && at + i < v.size(); i++) {
            v[at + i] = static_cast<uint8_t>(x >> (8 * i));
        }
    }
    // One change of an encoding.
    void mutate(Src& s, vec& v) {
        switch(s.weighted({3, 4, 6, 2, 2, 2, 1, 1})) {
            case 0: // cut
                if(!v.empty()) {
                    v.resize(s.below(v.size()));
                }
                break;
            case 1: // one byte
                if(!v.empty()) {
                    v[s.below(v.size())] = static_cast<uint8_t>(
                        s.coin() ? s.below(256) : s.below(8));
                }
                break;
            case 2: // a length
                if(v.size() >= 8) {
                    auto at = s.below(v.size() - 7);
                    put64(v,
                          at,
                          s.pick(std::vector<u64>{0,
                                                  1,
                                                  2,
                                                  v.size(),
                                                  1000,
                                                  0x7fff,
                                                  0x8000,
                                                  0x8001,
                                                  0xfffff,
                                                  0x100000,
                                                  0x100001,
                                                  0x1fffff,
                                                  1U << 24,
                                                  1ULL << 31,
                                                  1ULL << 32,
                                                  1ULL << 47,
                                                  1ULL << 60,
                                                  (1ULL << 61) + 1,
                                                  (1ULL << 63) - 1,
                                                  1ULL << 63,
                                                  ~0ULL - 7,
                                                  ~0ULL - 1,
                                                  ~0ULL}));
                }
                break;
            case 3: { // bytes removed
                if(v.size() > 1) {
                    auto a = s.below(v.size());
                    auto n = 1 + s.below(std::min<size_t>(16, v.size() - a));
                    v.erase(v.begin() + static_cast<long>(a),
                            v.begin() + static_cast<long>(a + n));
                }
                break;
            }
            case 4: { // bytes inserted
                auto a = s.below(v.size() + 1);
                auto x = s.bytes(1 + s.below(16));
                v.insert(v.begin() + static_cast<long>(a), x.begin(), x.end());
                break;
            }
            case 5: { // a part repeated
                if(v.size() > 1) {
                    auto a = s.below(v.size());
                    auto n = 1 + s.below(std::min<size_t>(64, v.size() - a));
                    vec x(v.begin() + static_cast<long>(a),
                          v.begin() + static_cast<long>(a + n));
                    auto at = s.below(v.size());
                    v.insert(v.begin() + static_cast<long>(at),
                             x.begin(),
                             x.end());
                }
                break;
            }
            case 6: // bytes added at the end
            {
                auto x = s.bytes(1 + s.below(200));
                v.insert(v.end(), x.begin(), x.end());
                break;
            }
            default: // all zeros or ones in a range
            {
                if(!v.empty()) {
                    auto a = s.below(v.size());
                    auto n = 1 + s.below(std::min<size_t>(40, v.size() - a));
                    std::fill_n(v.begin() + static_cast<long>(a),
                                n,
                                s.coin() ? 0xff : 0);
                }
                break;
            }
        }
    }
    vec fuzzed(Src& s, const msg& m) {
        if(s.chance(1, 12)) {
            // Random bytes, few and many small ones.
            auto n = s.size(300);
            auto v = s.bytes(n);
            if(s.coin()) {
                for(auto& b : v) {
                    b = s.chance(1, 3) ? b : static_cast<uint8_t>(b % 3);
                }
            }
            return v;
        }
        ctx c{s, 1 + s.below(5)};
        auto v = to_vec(m.m_buffer(m.m_make(c)));
        if(s.chance(1, 15)) {
            // Half of it, half of another message.
            const auto& o = s.pick(registry());
            auto w = to_vec(o.m_buffer(o.m_make(c)));
            if(!v.empty() && !w.empty()) {
                v.resize(s.below(v.size()));
                v.insert(v.end(),
                         w.begin() + static_cast<long>(s.below(w.size())),
                         w.end());
            }
        }
        for(auto k = s.below(4); k > 0; k--) {
            mutate(s, v);
        }
        return v;
    }
    vec reenc(const msg& m, const any& v) { return to_vec(m.m_buffer(v)); }

    void p_decode(Src& s) {
        const auto& m = s.pick(registry());
        auto in = fuzzed(s, m);
        auto n = m.m_name.c_str();
        s.note("%s from %zu bytes: %s",
               n,
               in.size(),
               pbt::hex(in.data(), std::min<size_t>(in.size(), 300)).c_str());
        any r[3];
        bool ok[3];
        size_t used = 0;
        {
            auto b = to_buf(in);
            auto d = cbdc::buffer_serializer(b);
            meter mt;
            r[0] = m.m_dec(d);
            ok[0] = static_cast<bool>(d);
            PBT_CHECK(mt.peak() <= allowance(in.size()),
                      "%s: decoding %zu bytes allocated %zu",
                      n,
                      in.size(),
                      mt.peak());
            PBT_CHECK(b.size() == in.size(), "%s: the buffer grew", n);
            while(ok[0] && !d.end_of_buffer()) {
                d.advance_cursor(1);
                used++;
            }
            used = in.size() - used;
        }
        {
            auto b = to_raft(in);
            auto d = cbdc::nuraft_serializer(*b);
            meter mt;
            r[1] = m.m_dec(d);
            ok[1] = static_cast<bool>(d);
            PBT_CHECK(mt.peak() <= allowance(in.size()),
                      "%s: decoding a raft buffer of %zu allocated %zu",
                      n,
                      in.size(),
                      mt.peak());
        }
        {
            std::stringstream ss(std::string(in.begin(), in.end()),
                                 std::ios::in | std::ios::binary);
            auto d = cbdc::istream_serializer(ss);
            meter mt;
            r[2] = m.m_dec(d);
            ok[2] = static_cast<bool>(d);
            PBT_CHECK(mt.peak() <= allowance(in.size()),
                      "%s: decoding a stream of %zu allocated %zu",
                      n,
                      in.size(),
                      mt.peak());
        }
        PBT_CHECK(ok[0] == ok[1] && ok[1] == ok[2],
                  "%s: accepted by buffer %d, raft %d, stream %d",
                  n,
                  ok[0],
                  ok[1],
                  ok[2]);
        if(m.m_from) {
            auto b = to_buf(in);
            PBT_CHECK((m.m_from(b) != nullptr) == ok[0],
                      "%s: from_buffer and the serializer disagree",
                      n);
        }
        s.label(m.m_name);
        s.label(ok[0] ? "accepted" : "rejected");
        if(!ok[0]) {
            s.nontrivial();
            return;
        }
        PBT_CHECK(m.m_same(r[0], r[1]) && m.m_same(r[0], r[2]),
                  "%s: the serializers decode different values",
                  n);
        // It stands for its own encoding, which is not longer than what
        // was read, and does not depend on what follows.
        auto e = reenc(m, r[0]);
        PBT_CHECK(e.size() <= used,
                  "%s: read %zu bytes, but the value takes %zu",
                  n,
                  used,
                  e.size());
        auto b = to_buf(e);
        auto d = cbdc::buffer_serializer(b);
        auto again = m.m_dec(d);
        PBT_CHECK(static_cast<bool>(d) && m.m_same(again, r[0]),
                  "%s: the decoded value does not survive another round",
                  n);
        vec cut(in.begin(), in.begin() + static_cast<long>(used));
        auto junk = s.bytes(s.below(40));
        cut.insert(cut.end(), junk.begin(), junk.end());
        auto b2 = to_buf(cut);
        auto d2 = cbdc::buffer_serializer(b2);
        auto other = m.m_dec(d2);
        PBT_CHECK(static_cast<bool>(d2) && m.m_same(other, r[0]),
                  "%s: the value depends on the bytes behind it",
                  n);
        if(e.size() != in.size() || e != in) {
            s.nontrivial();
        }
    }

    // Long inputs with hostile sizes.
    void p_large(Src& s) {
        const auto& m = s.pick(registry());
        auto n = 1 + s.below(400000);
        ctx c{s, 6};
        auto in = to_vec(m.m_buffer(m.m_make(c)));
        auto at = in.size();
        in.resize(in.size() + n);
        auto x = s.u64v() | 1;
        auto mode = s.below(4);
        for(auto i = at; i < in.size(); i++) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            in[i] = mode == 0   ? static_cast<uint8_t>(x)
                  : mode == 1 ? 0
                  : mode == 2 ? static_cast<uint8_t>(i % 8 == 0)
                              : static_cast<uint8_t>((x % 16) == 0);
        }
        for(auto k = 1 + s.below(3); k > 0 && in.size() > 16; k--) {
            put64(in,
                  s.below(std::min<size_t>(in.size() - 8, at + 16)),
                  s.coin() ? s.below(n) : s.edgy());
        }
        s.note("%s from %zu bytes, mode %zu",
               m.m_name.c_str(),
               in.size(),
               (size_t)mode);
        auto b = to_buf(in);
        auto d = cbdc::buffer_serializer(b);
        meter mt;
        auto r = m.m_dec(d);
        PBT_CHECK(mt.peak() <= allowance(in.size()),
                  "%s: decoding %zu bytes allocated %zu",
                  m.m_name.c_str(),
                  in.size(),
                  mt.peak());
        s.label(static_cast<bool>(d) ? "accepted" : "rejected");
        s.nontrivial();
    }

    // Servers for every request type: called exactly for what decodes.
    template<typename Req, typename Resp>
    struct blocking_probe : cbdc::rpc::blocking_server<Req, Resp> {
        using base = cbdc::rpc::blocking_server<Req, Resp>;
        using base::blocking_call;
    };
    template<typename Req, typename Resp>
    struct async_probe : cbdc::rpc::async_server<Req, Resp> {
        using base = cbdc::rpc::async_server<Req, Resp>;
        using base::async_call;
    };
    template<typename Req, typename Resp>
    void serve(Src& s, const char* name) {
        using request = cbdc::rpc::request<Req>;
        using response = cbdc::rpc::response<Resp>;
        static const auto rq = mk<request>(name);
        auto in = fuzzed(s, rq);
        s.note("%s server given %zu bytes", name, in.size());
        auto b = to_buf(in);
        auto want = cbdc::from_buffer<request>(b);
        ctx c{s, 3};
        auto answer = M<std::optional<Resp>>::make(c);
        size_t calls = 0;
        auto see = [&](const Req& r) {
            calls++;
            PBT_CHECK(want && M<Req>::same(r, want->m_payload),
                      "%s: the handler got another request",
                      name);
        };
        auto check = [&](const char* how, std::optional<cbdc::buffer> out) {
            PBT_CHECK(calls == (want ? 1 : 0),
                      "%s %s: handled %zu times (decodes: %d)",
                      how,
                      name,
                      calls,
                      want.has_value());
            PBT_CHECK(out.has_value() == want.has_value(),
                      "%s %s: answered %d, decodes %d",
                      how,
                      name,
                      out.has_value(),
                      want.has_value());
            if(out) {
                auto r = cbdc::from_buffer<response>(*out);
                PBT_CHECK(r
                              && r->m_header.m_request_id
                                     == want->m_header.m_request_id
                              && M<std::optional<Resp>>::same(r->m_payload,
                                                              answer),
                          "%s %s: another answer went out",
                          how,
                          name);
            }
            calls = 0;
        };
        {
            blocking_probe<Req, Resp> p;
            p.register_handler_callback([&](Req r) {
                see(r);
                return answer;
            });
            check("blocking", p.blocking_call(to_buf(in)));
        }
        {
            async_probe<Req, Resp> p;
            std::optional<cbdc::buffer> out;
            p.register_handler_callback(
                [&](Req r, std::function<void(std::optional<Resp>)> cb) {
                    see(r);
                    cb(answer);
                    return true;
                });
            auto direct = p.async_call(to_buf(in), [&](cbdc::buffer x) {
                out = std::move(x);
            });
            PBT_CHECK(!direct.has_value(), "%s: answered twice", name);
            check("async", out);
        }
        s.label(want ? "accepted" : "rejected");
        s.nontrivial();
    }
    void p_servers(Src& s) {
        namespace pr = cbdc::parsec;
        switch(s.below(8)) {
            case 0:
                return serve<cbdc::sentinel::request,
                             cbdc::sentinel::response>(s, "sentinel");
            case 1:
                return serve<cbdc::coordinator::rpc::request,
                             cbdc::coordinator::rpc::response>(s,
                                                               "coordinator");
            case 2:
                return serve<cbdc::locking_shard::rpc::request,
                             cbdc::locking_shard::rpc::response>(
                    s,
                    "locking shard");
            case 3:
                return serve<cbdc::locking_shard::rpc::status_request,
                             cbdc::locking_shard::rpc::status_response>(
                    s,
                    "shard status");
            case 4:
                return serve<pr::ticket_machine::rpc::request,
                             pr::ticket_machine::rpc::response>(
                    s,
                    "ticket machine");
            case 5:
                return serve<rls::rpc::request, rls::rpc::response>(
                    s,
                    "runtime shard");
            case 6:
                return serve<rls::rpc::replicated_request,
                             rls::rpc::replicated_response>(s, "replicated");
            default:
                return serve<pr::agent::rpc::request, pr::agent::rpc::response>(
                    s,
                    "agent");
        }
    }

    // Replicated state machines given log entries that do not decode:
    // nothing happens, and the next good entry is applied.
    void p_log(Src& s) {
        auto which = s.below(3);
        auto idx = u64{1};
        auto raft = [](const cbdc::buffer& b) {
            auto r = nuraft::buffer::alloc(b.size());
            std::memcpy(r->data_begin(), b.data(), b.size());
            r->pos(0);
            return r;
        };
        size_t bad = 0;
        auto run = [&]<typename Req>(nuraft::state_machine& sm,
                                     const Req& good,
                                     auto&& check) {
            static const auto m = mk<Req>("entry");
            ctx c{s, 3};
            auto n = 1 + s.below(6);
            for(u64 i = 0; i < n; i++) {
                auto in = fuzzed(s, m);
                auto b = to_buf(in);
                if(!cbdc::from_buffer<Req>(b)) {
                    bad++;
                    auto rb = to_raft(in);
                    auto r = sm.commit(idx++, *rb);
                    PBT_CHECK(!r, "an entry that does not decode is answered");
                }
                auto gb = raft(cbdc::make_buffer(good));
                auto r = sm.commit(idx++, *gb);
                PBT_CHECK(r, "a good entry is not answered");
                check(r);
                PBT_CHECK(sm.last_commit_index() == idx - 1,
                          "last index %zu after %zu entries",
                          (size_t)sm.last_commit_index(),
                          (size_t)idx - 1);
            }
        };
        if(which == 0) {
            namespace tm = cbdc::parsec::ticket_machine;
            auto batch = 1 + s.below(20);
            auto sm = nuraft::cs_new<tm::state_machine>(logger(), batch);
            using rq = cbdc::rpc::request<tm::rpc::request>;
            u64 next = 0;
            bool first = true;
            run(*sm, rq{{7}, {}}, [&](auto& r) {
                auto v = cbdc::from_buffer<
                    cbdc::rpc::response<tm::rpc::response>>(*r);
                PBT_CHECK(v && v->m_payload
                              && std::holds_alternative<
                                  tm::interface::ticket_number_range_type>(
                                  *v->m_payload),
                          "bad answer");
                auto g = std::get<tm::interface::ticket_number_range_type>(
                    *v->m_payload);
                PBT_CHECK(g.second - g.first == batch
                              && (first || g.first == next),
                          "tickets %zu to %zu after %zu",
                          (size_t)g.first,
                          (size_t)g.second,
                          (size_t)next);
                next = g.second;
                first = false;
            });
        } else if(which == 1) {
            auto sm = nuraft::cs_new<cbdc::locking_shard::state_machine>(
                std::make_pair(uint8_t{0}, uint8_t{255}),
                logger(),
                100,
                "",
                [] {
                    cbdc::config::options o{};
                    o.m_attestation_threshold = 0;
                    return o;
                }());
            using rq = cbdc::rpc::request<cbdc::locking_shard::rpc::request>;
            rq g{};
            g.m_header.m_request_id = 5;
            g.m_payload.m_params
                = cbdc::locking_shard::rpc::discard_params{};
            run(*sm, g, [&](auto& r) {
                auto v = cbdc::from_buffer<
                    cbdc::rpc::response<cbdc::locking_shard::rpc::response>>(
                    *r);
                PBT_CHECK(v && v->m_header.m_request_id == 5 && v->m_payload
                              && v->m_payload->index() == 2,
                          "bad answer");
            });
        } else {
            auto sm = nuraft::cs_new<rls::state_machine>();
            rls::rpc::replicated_request g
                = rls::rpc::replicated_get_tickets_request{};
            run(*sm, g, [&](auto& r) {
                auto v = cbdc::from_buffer<rls::rpc::replicated_response>(*r);
                PBT_CHECK(v && v->index() == 1, "bad answer");
            });
        }
        s.note("state machine %zu, %zu undecodable entries",
               (size_t)which,
               bad);
        if(bad > 0) {
            s.nontrivial();
        }
    }

    // Snapshots of the atomizer that were cut short or changed. (The part
    // NuRaft itself decodes is cut but not changed.)
    void p_snapshot(Src& s) {
        namespace at = cbdc::atomizer;
        using sm_t = at::state_machine;
        auto depth = s.below(3);
        auto a = std::make_shared<at::atomizer>(0, depth);
        auto blocks = std::make_shared<sm_t::blockstore_t>();
        chain ch;
        auto n = s.below(4);
        for(u64 i = 0; i <= n; i++) {
            auto k = s.below(4);
            for(u64 j = 0; j < k; j++) {
                auto t = ch.tx(s);
                for(auto& o : t.m_uhs_outputs) {
                    ch.m_unspent.push_back(o);
                }
                a->insert_complete(a->height(), std::move(t));
            }
            if(i < n) {
                auto b = a->make_block().first;
                blocks->emplace(b.m_height, std::move(b));
            }
        }
        auto cfg = nuraft::cs_new<nuraft::cluster_config>(n);
        auto rs = nuraft::cs_new<nuraft::snapshot>(n, 3, cfg);
        auto keep = 8 + rs->serialize()->size();
        auto snp = sm_t::snapshot{a, rs, blocks};
        cbdc::buffer enc;
        auto ser = cbdc::buffer_serializer(enc);
        ser << snp;
        vec in(enc.size());
        std::memcpy(in.data(), enc.data(), enc.size());
        bool cut = s.coin();
        if(cut) {
            in.resize(s.below(in.size()));
            // Less than NuRaft's own part is not handed to NuRaft.
        } else if(in.size() > keep) {
            vec tail(in.begin() + static_cast<long>(keep), in.end());
            auto m = s.range(1, 3);
            for(u64 i = 0; i < m; i++) {
                mutate(s, tail);
            }
            in.resize(keep);
            in.insert(in.end(), tail.begin(), tail.end());
        }
        for(int stream = 0; stream < 2; stream++) {
            auto na = std::make_shared<at::atomizer>(0, depth);
            auto got = sm_t::snapshot{
                na,
                nullptr,
                std::make_shared<sm_t::blockstore_t>()};
            bool ok{};
            meter mt;
            if(stream == 1) {
                std::istringstream ss(
                    std::string(reinterpret_cast<const char*>(in.data()),
                                in.size()));
                auto d = cbdc::istream_serializer(ss);
                ok = static_cast<bool>(d >> got);
            } else {
                auto b = to_buf(in);
                auto d = cbdc::buffer_serializer(b);
                ok = static_cast<bool>(d >> got);
            }
            PBT_CHECK(mt.peak() <= allowance(in.size()),
                      "decoding a snapshot of %zu bytes allocated %zu",
                      in.size(),
                      mt.peak());
            PBT_CHECK(!(cut && ok),
                      "a snapshot cut to %zu of %zu bytes is accepted",
                      in.size(),
                      enc.size());
            if(!ok || in.size() != enc.size()) {
                s.nontrivial();
            }
        }
        s.note("%s snapshot, %zu of %zu bytes, %zu of NuRaft",
               cut ? "cut" : "changed",
               in.size(),
               enc.size(),
               keep);
    }

    int dial(const cbdc::network::endpoint_t& ep) {
        auto fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(ep.second);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        PBT_CHECK(::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a))
                      == 0,
                  "no connection to the server");
        return fd;
    }
    void send_all(int fd, const void* p, size_t n) {
        auto c = static_cast<const char*>(p);
        while(n > 0) {
            auto r = ::send(fd, c, n, MSG_NOSIGNAL);
            if(r <= 0) {
                return;
            }
            c += r;
            n -= static_cast<size_t>(r);
        }
    }

    // Raw peers that announce sizes they do not send, or send rubbish.
    void p_tcp(Src& s) {
        using request = cbdc::coordinator::rpc::request;
        using response = cbdc::coordinator::rpc::response;
        auto ep = free_ep();
        std::atomic<size_t> calls{0};
        cbdc::rpc::blocking_tcp_server<request, response> srv(ep);
        srv.register_handler_callback([&](const request& r) {
            calls++;
            return std::optional<bool>(r.m_inputs.size() % 2 == 1);
        });
        if(!srv.init()) {
            throw pbt::Discard{};
        }
        static const auto rq = mk<cbdc::rpc::request<request>>("coordinator");
        meter mt;
        std::vector<int> fds;
        size_t sent = 0;
        size_t hostile = 0;
        auto n = 1 + s.below(6);
        for(u64 i = 0; i < n; i++) {
            auto fd = dial(ep);
            fds.push_back(fd);
            if(s.chance(2, 3)) {
                hostile++;
                auto sz = s.pick(std::vector<u64>{~0ULL,
                                                  ~0ULL - 7,
                                                  1ULL << 63,
                                                  1ULL << 40,
                                                  1ULL << 34,
                                                  3ULL << 28,
                                                  100 * 1024 * 1024});
                send_all(fd, &sz, 8);
                auto x = s.bytes(s.below(3000));
                send_all(fd, x.data(), x.size());
                sent += x.size() + 8;
            } else {
                auto v = fuzzed(s, rq);
                u64 sz = v.size();
                send_all(fd, &sz, 8);
                send_all(fd, v.data(), v.size());
                sent += v.size() + 8;
            }
            if(s.coin()) {
                ::close(fd);
                fds.pop_back();
            }
        }
        // Then somebody asks properly.
        ctx c{s, 3};
        auto good = M<cbdc::rpc::request<request>>::make(c);
        auto buf = cbdc::make_buffer(good);
        u64 sz = buf.size();
        auto fd = dial(ep);
        send_all(fd, &sz, 8);
        send_all(fd, buf.data(), buf.size());
        timeval tv{15, 0};
        setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
        vec got;
        while(got.size() < 8 + 10) {
            uint8_t x[64];
            auto r = ::recv(fd, x, sizeof(x), 0);
            if(r <= 0) {
                break;
            }
            got.insert(got.end(), x, x + r);
        }
        ::close(fd);
        for(auto f : fds) {
            ::close(f);
        }
        s.note("%zu raw peers, %zu with sizes they do not send",
               (size_t)n,
               hostile);
        PBT_CHECK(got.size() > 8, "no answer after %zu raw peers", (size_t)n);
        auto ans = to_buf(vec(got.begin() + 8, got.end()));
        auto r = cbdc::from_buffer<cbdc::rpc::response<response>>(ans);
        PBT_CHECK(r
                      && r->m_header.m_request_id
                             == good.m_header.m_request_id
                      && r->m_payload
                             == (good.m_payload.m_inputs.size() % 2 == 1),
                  "the answer is wrong");
        PBT_CHECK(mt.peak() <= (n + 2) * 12 * 1024 * 1024 + 80 * sent,
                  "%zu peers that sent %zu bytes made it allocate %zu",
                  (size_t)n,
                  sent,
                  mt.peak());
        if(hostile > 0) {
            s.nontrivial();
        }
    }

    // The watchtower's client-facing port.
    void p_watchtower(Src& s) {
        cbdc::config::options o{};
        stub_server archiver([&](auto&&) -> std::optional<cbdc::buffer> {
            return cbdc::make_buffer(cbdc::archiver::response{});
        });
        stub_server atomizer([](auto&&) -> std::optional<cbdc::buffer> {
            return std::nullopt;
        });
        o.m_archiver_endpoints = {archiver.m_ep};
        o.m_atomizer_endpoints = {atomizer.m_ep};
        o.m_watchtower_internal_endpoints = {free_ep()};
        o.m_watchtower_client_endpoints = {free_ep()};
        o.m_watchtower_block_cache_size = 10;
        o.m_watchtower_error_cache_size = 10;
        auto c = std::make_unique<wt::controller>(0, o, logger());
        if(!c->init()) {
            throw pbt::Discard{};
        }
        static const auto rq = mk<wt::request>("request");
        static const auto rs = mk<wt::response>("response");
        std::atomic<size_t> answers{0};
        cbdc::network::connection_manager net;
        std::mutex mut;
        std::vector<cbdc::buffer> got;
        auto t = net.start_cluster_handler(
            {o.m_watchtower_client_endpoints[0]},
            [&](cbdc::network::message_t&& p)
                -> std::optional<cbdc::buffer> {
                std::lock_guard<std::mutex> l(mut);
                got.push_back(*p.m_pkt);
                return std::nullopt;
            });
        PBT_CHECK(t.has_value(), "no connection to the watchtower");
        cbdc::network::connection_manager inner;
        PBT_CHECK(inner.cluster_connect({o.m_watchtower_internal_endpoints[0]}),
                  "no connection to the watchtower");
        // Each message is followed by a height request, whose answer shows
        // that it was dealt with.
        auto n = 4 + s.below(8);
        size_t good = 0;
        std::string err;
        static const auto ie = mk<std::vector<wt::tx_error>>("errors");
        static const auto ib = mk<at::block>("block");
        auto height = std::make_shared<cbdc::buffer>(
            cbdc::make_buffer(wt::request(wt::best_block_height_request{})));
        auto count = [&] {
            std::lock_guard<std::mutex> l(mut);
            return got.size();
        };
        for(u64 i = 0; i < n && err.empty(); i++) {
            auto in = fuzzed(s, rq);
            auto b = to_buf(in);
            auto d = cbdc::buffer_serializer(b);
            wt::request r(d);
            bool ok = static_cast<bool>(d);
            auto inside = fuzzed(s, ie);
            auto fromatm = fuzzed(s, ib);
            auto fb = to_buf(fromatm);
            if(!cbdc::from_buffer<at::block>(fb)) {
                atomizer.m_net.broadcast(std::make_shared<cbdc::buffer>(fb));
            }
            inner.broadcast(std::make_shared<cbdc::buffer>(to_buf(inside)));
            auto before = count();
            net.broadcast(std::make_shared<cbdc::buffer>(to_buf(in)));
            net.broadcast(height);
            auto want = before + (ok ? 2 : 1);
            good += ok ? 1 : 0;
            if(!wait_for([&] { return count() >= want; }, 15)) {
                err = pbt::fmt("%zu answers, expected %zu", count(), want);
            } else if(count() != want) {
                err = pbt::fmt("a request that does not decode is answered");
            } else {
                std::lock_guard<std::mutex> l(mut);
                for(auto j = before; j < want; j++) {
                    auto dd = cbdc::buffer_serializer(got[j]);
                    wt::response rr(dd);
                    auto bbh = j + 1 == want
                            || std::holds_alternative<
                                   wt::best_block_height_request>(r.payload());
                    if(!static_cast<bool>(dd)
                       || (rr.payload().index() == 1) != bbh) {
                        err = pbt::fmt("answer %zu is of the wrong kind", j);
                    }
                }
            }
        }
        s.note("%zu messages, %zu of which decode", (size_t)n, good);
        net.close();
        t->join();
        inner.close();
        c.reset();
        PBT_CHECK(err.empty(), "%s", err.c_str());
        if(good < n) {
            s.nontrivial();
        }
    }

    // What a watchtower client makes of a bad answer.
    void p_client(Src& s) {
        static const auto rs = mk<wt::response>("response");
        std::vector<vec> outs;
        auto n = 1 + s.below(5);
        for(u64 i = 0; i < n; i++) {
            outs.push_back(fuzzed(s, rs));
        }
        std::atomic<size_t> next{0};
        stub_server srv([&](auto&&) -> std::optional<cbdc::buffer> {
            return to_buf(outs[next++ % outs.size()]);
        });
        wt::blocking_client cl(srv.m_ep);
        PBT_CHECK(cl.init(), "no connection");
        size_t bad = 0;
        for(u64 i = 0; i < n; i++) {
            auto b = to_buf(outs[i]);
            auto d = cbdc::buffer_serializer(b);
            wt::response r(d);
            bool ok = static_cast<bool>(d);
            if(s.coin()) {
                auto x = cl.request_best_block_height();
                bool want = ok && r.payload().index() == 1;
                PBT_CHECK((x != nullptr) == want,
                          "height request: %d, answer good: %d",
                          x != nullptr,
                          want);
                if(want) {
                    PBT_CHECK(
                        x->height()
                            == std::get<wt::best_block_height_response>(
                                   r.payload())
                                   .height(),
                        "another height");
                }
                bad += want ? 0 : 1;
            } else {
                auto x = cl.request_status_update(
                    wt::status_update_request(wt::tx_id_uhs_ids{}));
                bool want = ok && r.payload().index() == 0;
                PBT_CHECK((x != nullptr) == want,
                          "status request: %d, answer good: %d",
                          x != nullptr,
                          want);
                bad += want ? 0 : 1;
            }
        }
        s.note("%zu answers, %zu bad", (size_t)n, bad);
        if(bad > 0) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    pbt::Check c;
    c.m_id = "C07";
    c.m_rule = "input rejected, or accepted although it is not the encoding "
               "of the decoded value; long inputs; at least one undecodable "
               "entry, message or answer, or a peer that announces more than "
               "it sends";
    c.m_assumptions = {
        "out of proportion: more than 8 MiB and 80 bytes for each input byte",
        "replication-log buffers are those of the stand-in for NuRaft"};
    c.m_props = {
        {"decoders", p_decode, 150000, 20000000},
        {"decoders, long inputs", p_large, 1500, 100000},
        {"RPC servers", p_servers, 25000, 2000000},
        {"replicated state machines", p_log, 3000, 200000},
        {"snapshots", p_snapshot, 8000, 1000000},
        {"raw TCP peers", p_tcp, 160, 5000, true},
        {"watchtower ports", p_watchtower, 40, 1500, true, 60},
        {"watchtower client", p_client, 160, 5000, true},
    };
    return pbt::run(argc, argv, c);
}
