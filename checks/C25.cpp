// TCP connections: framing, delivery, reconnection, shutting down.
#include "net.hpp"
#include "../lib/jit.hpp"
#include "util/network/peer.hpp"
#include "util/network/tcp_listener.hpp"
#include "util/network/tcp_socket.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/util.hpp"

#include <condition_variable>
#include <cstring>
#include <future>
#include <map>
#include <mutex>

using namespace vt;
namespace net = cbdc::network;
using vec = std::vector<uint8_t>;

namespace {
    jit::setting setting(Src& s, unsigned short_max = 200) {
        jit::setting j;
        if(s.chance(3, 4)) {
            j.m_wait = static_cast<unsigned>(s.below(256));
            j.m_lock = static_cast<unsigned>(s.below(64));
            j.m_io = static_cast<unsigned>(s.below(64));
            j.m_us = static_cast<unsigned>(s.pick(std::vector<u64>{50, 300,
                                                                   1500}));
        }
        j.m_short = s.coin() ? static_cast<unsigned>(s.below(short_max)) : 0;
        j.m_seed = s.u64v();
        return j;
    }

    // A message: tag, number, size, then bytes that follow from them.
    cbdc::buffer message(u64 tag, u64 seq, size_t size) {
        vec v(24 + size);
        u64 n = size;
        std::memcpy(v.data(), &tag, 8);
        std::memcpy(v.data() + 8, &seq, 8);
        std::memcpy(v.data() + 16, &n, 8);
        auto x = tag * 1000003 + seq * 7919 + 1;
        for(size_t i = 0; i < size; i++) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            v[24 + i] = static_cast<uint8_t>(x >> 56);
        }
        cbdc::buffer b;
        b.append(v.data(), v.size());
        return b;
    }
    struct head {
        u64 m_tag{};
        u64 m_seq{};
    };
    // The tag and number of a message, after checking that it is whole.
    head parse(const cbdc::buffer& b) {
        PBT_CHECK(b.size() >= 24, "a message of %zu bytes", b.size());
        u64 h[3];
        std::memcpy(h, b.data(), 24);
        PBT_CHECK(b.size() == 24 + h[2],
                  "message %zu of %zu has %zu bytes, not %zu",
                  (size_t)h[1],
                  (size_t)h[0],
                  b.size(),
                  (size_t)h[2] + 24);
        auto want = message(h[0], h[1], h[2]);
        PBT_CHECK(want == b,
                  "message %zu of %zu was changed",
                  (size_t)h[1],
                  (size_t)h[0]);
        return {h[0], h[1]};
    }
    size_t msg_size(Src& s) {
        switch(s.weighted({6, 3, 2, 1})) {
            case 0:
                return s.below(40);
            case 1:
                return s.below(3000);
            case 2:
                return s.range(4060, 4100);
            default:
                return s.below(300000);
        }
    }

    int raw_listen(unsigned short port) {
        auto fd = ::socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0
           || listen(fd, 16) != 0) {
            ::close(fd);
            throw pbt::Discard{};
        }
        return fd;
    }
    int raw_dial(unsigned short port) {
        auto fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if(::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0) {
            ::close(fd);
            return -1;
        }
        return fd;
    }
    bool raw_send(int fd, const void* p, size_t n) {
        auto c = static_cast<const char*>(p);
        while(n > 0) {
            auto r = ::send(fd, c, n, MSG_NOSIGNAL);
            if(r <= 0) {
                return false;
            }
            c += r;
            n -= static_cast<size_t>(r);
        }
        return true;
    }

    // One end made of raw bytes: what the socket writes is the size and the
    // message; what it reads is exactly the messages that came whole.
    void p_framing(Src& s) {
        auto port = free_port();
        std::vector<cbdc::buffer> msgs;
        vec wire;
        auto n = s.below(6);
        std::vector<size_t> ends;
        for(u64 i = 0; i < n; i++) {
            cbdc::buffer b;
            if(s.chance(1, 6)) {
                s.label("empty message");
            } else {
                b = message(1, i, msg_size(s));
            }
            u64 sz = b.size();
            auto at = wire.size();
            wire.resize(at + 8 + b.size());
            std::memcpy(wire.data() + at, &sz, 8);
            if(b.size() > 0) {
                std::memcpy(wire.data() + at + 8, b.data(), b.size());
            }
            ends.push_back(wire.size());
            msgs.push_back(std::move(b));
        }
        bool accepting = s.coin();
        bool sending = s.coin();
        auto cut = s.coin() ? wire.size() : s.below(wire.size() + 1);
        bool half = s.coin();
        auto j = setting(s, 256);
        auto chunk = s.pick(std::vector<u64>{1, 7, 100, 4096, 1U << 20});
        if(wire.size() > 20000) {
            chunk = std::max<u64>(chunk, 4096);
            j.m_us = std::min(j.m_us, 50U);
            j.m_short = std::min(j.m_short, 100U);
        }
        // The socket under test and the raw end.
        net::tcp_socket sock;
        net::tcp_listener lis;
        int raw = -1;
        if(accepting) {
            PBT_CHECK(lis.listen(net::localhost, port), "cannot listen");
            std::thread t([&] {
                raw = raw_dial(port);
            });
            auto ok = lis.accept(sock);
            t.join();
            PBT_CHECK(ok && raw >= 0, "not accepted");
        } else {
            auto l = raw_listen(port);
            auto ok = sock.connect(net::localhost, port);
            PBT_CHECK(ok, "not connected");
            PBT_CHECK(sock.connected(), "a connected socket says it is not");
            raw = ::accept(l, nullptr, nullptr);
            ::close(l);
        }
        s.note("%zu messages, %zu bytes, %s, %s, cut at %zu, chunks of %zu",
               (size_t)n,
               wire.size(),
               accepting ? "accepted" : "connected",
               sending ? "sending" : "receiving",
               (size_t)cut,
               (size_t)chunk);
        if(sending) {
            vec got;
            std::thread t([&] {
                vec buf(1U << 16);
                while(true) {
                    auto r = ::recv(raw, buf.data(), buf.size(), 0);
                    if(r <= 0) {
                        break;
                    }
                    got.insert(got.end(), buf.begin(), buf.begin() + r);
                }
            });
            bool ok = true;
            {
                jit::scope sc(j);
                for(auto& b : msgs) {
                    ok = ok && sock.send(b);
                }
            }
            sock.disconnect();
            t.join();
            ::close(raw);
            PBT_CHECK(ok, "sending on an open connection fails");
            PBT_CHECK(got == wire,
                      "the bytes on the wire are not the messages");
            PBT_CHECK(!sock.connected(), "connected after disconnect");
            if(n > 1) {
                s.nontrivial();
            }
            return;
        }
        std::thread t([&] {
            size_t at = 0;
            while(at < cut) {
                auto k = std::min<size_t>(chunk, cut - at);
                if(!raw_send(raw, wire.data() + at, k)) {
                    break;
                }
                at += k;
                if(chunk < 4096 && at % 64 == 0) {
                    std::this_thread::yield();
                }
            }
            if(half) {
                ::shutdown(raw, SHUT_WR);
            } else {
                ::close(raw);
            }
        });
        size_t whole = 0;
        while(whole < n && ends[whole] <= cut) {
            whole++;
        }
        std::vector<cbdc::buffer> got;
        bool more = true;
        {
            jit::scope sc(j);
            while(more && got.size() <= n) {
                cbdc::buffer b;
                // A used buffer is fine too.
                b.append(wire.data(), std::min<size_t>(wire.size(), 5));
                more = sock.receive(b);
                if(more) {
                    got.push_back(std::move(b));
                }
            }
        }
        t.join();
        sock.disconnect();
        if(half) {
            ::close(raw);
        }
        PBT_CHECK(got.size() == whole,
                  "%zu messages received, %zu came whole",
                  got.size(),
                  whole);
        for(size_t i = 0; i < whole; i++) {
            PBT_CHECK(got[i] == msgs[i], "message %zu was changed", i);
        }
        if(n > 1 && cut > 8) {
            s.nontrivial();
        }
        if(whole < n) {
            s.label("cut short");
        }
    }

    // What a server saw.
    struct seen {
        std::mutex m_mut;
        std::condition_variable m_cv;
        std::map<std::pair<size_t, u64>, std::vector<u64>> m_got;
        size_t m_n{0};
        std::string m_err;
        void add(size_t peer, const cbdc::buffer& b) {
            std::unique_lock<std::mutex> l(m_mut);
            try {
                auto h = parse(b);
                m_got[{peer, h.m_tag}].push_back(h.m_seq);
                m_n++;
            } catch(const pbt::Fail& e) {
                m_err = e.m_msg;
            }
            m_cv.notify_all();
        }
        bool wait(size_t n, double secs = 15) {
            std::unique_lock<std::mutex> l(m_mut);
            return m_cv.wait_for(l,
                                 std::chrono::duration<double>(secs),
                                 [&] {
                                     return m_n >= n || !m_err.empty();
                                 });
        }
        std::string err() {
            std::unique_lock<std::mutex> l(m_mut);
            return m_err;
        }
        size_t count() {
            std::unique_lock<std::mutex> l(m_mut);
            return m_n;
        }
        // The numbers of everything seen with a tag, whatever the peer id.
        std::vector<u64> tag(u64 t) {
            std::unique_lock<std::mutex> l(m_mut);
            std::vector<u64> r;
            for(auto& [k, v] : m_got) {
                if(k.second == t) {
                    r.insert(r.end(), v.begin(), v.end());
                }
            }
            return r;
        }
    };

    // Several servers and clients, messages in both directions, broadcasts
    // and answers.
    void p_delivery(Src& s) {
        auto ns = s.range(1, 3);
        auto nc = s.range(1, 4);
        auto j = setting(s, 100);
        j.m_us = std::min(j.m_us, 300U);
        struct server {
            seen m_seen;
            net::connection_manager m_net;
            std::thread m_t;
            net::endpoint_t m_ep;
        };
        struct client {
            seen m_seen;
            net::connection_manager m_net;
            std::thread m_t;
            std::vector<u64> m_next;
        };
        std::vector<std::unique_ptr<server>> srv;
        std::vector<std::unique_ptr<client>> cl;
        std::vector<net::endpoint_t> eps;
        struct guard {
            std::function<void()> m_f;
            ~guard() { m_f(); }
        } g{[&] {
            jit::off();
            for(auto& c : cl) {
                c->m_net.close();
                if(c->m_t.joinable()) {
                    c->m_t.join();
                }
            }
            for(auto& v : srv) {
                v->m_net.close();
                if(v->m_t.joinable()) {
                    v->m_t.join();
                }
            }
        }};
        // Every even message is answered with the same message, tag + 1000.
        for(u64 i = 0; i < ns; i++) {
            srv.push_back(std::make_unique<server>());
            auto* v = srv.back().get();
            v->m_ep = free_ep();
            auto t = v->m_net.start_server(
                v->m_ep,
                [v](net::message_t&& m) -> std::optional<cbdc::buffer> {
                    v->m_seen.add(m.m_peer_id, *m.m_pkt);
                    u64 h[3]{};
                    if(m.m_pkt->size() >= 24) {
                        std::memcpy(h, m.m_pkt->data(), 24);
                    }
                    if(h[1] % 2 == 0) {
                        return message(h[0] + 1000, h[1], h[2] % 5000);
                    }
                    return std::nullopt;
                });
            if(!t) {
                throw pbt::Discard{};
            }
            v->m_t = std::move(*t);
            eps.push_back(v->m_ep);
        }
        for(u64 i = 0; i < nc; i++) {
            cl.push_back(std::make_unique<client>());
            auto* c = cl.back().get();
            auto t = c->m_net.start_cluster_handler(
                eps,
                [c](net::message_t&& m) -> std::optional<cbdc::buffer> {
                    c->m_seen.add(m.m_peer_id, *m.m_pkt);
                    return std::nullopt;
                });
            PBT_CHECK(t.has_value(), "cannot connect to running servers");
            c->m_t = std::move(*t);
            c->m_next.resize(ns + 1);
            PBT_CHECK(c->m_net.peer_count() == ns, "peers of a client");
            for(u64 k = 0; k < ns; k++) {
                PBT_CHECK(c->m_net.connected(k), "peer %zu", (size_t)k);
            }
        }
        // Tags: client * 10 + connection; connection ns means a broadcast and
        // ns + 1 one sent to any.
        std::vector<std::vector<std::vector<u64>>> sent(
            nc,
            std::vector<std::vector<u64>>(ns + 2));
        auto ops = s.range(1, 30);
        bool par = s.coin();
        std::vector<std::vector<std::function<bool()>>> todo(nc);
        for(u64 i = 0; i < ops; i++) {
            auto c = s.below(nc);
            auto k = s.below(ns + 2);
            auto sz = s.chance(1, 8) ? msg_size(s) : s.below(200);
            auto seq = sent[c][k].size();
            sent[c][k].push_back(seq);
            auto b = std::make_shared<cbdc::buffer>(
                message(c * 10 + k, seq, sz));
            auto* cm = &cl[c]->m_net;
            todo[c].push_back([=] {
                if(k < ns) {
                    cm->send(b, k);
                } else if(k == ns) {
                    cm->broadcast(b);
                } else {
                    return cm->send_to_one(b);
                }
                return true;
            });
        }
        std::atomic<bool> refused{false};
        {
            jit::set(j);
            auto run = [&](size_t c) {
                for(auto& f : todo[c]) {
                    refused = refused || !f();
                }
            };
            if(par) {
                std::vector<std::thread> ts;
                for(size_t c = 0; c < nc; c++) {
                    ts.emplace_back(run, c);
                }
                for(auto& t : ts) {
                    t.join();
                }
            } else {
                for(size_t c = 0; c < nc; c++) {
                    run(c);
                }
            }
        }
        PBT_CHECK(!refused, "send_to_one with live connections refuses");
        // Wait for what must come.
        size_t to_any = 0;
        for(auto& c : sent) {
            to_any += c[ns + 1].size();
        }
        size_t direct = 0;
        size_t answers = 0;
        for(size_t c = 0; c < nc; c++) {
            size_t ans = 0;
            for(size_t k = 0; k < ns + 2; k++) {
                auto n = sent[c][k].size();
                auto even = (n + 1) / 2;
                direct += k == ns ? n * ns : n;
                ans += k == ns ? even * ns : even;
            }
            answers += ans;
            PBT_CHECK(cl[c]->m_seen.wait(ans) && cl[c]->m_seen.err().empty(),
                      "client %zu has %zu of %zu answers %s",
                      c,
                      cl[c]->m_seen.count(),
                      ans,
                      cl[c]->m_seen.err().c_str());
        }
        auto total = [&] {
            size_t n = 0;
            for(auto& v : srv) {
                n += v->m_seen.count();
            }
            return n;
        };
        PBT_CHECK(wait_for(
                      [&] {
                          return total() >= direct;
                      },
                      15),
                  "%zu of %zu messages arrived",
                  total(),
                  direct);
        jit::off();
        std::this_thread::sleep_for(std::chrono::milliseconds(2));
        PBT_CHECK(total() == direct, "%zu of %zu", total(), direct);
        // Now the contents.
        for(size_t k = 0; k < ns; k++) {
            PBT_CHECK(srv[k]->m_seen.err().empty(),
                      "%s",
                      srv[k]->m_seen.err().c_str());
            std::map<size_t, std::set<u64>> owner;
            for(auto& [key, v] : srv[k]->m_seen.m_got) {
                owner[key.first].insert(key.second / 10);
            }
            for(auto& [p, os] : owner) {
                PBT_CHECK(os.size() == 1,
                          "messages of two clients under one peer id");
            }
            for(size_t c = 0; c < nc; c++) {
                for(size_t o = 0; o < ns + 2; o++) {
                    auto got = srv[k]->m_seen.tag(c * 10 + o);
                    auto want = o == k || o == ns ? sent[c][o]
                                                  : std::vector<u64>{};
                    if(o == ns + 1) {
                        for(size_t i = 1; i < got.size(); i++) {
                            PBT_CHECK(got[i] > got[i - 1],
                                      "out of order: %zu after %zu",
                                      (size_t)got[i],
                                      (size_t)got[i - 1]);
                        }
                        continue;
                    }
                    PBT_CHECK(got == want,
                              "server %zu got %zu messages of client %zu to "
                              "%zu, %zu were sent, or in another order",
                              k,
                              got.size(),
                              c,
                              o,
                              want.size());
                }
            }
        }
        for(size_t c = 0; c < nc; c++) {
            auto any = std::vector<u64>();
            for(size_t k = 0; k < ns; k++) {
                auto g2 = srv[k]->m_seen.tag(c * 10 + ns + 1);
                any.insert(any.end(), g2.begin(), g2.end());
            }
            std::sort(any.begin(), any.end());
            PBT_CHECK(any == sent[c][ns + 1],
                      "%zu of %zu messages to any server arrived",
                      any.size(),
                      sent[c][ns + 1].size());
            PBT_CHECK(cl[c]->m_seen.count()
                          == [&] {
                                 size_t n = 0;
                                 for(auto& [key, v] : cl[c]->m_seen.m_got) {
                                     n += v.size();
                                 }
                                 return n;
                             }(),
                      "answers");
            for(auto& [key, v] : cl[c]->m_seen.m_got) {
                auto o = (key.second - 1000) % 10;
                PBT_CHECK(key.second >= 1000 && (key.second - 1000) / 10 == c,
                          "an answer to another client");
                PBT_CHECK(o >= ns || key.first == o,
                          "an answer from another connection");
                for(size_t i = 1; i < v.size(); i++) {
                    PBT_CHECK(v[i] > v[i - 1], "answers out of order");
                }
            }
        }
        s.note("%zu servers, %zu clients, %zu messages, %zu answers",
               (size_t)ns,
               (size_t)nc,
               direct,
               answers);
        if(direct > 3 && (ns > 1 || nc > 1)) {
            s.nontrivial();
        }
    }

    // A relay that cuts connections.
    struct relay {
        unsigned short m_port;
        unsigned short m_to;
        int m_lis;
        std::mutex m_mut;
        struct link {
            int m_a;
            int m_b;
            std::thread m_t[2];
        };
        std::vector<std::unique_ptr<link>> m_links;
        std::atomic<size_t> m_count{0};
        std::atomic<bool> m_stop{false};
        std::thread m_acc;
        explicit relay(unsigned short to) : m_port(free_port()), m_to(to) {
            m_lis = raw_listen(m_port);
            m_acc = std::thread([this] {
                while(!m_stop) {
                    auto a = ::accept(m_lis, nullptr, nullptr);
                    if(a < 0) {
                        break;
                    }
                    auto b = raw_dial(m_to);
                    if(b < 0) {
                        ::close(a);
                        continue;
                    }
                    std::unique_lock<std::mutex> l(m_mut);
                    auto k = std::make_unique<link>();
                    k->m_a = a;
                    k->m_b = b;
                    k->m_t[0] = std::thread(pump, a, b);
                    k->m_t[1] = std::thread(pump, b, a);
                    m_links.push_back(std::move(k));
                    m_count++;
                }
            });
        }
        static void pump(int from, int to) {
            vec buf(1U << 16);
            while(true) {
                auto r = ::recv(from, buf.data(), buf.size(), 0);
                if(r <= 0
                   || !raw_send(to, buf.data(), static_cast<size_t>(r))) {
                    break;
                }
            }
            ::shutdown(from, SHUT_RDWR);
            ::shutdown(to, SHUT_RDWR);
        }
        static void finish(link& k, bool rst) {
            if(rst) {
                linger lg{1, 0};
                setsockopt(k.m_a, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
            }
            ::shutdown(k.m_a, SHUT_RDWR);
            ::shutdown(k.m_b, SHUT_RDWR);
            k.m_t[0].join();
            k.m_t[1].join();
            ::close(k.m_a);
            ::close(k.m_b);
        }
        void cut(bool rst = false) {
            std::unique_lock<std::mutex> l(m_mut);
            for(auto& k : m_links) {
                finish(*k, rst);
            }
            m_links.clear();
        }
        ~relay() {
            m_stop = true;
            ::shutdown(m_lis, SHUT_RDWR);
            m_acc.join();
            ::close(m_lis);
            cut();
        }
    };

    // Connections that are cut: the client comes back by itself, once, and
    // what is sent over a standing connection arrives.
    void p_reconnect(Src& s) {
        seen sv;
        stub_server srv([&](net::message_t&& m) -> std::optional<cbdc::buffer> {
            sv.add(m.m_peer_id, *m.m_pkt);
            return std::nullopt;
        });
        relay r(srv.m_ep.second);
        auto j = setting(s, 60);
        net::connection_manager cm;
        struct guard {
            std::function<void()> m_f;
            ~guard() { m_f(); }
        } g{[&] {
            jit::off();
            cm.close();
        }};
        auto sock = std::make_unique<net::tcp_socket>();
        PBT_CHECK(sock->connect({net::localhost, r.m_port}), "not connected");
        auto id = cm.add(std::move(sock));
        u64 seq = 0;
        std::vector<u64> must;
        std::vector<u64> must_none;
        size_t cuts = 0;
        auto rounds = s.range(1, 4);
        jit::set(j);
        for(u64 i = 0; i < rounds; i++) {
            // Over a standing connection.
            PBT_CHECK(wait_for(
                          [&] {
                              return r.m_count == cuts + 1 && cm.connected(id);
                          },
                          12),
                      "not connected again after cut %zu (%zu connections)",
                      cuts,
                      (size_t)r.m_count);
            auto n = s.range(1, 6);
            std::vector<u64> now;
            for(u64 k = 0; k < n; k++) {
                now.push_back(seq);
                cm.send(std::make_shared<cbdc::buffer>(
                            message(5, seq++, s.below(500))),
                        id);
            }
            PBT_CHECK(wait_for(
                          [&] {
                              auto v = sv.tag(5);
                              return std::find(v.begin(), v.end(), now.back())
                                  != v.end();
                          },
                          12),
                      "message %zu sent over a standing connection did not "
                      "arrive (%zu connections, %zu cuts)",
                      (size_t)now.back(),
                      (size_t)r.m_count,
                      cuts);
            must.insert(must.end(), now.begin(), now.end());
            if(i + 1 == rounds && s.coin()) {
                break;
            }
            // Cut, perhaps in the middle of traffic.
            auto busy = s.below(8);
            bool rst = s.coin();
            auto wait = s.below(300);
            auto sz = s.pick(std::vector<u64>{10, 1000, 200000});
            std::thread t([&] {
                for(u64 k = 0; k < busy; k++) {
                    cm.send(std::make_shared<cbdc::buffer>(
                                message(5, seq++, sz)),
                            id);
                }
            });
            std::this_thread::sleep_for(std::chrono::microseconds(wait));
            r.cut(rst);
            t.join();
            cuts++;
            if(busy > 0) {
                s.label("cut in traffic");
            }
            s.nontrivial();
        }
        if(cuts > 0) {
            PBT_CHECK(wait_for(
                          [&] {
                              return r.m_count >= cuts + 1;
                          },
                          12),
                      "not connected again");
        }
        if(s.coin()) {
            // One that shall not come back.
            auto base = r.m_count.load();
            auto sk = std::make_unique<net::tcp_socket>();
            PBT_CHECK(sk->connect({net::localhost, r.m_port}), "connecting");
            auto id2 = cm.add(std::move(sk), false);
            PBT_CHECK(wait_for(
                          [&] {
                              return r.m_count == base + 1;
                          },
                          12)
                          && cm.connected(id2),
                      "second connection");
            r.cut(s.coin());
            cuts++;
            PBT_CHECK(wait_for(
                          [&] {
                              return r.m_count == base + 2
                                  && !cm.connected(id2) && cm.connected(id);
                          },
                          12),
                      "after a cut: %zu new connections, connected: %d and "
                      "%d",
                      (size_t)(r.m_count - base - 1),
                      cm.connected(id),
                      cm.connected(id2));
            std::this_thread::sleep_for(std::chrono::milliseconds(10));
            PBT_CHECK(r.m_count == base + 2, "it came back");
            cuts++; // its connection is not one of the first peer's
            s.label("not reconnecting");
        }
        // Nothing disturbs the last connection.
        std::this_thread::sleep_for(std::chrono::milliseconds(30));
        PBT_CHECK(r.m_count == cuts + 1,
                  "%zu cuts, %zu connections",
                  cuts,
                  (size_t)r.m_count);
        auto got = sv.tag(5);
        PBT_CHECK(sv.err().empty(), "%s", sv.err().c_str());
        std::set<u64> have;
        for(auto v : got) {
            PBT_CHECK(have.insert(v).second, "message %zu came twice", (size_t)v);
        }
        for(auto v : must) {
            PBT_CHECK(have.count(v) == 1, "message %zu is lost", (size_t)v);
        }
        for(auto& [k, v] : sv.m_got) {
            for(size_t i = 1; i < v.size(); i++) {
                PBT_CHECK(v[i] > v[i - 1],
                          "on one connection, %zu came after %zu",
                          (size_t)v[i],
                          (size_t)v[i - 1]);
            }
        }
        s.note("%zu cuts, %zu messages, %zu arrived",
               cuts,
               (size_t)seq,
               got.size());
    }

    // A server that comes up after its client, and one that is restarted.
    void p_late(Src& s) {
        auto port = free_port();
        seen sv;
        auto handler
            = [&](net::message_t&& m) -> std::optional<cbdc::buffer> {
            sv.add(m.m_peer_id, *m.m_pkt);
            return std::nullopt;
        };
        net::connection_manager cm;
        struct guard {
            net::connection_manager& m_cm;
            ~guard() { m_cm.close(); }
        } g{cm};
        bool early = s.coin();
        std::optional<net::connection_manager> srv;
        std::optional<std::thread> t;
        auto up = [&] {
            srv.emplace();
            t = srv->start_server({net::localhost, port}, handler);
            if(!t) {
                throw pbt::Discard{};
            }
        };
        auto down = [&] {
            srv->close();
            t->join();
            srv.reset();
        };
        u64 seq = 0;
        if(early) {
            up();
        }
        PBT_CHECK(cm.cluster_connect({{net::localhost, port}}, false),
                  "failure to connect is fatal although it should not be");
        PBT_CHECK(cm.peer_count() == 1, "no peer for a server that is down");
        PBT_CHECK(cm.connected(0) == early && cm.connected_to_one() == early,
                  "connected is %d",
                  cm.connected(0));
        auto rounds = s.range(1, 2);
        for(u64 i = 0; i < rounds; i++) {
            if(i > 0 || early) {
                if(i > 0 || s.coin()) {
                    down();
                    PBT_CHECK(wait_for(
                                  [&] {
                                      return !cm.connected(0);
                                  },
                                  10),
                              "connected to a server that is gone");
                    PBT_CHECK(!cm.send_to_one(std::make_shared<cbdc::buffer>(
                                  message(9, 0, 3))),
                              "sent to nobody");
                    std::this_thread::sleep_for(
                        std::chrono::milliseconds(s.below(50)));
                    up();
                    s.nontrivial();
                }
            } else {
                std::this_thread::sleep_for(
                    std::chrono::milliseconds(s.below(50)));
                up();
                s.nontrivial();
            }
            PBT_CHECK(wait_for(
                          [&] {
                              return cm.connected(0);
                          },
                          12),
                      "not connected although the server is up");
            PBT_CHECK(cm.send_to_one(std::make_shared<cbdc::buffer>(
                          message(5, seq, 30))),
                      "not sent to a connected peer");
            PBT_CHECK(sv.wait(static_cast<size_t>(seq) + 1, 10),
                      "message %zu did not arrive",
                      (size_t)seq);
            seq++;
        }
        auto got = sv.tag(5);
        PBT_CHECK(got.size() == seq && sv.count() == seq,
                  "%zu messages, %zu arrived",
                  (size_t)seq,
                  sv.count());
        cm.close();
        down();
        s.note("server %s first, %zu rounds",
               early ? "up" : "not up",
               (size_t)rounds);
    }

    // Everything can be closed at any moment, and what is closed stays
    // closed.
    void p_shutdown(Src& s) {
        auto j = setting(s, 30);
        auto port = free_port();
        auto n = s.range(1, 5);
        std::atomic<size_t> handled{0};
        auto srv = std::make_unique<net::connection_manager>();
        auto t = srv->start_server(
            {net::localhost, port},
            [&](net::message_t&& m) -> std::optional<cbdc::buffer> {
                handled++;
                return message(1, 1, m.m_pkt->size() % 50);
            });
        if(!t) {
            throw pbt::Discard{};
        }
        jit::scope sc(j);
        bool server_first = s.coin();
        auto d0 = s.below(3) == 0 ? s.below(2000) : s.below(100);
        std::vector<std::thread> ts;
        struct plan {
            u64 m_kind;
            u64 m_us;
            u64 m_msgs;
            bool m_hb;
        };
        std::vector<plan> ps;
        for(u64 i = 0; i < n; i++) {
            ps.push_back({s.below(3),
                          s.coin() ? 0 : s.below(400),
                          s.below(4),
                          s.coin()});
        }
        for(auto& p : ps) {
            ts.emplace_back([&, p] {
                auto sock = std::make_unique<net::tcp_socket>();
                auto ok = sock->connect(net::localhost, port);
                auto nap = [&] {
                    if(p.m_us > 0) {
                        std::this_thread::sleep_for(
                            std::chrono::microseconds(p.m_us));
                    }
                };
                auto b = std::make_shared<cbdc::buffer>(message(2, 2, 20));
                if(p.m_kind == 0) {
                    // A peer that goes at once or soon.
                    net::peer pe(
                        std::move(sock),
                        [](std::shared_ptr<cbdc::buffer>) {},
                        p.m_hb);
                    for(u64 i = 0; i < p.m_msgs; i++) {
                        pe.send(b);
                    }
                    nap();
                } else if(p.m_kind == 1) {
                    net::connection_manager cm;
                    auto h = cm.start_handler(
                        [](net::message_t&&) -> std::optional<cbdc::buffer> {
                            return std::nullopt;
                        });
                    if(ok) {
                        cm.add(std::move(sock), p.m_hb);
                    }
                    for(u64 i = 0; i < p.m_msgs; i++) {
                        cm.broadcast(b);
                    }
                    nap();
                    cm.close();
                    h.join();
                } else {
                    // Gone without a word.
                    nap();
                }
            });
        }
        auto stop = [&] {
            srv->close();
            t->join();
        };
        if(server_first) {
            if(d0 > 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(d0));
            }
            stop();
        }
        for(auto& x : ts) {
            x.join();
        }
        if(!server_first) {
            stop();
        }
        PBT_CHECK(srv->peer_count() == 0, "peers after closing");
        auto before = handled.load();
        srv->broadcast(
            std::make_shared<cbdc::buffer>(message(3, 3, 3)));
        PBT_CHECK(!srv->connected_to_one(), "connected after closing");
        PBT_CHECK(handled == before, "handler runs after closing");
        // Fresh again.
        if(s.coin()) {
            srv->reset();
            auto p2 = free_port();
            auto t2 = srv->start_server(
                {net::localhost, p2},
                [&](net::message_t&& m) -> std::optional<cbdc::buffer> {
                    return std::move(*m.m_pkt);
                });
            if(!t2) {
                throw pbt::Discard{};
            }
            jit::off();
            net::tcp_socket c;
            PBT_CHECK(c.connect(net::localhost, p2), "not connected");
            auto m = message(7, 8, s.below(100));
            PBT_CHECK(c.send(m), "not sent");
            cbdc::buffer r;
            auto f = std::async(std::launch::async, [&] {
                return c.receive(r);
            });
            auto st = f.wait_for(std::chrono::seconds(10));
            if(st != std::future_status::ready) {
                c.disconnect();
                srv->close();
                t2->join();
                PBT_CHECK(false, "no answer after a reset");
            }
            PBT_CHECK(f.get() && r == m, "another answer after a reset");
            srv->close();
            t2->join();
            s.label("reset");
        }
        s.note("%zu clients, server closes %s",
               (size_t)n,
               server_first ? "first" : "last");
        s.nontrivial();
    }

    // Connections come and go on one server while others stay: nothing
    // crosses from one to another.
    void p_churn(Src& s) {
        seen sv;
        std::mutex em;
        std::string err;
        stub_server srv([&](net::message_t&& m) -> std::optional<cbdc::buffer> {
            sv.add(m.m_peer_id, *m.m_pkt);
            try {
                auto h = parse(*m.m_pkt);
                return message(h.m_tag + 1, h.m_seq, 16);
            } catch(const pbt::Fail& e) {
                return std::nullopt;
            }
        });
        auto j = setting(s, 20);
        j.m_io = std::max(j.m_io, 100U);
        auto n = s.range(2, 6);
        std::vector<std::vector<std::tuple<u64, u64, bool>>> plan(n);
        for(auto& p : plan) {
            auto k = s.range(1, 5);
            for(u64 i = 0; i < k; i++) {
                p.emplace_back(s.range(1, 5), s.below(400), s.coin());
            }
        }
        auto fail = [&](const std::string& m) {
            std::unique_lock<std::mutex> l(em);
            if(err.empty()) {
                err = m;
            }
        };
        std::atomic<size_t> done{0};
        std::vector<std::thread> ts;
        {
            jit::scope sc(j);
            for(size_t c = 0; c < n; c++) {
                ts.emplace_back([&, c] {
                    for(size_t i = 0; i < plan[c].size(); i++) {
                        auto [msgs, us, polite] = plan[c][i];
                        auto tag = 100 * (c * 10 + i + 1);
                        net::connection_manager cm;
                        auto sock = std::make_unique<net::tcp_socket>();
                        if(!sock->connect(srv.m_ep)) {
                            fail("a running server refuses a connection");
                            return;
                        }
                        std::mutex gm;
                        std::vector<u64> got;
                        std::condition_variable cv;
                        auto h = cm.start_handler(
                            [&](net::message_t&& m)
                                -> std::optional<cbdc::buffer> {
                                std::unique_lock<std::mutex> l(gm);
                                try {
                                    auto x = parse(*m.m_pkt);
                                    if(x.m_tag != tag + 1) {
                                        fail("an answer meant for another "
                                             "connection");
                                    }
                                    got.push_back(x.m_seq);
                                } catch(const pbt::Fail& e) {
                                    fail(e.m_msg);
                                }
                                cv.notify_all();
                                return std::nullopt;
                            });
                        auto id = cm.add(std::move(sock), false);
                        for(u64 k = 0; k < msgs; k++) {
                            cm.send(std::make_shared<cbdc::buffer>(
                                        message(tag, k, 40)),
                                    id);
                        }
                        if(polite) {
                            std::unique_lock<std::mutex> l(gm);
                            if(!cv.wait_for(l, std::chrono::seconds(12), [&] {
                                   return got.size() >= msgs;
                               })) {
                                fail("an answer is missing");
                            }
                            for(size_t k = 0; k < got.size(); k++) {
                                if(got[k] != k) {
                                    fail("answers out of order");
                                }
                            }
                        } else {
                            std::this_thread::sleep_for(
                                std::chrono::microseconds(us));
                        }
                        cm.close();
                        h.join();
                        done++;
                    }
                });
            }
            for(auto& t : ts) {
                t.join();
            }
        }
        PBT_CHECK(err.empty(), "%s", err.c_str());
        PBT_CHECK(sv.err().empty(), "%s", sv.err().c_str());
        for(auto& [k, v] : sv.m_got) {
            for(size_t i = 0; i < v.size(); i++) {
                PBT_CHECK(v[i] == i, "message %zu came as %zu", (size_t)v[i], i);
            }
        }
        std::map<size_t, size_t> tags;
        for(auto& [k, v] : sv.m_got) {
            PBT_CHECK(++tags[k.first] == 1, "two connections, one peer id");
        }
        s.note("%zu clients, %zu connections", (size_t)n, (size_t)done);
        if(done > 3) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C25";
    c.m_rule = "two or more messages; several connections; a cut, late or "
               "restarted server; a shutdown";
    c.m_assumptions = {
        "loopback connections",
        "schedules are the scheduler's, widened by delays before waits, "
        "locks and socket calls and by short reads and writes"};
    c.m_props = {
        {"framing", p_framing, 20000, 200000, true},
        {"delivery", p_delivery, 800, 20000, true, 60},
        {"reconnection", p_reconnect, 800, 8000, true, 60},
        {"late and restarted servers", p_late, 32, 800, true, 60, 16},
        {"shutting down", p_shutdown, 8000, 60000, true, 30},
        {"churn", p_churn, 600, 8000, true, 60},
    };
    return pbt::run(argc, argv, c);
}
