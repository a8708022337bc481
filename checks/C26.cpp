// Remote calls: concurrent callers, scripted and real servers.
#include "net.hpp"
#include "../lib/jit.hpp"
#include "util/rpc/async_server.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"

#include <future>
#include <map>
#include <mutex>

using namespace vt;
namespace net = cbdc::network;

namespace {
    // Request: who calls, which call, some bytes. The answer follows from it.
    struct req {
        u64 m_who{};
        u64 m_n{};
        cbdc::buffer m_data;
    };
    struct res {
        u64 m_who{};
        u64 m_n{};
        u64 m_server{};
        cbdc::buffer m_data;
    };
}
namespace cbdc {
    serializer& operator<<(serializer& s, const req& r) {
        return s << r.m_who << r.m_n << r.m_data;
    }
    serializer& operator>>(serializer& s, req& r) {
        return s >> r.m_who >> r.m_n >> r.m_data;
    }
    serializer& operator<<(serializer& s, const res& r) {
        return s << r.m_who << r.m_n << r.m_server << r.m_data;
    }
    serializer& operator>>(serializer& s, res& r) {
        return s >> r.m_who >> r.m_n >> r.m_server >> r.m_data;
    }
}
namespace {
    using client_t = cbdc::rpc::tcp_client<req, res>;
    using key = std::pair<u64, u64>;

    cbdc::buffer data(u64 who, u64 n, size_t size) {
        cbdc::buffer b;
        auto x = who * 77 + n + 1;
        for(size_t i = 0; i < size; i++) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            auto c = static_cast<uint8_t>(x >> 56);
            b.append(&c, 1);
        }
        return b;
    }
    bool answers_nothing(const key& k) {
        return (k.first * 31 + k.second) % 7 == 3;
    }
    res answer(const req& r, u64 server) {
        return {r.m_who, r.m_n, server, r.m_data};
    }

    jit::setting setting(Src& s) {
        jit::setting j;
        if(s.chance(3, 4)) {
            j.m_wait = static_cast<unsigned>(s.below(200));
            j.m_lock = static_cast<unsigned>(s.below(64));
            j.m_io = static_cast<unsigned>(s.below(64));
            j.m_us = static_cast<unsigned>(s.pick(std::vector<u64>{50, 300}));
        }
        j.m_short = s.coin() ? static_cast<unsigned>(s.below(40)) : 0;
        j.m_seed = s.u64v();
        return j;
    }

    struct log_t {
        std::mutex m_mut;
        std::map<key, size_t> m_calls;
        std::string m_err;
        void add(const req& r) {
            std::unique_lock<std::mutex> l(m_mut);
            m_calls[{r.m_who, r.m_n}]++;
            if(!(data(r.m_who, r.m_n, r.m_data.size()) == r.m_data)) {
                m_err = "the server got other bytes than were sent";
            }
        }
        void bad(const std::string& e) {
            std::unique_lock<std::mutex> l(m_mut);
            if(m_err.empty()) {
                m_err = e;
            }
        }
    };

    // One call made by a thread of a client.
    struct op {
        u64 m_n{};
        bool m_async{};
        size_t m_size{};
    };

    // What a call got.
    struct outcome {
        std::atomic<size_t> m_times{0};
        std::atomic<bool> m_sent{false};
        std::mutex m_mut;
        std::optional<res> m_res;
        bool m_done{false};
    };

    std::string judge(const key& k, const op& o, const std::optional<res>& r) {
        if(answers_nothing(k)) {
            return r ? "an answer where the server had none" : "";
        }
        if(!r) {
            return "no answer";
        }
        if(r->m_who != k.first || r->m_n != k.second) {
            return pbt::fmt("the answer of call %zu of %zu to call %zu of "
                            "%zu",
                            (size_t)r->m_n,
                            (size_t)r->m_who,
                            (size_t)k.second,
                            (size_t)k.first);
        }
        if(!(r->m_data == data(k.first, k.second, o.m_size))) {
            return "another answer";
        }
        return "";
    }

    // Real servers: every call succeeds, whatever the concurrency.
    void p_calls(Src& s) {
        auto kind = s.below(3); // blocking, async at once, async later
        auto ns = s.range(1, 3);
        auto nc = s.range(1, 3);
        auto nt = s.range(1, 3);
        auto j = setting(s);
        log_t lg;
        // Deferred answers, given by other threads in any order.
        std::mutex dm;
        std::condition_variable dcv;
        std::vector<std::pair<req, std::function<void(std::optional<res>)>>>
            later;
        bool stop = false;
        std::vector<std::shared_ptr<void>> srv;
        std::vector<net::endpoint_t> eps;
        // Which requests the server says it cannot take.
        auto refuses = [](const key& k) {
            return (k.first * 13 + k.second) % 11 == 5;
        };
        for(u64 i = 0; i < ns; i++) {
            auto ep = free_ep();
            eps.push_back(ep);
            if(kind == 0) {
                auto v = std::make_shared<
                    cbdc::rpc::blocking_tcp_server<req, res>>(ep);
                v->register_handler_callback(
                    [&, i](const req& r) -> std::optional<res> {
                        lg.add(r);
                        if(answers_nothing({r.m_who, r.m_n})) {
                            return std::nullopt;
                        }
                        return answer(r, i);
                    });
                if(!v->init()) {
                    throw pbt::Discard{};
                }
                srv.push_back(v);
            } else {
                auto v
                    = std::make_shared<cbdc::rpc::async_tcp_server<req, res>>(
                        ep);
                v->register_handler_callback(
                    [&, i](req r, std::function<void(std::optional<res>)> cb) {
                        lg.add(r);
                        key k{r.m_who, r.m_n};
                        if(kind == 2 && refuses(k)) {
                            return false;
                        }
                        if(kind == 1) {
                            if(answers_nothing(k)) {
                                cb(std::nullopt);
                            } else {
                                cb(answer(r, i));
                            }
                        } else {
                            std::unique_lock<std::mutex> l(dm);
                            later.emplace_back(std::move(r), std::move(cb));
                            dcv.notify_one();
                        }
                        return true;
                    });
                if(!v->init()) {
                    throw pbt::Discard{};
                }
                srv.push_back(v);
            }
        }
        std::vector<std::thread> workers;
        auto order = s.u64v();
        for(int w = 0; kind == 2 && w < 2; w++) {
            workers.emplace_back([&, x = order + static_cast<u64>(w)]() mutable {
                while(true) {
                    std::unique_lock<std::mutex> l(dm);
                    dcv.wait(l, [&] {
                        return stop || !later.empty();
                    });
                    if(later.empty()) {
                        return;
                    }
                    x = x * 6364136223846793005ULL + 1;
                    auto at = (x >> 33) % later.size();
                    auto [r, cb] = std::move(later[at]);
                    later.erase(later.begin() + static_cast<long>(at));
                    l.unlock();
                    if(answers_nothing({r.m_who, r.m_n})) {
                        cb(std::nullopt);
                    } else {
                        cb(answer(r, 0));
                    }
                }
            });
        }
        std::vector<std::unique_ptr<client_t>> cl;
        struct guard {
            std::function<void()> m_f;
            ~guard() { m_f(); }
        } g{[&] {
            jit::off();
            cl.clear();
            {
                std::unique_lock<std::mutex> l(dm);
                stop = true;
                dcv.notify_all();
            }
            for(auto& w : workers) {
                w.join();
            }
            srv.clear();
        }};
        for(u64 c = 0; c < nc; c++) {
            cl.push_back(std::make_unique<client_t>(eps));
            PBT_CHECK(cl.back()->init(), "no client");
        }
        std::vector<std::vector<std::vector<op>>> plan(
            nc,
            std::vector<std::vector<op>>(nt));
        size_t total = 0;
        u64 next = 0;
        for(auto& c : plan) {
            for(auto& t : c) {
                auto n = s.range(1, 8);
                for(u64 i = 0; i < n; i++) {
                    t.push_back({next++,
                                 s.coin(),
                                 s.chance(1, 12) ? 5000 + s.below(60000)
                                                 : s.below(60)});
                    total++;
                }
            }
        }
        auto timeout = s.coin() ? std::chrono::milliseconds(30000)
                                : std::chrono::milliseconds(0);
        std::vector<outcome> out(total);
        std::map<u64, key> where;
        jit::set(j);
        std::vector<std::thread> ts;
        for(u64 c = 0; c < nc; c++) {
            for(u64 t = 0; t < nt; t++) {
                ts.emplace_back([&, c, t] {
                    for(auto& o : plan[c][t]) {
                        auto* r = &out[o.m_n];
                        req q{c, o.m_n, data(c, o.m_n, o.m_size)};
                        if(o.m_async) {
                            r->m_sent = cl[c]->call(
                                q,
                                [r](std::optional<res> x) {
                                    std::unique_lock<std::mutex> l(r->m_mut);
                                    r->m_res = std::move(x);
                                    r->m_done = true;
                                    r->m_times++;
                                });
                        } else {
                            auto x = cl[c]->call(q, timeout);
                            std::unique_lock<std::mutex> l(r->m_mut);
                            r->m_sent = true;
                            r->m_res = std::move(x);
                            r->m_done = true;
                            r->m_times++;
                        }
                    }
                });
            }
        }
        for(auto& t : ts) {
            t.join();
        }
        PBT_CHECK(wait_for(
                      [&] {
                          for(auto& o : out) {
                              if(o.m_times == 0) {
                                  return false;
                              }
                          }
                          return true;
                      },
                      15),
                  "an asynchronous call is not answered");
        jit::off();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        PBT_CHECK(lg.m_err.empty(), "%s", lg.m_err.c_str());
        for(u64 c = 0; c < nc; c++) {
            for(auto& t : plan[c]) {
                for(auto& o : t) {
                    auto& r = out[o.m_n];
                    key k{c, o.m_n};
                    std::unique_lock<std::mutex> l(r.m_mut);
                    PBT_CHECK(r.m_sent, "a live connection refuses a call");
                    PBT_CHECK(r.m_times == 1,
                              "a callback ran %zu times",
                              (size_t)r.m_times);
                    if(kind == 2 && refuses(k)) {
                        PBT_CHECK(!r.m_res, "an answer to a refused request");
                    } else {
                        auto e = judge(k, o, r.m_res);
                        PBT_CHECK(e.empty(), "%s", e.c_str());
                    }
                    PBT_CHECK(lg.m_calls[k] == 1,
                              "the server handled a request %zu times",
                              lg.m_calls[k]);
                }
            }
        }
        s.note("%s, %zu servers, %zu clients of %zu threads, %zu calls",
               kind == 0   ? "blocking"
               : kind == 1 ? "asynchronous"
                           : "deferred",
               (size_t)ns,
               (size_t)nc,
               (size_t)nt,
               total);
        if(total > 3 && nc * nt > 1) {
            s.nontrivial();
        }
    }

    // A server that follows a script: answers late, twice, in another order,
    // with rubbish, to nobody, or not at all; and a client that gives up.
    void p_script(Src& s) {
        enum act : u64 {
            now,
            hold,
            twice,
            never,
            rubbish,
            unknown,
            empty
        };
        struct step {
            act m_act;
            u64 m_size;
        };
        auto n = s.range(1, 8);
        std::vector<step> script;
        for(u64 i = 0; i < n; i++) {
            script.push_back(
                {static_cast<act>(s.weighted({4, 5, 2, 2, 2, 2, 1})),
                 s.below(100)});
        }
        bool lifo = s.coin();
        auto j = setting(s);
        using rq = cbdc::rpc::request<req>;
        using rs = cbdc::rpc::response<res>;
        std::mutex m;
        std::vector<std::pair<cbdc::buffer, net::peer_id_t>> held;
        std::map<u64, size_t> handled;
        std::string err;
        net::connection_manager* out = nullptr;
        std::atomic<size_t> seen{0};
        stub_server srv([&](net::message_t&& msg)
                            -> std::optional<cbdc::buffer> {
            std::unique_lock<std::mutex> l(m);
            auto r = cbdc::from_buffer<rq>(*msg.m_pkt);
            if(!r) {
                err = "a request does not decode";
                return std::nullopt;
            }
            auto i = r->m_payload.m_n;
            if(i >= script.size()) {
                err = "an unknown request";
                return std::nullopt;
            }
            handled[i]++;
            seen++;
            auto a = cbdc::make_buffer(
                rs{r->m_header, answer(r->m_payload, 1)});
            auto post = [&](const cbdc::buffer& b) {
                out->send(std::make_shared<cbdc::buffer>(b), msg.m_peer_id);
            };
            switch(script[i].m_act) {
                case now:
                    return a;
                case hold:
                    held.emplace_back(a, msg.m_peer_id);
                    return std::nullopt;
                case twice:
                    post(a);
                    return a;
                case never:
                    return std::nullopt;
                case rubbish: {
                    cbdc::buffer b;
                    b.append(a.data(), a.size() * script[i].m_size / 128);
                    post(b);
                    return a;
                }
                case unknown: {
                    auto h = r->m_header;
                    h.m_request_id += 100000;
                    post(cbdc::make_buffer(rs{h, answer(r->m_payload, 2)}));
                    return a;
                }
                default:
                    return cbdc::make_buffer(rs{r->m_header, std::nullopt});
            }
        });
        out = &srv.m_net;
        auto cl = std::make_unique<client_t>(
            std::vector<net::endpoint_t>{srv.m_ep});
        PBT_CHECK(cl->init(), "no client");
        struct call_t {
            u64 m_kind{}; // waits, gives up, asynchronous
            std::thread m_t;
            std::atomic<size_t> m_times{0};
            std::mutex m_mut;
            std::optional<res> m_res;
            std::atomic<bool> m_refused{false};
        };
        std::vector<std::unique_ptr<call_t>> calls;
        bool any_hold = false;
        for(u64 i = 0; i < n; i++) {
            calls.push_back(std::make_unique<call_t>());
            calls.back()->m_kind = s.below(3);
            any_hold = any_hold || script[i].m_act == hold;
        }
        auto giveup = std::chrono::milliseconds(
            s.pick(std::vector<u64>{1, 5, 30}));
        jit::set(j);
        struct guard {
            std::function<void()> m_f;
            ~guard() { m_f(); }
        } g{[&] {
            jit::off();
            cl.reset();
            for(auto& c : calls) {
                if(c->m_t.joinable()) {
                    c->m_t.join();
                }
            }
        }};
        for(u64 i = 0; i < n; i++) {
            auto* c = calls[i].get();
            c->m_t = std::thread([&, c, i, pcl = cl.get()] {
                req q{3, i, data(3, i, script[i].m_size)};
                if(c->m_kind == 2) {
                    auto ok = pcl->call(q, [c](std::optional<res> r) {
                        std::unique_lock<std::mutex> l(c->m_mut);
                        c->m_res = std::move(r);
                        c->m_times++;
                    });
                    c->m_refused = !ok;
                } else {
                    auto r = pcl->call(q,
                                       c->m_kind == 1
                                           ? giveup
                                           : std::chrono::milliseconds(0));
                    std::unique_lock<std::mutex> l(c->m_mut);
                    c->m_res = std::move(r);
                    c->m_times++;
                }
            });
        }
        PBT_CHECK(wait_for(
                      [&] {
                          return seen >= n;
                      },
                      12),
                  "%zu of %zu requests arrived",
                  (size_t)seen,
                  (size_t)n);
        // Now the held answers, in some order.
        if(s.coin()) {
            std::this_thread::sleep_for(
                std::chrono::microseconds(s.below(3000)));
        }
        {
            std::unique_lock<std::mutex> l(m);
            if(lifo) {
                std::reverse(held.begin(), held.end());
            }
            for(auto& [b, p] : held) {
                srv.m_net.send(std::make_shared<cbdc::buffer>(b), p);
            }
        }
        auto answered = [&](u64 i) {
            return script[i].m_act != never;
        };
        PBT_CHECK(wait_for(
                      [&] {
                          for(u64 i = 0; i < n; i++) {
                              if(calls[i]->m_times == 0 && !calls[i]->m_refused
                                 && (answered(i) || calls[i]->m_kind == 1)) {
                                  return false;
                              }
                          }
                          return true;
                      },
                      12),
                  "a call hangs although its answer was sent or its time is "
                  "over");
        jit::off();
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
        auto check = [&](bool over) {
            for(u64 i = 0; i < n; i++) {
                auto& c = *calls[i];
                std::unique_lock<std::mutex> l(c.m_mut);
                PBT_CHECK(!c.m_refused, "a live connection refuses a call");
                if(!answered(i) && c.m_kind == 0 && !over) {
                    PBT_CHECK(c.m_times == 0,
                              "a call without time limit returned before its "
                              "answer");
                    continue;
                }
                if(!answered(i) && c.m_kind == 2) {
                    PBT_CHECK(c.m_times <= (over ? 1 : 0),
                              "a callback ran without an answer");
                    PBT_CHECK(!c.m_res, "an answer out of nothing");
                    continue;
                }
                PBT_CHECK(c.m_times == 1,
                          "call %zu completed %zu times",
                          (size_t)i,
                          (size_t)c.m_times);
                if(!c.m_res) {
                    PBT_CHECK(c.m_kind == 1 || !answered(i)
                                  || script[i].m_act == empty,
                              "call %zu failed although it was answered",
                              (size_t)i);
                    continue;
                }
                PBT_CHECK(answered(i) && script[i].m_act != empty,
                          "an answer out of nothing");
                PBT_CHECK(
                    c.m_res->m_who == 3 && c.m_res->m_n == i
                        && c.m_res->m_server == 1
                        && c.m_res->m_data == data(3, i, script[i].m_size),
                    "call %zu got another answer",
                    (size_t)i);
            }
        };
        check(false);
        // The client goes: nobody waits any longer.
        cl.reset();
        for(auto& c : calls) {
            c->m_t.join();
        }
        check(true);
        PBT_CHECK(err.empty(), "%s", err.c_str());
        for(u64 i = 0; i < n; i++) {
            PBT_CHECK(handled[i] == 1, "a request arrived %zu times", handled[i]);
            static const char* names[] = {"at once",
                                          "held back",
                                          "twice",
                                          "never",
                                          "after rubbish",
                                          "after an unknown one",
                                          "empty"};
            s.note("call %zu %s: answered %s",
                   (size_t)i,
                   calls[i]->m_kind == 0   ? "waits"
                   : calls[i]->m_kind == 1 ? "with a time limit"
                                           : "asynchronous",
                   names[script[i].m_act]);
        }
        if(n > 1) {
            s.nontrivial();
        }
    }

    // Servers that go away: a call either got its own answer or failed; what
    // is sent when nobody is connected fails at once; other servers take
    // over.
    void p_loss(Src& s) {
        auto ns = s.range(1, 3);
        auto j = setting(s);
        log_t lg;
        std::vector<
            std::unique_ptr<cbdc::rpc::blocking_tcp_server<req, res>>>
            srv;
        std::vector<net::endpoint_t> eps;
        auto up = [&](u64 i) {
            srv[i] = std::make_unique<
                cbdc::rpc::blocking_tcp_server<req, res>>(eps[i]);
            srv[i]->register_handler_callback(
                [&, i](const req& r) -> std::optional<res> {
                    lg.add(r);
                    return answer(r, i);
                });
            if(!srv[i]->init()) {
                throw pbt::Discard{};
            }
        };
        srv.resize(ns);
        for(u64 i = 0; i < ns; i++) {
            eps.push_back(free_ep());
            up(i);
        }
        auto cl = std::make_unique<client_t>(eps);
        PBT_CHECK(cl->init(), "no client");
        auto limit = std::chrono::milliseconds(200);
        jit::scope sc(j);
        size_t live = ns;
        u64 n = 0;
        size_t ok = 0;
        size_t failed = 0;
        auto steps = s.range(1, 8);
        for(u64 k = 0; k < steps; k++) {
            if(live > 0 && s.chance(1, 3)) {
                std::vector<u64> alive;
                for(u64 i = 0; i < ns; i++) {
                    if(srv[i]) {
                        alive.push_back(i);
                    }
                }
                auto i = s.pick(alive);
                bool during = s.coin();
                if(during) {
                    // Calls race with the server's end.
                    auto m = s.range(1, 3);
                    std::vector<std::optional<res>> got(m);
                    std::vector<std::thread> ts;
                    for(u64 c = 0; c < m; c++) {
                        ts.emplace_back([&, c, id = n + c] {
                            got[c] = cl->call({9, id, data(9, id, 20)}, limit);
                        });
                    }
                    srv[i].reset();
                    for(auto& t : ts) {
                        t.join();
                    }
                    for(u64 c = 0; c < m; c++) {
                        if(got[c]) {
                            PBT_CHECK(got[c]->m_who == 9
                                          && got[c]->m_n == n + c
                                          && got[c]->m_data
                                                 == data(9, n + c, 20),
                                      "another call's answer");
                            ok++;
                        } else {
                            failed++;
                        }
                    }
                    n += m;
                    s.label("calls while a server goes");
                } else {
                    srv[i].reset();
                }
                live--;
                // The client notices.
                if(live > 0) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(60));
                } else {
                    PBT_CHECK(wait_for(
                                  [&] {
                                      auto id = n++;
                                      return !cl->call(
                                          {9, id, data(9, id, 5)},
                                          [](std::optional<res>) {});
                                  },
                                  15),
                              "calls are sent although every server is gone");
                    auto t0 = std::chrono::steady_clock::now();
                    auto id = n++;
                    auto r = cl->call({9, id, data(9, id, 5)},
                                      std::chrono::seconds(18));
                    PBT_CHECK(!r, "an answer from nobody");
                    PBT_CHECK(std::chrono::steady_clock::now() - t0
                                  < std::chrono::seconds(12),
                              "a call that cannot be sent does not fail");
                }
                s.nontrivial();
                continue;
            }
            if(s.coin()) {
                auto r = cl->call({9, n, data(9, n, 30)}, limit);
                PBT_CHECK(live > 0 || !r, "an answer from nobody");
                if(r) {
                    PBT_CHECK(r->m_who == 9 && r->m_n == n
                                  && srv[r->m_server] != nullptr,
                              "another call's answer");
                    ok++;
                } else {
                    failed++;
                }
            } else {
                auto times = std::make_shared<std::atomic<size_t>>(0);
                auto mine = std::make_shared<std::atomic<bool>>(true);
                auto sent = cl->call({9, n, data(9, n, 30)},
                                     [=](std::optional<res> r) {
                                         (*times)++;
                                         if(!r || r->m_n != n) {
                                             *mine = false;
                                         }
                                     });
                auto done = wait_for(
                    [&] {
                        return *times > 0;
                    },
                    sent && live > 0 ? 0.5 : 0.002);
                PBT_CHECK(*times <= 1 && *mine, "another call's answer");
                PBT_CHECK(sent || *times == 0,
                          "a callback of a call that was not sent");
                PBT_CHECK(live > 0 || !done, "an answer from nobody");
                done ? ok++ : failed++;
            }
            n++;
        }
        cl.reset();
        PBT_CHECK(lg.m_err.empty(), "%s", lg.m_err.c_str());
        for(auto& [k, c] : lg.m_calls) {
            PBT_CHECK(c == 1, "a request handled %zu times", c);
        }
        s.note("%zu servers, %zu left, %zu calls answered, %zu failed",
               (size_t)ns,
               live,
               ok,
               failed);
    }

    // A client that goes while calls are under way.
    void p_destroy(Src& s) {
        auto j = setting(s);
        auto delay = s.below(3000);
        auto ep = free_ep();
        cbdc::rpc::async_tcp_server<req, res> srv(ep);
        std::mutex m;
        std::vector<std::function<void()>> later;
        std::vector<bool> act;
        for(int i = 0; i < 8; i++) {
            act.push_back(s.coin());
        }
        srv.register_handler_callback(
            [&](req r, std::function<void(std::optional<res>)> cb) {
                if(act[r.m_n]) {
                    cb(answer(r, 0));
                } else {
                    std::unique_lock<std::mutex> l(m);
                    later.emplace_back([=] {
                        cb(answer(r, 0));
                    });
                }
                return true;
            });
        if(!srv.init()) {
            throw pbt::Discard{};
        }
        auto n = s.range(1, 8);
        std::vector<u64> kinds;
        for(u64 i = 0; i < n; i++) {
            kinds.push_back(s.below(2));
        }
        auto done = std::make_shared<std::vector<std::atomic<size_t>>>(n);
        auto bad = std::make_shared<std::atomic<bool>>(false);
        std::atomic<size_t> started{0};
        std::vector<std::thread> ts;
        jit::scope sc(j);
        struct joiner {
            std::thread m_t;
            ~joiner() {
                if(m_t.joinable()) {
                    m_t.join();
                }
            }
        } ans;
        {
            client_t cl({ep});
            PBT_CHECK(cl.init(), "no client");
            for(u64 i = 0; i < n; i++) {
                if(kinds[i] == 0) {
                    ts.emplace_back([&, i, done, bad] {
                        // The call itself begins before the client goes.
                        auto f = [&] {
                            return cl.call({1, i, data(1, i, 9)});
                        };
                        auto r = f();
                        if(r && r->m_n != i) {
                            *bad = true;
                        }
                        (*done)[i]++;
                    });
                    started++;
                } else {
                    cl.call({1, i, data(1, i, 9)},
                            [=](std::optional<res> r) {
                                if(r && r->m_n != i) {
                                    *bad = true;
                                }
                                (*done)[i]++;
                            });
                }
            }
            // Every call is with the server.
            auto want = static_cast<size_t>(
                std::count(act.begin(), act.begin() + static_cast<long>(n), false));
            PBT_CHECK(wait_for(
                          [&] {
                              std::unique_lock<std::mutex> l(m);
                              if(later.size() < want) {
                                  return false;
                              }
                              for(u64 i = 0; i < n; i++) {
                                  if(act[i] && (*done)[i] == 0) {
                                      return false;
                                  }
                              }
                              return true;
                          },
                          12),
                      "a call is not answered");
            ans.m_t = std::thread([&] {
                std::unique_lock<std::mutex> l(m);
                for(auto& f : later) {
                    f();
                }
            });
            if(s.coin()) {
                std::this_thread::sleep_for(std::chrono::microseconds(delay));
            } else {
                ans.m_t.join();
            }
        }
        if(ans.m_t.joinable()) {
            ans.m_t.join();
        }
        // The client is gone: nobody waits, and nothing runs any more.
        for(auto& t : ts) {
            t.join();
        }
        std::vector<size_t> before;
        for(auto& d : *done) {
            before.push_back(d);
        }
        {
            std::unique_lock<std::mutex> l(m);
            for(auto& f : later) {
                f();
            }
        }
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        PBT_CHECK(!*bad, "another call's answer");
        for(u64 i = 0; i < n; i++) {
            PBT_CHECK((*done)[i] <= 1, "call %zu completed twice", (size_t)i);
            PBT_CHECK((*done)[i] == before[i],
                      "a callback after its client was gone");
            PBT_CHECK(!act[i] || (*done)[i] == 1, "an answered call is lost");
            PBT_CHECK(kinds[i] == 1 || (*done)[i] == 1, "a caller hangs");
        }
        s.note("%zu calls, client gone", (size_t)n);
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C26";
    c.m_rule = "several calls at once; scripted answers; a server or the "
               "client goes";
    c.m_assumptions = {
        "loopback connections",
        "schedules are the scheduler's, widened by delays before waits, "
        "locks and socket calls and by short reads and writes"};
    c.m_props = {
        {"concurrent calls", p_calls, 700, 30000, true, 60},
        {"scripted servers", p_script, 1200, 60000, true, 60},
        {"lost servers", p_loss, 240, 8000, true, 60, 16},
        {"lost clients", p_destroy, 1500, 60000, true, 60},
    };
    return pbt::run(argc, argv, c);
}
