// Ticket numbers are unique: threads on the machine, its replicated state
// machine, and caching clients fetching batches over real connections.
#include "common.hpp"
#include "parsec/ticket_machine/client.hpp"
#include "parsec/ticket_machine/impl.hpp"
#include "parsec/ticket_machine/state_machine.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/blocking_server.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"

#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>

#include <tuple>
using namespace vt;
namespace tmm = cbdc::parsec::ticket_machine;
using rng_t = tmm::interface::ticket_number_range_type;

namespace {
    void disjoint(std::vector<rng_t> v) {
        std::sort(v.begin(), v.end());
        for(size_t i = 0; i < v.size(); i++) {
            PBT_CHECK(v[i].first < v[i].second, "empty range %llu-%llu", (unsigned long long)v[i].first, (unsigned long long)v[i].second);
            if(i > 0) {
                PBT_CHECK(v[i - 1].second <= v[i].first, "ranges %llu-%llu and %llu-%llu share numbers",
                          (unsigned long long)v[i - 1].first, (unsigned long long)v[i - 1].second,
                          (unsigned long long)v[i].first, (unsigned long long)v[i].second);
            }
        }
    }

    // Threads on one machine.
    void threads(Src& s) {
        const auto range = 1 + s.size(3000);
        const auto nt = s.range(1, 8);
        const auto calls = s.range(1, 400);
        s.note("%llu threads, %llu calls each, range %llu", (unsigned long long)nt, (unsigned long long)calls, (unsigned long long)range);
        auto m = tmm::impl(logger(), range);
        std::vector<std::vector<rng_t>> got(nt);
        std::vector<std::thread> ts;
        std::atomic<bool> go{false};
        std::atomic<bool> bad{false};
        for(u64 t = 0; t < nt; t++) {
            ts.emplace_back([&, t] {
                while(!go) {}
                for(u64 i = 0; i < calls; i++) {
                    size_t n = 0;
                    auto ok = m.get_ticket_number([&](tmm::interface::get_ticket_number_return_type r) {
                        n++;
                        if(std::holds_alternative<rng_t>(r)) {
                            got[t].push_back(std::get<rng_t>(r));
                        } else {
                            bad = true;
                        }
                    });
                    if(!ok || n != 1) {
                        bad = true;
                    }
                }
            });
        }
        go = true;
        for(auto& t : ts) {
            t.join();
        }
        PBT_CHECK(!bad, "a call was not answered with a range");
        std::vector<rng_t> all;
        for(auto& g : got) {
            for(size_t i = 1; i < g.size(); i++) {
                PBT_CHECK(g[i - 1].second <= g[i].first, "a later fetch overlaps or precedes an earlier one");
            }
            all.insert(all.end(), g.begin(), g.end());
        }
        disjoint(all);
        if(nt > 1) {
            s.nontrivial();
        }
    }

    // The replicated machine: a replica that applies the log gives the same
    // numbers; numbers of all requests are disjoint.
    void replicas(Src& s) {
        const auto range = 1 + s.size(2000);
        const auto n = s.range(1, 60);
        const auto split = s.below(n + 1);
        std::vector<rng_t> all;
        auto apply = [&](tmm::state_machine& sm, u64 i) -> std::optional<rng_t> {
            auto req = cbdc::rpc::request<tmm::rpc::request>{{i * 7}, tmm::rpc::request{}};
            auto buf = cbdc::make_buffer<decltype(req), nuraft::ptr<nuraft::buffer>>(req);
            buf->pos(0);
            auto r = sm.commit(i + 1, *buf);
            PBT_CHECK(r != nullptr, "request %llu gets no answer", (unsigned long long)i);
            auto resp = cbdc::from_buffer<cbdc::rpc::response<tmm::rpc::response>>(*r);
            PBT_CHECK(resp.has_value() && resp->m_payload.has_value(), "answer does not decode");
            PBT_CHECK(resp->m_header.m_request_id == i * 7, "answer to another request");
            PBT_CHECK(std::holds_alternative<rng_t>(*resp->m_payload), "no numbers");
            PBT_CHECK(sm.last_commit_index() == i + 1, "log index %llu", (unsigned long long)sm.last_commit_index());
            return std::get<rng_t>(*resp->m_payload);
        };
        auto a = tmm::state_machine(logger(), range);
        auto b = tmm::state_machine(logger(), range);
        for(u64 i = 0; i < n; i++) {
            auto ra = apply(a, i);
            if(i < split) {
                // a follows b's log: b leads afterwards
                auto rb = apply(b, i);
                PBT_CHECK(*ra == *rb, "replicas differ at entry %llu", (unsigned long long)i);
            }
            all.push_back(*ra);
        }
        for(u64 i = split; i < n; i++) {
            auto rb = apply(b, i);
            PBT_CHECK(*rb == all[i], "replicas differ at entry %llu", (unsigned long long)i);
        }
        disjoint(all);
        s.nontrivial();
    }

    std::atomic<unsigned short> g_port{0};
    using srv_t = cbdc::rpc::tcp_server<cbdc::rpc::blocking_server<tmm::rpc::request, tmm::rpc::response>>;

    // Caching clients over loopback.
    void clients(Src& s) {
        const auto range = s.coin() ? s.range(1, 30) : s.range(400, 700);
        const auto nc = s.range(1, 3);
        const auto nt = s.range(1, 3);
        // A fetch costs a round trip; keep them few.
        const auto calls = 1 + s.below(std::max<u64>(2, std::min<u64>(300, range * 12 / nt)));
        s.note("%llu clients, %llu threads each, %llu calls each, range %llu", (unsigned long long)nc, (unsigned long long)nt,
               (unsigned long long)calls, (unsigned long long)range);
        auto m = tmm::impl(logger(), range);
        std::unique_ptr<srv_t> srv;
        cbdc::network::endpoint_t ep;
        for(int i = 0; i < 200; i++) {
            auto p = static_cast<unsigned short>(20000 + (static_cast<unsigned>(getpid()) * 37 + g_port++) % 12000);
            ep = {cbdc::network::localhost, p};
            srv = std::make_unique<srv_t>(ep);
            srv->register_handler_callback([&](tmm::rpc::request) {
                std::optional<tmm::rpc::response> ret;
                m.get_ticket_number([&](tmm::interface::get_ticket_number_return_type r) { ret = r; });
                return ret;
            });
            if(srv->init()) {
                break;
            }
            srv.reset();
        }
        if(!srv) {
            throw pbt::Discard{};
        }
        std::vector<std::unique_ptr<tmm::rpc::client>> cs;
        for(u64 i = 0; i < nc; i++) {
            cs.push_back(std::make_unique<tmm::rpc::client>(std::vector<cbdc::network::endpoint_t>{ep}));
            if(!cs.back()->init()) {
                throw pbt::Discard{};
            }
        }
        struct state {
            std::mutex mut;
            std::condition_variable cv;
            std::multiset<u64> got;
            size_t answers{0}, errors{0};
        };
        auto st = std::make_shared<state>();
        std::atomic<u64> accepted{0};
        std::vector<std::thread> ts;
        for(u64 c = 0; c < nc; c++) {
            for(u64 t = 0; t < nt; t++) {
                ts.emplace_back([&, c] {
                    for(u64 i = 0; i < calls; i++) {
                        auto ok = cs[c]->get_ticket_number([st](tmm::interface::get_ticket_number_return_type r) {
                            std::unique_lock l(st->mut);
                            st->answers++;
                            if(std::holds_alternative<rng_t>(r)) {
                                st->got.insert(std::get<rng_t>(r).first);
                            } else {
                                st->errors++;
                            }
                            st->cv.notify_all();
                        });
                        if(ok) {
                            accepted++;
                        }
                    }
                });
            }
        }
        for(auto& t : ts) {
            t.join();
        }
        {
            std::unique_lock l(st->mut);
            st->cv.wait_for(l, std::chrono::seconds(10), [&] { return st->answers >= accepted.load(); });
            PBT_CHECK(st->answers == accepted.load(), "%zu answers to %llu calls", st->answers, (unsigned long long)accepted.load());
            for(auto it = st->got.begin(); it != st->got.end(); ++it) {
                PBT_CHECK(st->got.count(*it) == 1, "ticket number %llu was given out %zu times", (unsigned long long)*it, st->got.count(*it));
            }
        }
        cs.clear();
        srv.reset();
        if(nc * nt > 1 && calls * nt > range) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C31";
    c.m_rule = "threads: 1-8 threads fetch from one machine; replicas: two replicated machines, one "
               "behind by a drawn part of the log; clients: caching clients with several threads over "
               "loopback. Non-trivial: more than one caller (and, for clients, more than one batch)";
    c.m_assumptions = {"fewer than 2^64 numbers are handed out"};
    c.m_props = {{"threads", threads, 3000, 60000, true, 20, 4},
                 {"replicas", replicas, 6000, 100000},
                 {"clients", clients, 240, 8000, true, 60, 16}};
    return pbt::run(argc, argv, c);
}
