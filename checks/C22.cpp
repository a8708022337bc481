// C22: sentinels of the two-phase system between their clients, one another
// and a coordinator.
#include "sentinels.hpp"
#include "jit.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/sentinel_2pc/controller.hpp"

using namespace sent;

namespace {
    enum class verdict {
        yes,
        no,
        unknown, // answers that it does not know
        fail     // the handler fails
    };
    struct job {
        full_tx m_tx;
        compact_tx m_c;
        bool m_valid{};
        bool m_validate_only{};
        bool m_blocking{};
        size_t m_to{};
        verdict m_verdict{};
        unsigned m_delay{};
        std::vector<plan> m_plans;
        // what came back
        unsigned m_answers{};
        std::optional<execute_response> m_resp;
        std::optional<cbdc::sentinel::validate_response> m_att;
    };
    struct coordinator {
        using server_t = cbdc::rpc::async_tcp_server<cbdc::coordinator::rpc::request, cbdc::coordinator::rpc::response>;
        std::mutex m_m;
        std::map<hash_t, std::vector<compact_tx>> m_got;
        const std::map<hash_t, const job*>& m_jobs;
        later& m_later;
        cbdc::network::endpoint_t m_ep;
        std::unique_ptr<server_t> m_srv;
        coordinator(const cbdc::network::endpoint_t& ep, const std::map<hash_t, const job*>& j, later& l)
            : m_jobs(j),
              m_later(l),
              m_ep(ep) {}
        bool start() {
            m_srv = std::make_unique<server_t>(m_ep);
            m_srv->register_handler_callback([this](compact_tx c, std::function<void(std::optional<bool>)> cb) {
                std::lock_guard l(m_m);
                m_got[c.m_id].push_back(c);
                auto it = m_jobs.find(c.m_id);
                if(it == m_jobs.end()) {
                    return false;
                }
                auto v = it->second->m_verdict;
                if(v == verdict::fail) {
                    return false;
                }
                auto ans = v == verdict::unknown ? std::nullopt : std::optional<bool>(v == verdict::yes);
                if(it->second->m_delay == 0) {
                    cb(ans);
                } else {
                    m_later.in(it->second->m_delay, [cb, ans] {
                        cb(ans);
                    });
                }
                return true;
            });
            return m_srv->init();
        }
        void stop() { m_srv.reset(); }
    };

    const char* name(verdict v) {
        switch(v) {
            case verdict::yes:
                return "yes";
            case verdict::no:
                return "no";
            case verdict::unknown:
                return "unknown";
            default:
                return "fail";
        }
    }

    void sentinels(Src& s) {
        jit::setting js;
        if(s.chance(1, 2)) {
            js.m_wait = static_cast<unsigned>(s.below(20));
            js.m_lock = static_cast<unsigned>(s.below(20));
            js.m_io = static_cast<unsigned>(s.below(20));
            js.m_us = 300;
            js.m_seed = s.u64v() | 1;
        }
        jit::scope sc(js);
        auto n = 1 + s.below(4);
        auto threshold = s.below(n + 1);
        auto all_real = s.chance(1, 3);
        auto keyless = threshold == 0 && !all_real && s.chance(1, 3);
        auto real = s.below(n);
        auto is_real = [&](size_t i) {
            return all_real || i == real;
        };
        std::vector<job> jobs(1 + s.size(25));
        auto refusing = s.chance(1, 3);
        auto slow = s.chance(1, 3);
        for(size_t k = 0; k < jobs.size(); k++) {
            auto& j = jobs[k];
            j.m_tx = good_tx(s, k);
            j.m_valid = !s.chance(1, 4);
            std::string what = "valid";
            if(!j.m_valid) {
                spoil(s, j.m_tx, what);
            }
            j.m_c = ref_compact(j.m_tx);
            j.m_validate_only = !keyless && s.chance(1, 6);
            j.m_blocking = s.chance(1, 3);
            j.m_to = all_real ? s.below(n) : real;
            j.m_verdict = static_cast<verdict>(s.weighted({6, 2, 1, 1}));
            j.m_delay = static_cast<unsigned>(slow && s.coin() ? s.below(15) : 0);
            std::string pl;
            for(u64 i = 0; i < n; i++) {
                plan p;
                if(refusing) {
                    p.m_reply = static_cast<reply>(s.weighted({4, 1, 1}));
                }
                p.m_delay = static_cast<unsigned>(slow && s.coin() ? s.below(15) : 0);
                j.m_plans.push_back(p);
                pl += "ork"[static_cast<int>(p.m_reply)];
            }
            s.note("tx %zu %s (%s)%s to %zu, coordinator %s after %u, others %s", k, h8(j.m_c.m_id).c_str(), what.c_str(), j.m_validate_only ? " validate" : "",
                   j.m_to, name(j.m_verdict), j.m_delay, pl.c_str());
        }
        auto outage = s.chance(1, 15);
        s.note("%zu sentinels (%s), threshold %zu%s%s", static_cast<size_t>(n), all_real ? "all real" : "one real", static_cast<size_t>(threshold),
               keyless ? ", no key" : "", outage ? ", coordinator away for a while" : "");
        auto threads = 1 + s.below(3);

        std::map<hash_t, const job*> by_id;
        for(auto& j : jobs) {
            by_id[j.m_c.m_id] = &j;
        }
        later late;
        cbdc::config::options o;
        o.m_twophase_mode = true;
        o.m_attestation_threshold = threshold;
        for(u64 i = 0; i < n; i++) {
            o.m_sentinel_endpoints.push_back(free_ep());
            o.m_sentinel_public_keys.insert(skey(i).m_pub);
            if(!keyless) {
                o.m_sentinel_private_keys[i] = skey(i).m_priv;
            }
        }
        auto coords = 1 + s.below(2);
        std::vector<std::unique_ptr<coordinator>> co;
        o.m_coordinator_endpoints.resize(coords);
        for(u64 i = 0; i < coords; i++) {
            auto ep = free_ep();
            o.m_coordinator_endpoints[i].push_back(ep);
            co.push_back(std::make_unique<coordinator>(ep, by_id, late));
            if(!co.back()->start()) {
                throw pbt::Discard{};
            }
        }
        std::vector<std::unique_ptr<other>> others;
        for(u64 i = 0; i < n; i++) {
            if(!is_real(i)) {
                others.push_back(std::make_unique<other>(i, o.m_sentinel_endpoints[i], late, [&, i](const hash_t& id) {
                    auto it = by_id.find(id);
                    return it == by_id.end() ? plan{} : it->second->m_plans[i];
                }));
            }
        }
        std::vector<std::unique_ptr<cbdc::sentinel_2pc::controller>> ctl(n);
        for(u64 i = 0; i < n; i++) {
            if(is_real(i)) {
                ctl[i] = std::make_unique<cbdc::sentinel_2pc::controller>(static_cast<uint32_t>(i), o, logger());
                PBT_CHECK(ctl[i]->init(), "sentinel %d does not start", static_cast<int>(i));
            }
        }
        std::mutex m;
        std::vector<std::unique_ptr<cbdc::sentinel::rpc::client>> cl(n);
        for(u64 i = 0; i < n; i++) {
            if(is_real(i)) {
                cl[i] = std::make_unique<cbdc::sentinel::rpc::client>(std::vector<cbdc::network::endpoint_t>{o.m_sentinel_endpoints[i]}, logger());
                PBT_CHECK(cl[i]->init(), "cannot connect to sentinel %d", static_cast<int>(i));
            }
        }
        if(outage) {
            for(auto& c : co) {
                c->stop();
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(300));
        }
        std::vector<std::thread> th;
        std::atomic<size_t> unsent{};
        for(u64 t = 0; t < threads; t++) {
            th.emplace_back([&, t] {
                for(size_t k = t; k < jobs.size(); k += threads) {
                    auto& j = jobs[k];
                    auto& c = *cl[j.m_to];
                    if(j.m_validate_only) {
                        auto done = [&](std::optional<cbdc::sentinel::validate_response> r) {
                            std::lock_guard l(m);
                            j.m_answers++;
                            j.m_att = std::move(r);
                        };
                        if(j.m_blocking) {
                            done(c.validate_transaction(j.m_tx));
                        } else if(!c.validate_transaction(j.m_tx, done)) {
                            unsent++;
                        }
                        continue;
                    }
                    auto done = [&](std::optional<execute_response> r) {
                        std::lock_guard l(m);
                        j.m_answers++;
                        j.m_resp = r;
                    };
                    if(j.m_blocking) {
                        done(c.execute_transaction(j.m_tx));
                    } else if(!c.execute_transaction(j.m_tx, done)) {
                        unsent++;
                    }
                }
            });
        }
        if(outage) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            for(auto& c : co) {
                PBT_CHECK(c->start(), "harness: cannot restart");
            }
        }
        for(auto& t : th) {
            t.join();
        }
        auto all = wait_for(
            [&] {
                std::lock_guard l(m);
                for(auto& j : jobs) {
                    if(j.m_answers == 0) {
                        return false;
                    }
                }
                return true;
            },
            15);
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        // answers in flight are all in: stop the outside first
        cl.clear();
        ctl.clear();
        late.stop();
        others.size();
        PBT_CHECK(unsent == 0, "%zu requests could not be sent", unsent.load());
        std::map<hash_t, std::vector<compact_tx>> got;
        for(auto& c : co) {
            c->stop();
            for(auto& [id, v] : c->m_got) {
                auto& g = got[id];
                g.insert(g.end(), v.begin(), v.end());
            }
        }
        std::map<hash_t, size_t> refused;
        for(auto& x : others) {
            PBT_CHECK(x->m_error.empty(), "%s", x->m_error.c_str());
            for(auto& [id, c] : x->m_asked) {
                PBT_CHECK(by_id.count(id) == 1, "sentinel %zu was asked about an unknown transaction %s", x->m_id, h8(id).c_str());
                auto* j = by_id[id];
                PBT_CHECK(j->m_valid, "the invalid transaction %s was passed on to sentinel %zu", h8(id).c_str(), x->m_id);
                PBT_CHECK(!j->m_validate_only, "asking for an attestation of %s made sentinel %zu be asked", h8(id).c_str(), x->m_id);
                PBT_CHECK(c == 1, "sentinel %zu was asked %zu times about %s", x->m_id, c, h8(id).c_str());
            }
            for(auto& [id, c] : x->m_refused) {
                refused[id] += c;
            }
        }
        for(auto& [id, v] : got) {
            PBT_CHECK(by_id.count(id) == 1, "an unknown transaction %s was forwarded", h8(id).c_str());
        }
        bool interesting = false;
        for(size_t k = 0; k < jobs.size(); k++) {
            auto& j = jobs[k];
            auto id = h8(j.m_c.m_id);
            auto& g = got[j.m_c.m_id];
            PBT_CHECK(j.m_answers == 1, "transaction %zu got %u answers", k, j.m_answers);
            if(!j.m_valid || j.m_validate_only) {
                PBT_CHECK(g.empty(), "transaction %zu (%s) was forwarded", k, j.m_valid ? "only to be attested" : "invalid");
            }
            if(j.m_validate_only) {
                PBT_CHECK(j.m_att.has_value() == j.m_valid, "transaction %zu, %s, was %sattested", k, j.m_valid ? "valid" : "invalid", j.m_att ? "" : "not ");
                if(j.m_att) {
                    PBT_CHECK(j.m_att->first == skey(j.m_to).m_pub, "attested with another key");
                    PBT_CHECK(verify(j.m_att->second.data(), ref_attest_hash(j.m_c).data(), j.m_att->first.data()), "the attestation of %zu is not valid", k);
                }
                continue;
            }
            if(!j.m_valid) {
                PBT_CHECK(j.m_resp.has_value(), "no answer to the invalid transaction %zu", k);
                PBT_CHECK(j.m_resp->m_tx_status == tx_status::static_invalid, "the invalid transaction %zu is answered with status %d", k,
                          static_cast<int>(j.m_resp->m_tx_status));
                auto err = val::check_tx(j.m_tx);
                PBT_CHECK(err.has_value() && j.m_resp->m_tx_error == err, "the reason given for %zu is not the one found", k);
                interesting = true;
                continue;
            }
            PBT_CHECK(g.size() <= 1, "transaction %zu was forwarded %zu times", k, g.size());
            if(g.empty()) {
                PBT_CHECK(refused[j.m_c.m_id] > 0, "transaction %zu was not forwarded although nobody refused it", k);
                PBT_CHECK(!j.m_resp.has_value(), "transaction %zu was not forwarded, but answered with status %d", k, static_cast<int>(j.m_resp->m_tx_status));
                s.label("refused by another sentinel");
                interesting = true;
                continue;
            }
            PBT_CHECK(refused[j.m_c.m_id] == 0, "transaction %zu was forwarded although a sentinel asked refused it", k);
            PBT_CHECK(same(g[0], j.m_c), "what was forwarded for %zu is not its compact form", k);
            auto a = attested(g[0], n);
            PBT_CHECK(a >= 0, "transaction %zu carries an attestation that is not valid", k);
            PBT_CHECK(static_cast<u64>(a) >= threshold, "transaction %zu carries %d attestations of %zu", k, a, static_cast<size_t>(threshold));
            if(j.m_verdict == verdict::yes || j.m_verdict == verdict::no) {
                PBT_CHECK(j.m_resp.has_value(), "no answer to %zu although the coordinator gave one", k);
                auto want = j.m_verdict == verdict::yes ? tx_status::confirmed : tx_status::state_invalid;
                PBT_CHECK(j.m_resp->m_tx_status == want, "transaction %zu is answered with status %d, the coordinator said %s", k,
                          static_cast<int>(j.m_resp->m_tx_status), name(j.m_verdict));
                PBT_CHECK(!j.m_resp->m_tx_error.has_value(), "transaction %zu is answered with an error", k);
            } else {
                PBT_CHECK(!j.m_resp.has_value(), "transaction %zu is answered with status %d although the coordinator gave no answer", k,
                          static_cast<int>(j.m_resp->m_tx_status));
            }
            if(threshold > 1) {
                interesting = true;
                s.label("attestations of several");
            }
        }
        (void)all;
        if(interesting) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C22";
    c.m_rule = "a transaction was refused, or needed the attestation of another sentinel";
    c.m_assumptions = {"the other sentinels and the coordinators are stand-ins (in a third of the cases all sentinels are the real ones); the threshold is at most the number of sentinels"};
    c.m_props = {{"sentinels", sentinels, 250, 15000, true, 60}};
    return pbt::run(argc, argv, c);
}
