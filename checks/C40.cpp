// C40: sentinels of the atomizer system between clients, one another and
// shards.
#include "jit.hpp"
#include "sentinels.hpp"
#include "uhs/atomizer/sentinel/controller.hpp"

using namespace sent;

namespace {
    struct job {
        full_tx m_tx;
        compact_tx m_c;
        bool m_valid{};
        bool m_validate_only{};
        bool m_blocking{};
        std::vector<plan> m_plans;
        unsigned m_answers{};
        std::optional<execute_response> m_resp;
        std::optional<cbdc::sentinel::validate_response> m_att;
    };
    struct shard {
        cbdc::config::shard_range_t m_range;
        bool m_up{true};    // from the start
        bool m_stays{true}; // until the end
        std::unique_ptr<stub_server> m_srv;
        std::mutex m_m;
        std::map<hash_t, std::vector<compact_tx>> m_got;
        unsigned m_junk{};
        bool covers(const hash_t& h) const { return h[0] >= m_range.first && h[0] <= m_range.second; }
        void start() {
            m_srv = std::make_unique<stub_server>([this](cbdc::network::message_t&& msg) -> std::optional<cbdc::buffer> {
                auto c = cbdc::from_buffer<compact_tx>(*msg.m_pkt);
                std::lock_guard l(m_m);
                if(c) {
                    m_got[c->m_id].push_back(*c);
                } else {
                    m_junk++;
                }
                return std::nullopt;
            });
        }
    };

    void sentinel(Src& s) {
        jit::setting js;
        if(s.chance(1, 2)) {
            js.m_wait = static_cast<unsigned>(s.below(20));
            js.m_lock = static_cast<unsigned>(s.below(20));
            js.m_io = static_cast<unsigned>(s.below(20));
            js.m_us = 300;
            js.m_seed = s.u64v() | 1;
        }
        jit::scope sc(js);
        auto n = 1 + s.below(4);
        auto threshold = s.below(n + 1);
        auto real = s.below(n);

        std::vector<std::unique_ptr<shard>> shards;
        auto nsh = 1 + s.below(6);
        auto layout = s.below(4);
        std::string lay;
        for(u64 i = 0; i < nsh; i++) {
            auto x = std::make_unique<shard>();
            switch(layout) {
                case 0: // a division
                    x->m_range = {i * 256 / nsh, (i + 1) * 256 / nsh - 1};
                    break;
                case 1: { // two of each
                    auto k = (nsh + 1) / 2;
                    x->m_range = {(i % k) * 256 / k, (i % k + 1) * 256 / k - 1};
                    break;
                }
                default: { // any, overlapping, with gaps
                    auto a = s.below(256);
                    auto b = s.below(256);
                    x->m_range = {std::min(a, b), std::max(a, b)};
                    if(layout == 3 && s.coin()) {
                        x->m_range = {0, 255};
                    }
                }
            }
            x->m_up = !s.chance(1, 6);
            x->m_stays = !s.chance(1, 10);
            lay += pbt::fmt(" [%u,%u]%s", x->m_range.first, x->m_range.second, !x->m_up ? "down" : (x->m_stays ? "" : "leaves"));
            shards.push_back(std::move(x));
        }
        s.note("%zu sentinels, threshold %zu, shards%s", static_cast<size_t>(n), static_cast<size_t>(threshold), lay.c_str());
        std::vector<job> jobs(1 + s.size(25));
        auto refusing = s.chance(1, 4);
        auto slow = s.chance(1, 3);
        for(size_t k = 0; k < jobs.size(); k++) {
            auto& j = jobs[k];
            j.m_tx = good_tx(s, k);
            j.m_valid = !s.chance(1, 5);
            std::string what = "valid";
            if(!j.m_valid) {
                spoil(s, j.m_tx, what);
            }
            j.m_c = ref_compact(j.m_tx);
            j.m_validate_only = s.chance(1, 8);
            j.m_blocking = s.chance(1, 3);
            std::string pl;
            for(u64 i = 0; i < n; i++) {
                plan p;
                if(refusing) {
                    p.m_reply = static_cast<reply>(s.weighted({4, 1, 1}));
                }
                p.m_delay = static_cast<unsigned>(slow && s.coin() ? s.below(15) : 0);
                j.m_plans.push_back(p);
                pl += "ork"[static_cast<int>(p.m_reply)];
            }
            std::string in;
            for(auto& h : j.m_c.m_inputs) {
                in += pbt::fmt(" %u", h[0]);
            }
            s.note("tx %zu %s (%s)%s inputs at%s, others %s", k, h8(j.m_c.m_id).c_str(), what.c_str(), j.m_validate_only ? " validate" : "", in.c_str(), pl.c_str());
        }
        auto threads = 1 + s.below(3);
        // transactions from here on are sent when some shards have left
        auto half = s.below(jobs.size() + 1);

        std::map<hash_t, const job*> by_id;
        for(auto& j : jobs) {
            by_id[j.m_c.m_id] = &j;
        }
        later late;
        cbdc::config::options o;
        o.m_attestation_threshold = threshold;
        for(u64 i = 0; i < n; i++) {
            o.m_sentinel_endpoints.push_back(free_ep());
            o.m_sentinel_public_keys.insert(skey(i).m_pub);
            o.m_sentinel_private_keys[i] = skey(i).m_priv;
        }
        for(auto& x : shards) {
            o.m_shard_ranges.push_back(x->m_range);
            if(x->m_up) {
                x->start();
                o.m_shard_endpoints.push_back(x->m_srv->m_ep);
            } else {
                o.m_shard_endpoints.push_back(free_ep());
            }
        }
        std::vector<std::unique_ptr<other>> others;
        for(u64 i = 0; i < n; i++) {
            if(i != real) {
                others.push_back(std::make_unique<other>(i, o.m_sentinel_endpoints[i], late, [&, i](const hash_t& id) {
                    auto it = by_id.find(id);
                    return it == by_id.end() ? plan{} : it->second->m_plans[i];
                }));
            }
        }
        auto ctl = std::make_unique<cbdc::sentinel::controller>(static_cast<uint32_t>(real), o, logger());
        PBT_CHECK(ctl->init(), "the sentinel does not start");
        std::mutex m;
        auto cl = std::make_unique<cbdc::sentinel::rpc::client>(std::vector<cbdc::network::endpoint_t>{o.m_sentinel_endpoints[real]}, logger());
        PBT_CHECK(cl->init(), "cannot connect to the sentinel");

        std::atomic<size_t> unsent{};
        auto send = [&](size_t from, size_t to) {
            std::vector<std::thread> th;
            for(u64 t = 0; t < threads; t++) {
                th.emplace_back([&, t] {
                    for(size_t k = from + t; k < to; k += threads) {
                        auto& j = jobs[k];
                        if(j.m_validate_only) {
                            auto done = [&](std::optional<cbdc::sentinel::validate_response> r) {
                                std::lock_guard l(m);
                                j.m_answers++;
                                j.m_att = std::move(r);
                            };
                            if(j.m_blocking) {
                                done(cl->validate_transaction(j.m_tx));
                            } else if(!cl->validate_transaction(j.m_tx, done)) {
                                unsent++;
                            }
                            continue;
                        }
                        auto done = [&](std::optional<execute_response> r) {
                            std::lock_guard l(m);
                            j.m_answers++;
                            j.m_resp = r;
                        };
                        if(j.m_blocking) {
                            done(cl->execute_transaction(j.m_tx));
                        } else if(!cl->execute_transaction(j.m_tx, done)) {
                            unsent++;
                        }
                    }
                });
            }
            for(auto& t : th) {
                t.join();
            }
        };
        // everything that must arrive has
        auto refusals = [&](const hash_t& id) {
            size_t c = 0;
            for(auto& x : others) {
                std::lock_guard l(x->m_m);
                auto it = x->m_refused.find(id);
                c += it == x->m_refused.end() ? 0 : it->second;
            }
            return c;
        };
        auto must = [&](const shard& x, size_t k) {
            return x.m_up && (x.m_stays || k < half);
        };
        std::string missing;
        auto settled = [&](size_t from, size_t to) {
            for(size_t k = from; k < to; k++) {
                auto& j = jobs[k];
                {
                    std::lock_guard l(m);
                    if(j.m_answers == 0) {
                        missing = pbt::fmt("transaction %zu has no answer", k);
                        return false;
                    }
                }
                if(!j.m_valid || j.m_validate_only || refusals(j.m_c.m_id) > 0) {
                    continue;
                }
                for(size_t i = 0; i < j.m_c.m_inputs.size(); i++) {
                    bool coverable = false;
                    bool covered = false;
                    for(auto& x : shards) {
                        if(!x->covers(j.m_c.m_inputs[i])) {
                            continue;
                        }
                        coverable |= must(*x, k);
                        std::lock_guard l(x->m_m);
                        covered |= x->m_got.count(j.m_c.m_id) > 0;
                    }
                    if(coverable && !covered) {
                        missing = pbt::fmt("input %zu of transaction %zu reached no shard that owns it", i, k);
                        return false;
                    }
                }
            }
            return true;
        };
        send(0, half);
        auto ok = wait_for(
            [&] {
                return settled(0, half);
            },
            12);
        PBT_CHECK(ok, "%s", missing.c_str());
        bool leaving = false;
        if(half < jobs.size()) {
            for(auto& x : shards) {
                if(x->m_up && !x->m_stays) {
                    x->m_srv->stop();
                    leaving = true;
                }
            }
            if(leaving) {
                std::this_thread::sleep_for(std::chrono::milliseconds(250));
            }
            send(half, jobs.size());
            ok = wait_for(
                [&] {
                    return settled(half, jobs.size());
                },
                12);
            PBT_CHECK(ok, "%s", missing.c_str());
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
        cl.reset();
        ctl.reset();
        late.stop();
        for(auto& x : shards) {
            if(x->m_srv) {
                x->m_srv->stop();
            }
        }
        PBT_CHECK(unsent == 0, "%zu requests could not be sent", unsent.load());
        for(auto& x : others) {
            PBT_CHECK(x->m_error.empty(), "%s", x->m_error.c_str());
            for(auto& [id, c] : x->m_asked) {
                PBT_CHECK(by_id.count(id) == 1, "sentinel %zu was asked about an unknown transaction", x->m_id);
                PBT_CHECK(by_id[id]->m_valid && !by_id[id]->m_validate_only, "sentinel %zu was asked about %s, which is %s", x->m_id, h8(id).c_str(),
                          by_id[id]->m_valid ? "only to be attested" : "invalid");
                PBT_CHECK(c == 1, "sentinel %zu was asked %zu times about %s", x->m_id, c, h8(id).c_str());
            }
        }
        bool interesting = false;
        for(size_t y = 0; y < shards.size(); y++) {
            auto& x = *shards[y];
            PBT_CHECK(x.m_junk == 0, "shard %zu got something that is no transaction", y);
            for(auto& [id, v] : x.m_got) {
                PBT_CHECK(by_id.count(id) == 1, "an unknown transaction reached shard %zu", y);
                auto& j = *by_id[id];
                PBT_CHECK(j.m_valid, "the invalid transaction %s reached shard %zu", h8(id).c_str(), y);
                PBT_CHECK(!j.m_validate_only, "a transaction only to be attested reached shard %zu", y);
                PBT_CHECK(refusals(id) == 0, "transaction %s reached shard %zu although a sentinel refused it", h8(id).c_str(), y);
                PBT_CHECK(v.size() == 1, "transaction %s reached shard %zu %zu times", h8(id).c_str(), y, v.size());
                PBT_CHECK(same(v[0], j.m_c), "what shard %zu got for %s is not its compact form", y, h8(id).c_str());
                auto owns = false;
                for(auto& h : j.m_c.m_inputs) {
                    owns |= x.covers(h);
                }
                PBT_CHECK(owns, "transaction %s was sent to shard %zu, which owns none of its inputs", h8(id).c_str(), y);
                auto a = attested(v[0], n);
                PBT_CHECK(a >= 0, "transaction %s carries an attestation that is not valid", h8(id).c_str());
                PBT_CHECK(static_cast<u64>(a) >= threshold, "transaction %s carries %d attestations of %zu", h8(id).c_str(), a, static_cast<size_t>(threshold));
            }
        }
        for(size_t k = 0; k < jobs.size(); k++) {
            auto& j = jobs[k];
            PBT_CHECK(j.m_answers == 1, "transaction %zu got %u answers", k, j.m_answers);
            if(j.m_validate_only) {
                PBT_CHECK(j.m_att.has_value() == j.m_valid, "transaction %zu, %s, was %sattested", k, j.m_valid ? "valid" : "invalid", j.m_att ? "" : "not ");
                if(j.m_att) {
                    PBT_CHECK(j.m_att->first == skey(real).m_pub, "attested with another key");
                    PBT_CHECK(verify(j.m_att->second.data(), ref_attest_hash(j.m_c).data(), j.m_att->first.data()), "the attestation of %zu is not valid", k);
                }
                continue;
            }
            PBT_CHECK(j.m_resp.has_value(), "no answer to transaction %zu", k);
            if(j.m_valid) {
                PBT_CHECK(j.m_resp->m_tx_status == tx_status::pending && !j.m_resp->m_tx_error, "transaction %zu is answered with status %d", k,
                          static_cast<int>(j.m_resp->m_tx_status));
                std::set<size_t> to;
                for(size_t y = 0; y < shards.size(); y++) {
                    if(shards[y]->m_got.count(j.m_c.m_id) > 0) {
                        to.insert(y);
                    }
                }
                if(to.size() > 1) {
                    interesting = true;
                    s.label("several shards");
                }
            } else {
                PBT_CHECK(j.m_resp->m_tx_status == tx_status::static_invalid, "the invalid transaction %zu is answered with status %d", k,
                          static_cast<int>(j.m_resp->m_tx_status));
                auto err = val::check_tx(j.m_tx);
                PBT_CHECK(err.has_value() && j.m_resp->m_tx_error == err, "the reason given for %zu is not the one found", k);
            }
        }
        if(interesting) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C40";
    c.m_rule = "a transaction had to go to several shards";
    c.m_assumptions = {"the other sentinels and the shards are stand-ins; the threshold is at most the number of sentinels"};
    c.m_props = {{"sentinel", sentinel, 500, 20000, true, 60}};
    return pbt::run(argc, argv, c);
}
