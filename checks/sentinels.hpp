// Transactions and doubles for the checks of the sentinels.
#pragma once
#include "net.hpp"
#include "uhs/sentinel/client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/util.hpp"
#include "utx.hpp"

#include <condition_variable>
#include <deque>
#include <mutex>

namespace sent {
    using namespace utx;
    using namespace vt;
    namespace val = cbdc::transaction::validation;
    using cbdc::sentinel::execute_response;
    using cbdc::sentinel::tx_status;

    // Key of sentinel i.
    inline const key& skey(size_t i) { return pool(16 + i); }

    // A transaction that is valid by construction; number n sets the
    // outpoints, so transactions of one case never share an input.
    inline full_tx good_tx(Src& s, u64 n) {
        full_tx t;
        auto ins = 1 + s.size(4);
        auto outs = 1 + s.size(4);
        std::vector<size_t> owners;
        u64 total = 0;
        for(u64 i = 0; i < ins; i++) {
            input x;
            x.m_prevout.m_tx_id = mkhash(static_cast<uint8_t>(s.below(256)), 3, n);
            x.m_prevout.m_index = i;
            x.m_prevout_data.m_value = outs + s.below(1000);
            owners.push_back(s.below(16));
            x.m_prevout_data.m_witness_program_commitment = ref_commitment(pool(owners.back()).m_pub);
            total += x.m_prevout_data.m_value;
            t.m_inputs.push_back(x);
        }
        for(u64 i = 0; i < outs; i++) {
            output o;
            o.m_value = i + 1 == outs ? total : 1 + s.below(total - (outs - 1 - i));
            total -= o.m_value;
            o.m_witness_program_commitment = ref_commitment(pool(s.below(16)).m_pub);
            t.m_outputs.push_back(o);
        }
        auto id = ref_tx_id(t);
        for(auto k : owners) {
            t.m_witness.push_back(witness(pool(k), id));
        }
        return t;
    }
    // Makes a valid transaction invalid.
    inline void spoil(Src& s, full_tx& t, std::string& what) {
        switch(s.below(8)) {
            case 0:
                t.m_outputs[s.below(t.m_outputs.size())].m_value += 1 + s.below(3);
                what = "output raised";
                break;
            case 1:
                flip(s, t.m_witness[s.below(t.m_witness.size())]);
                what = "witness bit";
                break;
            case 2:
                t.m_witness.pop_back();
                what = "witness missing";
                break;
            case 3:
                t.m_inputs.push_back(t.m_inputs[0]);
                t.m_witness.push_back(t.m_witness[0]);
                what = "input twice";
                break;
            case 4:
                t.m_inputs.clear();
                what = "no inputs";
                break;
            case 5:
                t.m_outputs.clear();
                what = "no outputs";
                break;
            case 6:
                t.m_outputs[s.below(t.m_outputs.size())].m_value = 0;
                what = "output of nothing";
                break;
            default:
                if(!change(s, t, what)) {
                    throw pbt::Discard{};
                }
        }
    }
    inline compact_tx ref_compact(const full_tx& t) {
        compact_tx c;
        c.m_id = ref_tx_id(t);
        for(auto& i : t.m_inputs) {
            c.m_inputs.push_back(ref_uhs_id(i.m_prevout.m_tx_id, i.m_prevout.m_index, i.m_prevout_data));
        }
        for(size_t i = 0; i < t.m_outputs.size(); i++) {
            c.m_uhs_outputs.push_back(ref_uhs_id(c.m_id, i, t.m_outputs[i]));
        }
        return c;
    }
    inline bool same(const compact_tx& a, const compact_tx& b) {
        return a.m_id == b.m_id && a.m_inputs == b.m_inputs && a.m_uhs_outputs == b.m_uhs_outputs;
    }
    // Number of sentinels among the first n whose attestation is valid;
    // -1 if an attestation is not by one of them, or not valid.
    inline int attested(const compact_tx& c, size_t n) {
        auto msg = ref_attest_hash(c);
        std::set<size_t> who;
        for(auto& a : c.m_attestations) {
            if(!verify(a.second.data(), msg.data(), a.first.data())) {
                return -1;
            }
            bool known = false;
            for(size_t i = 0; i < n; i++) {
                if(skey(i).m_pub == a.first) {
                    who.insert(i);
                    known = true;
                }
            }
            if(!known) {
                return -1;
            }
        }
        return static_cast<int>(who.size());
    }
    inline sentinel_attestation attest(size_t i, const compact_tx& c) {
        sentinel_attestation a;
        a.first = skey(i).m_pub;
        a.second = sign(skey(i), ref_attest_hash(c));
        return a;
    }

    // Runs jobs after a delay, on a thread of its own.
    class later {
      public:
        later() : m_t([this] { run(); }) {}
        ~later() { stop(); }
        void stop() {
            {
                std::lock_guard l(m_m);
                m_stop = true;
            }
            m_cv.notify_all();
            if(m_t.joinable()) {
                m_t.join();
            }
        }
        void in(unsigned ms, std::function<void()> f) {
            std::lock_guard l(m_m);
            m_q.emplace(std::chrono::steady_clock::now() + std::chrono::milliseconds(ms), std::move(f));
            m_cv.notify_all();
        }

      private:
        std::mutex m_m;
        std::condition_variable m_cv;
        std::multimap<std::chrono::steady_clock::time_point, std::function<void()>> m_q;
        bool m_stop{};
        std::thread m_t;
        void run() {
            std::unique_lock l(m_m);
            for(;;) {
                if(m_q.empty()) {
                    if(m_stop) {
                        return;
                    }
                    m_cv.wait(l);
                    continue;
                }
                auto at = m_q.begin()->first;
                if(std::chrono::steady_clock::now() < at) {
                    m_cv.wait_until(l, at);
                    continue;
                }
                auto f = std::move(m_q.begin()->second);
                m_q.erase(m_q.begin());
                l.unlock();
                f();
                l.lock();
            }
        }
    };

    enum class reply {
        ok,
        refuse,
        fail
    };
    // How a stand-in sentinel treats a transaction.
    struct plan {
        reply m_reply{reply::ok};
        unsigned m_delay{};
    };

    // A stand-in for another sentinel: attests, refuses or fails as told.
    class other {
      public:
        using server_t = cbdc::rpc::async_tcp_server<cbdc::sentinel::request, cbdc::sentinel::response>;
        other(size_t id, const cbdc::network::endpoint_t& ep, later& l, std::function<plan(const hash_t&)> p)
            : m_id(id),
              m_later(l),
              m_plan(std::move(p)),
              m_srv(std::make_unique<server_t>(ep)) {
            m_srv->register_handler_callback([this](cbdc::sentinel::request rq, std::function<void(std::optional<cbdc::sentinel::response>)> cb) {
                return handle(std::move(rq), std::move(cb));
            });
            if(!m_srv->init()) {
                throw pbt::Discard{};
            }
        }
        size_t m_id;
        std::mutex m_m;
        std::map<hash_t, size_t> m_asked;
        std::map<hash_t, size_t> m_refused;
        std::string m_error;

      private:
        later& m_later;
        std::function<plan(const hash_t&)> m_plan;
        std::unique_ptr<server_t> m_srv;

        bool handle(cbdc::sentinel::request rq, std::function<void(std::optional<cbdc::sentinel::response>)> cb) {
            std::lock_guard l(m_m);
            auto* v = std::get_if<cbdc::sentinel::validate_request>(&rq);
            if(v == nullptr) {
                m_error = "a sentinel was asked to execute a transaction by another";
                return false;
            }
            auto c = ref_compact(*v);
            m_asked[c.m_id]++;
            auto p = m_plan(c.m_id);
            if(p.m_reply != reply::ok) {
                m_refused[c.m_id]++;
            }
            if(p.m_reply == reply::fail) {
                return false;
            }
            auto ans = p.m_reply == reply::ok ? std::optional<cbdc::sentinel::response>(attest(m_id, c)) : std::nullopt;
            if(p.m_delay == 0) {
                cb(ans);
            } else {
                m_later.in(p.m_delay, [cb, ans] {
                    cb(ans);
                });
            }
            return true;
        }
    };
}
