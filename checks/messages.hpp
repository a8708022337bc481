// Every message and stored record: how to make one, compare two, encode and
// decode it. Used by C06 and C07.
#pragma once
#include "common.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/messages.hpp"
#include "parsec/agent/runners/evm/format.hpp"
#include "parsec/agent/runners/evm/messages.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "parsec/ticket_machine/messages.hpp"
#include "uhs/atomizer/archiver/client.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#include "uhs/atomizer/atomizer/state_machine.hpp"
#include "uhs/atomizer/watchtower/messages.hpp"
#include "uhs/atomizer/watchtower/status_update.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/sentinel/interface.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/messages.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include "util/serialization/size_serializer.hpp"
#include "util/serialization/util.hpp"

#include <set>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace msgs {
    using vt::Src;
    using vt::u64;
    namespace tr = cbdc::transaction;
    namespace at = cbdc::atomizer;
    namespace wt = cbdc::watchtower;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    namespace ev = cbdc::parsec::agent::runner;
    using coord = cbdc::coordinator::controller;

    // The state machine command and how the state machine reads it.
    struct sm_command {
        coord::sm_command m_c;
    };
    inline cbdc::serializer& operator<<(cbdc::serializer& s,
                                        const sm_command& c) {
        return cbdc::operator<<(s, c.m_c);
    }
    inline cbdc::serializer& operator>>(cbdc::serializer& s, sm_command& c) {
        using namespace cbdc;
        using cmd = cbdc::coordinator::state_machine::command;
        s >> c.m_c.m_header;
        if(c.m_c.m_header.m_comm == cmd::prepare) {
            coord::prepare_tx t;
            s >> t;
            c.m_c.m_data = std::move(t);
        } else if(c.m_c.m_header.m_comm == cmd::commit) {
            coord::commit_tx t;
            s >> t;
            c.m_c.m_data = std::move(t);
        }
        return s;
    }

    // Fields of the plain structures.
    template<typename T>
    struct no_fields : std::false_type {};
    template<typename T>
    void fields(T&) = delete;
#define F(type, ...)                                                          \
    inline auto fields(type& x) { return std::tie(__VA_ARGS__); }
    F(tr::out_point, x.m_tx_id, x.m_index)
    F(tr::output, x.m_witness_program_commitment, x.m_value)
    F(tr::input, x.m_prevout, x.m_prevout_data)
    F(tr::full_tx, x.m_inputs, x.m_outputs, x.m_witness)
    F(cbdc::sentinel::execute_request, x.m_inputs, x.m_outputs, x.m_witness)
    F(cbdc::sentinel::validate_request, x.m_inputs, x.m_outputs, x.m_witness)
    F(tr::compact_tx, x.m_id, x.m_inputs, x.m_uhs_outputs, x.m_attestations)
    F(tr::validation::input_error, x.m_code, x.m_data_err, x.m_idx)
    F(tr::validation::output_error, x.m_code, x.m_idx)
    F(tr::validation::witness_error, x.m_code, x.m_idx)
    F(cbdc::sentinel::execute_response, x.m_tx_status, x.m_tx_error)
    F(at::block, x.m_height, x.m_transactions)
    F(at::tx_notify_request, x.m_tx, x.m_attestations, x.m_block_height)
    F(at::aggregate_tx_notification, x.m_tx, x.m_oldest_attestation)
    F(at::aggregate_tx_notify_request, x.m_agg_txs)
    F(at::prune_request, x.m_block_height)
    F(at::get_block_request, x.m_block_height)
    F(at::make_block_response, x.m_blk, x.m_errs)
    F(at::get_block_response, x.m_blk)
    F(coord::sm_command_header, x.m_comm, x.m_dtx_id)
    F(cbdc::locking_shard::tx, x.m_tx)
    F(cbdc::locking_shard::rpc::request, x.m_dtx_id, x.m_params)
    F(cbdc::locking_shard::rpc::uhs_status_request, x.m_uhs_id)
    F(cbdc::locking_shard::rpc::tx_status_request, x.m_tx_id)
    F(rls::wounded_details, x.m_wounding_ticket, x.m_wounding_key)
    F(rls::shard_error, x.m_error_code, x.m_wounded_details)
    F(rls::rpc::try_lock_request,
      x.m_ticket_number,
      x.m_broker_id,
      x.m_key,
      x.m_locktype,
      x.m_first_lock)
    F(rls::rpc::prepare_request,
      x.m_ticket_number,
      x.m_state_updates,
      x.m_broker_id)
    F(rls::rpc::commit_request, x.m_ticket_number)
    F(rls::rpc::rollback_request, x.m_ticket_number)
    F(rls::rpc::finish_request, x.m_ticket_number)
    F(rls::rpc::get_tickets_request, x.m_broker_id)
    F(rls::rpc::replicated_prepare_request,
      x.m_ticket_number,
      x.m_broker_id,
      x.m_state_update)
    F(rls::replicated_shard_interface::ticket_type,
      x.m_broker_id,
      x.m_state_update,
      x.m_state)
    F(cbdc::parsec::agent::rpc::exec_request,
      x.m_function,
      x.m_param,
      x.m_is_readonly_run)
    F(cbdc::rpc::header, x.m_request_id)
    F(ev::evm_account, x.m_balance, x.m_nonce)
    F(ev::evm_sig, x.m_r, x.m_s, x.m_v)
    F(ev::evm_access_tuple, x.m_address, x.m_storage_keys)
    F(ev::evm_tx,
      x.m_type,
      x.m_to,
      x.m_value,
      x.m_nonce,
      x.m_gas_price,
      x.m_gas_limit,
      x.m_gas_tip_cap,
      x.m_gas_fee_cap,
      x.m_input,
      x.m_access_list,
      x.m_sig)
    F(ev::evm_dryrun_tx, x.m_from, x.m_tx)
    F(ev::evm_log, x.m_addr, x.m_data, x.m_topics)
    F(ev::evm_tx_receipt,
      x.m_tx,
      x.m_create_address,
      x.m_gas_used,
      x.m_logs,
      x.m_output_data,
      x.m_ticket_number,
      x.m_timestamp,
      x.m_success)
    F(ev::evm_pretend_block, x.m_ticket_number, x.m_transactions)
    F(ev::evm_log_query,
      x.m_addresses,
      x.m_topics,
      x.m_from_block,
      x.m_to_block)
    F(ev::evm_log_index, x.m_ticket_number, x.m_txid, x.m_logs)
    F(ev::code_key, x.m_addr)
    F(ev::storage_key, x.m_addr, x.m_key)
#undef F
    template<typename T>
    auto fields(cbdc::rpc::request<T>& x) {
        return std::tie(x.m_header, x.m_payload);
    }
    template<typename T>
    auto fields(cbdc::rpc::response<T>& x) {
        return std::tie(x.m_header, x.m_payload);
    }

    // How large the containers of a case get.
    struct ctx {
        Src& s;
        u64 m_max{4};
    };

    template<typename T, typename = void>
    struct M {
        // A structure with fields.
        static T make(ctx& c) {
            T v{};
            std::apply(
                [&](auto&... f) {
                    ((f = M<std::decay_t<decltype(f)>>::make(c)), ...);
                },
                fields(v));
            return v;
        }
        static bool same(const T& a, const T& b) {
            auto ta = fields(const_cast<T&>(a));
            auto tb = fields(const_cast<T&>(b));
            return all(ta, tb, std::make_index_sequence<
                                   std::tuple_size_v<decltype(ta)>>{});
        }
        template<typename A, typename B, size_t... I>
        static bool all(A& a, B& b, std::index_sequence<I...>) {
            return (M<std::decay_t<std::tuple_element_t<I, A>>>::same(
                        std::get<I>(a),
                        std::get<I>(b))
                    && ...);
        }
    };
    template<typename T>
    struct M<T, std::enable_if_t<std::is_integral_v<T>>> {
        static T make(ctx& c) {
            if constexpr(std::is_same_v<T, bool>) {
                return c.s.coin();
            } else {
                return static_cast<T>(c.s.edgy());
            }
        }
        static bool same(T a, T b) { return a == b; }
    };
    template<typename T>
    struct M<T, std::enable_if_t<std::is_enum_v<T>>> {
        static T make(ctx& c) { return static_cast<T>(c.s.below(4)); }
        static bool same(T a, T b) { return a == b; }
    };
    template<typename T>
    struct M<T, std::enable_if_t<std::is_empty_v<T>>> {
        static T make(ctx&) { return T{}; }
        static bool same(const T&, const T&) { return true; }
    };
    template<typename T, size_t N>
    struct M<std::array<T, N>> {
        static std::array<T, N> make(ctx& c) {
            std::array<T, N> a{};
            auto x = c.s.edgy() | 1;
            for(auto& v : a) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v = static_cast<T>(x);
            }
            return a;
        }
        static bool same(const std::array<T, N>& a, const std::array<T, N>& b) {
            return std::equal(a.begin(), a.end(), b.begin());
        }
    };
    template<>
    struct M<cbdc::buffer> {
        static cbdc::buffer make(ctx& c) {
            auto n = c.s.size(c.m_max > 16 ? c.m_max : c.m_max * 16);
            auto v = c.s.bytes(n);
            cbdc::buffer b;
            b.append(v.data(), v.size());
            return b;
        }
        static bool same(const cbdc::buffer& a, const cbdc::buffer& b) {
            return a.size() == b.size()
                && (a.size() == 0
                    || std::memcmp(a.data(), b.data(), a.size()) == 0);
        }
    };
    template<typename T>
    struct bytes_m {
        static T make(ctx& c) {
            T v{};
            auto a = M<std::array<uint8_t, sizeof(v.bytes)>>::make(c);
            std::memcpy(v.bytes, a.data(), a.size());
            return v;
        }
        static bool same(const T& a, const T& b) {
            return std::memcmp(a.bytes, b.bytes, sizeof(a.bytes)) == 0;
        }
    };
    template<>
    struct M<evmc::address> : bytes_m<evmc::address> {};
    template<>
    struct M<evmc::bytes32> : bytes_m<evmc::bytes32> {};
    template<typename T>
    struct M<std::optional<T>> {
        static std::optional<T> make(ctx& c) {
            if(c.s.coin()) {
                return std::optional<T>(M<T>::make(c));
            }
            return std::nullopt;
        }
        static bool same(const std::optional<T>& a, const std::optional<T>& b) {
            return a.has_value() == b.has_value()
                && (!a || M<T>::same(*a, *b));
        }
    };
    template<typename A, typename B>
    struct M<std::pair<A, B>> {
        static std::pair<A, B> make(ctx& c) {
            auto a = M<A>::make(c);
            return {std::move(a), M<B>::make(c)};
        }
        static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) {
            return M<A>::same(a.first, b.first)
                && M<B>::same(a.second, b.second);
        }
    };
    template<typename T>
    struct M<std::vector<T>> {
        static std::vector<T> make(ctx& c) {
            std::vector<T> v;
            for(auto n = c.s.size(c.m_max); n > 0; n--) {
                v.push_back(M<T>::make(c));
            }
            return v;
        }
        static bool same(const std::vector<T>& a, const std::vector<T>& b) {
            if(a.size() != b.size()) {
                return false;
            }
            for(size_t i = 0; i < a.size(); i++) {
                if(!M<T>::same(a[i], b[i])) {
                    return false;
                }
            }
            return true;
        }
    };
    template<typename S>
    struct set_m {
        static S make(ctx& c) {
            S v;
            for(auto n = c.s.size(c.m_max); n > 0; n--) {
                v.insert(M<typename S::key_type>::make(c));
            }
            return v;
        }
        static bool same(const S& a, const S& b) {
            if(a.size() != b.size()) {
                return false;
            }
            for(const auto& x : a) {
                if(b.count(x) != 1) {
                    return false;
                }
            }
            return true;
        }
    };
    template<typename K, typename... Ts>
    struct M<std::unordered_set<K, Ts...>>
        : set_m<std::unordered_set<K, Ts...>> {};
    template<typename K, typename... Ts>
    struct M<std::set<K, Ts...>> : set_m<std::set<K, Ts...>> {};
    template<typename K, typename V, typename... Ts>
    struct M<std::unordered_map<K, V, Ts...>> {
        using T = std::unordered_map<K, V, Ts...>;
        static T make(ctx& c) {
            T v;
            for(auto n = c.s.size(c.m_max); n > 0; n--) {
                auto k = M<K>::make(c);
                v.emplace(std::move(k), M<V>::make(c));
            }
            return v;
        }
        static bool same(const T& a, const T& b) {
            if(a.size() != b.size()) {
                return false;
            }
            for(const auto& [k, x] : a) {
                auto it = b.find(k);
                if(it == b.end() || !M<V>::same(x, it->second)) {
                    return false;
                }
            }
            return true;
        }
    };
    template<typename... Ts>
    struct M<std::variant<Ts...>> {
        using V = std::variant<Ts...>;
        template<size_t I = 0>
        static V at(ctx& c, size_t i) {
            if constexpr(I + 1 == sizeof...(Ts)) {
                return V(std::in_place_index<I>,
                         M<std::variant_alternative_t<I, V>>::make(c));
            } else {
                if(i == I) {
                    return V(std::in_place_index<I>,
                             M<std::variant_alternative_t<I, V>>::make(c));
                }
                return at<I + 1>(c, i);
            }
        }
        static V make(ctx& c) { return at(c, c.s.below(sizeof...(Ts))); }
        template<size_t I = 0>
        static bool eq(const V& a, const V& b) {
            if(a.index() == I) {
                return M<std::variant_alternative_t<I, V>>::same(
                    std::get<I>(a),
                    std::get<I>(b));
            }
            if constexpr(I + 1 < sizeof...(Ts)) {
                return eq<I + 1>(a, b);
            }
            return false;
        }
        static bool same(const V& a, const V& b) {
            return a.index() == b.index() && eq(a, b);
        }
    };
    template<>
    struct M<sm_command> {
        static sm_command make(ctx& c) {
            using cmd = cbdc::coordinator::state_machine::command;
            sm_command v;
            auto& h = v.m_c.m_header;
            h.m_comm = c.s.pick(std::vector<cmd>{cmd::prepare,
                                                 cmd::commit,
                                                 cmd::discard,
                                                 cmd::done,
                                                 cmd::get});
            if(h.m_comm != cmd::get) {
                h.m_dtx_id = M<cbdc::hash_t>::make(c);
            }
            if(h.m_comm == cmd::prepare) {
                v.m_c.m_data = M<coord::prepare_tx>::make(c);
            } else if(h.m_comm == cmd::commit) {
                v.m_c.m_data = M<coord::commit_tx>::make(c);
            }
            return v;
        }
        static bool same(const sm_command& a, const sm_command& b) {
            using D = std::decay_t<decltype(a.m_c.m_data)>;
            return M<coord::sm_command_header>::same(a.m_c.m_header,
                                                     b.m_c.m_header)
                && M<D>::same(a.m_c.m_data, b.m_c.m_data);
        }
    };
    // Types whose fields are private: compared by what they tell.
    template<>
    struct M<wt::tx_error_inputs_dne> {
        static wt::tx_error_inputs_dne make(ctx& c) {
            return wt::tx_error_inputs_dne(
                M<std::vector<cbdc::hash_t>>::make(c));
        }
        static bool same(const wt::tx_error_inputs_dne& a,
                         const wt::tx_error_inputs_dne& b) {
            return a.input_uhs_ids() == b.input_uhs_ids();
        }
    };
    template<>
    struct M<wt::tx_error_inputs_spent> {
        using S = std::unordered_set<cbdc::hash_t, cbdc::hashing::null>;
        static wt::tx_error_inputs_spent make(ctx& c) {
            return wt::tx_error_inputs_spent(M<S>::make(c));
        }
        static bool same(const wt::tx_error_inputs_spent& a,
                         const wt::tx_error_inputs_spent& b) {
            return M<S>::same(a.input_uhs_ids(), b.input_uhs_ids());
        }
    };
    template<>
    struct M<wt::tx_error_sync> {
        static bool same(const wt::tx_error_sync&, const wt::tx_error_sync&) {
            return true;
        }
    };
    template<>
    struct M<wt::tx_error_stxo_range> {
        static bool same(const wt::tx_error_stxo_range&,
                         const wt::tx_error_stxo_range&) {
            return true;
        }
    };
    template<>
    struct M<wt::tx_error_incomplete> {
        static bool same(const wt::tx_error_incomplete&,
                         const wt::tx_error_incomplete&) {
            return true;
        }
    };
    template<>
    struct M<wt::tx_error> {
        static wt::tx_error make(ctx& c) {
            auto id = M<cbdc::hash_t>::make(c);
            switch(c.s.below(5)) {
                case 0:
                    return wt::tx_error(id, wt::tx_error_sync{});
                case 1:
                    return wt::tx_error(id,
                                        M<wt::tx_error_inputs_dne>::make(c));
                case 2:
                    return wt::tx_error(id, wt::tx_error_stxo_range{});
                case 3:
                    return wt::tx_error(id, wt::tx_error_incomplete{});
                default:
                    return wt::tx_error(id,
                                        M<wt::tx_error_inputs_spent>::make(c));
            }
        }
        static bool same(const wt::tx_error& a, const wt::tx_error& b) {
            auto x = a.info();
            auto y = b.info();
            return a.tx_id() == b.tx_id() && x.index() == y.index()
                && M<decltype(x)>::same(x, y);
        }
    };
    template<>
    struct M<wt::status_update_state> {
        static wt::status_update_state make(ctx& c) {
            auto st = static_cast<wt::search_status>(c.s.below(6));
            auto h = c.s.edgy();
            return {st, h, M<cbdc::hash_t>::make(c)};
        }
        static bool same(const wt::status_update_state& a,
                         const wt::status_update_state& b) {
            return a.status() == b.status()
                && a.block_height() == b.block_height()
                && a.uhs_id() == b.uhs_id();
        }
    };
    template<>
    struct M<wt::status_update_request> {
        static wt::status_update_request make(ctx& c) {
            return wt::status_update_request(M<wt::tx_id_uhs_ids>::make(c));
        }
        static bool same(const wt::status_update_request& a,
                         const wt::status_update_request& b) {
            return M<wt::tx_id_uhs_ids>::same(a.uhs_ids(), b.uhs_ids());
        }
    };
    template<>
    struct M<wt::status_request_check_success> {
        static wt::status_request_check_success make(ctx& c) {
            return wt::status_request_check_success(
                M<wt::tx_id_states>::make(c));
        }
        static bool same(const wt::status_request_check_success& a,
                         const wt::status_request_check_success& b) {
            return M<wt::tx_id_states>::same(a.states(), b.states());
        }
    };
    template<>
    struct M<wt::best_block_height_request> {
        static wt::best_block_height_request make(ctx&) { return {}; }
        static bool same(const wt::best_block_height_request&,
                         const wt::best_block_height_request&) {
            return true;
        }
    };
    template<>
    struct M<wt::best_block_height_response> {
        static wt::best_block_height_response make(ctx& c) {
            return wt::best_block_height_response(c.s.edgy());
        }
        static bool same(const wt::best_block_height_response& a,
                         const wt::best_block_height_response& b) {
            return a.height() == b.height();
        }
    };
    template<>
    struct M<wt::request> {
        static wt::request make(ctx& c) {
            if(c.s.coin()) {
                return wt::request(M<wt::status_update_request>::make(c));
            }
            return wt::request(wt::best_block_height_request{});
        }
        static bool same(const wt::request& a, const wt::request& b) {
            return a.payload().index() == b.payload().index()
                && M<std::decay_t<decltype(a.payload())>>::same(a.payload(),
                                                                b.payload());
        }
    };
    template<>
    struct M<wt::response> {
        static wt::response make(ctx& c) {
            if(c.s.coin()) {
                return wt::response(
                    M<wt::status_request_check_success>::make(c));
            }
            return wt::response(M<wt::best_block_height_response>::make(c));
        }
        static bool same(const wt::response& a, const wt::response& b) {
            return a.payload().index() == b.payload().index()
                && M<std::decay_t<decltype(a.payload())>>::same(a.payload(),
                                                                b.payload());
        }
    };

    using vec = std::vector<uint8_t>;
    using any = std::shared_ptr<void>;

    struct msg {
        std::string m_name;
        std::function<any(ctx&)> m_make;
        std::function<bool(const any&, const any&)> m_same;
        // Decodes; the serializer tells whether it succeeded.
        std::function<any(cbdc::serializer&)> m_dec;
        std::function<void(cbdc::serializer&, const any&)> m_enc;
        // What the code uses: size, buffers of both kinds.
        std::function<size_t(const any&)> m_size;
        std::function<cbdc::buffer(const any&)> m_buffer;
        std::function<std::shared_ptr<cbdc::buffer>(const any&)> m_shared;
        std::function<nuraft::ptr<nuraft::buffer>(const any&)> m_raft;
        // from_buffer, for the types that have it.
        std::function<any(cbdc::buffer&)> m_from;
        std::function<any(nuraft::buffer&)> m_from_raft;
    };

    // Fills what M needs: values which can be made by default are decoded
    // with >>, the others by their constructor.
    template<typename T>
    any decode(cbdc::serializer& d) {
        using namespace cbdc;
        if constexpr(std::is_default_constructible_v<T>) {
            auto v = std::make_shared<T>();
            d >> *v;
            return v;
        } else {
            return std::make_shared<T>(d);
        }
    }
    template<typename T>
    msg mk(const std::string& name) {
        msg m;
        m.m_name = name;
        m.m_make = [](ctx& c) -> any {
            return std::make_shared<T>(M<T>::make(c));
        };
        auto ref = [](const any& a) -> const T& {
            return *static_cast<const T*>(a.get());
        };
        m.m_same = [ref](const any& a, const any& b) {
            return M<T>::same(ref(a), ref(b));
        };
        m.m_dec = decode<T>;
        m.m_enc = [ref](cbdc::serializer& s, const any& a) {
            using namespace cbdc;
            s << ref(a);
        };
        m.m_size = [ref](const any& a) {
            return cbdc::serialized_size(ref(a));
        };
        m.m_buffer = [ref](const any& a) {
            return cbdc::make_buffer(ref(a));
        };
        m.m_shared = [ref](const any& a) {
            return cbdc::make_shared_buffer(ref(a));
        };
        m.m_raft = [ref](const any& a) {
            return cbdc::make_buffer<T, nuraft::ptr<nuraft::buffer>>(ref(a));
        };
        if constexpr(std::is_default_constructible_v<T>) {
            m.m_from = [](cbdc::buffer& b) -> any {
                auto r = cbdc::from_buffer<T>(b);
                return r ? std::make_shared<T>(std::move(*r)) : nullptr;
            };
            m.m_from_raft = [](nuraft::buffer& b) -> any {
                auto r = cbdc::from_buffer<T>(b);
                return r ? std::make_shared<T>(std::move(*r)) : nullptr;
            };
        }
        return m;
    }

    template<typename Req, typename Resp>
    void rpc(std::vector<msg>& v, const std::string& n) {
        v.push_back(mk<cbdc::rpc::request<Req>>(n + " rpc request"));
        v.push_back(mk<cbdc::rpc::response<Resp>>(n + " rpc response"));
    }

    // Everything that is sent or stored. Parts of these are reached through
    // them.
    inline std::vector<msg> all() {
        std::vector<msg> v;
        // transactions
        v.push_back(mk<tr::full_tx>("full_tx"));
        v.push_back(mk<tr::compact_tx>("compact_tx"));
        v.push_back(mk<tr::input>("input"));
        v.push_back(mk<std::optional<tr::validation::tx_error>>("tx_error"));
        // atomizer
        v.push_back(mk<at::block>("block"));
        v.push_back(mk<at::request>("atomizer request"));
        v.push_back(mk<at::aggregate_tx_notify_request>("aggregate"));
        v.push_back(mk<at::state_machine::request>("atomizer log entry"));
        v.push_back(mk<at::state_machine::response>("atomizer log answer"));
        v.push_back(mk<std::vector<wt::tx_error>>("watchtower errors"));
        v.push_back(mk<cbdc::archiver::request>("archiver request"));
        v.push_back(mk<cbdc::archiver::response>("archiver response"));
        // watchtower
        v.push_back(mk<wt::request>("watchtower request"));
        v.push_back(mk<wt::response>("watchtower response"));
        // sentinel
        rpc<cbdc::sentinel::request, cbdc::sentinel::response>(v, "sentinel");
        // two-phase
        v.push_back(mk<sm_command>("coordinator log entry"));
        rpc<cbdc::coordinator::rpc::request, cbdc::coordinator::rpc::response>(
            v,
            "coordinator");
        rpc<cbdc::locking_shard::rpc::request,
            cbdc::locking_shard::rpc::response>(v, "locking shard");
        rpc<cbdc::locking_shard::rpc::status_request,
            cbdc::locking_shard::rpc::status_response>(v, "status");
        // parsec
        rpc<cbdc::parsec::ticket_machine::rpc::request,
            cbdc::parsec::ticket_machine::rpc::response>(v, "ticket machine");
        rpc<rls::rpc::request, rls::rpc::response>(v, "runtime shard");
        rpc<rls::rpc::replicated_request, rls::rpc::replicated_response>(
            v,
            "replicated shard");
        rpc<cbdc::parsec::agent::rpc::request,
            cbdc::parsec::agent::rpc::response>(v, "agent");
        // stored by the EVM
        v.push_back(mk<ev::evm_account>("evm account"));
        v.push_back(mk<std::vector<uint8_t>>("evm account code"));
        v.push_back(mk<ev::evm_tx>("evm tx"));
        v.push_back(mk<ev::evm_dryrun_tx>("evm dry-run tx"));
        v.push_back(mk<ev::evm_tx_receipt>("evm receipt"));
        v.push_back(mk<ev::evm_pretend_block>("evm block"));
        v.push_back(mk<ev::evm_log_query>("evm log query"));
        v.push_back(mk<ev::evm_log_index>("evm log index"));
        v.push_back(mk<ev::code_key>("evm code key"));
        v.push_back(mk<ev::storage_key>("evm storage key"));
        v.push_back(mk<std::set<evmc::bytes32>>("set"));
        return v;
    }
    inline const std::vector<msg>& registry() {
        static const auto v = all();
        return v;
    }
    inline vec to_vec(const cbdc::buffer& b) {
        auto* p = static_cast<const uint8_t*>(b.data());
        return vec(p, p + b.size());
    }
    inline cbdc::buffer to_buf(const vec& v) {
        cbdc::buffer b;
        b.append(v.data(), v.size());
        return b;
    }
    inline nuraft::ptr<nuraft::buffer> to_raft(const vec& v) {
        auto b = nuraft::buffer::alloc(v.size());
        std::memcpy(b->data_begin(), v.data(), v.size());
        b->pos(0);
        return b;
    }
}
