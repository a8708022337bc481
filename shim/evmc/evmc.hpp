#pragma once
#include "evmc.h"

#include <functional>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
namespace evmc {
    using bytes = std::basic_string<uint8_t>;
    using bytes_view = std::basic_string_view<uint8_t>;
    inline constexpr uint64_t load64be(const uint8_t* d) noexcept {
        uint64_t v = 0;
        for(int i = 0; i < 8; i++) {
            v = (v << 8) | d[i];
        }
        return v;
    }
    struct address : evmc_address {
        constexpr address(evmc_address init = {}) noexcept
            : evmc_address{init} {}
        constexpr explicit address(uint64_t v) noexcept : evmc_address{} {
            for(int i = 0; i < 8; i++) {
                bytes[19 - i] = static_cast<uint8_t>(v >> (8 * i));
            }
        }
        explicit operator bool() const noexcept;
    };
    struct bytes32 : evmc_bytes32 {
        constexpr bytes32(evmc_bytes32 init = {}) noexcept
            : evmc_bytes32{init} {}
        constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} {
            for(int i = 0; i < 8; i++) {
                bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
            }
        }
        explicit operator bool() const noexcept;
    };
    using uint256be = bytes32;
#define EVMC_CMP(T)                                                           \
    inline bool operator==(const T& a, const T& b) noexcept {                 \
        return std::memcmp(a.bytes, b.bytes, sizeof(a.bytes)) == 0;           \
    }                                                                         \
    inline bool operator!=(const T& a, const T& b) noexcept {                 \
        return !(a == b);                                                     \
    }                                                                         \
    inline bool operator<(const T& a, const T& b) noexcept {                  \
        return std::memcmp(a.bytes, b.bytes, sizeof(a.bytes)) < 0;            \
    }                                                                         \
    inline bool operator>(const T& a, const T& b) noexcept { return b < a; }  \
    inline bool operator<=(const T& a, const T& b) noexcept {                 \
        return !(b < a);                                                      \
    }                                                                         \
    inline bool operator>=(const T& a, const T& b) noexcept {                 \
        return !(a < b);                                                      \
    }                                                                         \
    inline bool is_zero(const T& a) noexcept {                                \
        return a == T{};                                                      \
    }                                                                         \
    inline T::operator bool() const noexcept { return !is_zero(*this); }
    EVMC_CMP(address)
    EVMC_CMP(bytes32)
#undef EVMC_CMP
    inline const char* to_string(evmc_status_code) { return "status"; }
    inline std::ostream& operator<<(std::ostream& o, evmc_status_code c) {
        return o << static_cast<int>(c);
    }

    inline evmc_result make_result(evmc_status_code s,
                                   int64_t left,
                                   int64_t refund,
                                   const uint8_t* out,
                                   size_t n) {
        evmc_result r{};
        r.status_code = s;
        r.gas_left = left;
        r.gas_refund = refund;
        if(n != 0) {
            auto* p = new uint8_t[n];
            std::memcpy(p, out, n);
            r.output_data = p;
            r.output_size = n;
            r.release = [](const evmc_result* x) {
                delete[] x->output_data;
            };
        }
        return r;
    }

    class Result : private evmc_result {
      public:
        using evmc_result::create_address;
        using evmc_result::gas_left;
        using evmc_result::gas_refund;
        using evmc_result::output_data;
        using evmc_result::output_size;
        using evmc_result::status_code;
        explicit Result(evmc_status_code s,
                        int64_t left,
                        int64_t refund,
                        const uint8_t* out,
                        size_t n)
            : evmc_result{make_result(s, left, refund, out, n)} {}
        explicit Result(evmc_status_code s = EVMC_INTERNAL_ERROR,
                        int64_t left = 0,
                        int64_t refund = 0)
            : evmc_result{make_result(s, left, refund, nullptr, 0)} {}
        explicit Result(const evmc_result& r) : evmc_result{r} {}
        Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
        Result& operator=(Result&& o) noexcept {
            if(release) {
                release(this);
            }
            static_cast<evmc_result&>(*this) = o;
            o.release = nullptr;
            return *this;
        }
        ~Result() {
            if(release) {
                release(this);
            }
        }
    };

    class Host {
      public:
        virtual ~Host() = default;
        virtual bool account_exists(const address&) const noexcept = 0;
        virtual bytes32 get_storage(const address&,
                                    const bytes32&) const noexcept = 0;
        virtual evmc_storage_status set_storage(const address&,
                                                const bytes32&,
                                                const bytes32&) noexcept = 0;
        virtual uint256be get_balance(const address&) const noexcept = 0;
        virtual size_t get_code_size(const address&) const noexcept = 0;
        virtual bytes32 get_code_hash(const address&) const noexcept = 0;
        virtual size_t copy_code(const address&,
                                 size_t,
                                 uint8_t*,
                                 size_t) const noexcept = 0;
        virtual bool selfdestruct(const address&, const address&) noexcept = 0;
        virtual Result call(const evmc_message&) noexcept = 0;
        virtual evmc_tx_context get_tx_context() const noexcept = 0;
        virtual bytes32 get_block_hash(int64_t) const noexcept = 0;
        virtual void emit_log(const address&,
                              const uint8_t*,
                              size_t,
                              const bytes32[],
                              size_t) noexcept = 0;
        virtual evmc_access_status access_account(const address&) noexcept = 0;
        virtual evmc_access_status access_storage(const address&,
                                                  const bytes32&) noexcept
            = 0;
    };

    namespace stub {
        using exec_t = std::function<Result(Host&,
                                            const evmc_message&,
                                            const uint8_t*,
                                            size_t)>;
        inline exec_t& exec() {
            static exec_t e;
            return e;
        }
    }
    class VM {
      public:
        VM() = default;
        explicit VM(evmc_vm* v) : m_v(v) {}
        explicit operator bool() const { return m_v != nullptr; }
        bool is_abi_compatible() const { return true; }
        Result execute(Host& h,
                       evmc_revision,
                       const evmc_message& m,
                       const uint8_t* c,
                       size_t n) {
            return stub::exec()(h, m, c, n);
        }

      private:
        evmc_vm* m_v{nullptr};
    };
}
namespace std {
    template<>
    struct hash<evmc::address> {
        size_t operator()(const evmc::address& a) const noexcept {
            return std::hash<std::string_view>()(
                {reinterpret_cast<const char*>(a.bytes), 20});
        }
    };
    template<>
    struct hash<evmc::bytes32> {
        size_t operator()(const evmc::bytes32& a) const noexcept {
            return std::hash<std::string_view>()(
                {reinterpret_cast<const char*>(a.bytes), 32});
        }
    };
}
