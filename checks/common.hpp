// Helpers shared by the checks.
#pragma once
#include "pbt.hpp"
#include "util/common/config.hpp"
#include "util/common/hash.hpp"
#include "util/common/keys.hpp"
#include "util/common/logging.hpp"

#include <array>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace vt {
    using pbt::Src;
    using pbt::u64;
    using cbdc::hash_t;

    inline std::shared_ptr<cbdc::logging::log> logger() {
        static auto l = std::make_shared<cbdc::logging::log>(
            cbdc::logging::log_level::fatal,
            false);
        return l;
    }

    // Distinct hash for (tag, n), first byte chosen.
    inline hash_t mkhash(uint8_t first, uint8_t tag, u64 n) {
        hash_t h{};
        u64 x = n * 0x9e3779b97f4a7c15ULL + tag;
        for(size_t i = 8; i < h.size(); i++) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            h[i] = static_cast<unsigned char>(x);
        }
        h[0] = first;
        h[1] = tag;
        for(size_t i = 0; i < 6; i++) {
            h[2 + i] = static_cast<unsigned char>(n >> (8 * i));
        }
        return h;
    }
    inline hash_t rndhash(Src& s) {
        hash_t h{};
        for(size_t i = 0; i < 4; i++) {
            auto v = s.u64v();
            std::memcpy(&h[i * 8], &v, 8);
        }
        return h;
    }
    template<size_t N>
    std::string hx(const std::array<unsigned char, N>& a) {
        return pbt::hex(a.data(), a.size());
    }
    // Short form for notes.
    inline std::string h8(const hash_t& h) {
        return pbt::hex(h.data(), 4);
    }
    inline cbdc::privkey_t mkkey(u64 n) {
        cbdc::privkey_t k{};
        k[0] = 1;
        for(size_t i = 0; i < 8; i++) {
            k[24 + i] = static_cast<unsigned char>((n + 1) >> (8 * i));
        }
        return k;
    }
}
