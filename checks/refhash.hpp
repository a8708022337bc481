// SHA-256 (FIPS 180-4) and SipHash-2-4, written from their specifications.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {
    using bytes = std::vector<uint8_t>;
    using digest = std::array<unsigned char, 32>;

    inline const std::array<uint32_t, 64>& sha_k() {
        // The first 32 bits of the fractional parts of the cube roots of the
        // first 64 primes, computed with integers.
        static const auto k = [] {
            std::array<uint32_t, 64> r{};
            size_t n = 0;
            for(uint64_t p = 2; n < 64; p++) {
                bool prime = true;
                for(uint64_t d = 2; d * d <= p; d++) {
                    if(p % d == 0) {
                        prime = false;
                    }
                }
                if(!prime) {
                    continue;
                }
                // floor(cbrt(p) * 2^32): largest x with x^3 <= p * 2^96
                unsigned __int128 lo = 0;
                unsigned __int128 hi = static_cast<unsigned __int128>(1) << 36;
                while(hi - lo > 1) {
                    auto m = (lo + hi) / 2;
                    // m^3 <= p << 96, with m < 2^36: compare in two parts
                    auto m2 = m * m; // < 2^72
                    auto a = (m2 >> 40) * m; // m^3 >> 40, low part below
                    auto b = (m2 & ((static_cast<unsigned __int128>(1) << 40) - 1)) * m;
                    auto top = a + (b >> 40); // floor(m^3 / 2^40)
                    auto lim = static_cast<unsigned __int128>(p) << 56;
                    auto rest = b & ((static_cast<unsigned __int128>(1) << 40) - 1);
                    bool le = top < lim || (top == lim && rest == 0);
                    (le ? lo : hi) = m;
                }
                r[n++] = static_cast<uint32_t>(lo);
            }
            return r;
        }();
        return k;
    }
    inline uint32_t rotr(uint32_t x, int n) {
        return (x >> n) | (x << (32 - n));
    }
    class sha256 {
      public:
        void block(const uint8_t* p) {
            const auto& k = sha_k();
            std::array<uint32_t, 64> w{};
            for(size_t t = 0; t < 16; t++) {
                w[t] = (uint32_t(p[4 * t]) << 24) | (uint32_t(p[4 * t + 1]) << 16) | (uint32_t(p[4 * t + 2]) << 8) | p[4 * t + 3];
            }
            for(size_t t = 16; t < 64; t++) {
                auto s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ (w[t - 15] >> 3);
                auto s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ (w[t - 2] >> 10);
                w[t] = s1 + w[t - 7] + s0 + w[t - 16];
            }
            auto v = m_h;
            for(size_t t = 0; t < 64; t++) {
                auto t1 = v[7] + (rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[t] + w[t];
                auto t2 = (rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                v = {t1 + t2, v[0], v[1], v[2], v[3] + t1, v[4], v[5], v[6]};
            }
            for(size_t i = 0; i < 8; i++) {
                m_h[i] += v[i];
            }
        }
        std::array<uint32_t, 8> m_h{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    };
    // The digest of prefix_len bytes already fed to st, then data.
    inline digest sha_finish(sha256 st, uint64_t prefix_len, const uint8_t* d, size_t n) {
        size_t i = 0;
        for(; i + 64 <= n; i += 64) {
            st.block(d + i);
        }
        bytes tail(d + i, d + n);
        tail.push_back(0x80);
        while(tail.size() % 64 != 56) {
            tail.push_back(0);
        }
        const uint64_t bits = (prefix_len + n) * 8;
        for(int s = 56; s >= 0; s -= 8) {
            tail.push_back(static_cast<uint8_t>(bits >> s));
        }
        for(size_t j = 0; j < tail.size(); j += 64) {
            st.block(tail.data() + j);
        }
        digest out{};
        for(size_t j = 0; j < 8; j++) {
            for(size_t b = 0; b < 4; b++) {
                out[4 * j + b] = static_cast<unsigned char>(st.m_h[j] >> (24 - 8 * b));
            }
        }
        return out;
    }
    inline digest sha(const void* d, size_t n) {
        return sha_finish({}, 0, static_cast<const uint8_t*>(d), n);
    }
    inline digest sha(const bytes& b) {
        return sha(b.data(), b.size());
    }

    inline uint64_t siphash24(uint64_t k0, uint64_t k1, const uint8_t* d, size_t n) {
        std::array<uint64_t, 4> v{k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
        auto rol = [](uint64_t x, int b) {
            return (x << b) | (x >> (64 - b));
        };
        auto rounds = [&](int c) {
            while(c-- > 0) {
                v[0] += v[1];
                v[2] += v[3];
                v[1] = rol(v[1], 13) ^ v[0];
                v[3] = rol(v[3], 16) ^ v[2];
                v[0] = rol(v[0], 32);
                v[2] += v[1];
                v[0] += v[3];
                v[1] = rol(v[1], 17) ^ v[2];
                v[3] = rol(v[3], 21) ^ v[0];
                v[2] = rol(v[2], 32);
            }
        };
        for(size_t i = 0; i <= n / 8; i++) {
            uint64_t m = 0;
            for(size_t j = 0; j < 8 && i * 8 + j < n; j++) {
                m |= uint64_t(d[i * 8 + j]) << (8 * j);
            }
            if(i == n / 8) {
                m |= uint64_t(n & 0xff) << 56;
            }
            v[3] ^= m;
            rounds(2);
            v[0] ^= m;
        }
        v[2] ^= 0xff;
        rounds(4);
        return v[0] ^ v[1] ^ v[2] ^ v[3];
    }
}
