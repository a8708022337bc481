// Keccak-256 (original padding), as ethash provides it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ethash {
    struct hash256 {
        uint8_t bytes[32];
    };
    inline void keccakf(uint64_t* s) {
        static const uint64_t rc[24]
            = {0x0000000000000001, 0x0000000000008082, 0x800000000000808a,
               0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
               0x8000000080008081, 0x8000000000008009, 0x000000000000008a,
               0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
               0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
               0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
               0x000000000000800a, 0x800000008000000a, 0x8000000080008081,
               0x8000000000008080, 0x0000000080000001, 0x8000000080008008};
        static const int rot[24] = {1,  3,  6,  10, 15, 21, 28, 36,
                                    45, 55, 2,  14, 27, 41, 56, 8,
                                    25, 43, 62, 18, 39, 61, 20, 44};
        static const int pil[24] = {10, 7,  11, 17, 18, 3,  5,  16,
                                    8,  21, 24, 4,  15, 23, 19, 13,
                                    12, 2,  20, 14, 22, 9,  6,  1};
        auto rl = [](uint64_t x, int n) {
            return (x << n) | (x >> (64 - n));
        };
        for(int r = 0; r < 24; r++) {
            uint64_t bc[5];
            for(int i = 0; i < 5; i++) {
                bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
            }
            for(int i = 0; i < 5; i++) {
                auto t = bc[(i + 4) % 5] ^ rl(bc[(i + 1) % 5], 1);
                for(int j = 0; j < 25; j += 5) {
                    s[j + i] ^= t;
                }
            }
            auto t = s[1];
            for(int i = 0; i < 24; i++) {
                auto b = s[pil[i]];
                s[pil[i]] = rl(t, rot[i]);
                t = b;
            }
            for(int j = 0; j < 25; j += 5) {
                for(int i = 0; i < 5; i++) {
                    bc[i] = s[j + i];
                }
                for(int i = 0; i < 5; i++) {
                    s[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5];
                }
            }
            s[0] ^= rc[r];
        }
    }
    inline hash256 keccak256(const uint8_t* d, size_t n) {
        uint64_t s[25] = {};
        const size_t rate = 136;
        uint8_t blk[136];
        auto absorb = [&](const uint8_t* p) {
            for(size_t i = 0; i < rate / 8; i++) {
                uint64_t v;
                std::memcpy(&v, p + 8 * i, 8);
                s[i] ^= v;
            }
            keccakf(s);
        };
        while(n >= rate) {
            absorb(d);
            d += rate;
            n -= rate;
        }
        std::memset(blk, 0, rate);
        if(n != 0) {
            std::memcpy(blk, d, n);
        }
        blk[n] = 0x01;
        blk[rate - 1] |= 0x80;
        absorb(blk);
        hash256 h;
        std::memcpy(h.bytes, s, 32);
        return h;
    }
}
