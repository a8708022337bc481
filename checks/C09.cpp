// Hash primitives against independent implementations of their standards.
#include "common.hpp"
#include "refhash.hpp"

#include "crypto/sha256.h"
#include "crypto/siphash.h"
#include "util/common/hashmap.hpp"
#include "util/common/random_source.hpp"

#include <dlfcn.h>
#include <fstream>
#include <thread>

namespace {
    using namespace vt;

    // One way of building the functions: the linked one or a variant.
    struct Impl {
        std::string m_name;
        void* (*m_new)();
        void* (*m_copy)(void*);
        void (*m_write)(void*, const unsigned char*, size_t);
        void (*m_final)(void*, unsigned char*);
        void (*m_reset)(void*);
        void (*m_delete)(void*);
        void (*m_d64)(unsigned char*, const unsigned char*, size_t);
        void (*m_auto)(char*, size_t);
    };
    std::vector<Impl>& impls() {
        static auto v = [] {
            std::vector<Impl> r;
            r.push_back({"linked",
                         []() -> void* {
                             return new CSHA256();
                         },
                         [](void* p) -> void* {
                             return new CSHA256(*static_cast<CSHA256*>(p));
                         },
                         [](void* p, const unsigned char* d, size_t n) {
                             static_cast<CSHA256*>(p)->Write(d, n);
                         },
                         [](void* p, unsigned char* o) {
                             static_cast<CSHA256*>(p)->Finalize(o);
                         },
                         [](void* p) {
                             static_cast<CSHA256*>(p)->Reset();
                         },
                         [](void* p) {
                             delete static_cast<CSHA256*>(p);
                         },
                         SHA256D64,
                         [](char* o, size_t n) {
                             std::strncpy(o, SHA256AutoDetect().c_str(), n - 1);
                         }});
            const char* root = std::getenv("PBT_ROOT");
            for(const auto* n : {"portable", "asm", "avx2", "shani"}) {
                auto p = std::string(root != nullptr ? root : ".") + "/build/C09." + n + ".so";
                auto* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
                if(h == nullptr) {
                    fprintf(stderr, "%s\n", dlerror());
                    exit(2);
                }
                Impl i;
                i.m_name = n;
                auto get = [&](auto& f, const char* s) {
                    f = reinterpret_cast<std::decay_t<decltype(f)>>(dlsym(h, s));
                };
                get(i.m_new, "v_new");
                get(i.m_copy, "v_copy");
                get(i.m_write, "v_write");
                get(i.m_final, "v_final");
                get(i.m_reset, "v_reset");
                get(i.m_delete, "v_delete");
                get(i.m_d64, "v_d64");
                get(i.m_auto, "v_autodetect");
                r.push_back(i);
            }
            return r;
        }();
        return v;
    }
    // Before SHA256AutoDetect the portable code runs, after it what the
    // machine supports. Workers fork, so a case may switch for good.
    Impl& pick_impl(Src& s) {
        auto i = s.below(impls().size() * 2);
        auto& im = impls()[i % impls().size()];
        static std::set<std::string> on;
        if(i >= impls().size() || on.count(im.m_name) != 0) {
            char nm[128]{};
            im.m_auto(nm, sizeof(nm));
            on.insert(im.m_name);
            s.note("%s: %s", im.m_name.c_str(), nm);
            s.label(std::string("sha256 ") + nm);
        } else {
            s.note("%s: not detected yet", im.m_name.c_str());
            s.label("sha256 default " + im.m_name);
        }
        return im;
    }
    size_t length(Src& s, size_t max) {
        switch(s.below(4)) {
            case 0:
                return s.range(0, 130);
            case 1: { // around block boundaries
                auto b = s.range(0, max / 64);
                auto d = s.range(0, 20);
                return std::min(max, b * 64 + 64 - std::min<u64>(d, b * 64 + 64));
            }
            case 2:
                return s.size(max);
            default:
                return s.range(0, max);
        }
    }
    std::vector<size_t> chunks(Src& s, size_t n) {
        std::vector<size_t> c;
        const auto kind = s.below(4);
        size_t left = n;
        while(left > 0) {
            size_t k = left;
            switch(kind) {
                case 0:
                    break;
                case 1:
                    k = s.range(0, std::min<size_t>(left, 70));
                    break;
                case 2:
                    k = s.range(0, left);
                    break;
                default:
                    k = std::min<size_t>(left, s.pick(std::vector<size_t>{1, 55, 56, 63, 64, 65, 128}));
            }
            c.push_back(k);
            left -= k;
            if(c.size() > 300) {
                c.push_back(left);
                left = 0;
            }
        }
        return c;
    }
    std::string show(const unsigned char* d) {
        return pbt::hex(d, 32);
    }

    void sha_chunks(Src& s) {
        auto& im = pick_impl(s);
        auto* ctx = im.m_new();
        const auto rounds = s.range(1, 3);
        for(u64 r = 0; r < rounds; r++) {
            const auto n = length(s, pbt::thorough() ? 20000 : 5000);
            // the data begins at an odd address as often as not
            const auto off = s.below(16);
            auto data = s.bytes(n + off);
            auto cs = chunks(s, n);
            size_t p = off;
            void* fork = nullptr;
            size_t fork_at = 0;
            for(size_t i = 0; i < cs.size(); i++) {
                im.m_write(ctx, data.data() + p, cs[i]);
                p += cs[i];
                if(fork == nullptr && s.chance(1, 8)) {
                    fork = im.m_copy(ctx);
                    fork_at = p;
                }
            }
            s.note("%zu bytes in %zu writes, offset %llu", n, cs.size(), (unsigned long long)off);
            unsigned char out[32];
            im.m_final(ctx, out);
            auto want = ref::sha(data.data() + off, n);
            PBT_CHECK(std::memcmp(out, want.data(), 32) == 0, "SHA-256 of %zu bytes is %s, not %s", n, show(want.data()).c_str(),
                      show(out).c_str());
            if(fork != nullptr) {
                im.m_final(fork, out);
                auto w2 = ref::sha(data.data() + off, fork_at - off);
                PBT_CHECK(std::memcmp(out, w2.data(), 32) == 0, "SHA-256 of the first %zu bytes is %s, not %s", fork_at - off,
                          show(w2.data()).c_str(), show(out).c_str());
                im.m_delete(fork);
            }
            im.m_reset(ctx);
            if(cs.size() > 1 && n > 64) {
                s.nontrivial();
            }
        }
        im.m_delete(ctx);
    }
    void sha_double(Src& s) {
        auto& im = pick_impl(s);
        const auto n = s.range(0, 40);
        const auto oi = s.below(16);
        const auto oo = s.below(16);
        auto in = s.bytes(n * 64 + oi);
        std::vector<uint8_t> out(oo + n * 32 + 32, 0xA5);
        im.m_d64(out.data() + oo, in.data() + oi, n);
        for(size_t i = 0; i < n; i++) {
            auto d = ref::sha(in.data() + oi + i * 64, 64);
            auto w = ref::sha(d.data(), 32);
            PBT_CHECK(std::memcmp(out.data() + oo + i * 32, w.data(), 32) == 0, "block %zu of %llu: double SHA-256 is %s, not %s", i,
                      (unsigned long long)n, show(w.data()).c_str(), show(out.data() + oo + i * 32).c_str());
        }
        for(size_t i = 0; i < out.size(); i++) {
            if(i < oo || i >= oo + n * 32) {
                PBT_CHECK(out[i] == 0xA5, "byte %zu outside the output was written", i);
            }
        }
        s.note("%llu blocks", (unsigned long long)n);
        if(n > 1) {
            s.nontrivial();
        }
    }
    // Lengths above 2^32 bits.
    void sha_long(Src& s) {
        struct K {
            size_t m_n;
            const char* m_hex;
        };
        static const std::vector<K> ks{
            {0, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767"},
            {1, "adda9fc437d0b67b320d0fe69dd1b29548a2fcb170c8cf9fe1d0666b8a549e9c"},
            {55, "67e5d3ccabdf1a3db2cc979c98576a7fec21f0c4faca8ff9448f508209b40f84"},
            {56, "c2d0dd23b9d46ce9f8834e165be073b833f0856637967c28246c852ef4698051"},
            {63, "cd2472353419bc9db7b838d1b2f22b265587d73801854f8bd8e197ca4b25193b"},
            {64, "c2f29383a7a3a1c7540312a325e74dccfec65553f8a9826d89d04d038540f345"},
            {65, "0546e3cc32caf95251176c3af4c50e689f659da76be1b984e68291dd48c97492"},
            {200, "746e518a9090d22d108b3cdeccfa971daf3f2500f9d26e83f7996e733501eddf"}};
        auto& im = pick_impl(s);
        auto* ctx = im.m_new();
        constexpr size_t total = size_t(1) << 29;
        static const std::vector<uint8_t> z(1 << 24);
        size_t left = total;
        while(left > 0) {
            auto k = s.is_replay() || left < z.size() ? std::min(left, z.size()) : z.size();
            im.m_write(ctx, z.data(), k);
            left -= k;
        }
        for(const auto& k : ks) {
            auto* c2 = im.m_copy(ctx);
            std::vector<uint8_t> t(k.m_n, 7);
            im.m_write(c2, t.data(), t.size());
            unsigned char out[32];
            im.m_final(c2, out);
            im.m_delete(c2);
            PBT_CHECK(show(out) == k.m_hex, "SHA-256 of 2^29 zeros and %zu sevens is %s, not %s", k.m_n, k.m_hex, show(out).c_str());
        }
        im.m_delete(ctx);
        s.nontrivial();
    }
    void hash_data(Src& s) {
        const auto n = length(s, 3000);
        auto d = s.bytes(n);
        auto want = ref::sha(d);
        auto got = cbdc::hash_data(reinterpret_cast<const std::byte*>(d.data()), n);
        PBT_CHECK(got == want, "hash_data of %zu bytes is %s, not %s", n, show(want.data()).c_str(), show(got.data()).c_str());
        if(n > 0) {
            s.nontrivial();
        }
    }
    void siphash(Src& s) {
        const auto n = s.coin() ? s.range(0, 40) : s.range(0, 1500);
        auto k0 = s.edgy();
        auto k1 = s.edgy();
        auto d = s.bytes(n);
        CSipHasher h(k0, k1);
        size_t p = 0;
        size_t parts = 0;
        while(p < n) {
            if(p % 8 == 0 && p + 8 <= n && s.chance(1, 3)) {
                u64 w = 0;
                for(size_t i = 0; i < 8; i++) {
                    w |= u64(d[p + i]) << (8 * i);
                }
                h.Write(w);
                p += 8;
            } else {
                auto k = s.coin() ? s.range(0, std::min<size_t>(n - p, 17)) : s.range(0, n - p);
                h.Write(d.data() + p, k);
                p += k;
            }
            if(s.chance(1, 4)) {
                auto w = ref::siphash24(k0, k1, d.data(), p);
                auto g = h.Finalize();
                PBT_CHECK(g == w, "SipHash-2-4 of the first %zu bytes is %016llx, not %016llx", p, (unsigned long long)w,
                          (unsigned long long)g);
            }
            if(++parts > 400) {
                h.Write(d.data() + p, n - p);
                p = n;
            }
        }
        for(int i = 0; i < 2; i++) {
            auto w = ref::siphash24(k0, k1, d.data(), n);
            auto g = h.Finalize();
            PBT_CHECK(g == w, "SipHash-2-4 of %llu bytes is %016llx, not %016llx", (unsigned long long)n, (unsigned long long)w,
                      (unsigned long long)g);
        }
        s.note("%llu bytes in %zu parts", (unsigned long long)n, parts);
        if(parts > 1) {
            s.nontrivial();
        }
    }
    // The keyed forms used by hash maps and by the shard directory.
    void map_hashes(Src& s) {
        auto h = rndhash(s);
        cbdc::hashing::const_sip_hash<cbdc::hash_t> f;
        PBT_CHECK(f(h) == ref::siphash24(0x1337, 0x1337, h.data(), h.size()), "hash of %s", hx(h).c_str());
        u64 x = s.edgy();
        cbdc::hashing::const_sip_hash<u64> g;
        PBT_CHECK(g(x) == ref::siphash24(0x1337, 0x1337, reinterpret_cast<uint8_t*>(&x), 8), "hash of %llu", (unsigned long long)x);
        auto n = s.size(600);
        auto d = s.bytes(n);
        cbdc::buffer b;
        auto cut = s.range(0, n);
        b.append(d.data(), cut);
        b.append(d.data() + cut, n - cut);
        cbdc::hashing::const_sip_hash<cbdc::buffer> k;
        PBT_CHECK(k(b) == ref::siphash24(0x1337, 0x1337, d.data(), n), "hash of a buffer of %llu bytes", (unsigned long long)n);
        cbdc::hashing::null nh;
        u64 first = 0;
        std::memcpy(&first, h.data(), 8);
        PBT_CHECK(nh(h) == first, "raw hash of %s", hx(h).c_str());
        if(n > 0) {
            s.nontrivial();
        }
    }
    void shard_prefix(Src& s) {
        auto a = static_cast<uint8_t>(s.below(256));
        auto b = static_cast<uint8_t>(s.below(256));
        auto h = rndhash(s);
        // every first byte
        for(unsigned v = 0; v < 256; v++) {
            h[0] = static_cast<unsigned char>(v);
            auto got = cbdc::config::hash_in_shard_range({a, b}, h);
            PBT_CHECK(got == (v >= a && v <= b), "%s in [%u, %u]: %d", hx(h).c_str(), a, b, got);
        }
        if(a < b) {
            s.nontrivial();
        }
    }
    // Ids drawn from a random source: never twice, whatever the callers.
    void random_ids(Src& s) {
        pbt::Scratch dir;
        auto seed = s.bytes(32);
        auto file = dir.path() + "/seed";
        {
            std::ofstream f(file, std::ios::binary);
            f.write(reinterpret_cast<const char*>(seed.data()), 32);
        }
        cbdc::random_source r(file);
        const auto nt = s.range(1, 4);
        const auto per = s.range(1, 300);
        std::vector<std::vector<hash_t>> got(nt);
        std::vector<std::thread> th;
        for(auto& g : got) {
            th.emplace_back([&] {
                for(u64 i = 0; i < per; i++) {
                    g.push_back(r.random_hash());
                }
            });
        }
        for(auto& t : th) {
            t.join();
        }
        std::set<hash_t> seen;
        std::array<u64, 256> cnt{};
        for(auto& g : got) {
            for(auto& h : g) {
                PBT_CHECK(seen.insert(h).second, "%s was drawn twice", hx(h).c_str());
                for(auto b : h) {
                    cnt[b]++;
                }
            }
        }
        const auto total = nt * per * 32;
        if(total > 20000) {
            for(unsigned b = 0; b < 256; b++) {
                // 12 standard deviations
                auto mean = static_cast<double>(total) / 256;
                auto d = static_cast<double>(cnt[b]) - mean;
                PBT_CHECK(d * d < 144 * mean, "byte %u drawn %llu times among %llu", b, (unsigned long long)cnt[b],
                          (unsigned long long)total);
            }
        }
        // another seed gives other numbers
        auto seed2 = seed;
        seed2[s.below(32)] ^= static_cast<uint8_t>(1 << s.below(8));
        {
            std::ofstream f(file, std::ios::binary);
            f.write(reinterpret_cast<const char*>(seed2.data()), 32);
        }
        cbdc::random_source r2(file);
        for(u64 i = 0; i < 50; i++) {
            auto h = r2.random_hash();
            PBT_CHECK(seen.count(h) == 0, "%s was drawn from two seeds", hx(h).c_str());
        }
        if(nt > 1) {
            s.nontrivial();
        }
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C09";
    c.m_rule = "SHA-256 in five builds (as linked, portable, SSE4 assembly, SSE4.1+AVX2, SHA-NI), before and after "
               "SHA256AutoDetect: any length, chunking, alignment, copy and reset; double SHA-256 of any number of "
               "64-byte blocks; messages above 2^32 bits; SipHash-2-4 in any chunking; the keyed forms; the shard "
               "prefix test on all first bytes; random ids. Non-trivial: more than one chunk, block or thread";
    c.m_assumptions = {"instruction sets that this machine lacks are not exercised: SHA256AutoDetect then chooses others"};
    c.m_props = {{"sha_chunks", sha_chunks, 60000, 2000000},
                 {"sha_double", sha_double, 30000, 600000},
                 {"sha_long", sha_long, 8, 60, false, 120},
                 {"hash_data", hash_data, 30000, 600000},
                 {"siphash", siphash, 100000, 4000000},
                 {"map_hashes", map_hashes, 60000, 2000000},
                 {"shard_prefix", shard_prefix, 5000, 66000},
                 {"random_ids", random_ids, 800, 20000}};
    impls();
    return pbt::run(argc, argv, c);
}
