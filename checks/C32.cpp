// The directory: a fixed, total, fair map from keys to shards.
#include "common.hpp"
#include "parsec/directory/impl.hpp"

#include <map>
#include <unistd.h>
#include <thread>

using namespace vt;
namespace dir = cbdc::parsec::directory;

namespace {
    cbdc::buffer buf(const std::vector<uint8_t>& v) {
        auto b = cbdc::buffer();
        b.append(v.data(), v.size());
        return b;
    }
    u64 locate(dir::impl& d, const cbdc::buffer& k) {
        std::optional<u64> r;
        size_t n = 0;
        auto ok = d.key_location(k, [&](u64 v) {
            r = v;
            n++;
        });
        PBT_CHECK(ok && n == 1, "lookup answered %zu times", n);
        return *r;
    }
    // Keys of one family: what a contract would use.
    std::vector<uint8_t> mk(unsigned fam, u64 i, u64 salt) {
        std::vector<uint8_t> v;
        auto put = [&](u64 x, int n) {
            for(int j = 0; j < n; j++) {
                v.push_back(static_cast<uint8_t>(x >> (8 * j)));
            }
        };
        switch(fam) {
            case 0: // decimal account names
                for(auto c : "account_" + std::to_string(i)) {
                    v.push_back(static_cast<uint8_t>(c));
                }
                break;
            case 1: // little-endian counters
                put(i, 8);
                break;
            case 2: // 20-byte addresses, few differing bytes at the end
                v.assign(17, static_cast<uint8_t>(salt));
                v.push_back(static_cast<uint8_t>(i >> 16));
                v.push_back(static_cast<uint8_t>(i >> 8));
                v.push_back(static_cast<uint8_t>(i));
                break;
            case 3: // counter first, long common tail
                put(i, 4);
                v.resize(60, static_cast<uint8_t>(salt));
                break;
            case 4: // random
                put((i + salt) * 0x9e3779b97f4a7c15ULL, 8);
                put((i ^ salt) * 0xbf58476d1ce4e5b9ULL, 8);
                break;
            default: // keys of many lengths
                put(i, 4);
                v.resize(4 + i % 61, 0);
        }
        return v;
    }
    void deterministic(Src& s) {
        const auto n = s.coin() ? s.range(1, 20) : 1 + s.size(100000);
        auto d1 = dir::impl(n);
        auto d2 = dir::impl(n);
        const auto len = s.weighted({3, 1}) == 0 ? s.range(0, 40) : s.size(2000);
        auto k = s.bytes(len);
        auto r = locate(d1, buf(k));
        PBT_CHECK(r < n, "shard %llu of %llu", (unsigned long long)r, (unsigned long long)n);
        // other buffers with the same bytes, other lookups in between
        auto garbage = cbdc::buffer();
        garbage.extend(len + 64);
        std::memset(garbage.data(), static_cast<int>(s.below(256)), garbage.size());
        (void)locate(d1, garbage);
        auto two = cbdc::buffer();
        two.append(k.data(), k.size() / 2);
        two.append(k.data() + k.size() / 2, k.size() - k.size() / 2);
        PBT_CHECK(locate(d1, two) == r, "second lookup of the same key gives another shard");
        PBT_CHECK(locate(d2, buf(k)) == r, "another directory gives another shard");
        u64 rt = n;
        std::thread([&] { rt = locate(d2, two); }).join();
        PBT_CHECK(rt == r, "another thread gets another shard");
        if(len > 0 && n > 1) {
            s.nontrivial();
        }
    }
    void spread(Src& s) {
        const auto n = s.range(2, 16);
        const auto fam = static_cast<unsigned>(s.below(6));
        const auto salt = s.below(256);
        const auto first = s.size(1000000);
        auto d = dir::impl(n);
        constexpr u64 per = 400;
        std::vector<u64> cnt(n);
        s.note("family %u, %llu shards, keys from %llu", fam, (unsigned long long)n, (unsigned long long)first);
        for(u64 i = 0; i < per * n; i++) {
            auto r = locate(d, buf(mk(fam, first + i, salt)));
            PBT_CHECK(r < n, "shard %llu of %llu", (unsigned long long)r, (unsigned long long)n);
            cnt[r]++;
        }
        // A uniform map is 10 standard deviations inside these bounds.
        for(u64 i = 0; i < n; i++) {
            PBT_CHECK(cnt[i] > per / 2 && cnt[i] < per * 3 / 2, "shard %llu of %llu got %llu of %llu keys", (unsigned long long)i,
                      (unsigned long long)n, (unsigned long long)cnt[i], (unsigned long long)(per * n));
        }
        s.nontrivial();
    }
    std::string probe(u64 n, u64 salt) {
        auto d = dir::impl(n);
        std::string out;
        for(u64 i = 0; i < 200; i++) {
            out += std::to_string(locate(d, buf(mk(static_cast<unsigned>(i % 6), i * 7 + salt, salt)))) + ",";
        }
        return out;
    }
    // A new process agrees.
    void processes(Src& s) {
        const auto n = s.range(2, 100);
        const auto salt = s.below(1000);
        auto mine = probe(n, salt);
        auto cmd = "/proc/self/exe --probe " + std::to_string(n) + " " + std::to_string(salt);
        char exe[4096]{};
        if(readlink("/proc/self/exe", exe, sizeof(exe) - 1) <= 0) {
            throw pbt::Discard{};
        }
        cmd = std::string(exe) + " --probe " + std::to_string(n) + " " + std::to_string(salt);
        auto* f = popen(cmd.c_str(), "r");
        if(f == nullptr) {
            throw pbt::Discard{};
        }
        std::string out;
        char b[4096];
        size_t k = 0;
        while((k = fread(b, 1, sizeof(b), f)) > 0) {
            out.append(b, k);
        }
        if(pclose(f) != 0) {
            throw pbt::Discard{};
        }
        PBT_CHECK(out == mine, "another process maps keys to other shards: %.60s... and %.60s...", mine.c_str(), out.c_str());
        s.nontrivial();
    }
}

#include <unistd.h>

int main(int argc, char** argv) {
    if(argc == 4 && std::string(argv[1]) == "--probe") {
        fputs(probe(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10)).c_str(), stdout);
        return 0;
    }
    pbt::Check c;
    c.m_id = "C32";
    c.m_rule = "keys of any length and of six families, 1-100000 shards; the same key looked up again "
               "by other buffers, directories, threads and processes; the share of each shard over 400n "
               "keys. Non-trivial: more than one shard and a key";
    c.m_assumptions = {"a fair share is between half and one and a half times the average over 400 keys per shard"};
    c.m_props = {{"deterministic", deterministic, 30000, 500000},
                 {"spread", spread, 800, 20000},
                 {"processes", processes, 40, 500}};
    return pbt::run(argc, argv, c);
}
