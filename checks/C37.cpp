// 256-bit arithmetic of the EVM runner.
#include "common.hpp"
#include "parsec/agent/runners/evm/math.hpp"
#include "parsec/agent/runners/evm/util.hpp"

#include <boost/multiprecision/cpp_int.hpp>

using namespace vt;
using namespace cbdc::parsec::agent::runner;
using big = boost::multiprecision::cpp_int;
using u256 = evmc::uint256be;

namespace {
    const big two256 = big(1) << 256;

    u256 gen(Src& s) {
        u256 r{};
        switch(s.weighted({3, 4, 2, 2, 2, 2})) {
            case 0:
                for(auto& b : r.bytes) {
                    b = static_cast<uint8_t>(s.below(256));
                }
                break;
            case 1:
                // runs of equal bytes, so that carries go far
                for(size_t i = 0; i < 32;) {
                    auto v = s.pick(std::vector<uint8_t>{0, 0, 0xff, 0xff, 1, 0x80, 0x7f, 0xfe});
                    for(auto n = 1 + s.below(12); n > 0 && i < 32; n--) {
                        r.bytes[i++] = v;
                    }
                }
                break;
            case 2: {
                auto bit = s.below(256);
                r.bytes[31 - bit / 8] = static_cast<uint8_t>(1U << (bit % 8));
                if(s.coin()) {
                    // all the bits below it
                    r.bytes[31 - bit / 8]--;
                    for(size_t i = 32 - bit / 8; i < 32; i++) {
                        r.bytes[i] = 0xff;
                    }
                }
                break;
            }
            case 3: {
                auto v = s.edgy();
                for(int i = 0; i < 8; i++) {
                    r.bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
                }
                break;
            }
            case 4: {
                auto v = s.below(4);
                for(auto& b : r.bytes) {
                    b = 0xff;
                }
                r.bytes[31] = static_cast<uint8_t>(0xff - v);
                break;
            }
            default: {
                // one byte anywhere
                r.bytes[s.below(32)] = static_cast<uint8_t>(1 + s.below(255));
            }
        }
        return r;
    }
    big val(const u256& v) {
        big r = 0;
        for(auto b : v.bytes) {
            r = r * 256 + b;
        }
        return r;
    }
    std::string text(const u256& v) {
        std::string o;
        for(auto b : v.bytes) {
            char t[4];
            snprintf(t, sizeof(t), "%02x", b);
            o += t;
        }
        return o;
    }
    big mod(const big& b) {
        big r = b % two256;
        return r < 0 ? r + two256 : r;
    }
    std::string digits(const big& b) {
        std::stringstream o;
        o << std::hex << b;
        return o.str();
    }

    void run_arith(Src& s) {
        auto a = gen(s);
        auto b = s.chance(1, 8) ? a : gen(s);
        auto A = val(a);
        auto B = val(b);
        s.note("a %s", text(a).c_str());
        s.note("b %s", text(b).c_str());
        PBT_CHECK(val(a + b) == mod(A + B), "a + b = %s", text(a + b).c_str());
        PBT_CHECK(val(a - b) == mod(A - B), "a - b = %s", text(a - b).c_str());
        PBT_CHECK(val(a * b) == mod(A * B), "a * b = %s", text(a * b).c_str());
        auto n = s.chance(1, 6) ? s.edgy() : s.below(40);
        auto want = n >= 32 ? big(0) : mod(A << static_cast<unsigned>(8 * n));
        PBT_CHECK(val(a << n) == want, "a << %llu = %s", static_cast<unsigned long long>(n), text(a << n).c_str());
        PBT_CHECK(to_uint64(a) == static_cast<u64>(A & big(~u64{0})), "to_uint64(a) = %llu", static_cast<unsigned long long>(to_uint64(a)));
        // operands are left alone, and results compare as numbers
        PBT_CHECK(val(a) == A && val(b) == B, "an operand changed");
        PBT_CHECK((a < b) == (A < B) && (a == b) == (A == B), "comparison");
        PBT_CHECK((a + b) - b == a, "a + b - b");
        if(A + B >= two256 || A < B || A * B >= two256) {
            s.nontrivial();
        }
        s.label(A < B ? "borrows" : "does not borrow");
        s.label(A + B >= two256 ? "carries out" : "does not carry out");
        s.label(A * B >= two256 ? "product overflows" : "product fits");
    }

    void run_hex(Src& s) {
        auto a = gen(s);
        auto A = val(a);
        s.note("a %s", text(a).c_str());
        auto t = to_hex_trimmed(a);
        PBT_CHECK(t == "0x" + digits(A), "to_hex_trimmed: %s", t.c_str());
        PBT_CHECK(to_hex_trimmed(a, "") == digits(A), "to_hex_trimmed without a prefix");
        PBT_CHECK(to_hex(a) == text(a), "to_hex: %s", to_hex(a).c_str());
        std::string in = s.coin() ? t : s.coin() ? digits(A) : "0x" + text(a);
        if(s.chance(1, 3)) {
            for(auto& c : in) {
                if(c != 'x' && s.coin()) {
                    c = static_cast<char>(toupper(c));
                }
            }
        }
        auto r = uint256be_from_hex(in);
        PBT_CHECK(r && val(*r) == A, "uint256be_from_hex(%s)", in.c_str());
        // other text
        std::string hexd = s.coin() ? "0x" : "";
        auto len = s.below(72);
        bool good = len > 0 && len <= 64;
        big want = 0;
        for(u64 i = 0; i < len; i++) {
            if(s.chance(1, 80)) {
                hexd += s.pick(std::vector<char>{'g', ' ', '-', 'y', '.', '\0', 'G', '/', ':', '@', '`'});
                good = false;
            } else {
                auto d = s.below(16);
                hexd += "0123456789abcdef"[d];
                want = want * 16 + d;
            }
        }
        s.note("text '%s'", hexd.c_str());
        auto q = uint256be_from_hex(hexd);
        PBT_CHECK(q.has_value() == good, good ? "refused" : "accepted");
        if(good) {
            PBT_CHECK(val(*q) == want, "parsed as %s", text(*q).c_str());
        }
        auto bytes = from_hex<evmc::bytes32>(hexd);
        auto addr = from_hex<evmc::address>(hexd);
        bool all = hexd.find_first_not_of("0123456789abcdef", hexd.rfind("0x", 0) == 0 ? 2 : 0) == std::string::npos;
        PBT_CHECK(bytes.has_value() == (all && (len + 1) / 2 == 32), "from_hex<bytes32> of %llu digits", static_cast<unsigned long long>(len));
        PBT_CHECK(addr.has_value() == (all && (len + 1) / 2 == 20), "from_hex<address> of %llu digits", static_cast<unsigned long long>(len));
        if(bytes) {
            PBT_CHECK(val(*bytes) == want, "from_hex<bytes32>");
        }
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C37";
    c.m_rule = "arith: pairs of operands, random, sparse, with runs of equal bytes or next to a power of two "
               "(non-trivial: some operation carries out, borrows or overflows); hex: every operand and "
               "texts of 0-71 digits, some with characters that are none";
    c.m_assumptions = {"evmc::uint256be is the stand-in of this framework: 32 bytes, big-endian, as in the EVMC headers"};
    c.m_props = {{"arith", run_arith, 300000, 60000000}, {"hex", run_hex, 60000, 6000000}};
    return pbt::run(argc, argv, c);
}
