// C08: text encodings of buffers, hashes and addresses.
#include "net.hpp"
#include "uhs/client/client.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"
#include "util/common/buffer.hpp"

// The command line client, driven through its own entry point.
#define main cli_main
#include "uhs/client/client-cli.cpp"
#undef main

#include <cstdlib>
#include <fstream>
#include <sstream>

using namespace vt;

namespace {
    // -------------------------------------------------------------- hex
    const char* digits = "0123456789abcdef";

    std::string ref_hex(const std::vector<uint8_t>& b, bool upper = false) {
        std::string r;
        for(auto c : b) {
            r.push_back(digits[c >> 4]);
            r.push_back(digits[c & 15]);
        }
        if(upper) {
            for(auto& c : r) {
                c = static_cast<char>(std::toupper(c));
            }
        }
        return r;
    }
    int ref_digit(char c) {
        if(c >= '0' && c <= '9') {
            return c - '0';
        }
        if(c >= 'a' && c <= 'f') {
            return c - 'a' + 10;
        }
        if(c >= 'A' && c <= 'F') {
            return c - 'A' + 10;
        }
        return -1;
    }
    std::optional<std::vector<uint8_t>> ref_unhex(const std::string& t) {
        if(t.empty() || t.size() % 2 != 0 || t.size() > 102400) {
            return std::nullopt;
        }
        std::vector<uint8_t> r;
        for(size_t i = 0; i < t.size(); i += 2) {
            auto a = ref_digit(t[i]);
            auto b = ref_digit(t[i + 1]);
            if(a < 0 || b < 0) {
                return std::nullopt;
            }
            r.push_back(static_cast<uint8_t>(a * 16 + b));
        }
        return r;
    }
    cbdc::buffer to_buf(const std::vector<uint8_t>& v) {
        cbdc::buffer b;
        if(!v.empty()) {
            b.append(v.data(), v.size());
        }
        return b;
    }
    std::string vis(const std::string& t) {
        std::string r;
        for(auto ch : t.substr(0, 200)) {
            auto c = static_cast<unsigned char>(ch);
            if(c >= 32 && c < 127 && c != '\\') {
                r.push_back(ch);
            } else {
                char b[8];
                snprintf(b, sizeof(b), "\\x%02x", c);
                r += b;
            }
        }
        return r;
    }

    void hex_roundtrip(Src& s) {
        auto n = s.weighted({3, 1}) == 0 ? s.size(200) : s.below(51300);
        auto v = s.bytes(n);
        auto b = to_buf(v);
        auto want = ref_hex(v);
        auto got = b.to_hex();
        PBT_CHECK(got == want, "to_hex of %zu bytes is wrong: %s, not %s", v.size(), got.substr(0, 80).c_str(),
                  want.substr(0, 80).c_str());
        auto up = s.coin();
        auto text = ref_hex(v, up);
        auto back = cbdc::buffer::from_hex(text);
        if(v.empty() || text.size() > 102400) {
            s.label("outside");
            PBT_CHECK(!back.has_value(), "%zu characters were accepted", text.size());
        } else {
            PBT_CHECK(back.has_value(), "%zu hexadecimal digits were refused", text.size());
            PBT_CHECK(*back == b, "decoding gives other bytes for %s", vis(text).c_str());
            s.nontrivial();
        }
        // prefixed, and without the leading zero
        std::vector<std::string> prefixes{"0x", "", "hex:", "0", "ab"};
        auto pi = s.below(prefixes.size());
        auto p = prefixes[pi];
        auto pre = b.to_hex_prefixed(p);
        PBT_CHECK(pre == p + want, "to_hex_prefixed(%s) is wrong", p.c_str());
        if(pi == 0) {
            PBT_CHECK(b.to_hex_prefixed() == pre, "the default prefix is not 0x");
        }
        if(!v.empty() && text.size() <= 102400) {
            auto f = cbdc::buffer::from_hex_prefixed(pre, p);
            PBT_CHECK(f.has_value() && *f == b, "from_hex_prefixed does not give back the bytes (prefix '%s')", p.c_str());
            if(pi == 0 && v[0] < 16 && want.size() > 1) {
                s.label("odd");
                auto f2 = cbdc::buffer::from_hex_prefixed("0x" + want.substr(1));
                PBT_CHECK(f2.has_value() && *f2 == b, "an odd number of prefixed digits does not decode: %s", vis(pre).c_str());
            }
            if(pi == 0) {
                auto f3 = cbdc::buffer::from_hex_prefixed(want);
                PBT_CHECK(f3.has_value() && *f3 == b, "digits without a prefix do not decode");
            }
        }
    }

    std::string any_text(Src& s, size_t max) {
        std::string t;
        auto n = s.size(max);
        auto mode = s.below(4);
        for(size_t i = 0; i < n; i++) {
            switch(mode) {
                case 0:
                    t.push_back(static_cast<char>(s.below(256)));
                    break;
                case 1:
                    t.push_back(digits[s.below(16)]);
                    break;
                case 2:
                    t.push_back(s.chance(1, 12) ? static_cast<char>(s.below(256)) : digits[s.below(16)]);
                    break;
                default:
                    t.push_back(s.pick(std::vector<char>{'0', '1', 'f', 'F', 'x', 'X', '-', '+', ' ', '\t', 'g', '/', ':', '@', '`', 'G', '\0'}));
            }
        }
        return t;
    }

    void hex_any(Src& s) {
        auto t = any_text(s, 40);
        if(s.chance(1, 40)) {
            t = std::string(102396 + s.below(10), 'a');
        }
        s.note("\"%s\" (%zu)", vis(t).c_str(), t.size());
        auto want = ref_unhex(t);
        auto got = cbdc::buffer::from_hex(t);
        PBT_CHECK(got.has_value() == want.has_value(), "%s: \"%s\" (%zu characters)", want ? "refused" : "accepted", vis(t).c_str(), t.size());
        if(want) {
            s.label("hex");
            PBT_CHECK(*got == to_buf(*want), "decoded wrongly: \"%s\"", vis(t).c_str());
        }
        if(!t.empty()) {
            s.nontrivial();
        }
        // a prefix is stripped once, an odd rest gets a zero in front
        auto p = std::string("0x");
        auto t2 = s.coin() ? p + t : t;
        auto rest = t2.rfind(p, 0) == 0 ? t2.substr(2) : t2;
        if(rest.size() % 2 != 0) {
            rest.insert(0, "0");
        }
        auto w2 = ref_unhex(rest);
        auto g2 = cbdc::buffer::from_hex_prefixed(t2);
        PBT_CHECK(g2.has_value() == w2.has_value(), "from_hex_prefixed %s \"%s\"", w2 ? "refused" : "accepted", vis(t2).c_str());
        PBT_CHECK(!w2 || *g2 == to_buf(*w2), "from_hex_prefixed decoded wrongly: \"%s\"", vis(t2).c_str());
        // hashes: 64 digits have a value, anything else has no effect beyond
        // the value returned
        auto h = cbdc::hash_from_hex(t);
        PBT_CHECK(h == cbdc::hash_from_hex(t), "two decodings of \"%s\" differ", vis(t).c_str());
    }

    void hash_text(Src& s) {
        auto h = rndhash(s);
        for(auto k = s.below(4); k > 0; k--) {
            h[s.below(32)] = static_cast<uint8_t>(s.below(16));
        }
        std::vector<uint8_t> v(h.begin(), h.end());
        auto t = cbdc::to_string(h);
        PBT_CHECK(t == ref_hex(v), "to_string: %s for %s", t.c_str(), ref_hex(v).c_str());
        auto up = ref_hex(v, s.coin());
        PBT_CHECK(cbdc::hash_from_hex(up) == h, "hash_from_hex(%s) is another hash", up.c_str());
        s.nontrivial();
    }

    // ----------------------------------------------------------- bech32
    const std::string charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    uint32_t polymod(const std::vector<uint8_t>& v) {
        static const uint32_t gen[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
        uint32_t chk = 1;
        for(auto x : v) {
            auto b = chk >> 25;
            chk = (chk & 0x1ffffff) << 5 ^ x;
            for(int i = 0; i < 5; i++) {
                if((b >> i) & 1) {
                    chk ^= gen[i];
                }
            }
        }
        return chk;
    }
    std::vector<uint8_t> expand(const std::string& hrp) {
        std::vector<uint8_t> r;
        for(auto c : hrp) {
            r.push_back(static_cast<uint8_t>(static_cast<unsigned char>(c) >> 5));
        }
        r.push_back(0);
        for(auto c : hrp) {
            r.push_back(static_cast<uint8_t>(c & 31));
        }
        return r;
    }
    // The checksum ends in `fin`: 1 for bech32, 0x2bc830a3 for bech32m.
    std::string ref_bech32(const std::string& hrp, const std::vector<uint8_t>& syms, uint32_t fin = 1) {
        auto e = expand(hrp);
        e.insert(e.end(), syms.begin(), syms.end());
        e.resize(e.size() + 6);
        auto m = polymod(e) ^ fin;
        auto r = hrp + "1";
        for(auto x : syms) {
            r.push_back(charset[x]);
        }
        for(int i = 0; i < 6; i++) {
            r.push_back(charset[(m >> (5 * (5 - i))) & 31]);
        }
        return r;
    }
    std::vector<uint8_t> to5(const std::vector<uint8_t>& b, uint8_t pad_bits = 0) {
        std::vector<uint8_t> r;
        unsigned acc = 0;
        unsigned bits = 0;
        for(auto x : b) {
            acc = (acc << 8) | x;
            bits += 8;
            while(bits >= 5) {
                bits -= 5;
                r.push_back((acc >> bits) & 31);
            }
            acc &= 0xff;
        }
        if(bits > 0) {
            r.push_back(static_cast<uint8_t>(((acc << (5 - bits)) & 31) | (pad_bits & ((1U << (5 - bits)) - 1))));
        }
        return r;
    }
    // BIP 173, and what an address is: "usd", a zero byte, 32 bytes of key.
    std::optional<hash_t> ref_address(const std::string& t) {
        bool lo = false;
        bool up = false;
        for(auto ch : t) {
            auto c = static_cast<unsigned char>(ch);
            if(c < 33 || c > 126) {
                return std::nullopt;
            }
            lo |= c >= 'a' && c <= 'z';
            up |= c >= 'A' && c <= 'Z';
        }
        if((lo && up) || t.size() > 90) {
            return std::nullopt;
        }
        std::string l;
        for(auto c : t) {
            l.push_back((c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c);
        }
        auto pos = l.rfind('1');
        if(pos == std::string::npos || pos == 0 || pos + 7 > l.size()) {
            return std::nullopt;
        }
        auto hrp = l.substr(0, pos);
        std::vector<uint8_t> v;
        for(auto c : l.substr(pos + 1)) {
            auto k = charset.find(c);
            if(k == std::string::npos) {
                return std::nullopt;
            }
            v.push_back(static_cast<uint8_t>(k));
        }
        auto e = expand(hrp);
        e.insert(e.end(), v.begin(), v.end());
        if(polymod(e) != 1 || hrp != "usd") {
            return std::nullopt;
        }
        v.resize(v.size() - 6);
        if(v.size() != 53) { // 33 bytes and one bit of padding
            return std::nullopt;
        }
        std::vector<uint8_t> b;
        unsigned acc = 0;
        unsigned bits = 0;
        for(auto x : v) {
            acc = (acc << 5) | x;
            bits += 5;
            if(bits >= 8) {
                bits -= 8;
                b.push_back(static_cast<uint8_t>(acc >> bits));
                acc &= (1U << bits) - 1;
            }
        }
        if(acc != 0 || b.size() != 33 || b[0] != 0) {
            return std::nullopt;
        }
        hash_t h{};
        std::copy_n(b.begin() + 1, 32, h.begin());
        return h;
    }
    std::optional<hash_t> decode(const std::string& t) {
        auto* old = std::cout.rdbuf(nullptr);
        auto r = cbdc::address::decode(t);
        std::cout.rdbuf(old);
        std::cout.clear();
        return r;
    }
    std::string addr_of(const hash_t& h) {
        std::vector<uint8_t> b{0};
        b.insert(b.end(), h.begin(), h.end());
        return ref_bech32("usd", to5(b));
    }

    void address_ok(Src& s) {
        auto h = rndhash(s);
        if(s.chance(1, 4)) {
            h.fill(static_cast<uint8_t>(s.below(256)));
        }
        auto a = addr_of(h);
        if(s.coin()) {
            for(auto& c : a) {
                c = static_cast<char>(std::toupper(c));
            }
        }
        auto k = decode(a);
        PBT_CHECK(k.has_value(), "the address %s is refused", a.c_str());
        PBT_CHECK(*k == h, "the address %s decodes to %s, not %s", a.c_str(), hx(*k).c_str(), hx(h).c_str());
        PBT_CHECK(ref_address(a) == k, "harness");
        s.nontrivial();
    }

    void address_changed(Src& s) {
        auto h = rndhash(s);
        auto a = addr_of(h);
        if(s.chance(1, 5)) {
            for(auto& c : a) {
                c = static_cast<char>(std::toupper(c));
            }
        }
        auto orig = a;
        std::set<size_t> where;
        auto n = 1 + s.below(4);
        for(u64 i = 0; i < n; i++) {
            where.insert(s.chance(1, 8) ? s.below(5) : s.below(a.size()));
        }
        for(auto i : where) {
            char c = a[i];
            while(c == a[i]) {
                switch(s.below(3)) {
                    case 0:
                        c = charset[s.below(32)];
                        if(orig[2] == 'D') {
                            c = static_cast<char>(std::toupper(c));
                        }
                        break;
                    case 1:
                        c = static_cast<char>(33 + s.below(94));
                        break;
                    default:
                        c = static_cast<char>(s.below(256));
                }
            }
            a[i] = c;
        }
        s.note("%s", vis(a).c_str());
        auto k = decode(a);
        PBT_CHECK(!k.has_value(), "%s with %zu characters changed is accepted: %s", orig.c_str(), where.size(), vis(a).c_str());
        s.nontrivial();
    }

    void address_other(Src& s) {
        std::string a;
        auto h = rndhash(s);
        std::vector<uint8_t> b{0};
        b.insert(b.end(), h.begin(), h.end());
        auto kind = s.below(8);
        bool refuse = true;
        switch(kind) {
            case 0: // another kind of address
                b[0] = static_cast<uint8_t>(1 + s.below(255));
                a = ref_bech32("usd", to5(b));
                break;
            case 1: { // another length
                auto n = s.below(48);
                b.resize(n);
                refuse = n != 33;
                a = ref_bech32("usd", to5(b));
                break;
            }
            case 2: // padding that is not zero
                a = ref_bech32("usd", to5(b, 1));
                break;
            case 3: { // any number of symbols
                std::vector<uint8_t> v = to5(b);
                auto more = s.below(12);
                if(s.coin()) {
                    v.resize(s.below(54));
                    refuse = v.size() != 53;
                } else {
                    for(u64 i = 0; i < more; i++) {
                        v.push_back(static_cast<uint8_t>(s.coin() ? 0 : s.below(32)));
                    }
                    refuse = more != 0;
                }
                a = ref_bech32("usd", v);
                break;
            }
            case 4: { // another human-readable part
                auto hrp = s.pick(std::vector<std::string>{"us", "usdd", "usb", "tusd", "usd1", "1usd", "eur", "u", "bc"});
                a = ref_bech32(hrp, to5(b));
                break;
            }
            case 5: // bech32m and other checksums
                a = ref_bech32("usd", to5(b), s.coin() ? 0x2bc830a3U : static_cast<uint32_t>(s.below(1U << 30) & ~1U));
                break;
            case 6: { // the symbols q that a final p lets pass
                a = addr_of(h);
                for(int i = 0; i < 4000 && a.back() != 'p'; i++) {
                    h[s.below(32)] = static_cast<uint8_t>(s.below(256));
                    a = addr_of(h);
                }
                if(a.back() != 'p') {
                    throw pbt::Discard{};
                }
                a.insert(a.size() - 1, std::string(1 + s.below(20), 'q'));
                break;
            }
            default: // cut or extended
                a = addr_of(h);
                if(s.coin()) {
                    a.resize(s.below(a.size()));
                } else {
                    auto n = 1 + s.below(30);
                    for(u64 i = 0; i < n; i++) {
                        a.push_back(charset[s.below(32)]);
                    }
                    // 30 bits of checksum
                    refuse = !ref_address(a).has_value();
                }
        }
        s.note("kind %llu: %s", (unsigned long long)kind, vis(a).c_str());
        s.label("kind" + std::to_string(kind));
        PBT_CHECK(refuse == !ref_address(a).has_value(), "harness: kind %llu %s", (unsigned long long)kind, a.c_str());
        auto k = decode(a);
        PBT_CHECK(k.has_value() == !refuse, "%s: %s", refuse ? "accepted although it is no address of a key" : "refused", vis(a).c_str());
        s.nontrivial();
    }

    void address_any(Src& s) {
        std::string a;
        switch(s.below(4)) {
            case 0:
                a = any_text(s, 100);
                break;
            case 1: {
                a = addr_of(rndhash(s));
                auto n = 1 + s.below(6);
                for(u64 i = 0; i < n; i++) {
                    auto p = s.below(a.size() + 1);
                    switch(s.below(3)) {
                        case 0:
                            a.insert(p, 1, static_cast<char>(s.below(256)));
                            break;
                        case 1:
                            a.erase(std::min<size_t>(p, a.size() - 1), 1);
                            break;
                        default:
                            std::swap(a[p % a.size()], a[(p + 1) % a.size()]);
                    }
                }
                break;
            }
            case 2: {
                auto n = s.below(80);
                std::vector<uint8_t> v;
                for(u64 i = 0; i < n; i++) {
                    v.push_back(static_cast<uint8_t>(s.below(32)));
                }
                a = ref_bech32(s.coin() ? "usd" : "x", v);
                break;
            }
            default: {
                a = "usd1";
                auto n = s.below(70);
                for(u64 i = 0; i < n; i++) {
                    a.push_back(charset[s.below(32)]);
                }
            }
        }
        s.note("%s", vis(a).c_str());
        auto want = ref_address(a);
        auto got = decode(a);
        PBT_CHECK(got == want, "%s: %s", want ? "refused or decoded wrongly" : "accepted", vis(a).c_str());
        if(!a.empty()) {
            s.nontrivial();
        }
    }

    // ------------------------------------------------- the real client
    struct listener {
        int m_fd{-1};
        unsigned short m_port{0};
        listener() : m_port(free_port()) {
            m_fd = ::socket(AF_INET, SOCK_STREAM, 0);
            int one = 1;
            setsockopt(m_fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(m_port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if(bind(m_fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || listen(m_fd, 64) != 0) {
                ::close(m_fd);
                throw pbt::Discard{};
            }
        }
        ~listener() { ::close(m_fd); }
        std::string ep() const { return "\"127.0.0.1:" + std::to_string(m_port) + "\"\n"; }
    };
    struct run_result {
        int m_rc;
        std::string m_out;
    };
    run_result cli(std::vector<std::string> args) {
        std::vector<char*> argv;
        args.insert(args.begin(), "client-cli");
        for(auto& a : args) {
            argv.push_back(a.data());
        }
        std::ostringstream out;
        auto* old = std::cout.rdbuf(out.rdbuf());
        int rc = cli_main(static_cast<int>(argv.size()), argv.data());
        std::cout.rdbuf(old);
        return {rc, out.str()};
    }

    // Addresses the program hands out: decode, belong to the wallet, differ.
    void newaddress(Src& s) {
        auto twopc = s.coin();
        listener l;
        auto count = 1 + s.below(4);
        pbt::Scratch dir;
        auto cfg = dir.path() + "/c.cfg";
        {
            std::ofstream f(cfg);
            f << "attestation_threshold=0\nsentinel_count=1\nsentinel0_endpoint=" << l.ep();
            if(twopc) {
                f << "2pc=1\nshard_count=1\nshard0_start=0\nshard0_end=255\nshard0_count=1\nshard0_0_endpoint=" << l.ep()
                  << "shard0_0_raft_endpoint=" << l.ep() << "shard0_0_readonly_endpoint=" << l.ep()
                  << "coordinator_count=1\ncoordinator0_count=1\ncoordinator0_0_endpoint=" << l.ep()
                  << "coordinator0_0_raft_endpoint=" << l.ep();
            } else {
                f << "atomizer_count=1\natomizer0_endpoint=" << l.ep() << "atomizer0_raft_endpoint=" << l.ep()
                  << "archiver_count=1\narchiver0_endpoint=" << l.ep() << "archiver0_db=\"a\"\nwatchtower_count=1\nwatchtower0_client_endpoint="
                  << l.ep() << "watchtower0_internal_endpoint=" << l.ep() << "shard_count=1\nshard0_endpoint=" << l.ep()
                  << "shard0_db=\"s\"\nshard0_start=0\nshard0_end=255\n";
            }
        }
        auto wal = dir.path() + "/w.dat";
        std::set<hash_t> seen;
        for(u64 i = 0; i < count; i++) {
            auto r = cli({cfg, dir.path() + "/c.dat", wal, "newaddress"});
            PBT_CHECK(r.m_rc == 0, "newaddress ends with %d: %s", r.m_rc, r.m_out.c_str());
            auto a = r.m_out;
            while(!a.empty() && a.back() == '\n') {
                a.pop_back();
            }
            if(a.rfind('\n') != std::string::npos) {
                a = a.substr(a.rfind('\n') + 1);
            }
            s.note("%s", a.c_str());
            auto k = decode(a);
            PBT_CHECK(k.has_value(), "the address %s that was handed out does not decode", a.c_str());
            PBT_CHECK(addr_of(*k) == a, "the address of %s is %s, not %s", hx(*k).c_str(), addr_of(*k).c_str(), a.c_str());
            PBT_CHECK(seen.insert(*k).second, "the address %s was handed out twice", a.c_str());
            cbdc::transaction::wallet w;
            w.load(wal);
            for(auto& key : seen) {
                cbdc::transaction::input in;
                in.m_prevout_data.m_value = 1;
                in.m_prevout_data.m_witness_program_commitment = cbdc::transaction::validation::get_p2pk_witness_commitment(key);
                PBT_CHECK(w.is_spendable(in), "the wallet cannot spend what is paid to %s", hx(key).c_str());
            }
        }
        s.label(twopc ? "2pc" : "atomizer");
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C08";
    c.m_rule = "hexadecimal text of any buffer in both cases and with prefixes, arbitrary text, hashes, addresses of any "
               "key from an encoder of the harness, one to four characters changed anywhere, other kinds, lengths, "
               "paddings, prefixes and checksums, arbitrary strings against a reference decoder, and addresses handed "
               "out by the command line client. Non-trivial: the string is not empty";
    c.m_assumptions = {"hexadecimal text longer than 102400 characters, and empty text, counts as refused; text that is no hash has no defined value"};
    c.m_props = {{"hex_roundtrip", hex_roundtrip, 3000, 200000},
                 {"hex_any", hex_any, 60000, 3000000},
                 {"hash_text", hash_text, 40000, 2000000},
                 {"address_ok", address_ok, 40000, 2000000},
                 {"address_changed", address_changed, 120000, 6000000},
                 {"address_other", address_other, 60000, 3000000},
                 {"address_any", address_any, 60000, 3000000},
                 {"newaddress", newaddress, 60, 2000, false, 60}};
    return pbt::run(argc, argv, c);
}
