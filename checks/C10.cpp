// Configurations: written from a model, read back.
#include "common.hpp"
#include "parsec/util.hpp"

#include <climits>
#include <fstream>
#include <sstream>

namespace {
    using namespace vt;
    namespace cfg = cbdc::config;
    using ep = cbdc::network::endpoint_t;
    using lv = cbdc::logging::log_level;

    const std::vector<std::pair<std::string, lv>>& levels() {
        static const std::vector<std::pair<std::string, lv>> v{{"TRACE", lv::trace}, {"DEBUG", lv::debug}, {"INFO", lv::info},
                                                               {"WARN", lv::warn},   {"ERROR", lv::error}, {"FATAL", lv::fatal}};
        return v;
    }

    struct Line {
        std::string m_key;
        std::string m_val;
        bool m_needed;
    };
    struct Text {
        Src& s;
        std::vector<Line> m_lines;

        void put(const std::string& k, const std::string& v, bool needed = false) { m_lines.push_back({k, v, needed}); }
        std::string host() {
            switch(s.below(3)) {
                case 0:
                    return "127.0.0." + std::to_string(s.range(0, 255));
                case 1:
                    return "host-" + std::to_string(s.below(1000)) + ".example";
                default:
                    return "localhost";
            }
        }
        ep endpoint(const std::string& k) {
            ep e{host(), static_cast<uint16_t>(s.pick(std::vector<u64>{0, 1, 80, 5555, 32767, 32768, 65535, s.below(65536)}))};
            put(k, "\"" + e.first + ":" + std::to_string(e.second) + "\"", true);
            return e;
        }
        lv level(const std::string& k) {
            if(s.coin()) {
                return cfg::defaults::log_level;
            }
            const auto& l = s.pick(levels());
            put(k, "\"" + l.first + "\"");
            return l.second;
        }
        std::string str(const std::string& k) {
            static const std::string chars = "abcXYZ019_-./ =:#+*";
            std::string v;
            const auto n = s.range(0, 12);
            for(u64 i = 0; i < n; i++) {
                v += chars[s.below(chars.size())];
            }
            put(k, "\"" + v + "\"", true);
            return v;
        }
        void ulong(const std::string& k, size_t& v, u64 max = ~0ULL) {
            if(s.coin()) {
                return;
            }
            v = s.coin() ? s.range(0, std::min<u64>(max, 1000)) : std::min<u64>(s.edgy(), max);
            put(k, std::to_string(v));
        }
        void i32(const std::string& k, int32_t& v) {
            auto x = static_cast<size_t>(v);
            ulong(k, x, INT_MAX);
            v = static_cast<int32_t>(x);
        }
        void dbl(const std::string& k, double& v) {
            if(s.coin()) {
                return;
            }
            if(s.chance(1, 3)) {
                // an integer, written as one
                auto x = s.below(100000);
                v = static_cast<double>(x);
                put(k, std::to_string(x));
                return;
            }
            auto a = s.below(100000);
            auto b = s.below(1000);
            char t[64];
            std::snprintf(t, sizeof(t), "%llu.%03llu", (unsigned long long)a, (unsigned long long)b);
            v = std::strtod(t, nullptr);
            put(k, t);
        }
        hash_t key(const std::string& k, bool needed) {
            auto h = rndhash(s);
            auto t = hx(h);
            if(s.chance(1, 5)) {
                for(auto& c : t) {
                    c = static_cast<char>(std::toupper(c));
                }
            }
            put(k, "\"" + t + "\"", needed);
            return h;
        }
        // Lines in any order, with noise.
        std::string render() {
            std::string out;
            auto l = m_lines;
            for(size_t i = l.size(); i > 1; i--) {
                std::swap(l[i - 1], l[s.below(i)]);
            }
            for(auto& x : l) {
                if(s.chance(1, 12)) {
                    out += s.pick(std::vector<std::string>{"\n", "# comment\n", "some words\n", "unknown_option=7\n", "other=\"x\"\n", "empty=\n"});
                }
                out += x.m_key + "=" + x.m_val;
                out += s.chance(1, 20) ? " \n" : "\n";
            }
            if(!out.empty() && s.coin()) {
                out.pop_back();
            }
            return out;
        }
    };

    cfg::options model(Src& s, Text& t, bool& valid) {
        cfg::options o;
        auto I = [](u64 i) {
            return std::to_string(i);
        };
        o.m_twophase_mode = s.coin();
        if(o.m_twophase_mode) {
            t.put("2pc", s.coin() ? "1" : I(s.range(1, 9)));
        } else if(s.coin()) {
            t.put("2pc", "0");
        }
        auto count = [&](const std::string& k, u64 max) {
            auto n = s.chance(1, 8) ? 0 : s.range(1, max);
            if(n > 0 || s.coin()) {
                t.put(k, I(n));
            }
            return n;
        };
        const auto ns = count("sentinel_count", 4);
        const bool thr = s.coin();
        if(thr) {
            o.m_attestation_threshold = s.range(0, ns + (s.chance(1, 6) ? 1 : 0));
            t.put("attestation_threshold", I(o.m_attestation_threshold));
        }
        for(u64 i = 0; i < ns; i++) {
            auto p = "sentinel" + I(i) + "_";
            o.m_sentinel_endpoints.push_back(t.endpoint(p + "endpoint"));
            o.m_sentinel_loglevels.push_back(t.level(p + "loglevel"));
            if(s.coin()) {
                o.m_sentinel_private_keys[i] = t.key(p + "private_key", false);
            }
            if(o.m_attestation_threshold > 0 || s.coin()) {
                o.m_sentinel_public_keys.insert(t.key(p + "public_key", o.m_attestation_threshold > 0));
            }
        }
        const auto nsh = count("shard_count", 4);
        for(u64 i = 0; i < nsh; i++) {
            auto p = "shard" + I(i) + "_";
            if(o.m_twophase_mode) {
                const auto nn = s.range(1, 3);
                t.put(p + "count", I(nn), true);
                o.m_locking_shard_endpoints.emplace_back();
                o.m_locking_shard_raft_endpoints.emplace_back();
                o.m_locking_shard_readonly_endpoints.emplace_back();
                for(u64 j = 0; j < nn; j++) {
                    auto q = p + I(j) + "_";
                    o.m_locking_shard_endpoints[i].push_back(t.endpoint(q + "endpoint"));
                    o.m_locking_shard_raft_endpoints[i].push_back(t.endpoint(q + "raft_endpoint"));
                    o.m_locking_shard_readonly_endpoints[i].push_back(t.endpoint(q + "readonly_endpoint"));
                }
            } else {
                o.m_shard_endpoints.push_back(t.endpoint(p + "endpoint"));
                o.m_shard_db_dirs.push_back(t.str(p + "db"));
            }
            o.m_shard_loglevels.push_back(t.level(p + "loglevel"));
            auto a = s.coin() ? s.pick(std::vector<u64>{0, 127, 128, 255}) : s.below(256);
            auto b = s.coin() ? s.pick(std::vector<u64>{0, 127, 128, 255}) : s.below(256);
            if(a > b) {
                std::swap(a, b);
            }
            t.put(p + "start", I(a), true);
            t.put(p + "end", I(b), true);
            o.m_shard_ranges.emplace_back(a, b);
        }
        t.ulong("shard_completed_txs_cache_size", o.m_shard_completed_txs_cache_size);
        if(s.coin()) {
            o.m_seed_from = s.below(100);
            o.m_seed_to = o.m_seed_from + s.below(1000);
            if(s.chance(1, 8)) {
                std::swap(o.m_seed_from, o.m_seed_to);
            }
            t.put("seed_from", I(o.m_seed_from));
            t.put("seed_to", I(o.m_seed_to));
            if(o.m_seed_from != o.m_seed_to) {
                o.m_seed_privkey = t.key("seed_privkey", true);
                o.m_seed_value = s.chance(1, 8) ? 0 : s.range(1, 1000000);
                t.put("seed_value", I(o.m_seed_value));
            }
        }
        const auto na = o.m_twophase_mode && s.coin() ? 0 : count("atomizer_count", 3);
        for(u64 i = 0; i < na; i++) {
            auto p = "atomizer" + I(i) + "_";
            o.m_atomizer_endpoints.push_back(t.endpoint(p + "endpoint"));
            o.m_atomizer_loglevels.push_back(t.level(p + "loglevel"));
            o.m_atomizer_raft_endpoints.push_back(t.endpoint(p + "raft_endpoint"));
        }
        t.ulong("target_block_interval", o.m_target_block_interval);
        t.ulong("stxo_cache_depth", o.m_stxo_cache_depth);
        const auto nar = o.m_twophase_mode && s.coin() ? 0 : count("archiver_count", 3);
        for(u64 i = 0; i < nar; i++) {
            auto p = "archiver" + I(i) + "_";
            o.m_archiver_endpoints.push_back(t.endpoint(p + "endpoint"));
            o.m_archiver_loglevels.push_back(t.level(p + "loglevel"));
            o.m_archiver_db_dirs.push_back(t.str(p + "db"));
        }
        const auto nw = o.m_twophase_mode && s.coin() ? 0 : count("watchtower_count", 3);
        for(u64 i = 0; i < nw; i++) {
            auto p = "watchtower" + I(i) + "_";
            o.m_watchtower_client_endpoints.push_back(t.endpoint(p + "client_endpoint"));
            o.m_watchtower_internal_endpoints.push_back(t.endpoint(p + "internal_endpoint"));
            o.m_watchtower_loglevels.push_back(t.level(p + "loglevel"));
        }
        t.ulong("watchtower_block_cache_size", o.m_watchtower_block_cache_size);
        t.ulong("watchtower_error_cache_size", o.m_watchtower_error_cache_size);
        const auto nc = !o.m_twophase_mode && s.coin() ? 0 : count("coordinator_count", 3);
        for(u64 i = 0; i < nc; i++) {
            auto p = "coordinator" + I(i) + "_";
            o.m_coordinator_loglevels.push_back(t.level(p + "loglevel"));
            const auto nn = s.range(1, 3);
            t.put(p + "count", I(nn), true);
            o.m_coordinator_endpoints.emplace_back();
            o.m_coordinator_raft_endpoints.emplace_back();
            for(u64 j = 0; j < nn; j++) {
                auto q = p + I(j) + "_";
                o.m_coordinator_endpoints[i].push_back(t.endpoint(q + "endpoint"));
                o.m_coordinator_raft_endpoints[i].push_back(t.endpoint(q + "raft_endpoint"));
            }
        }
        t.ulong("coordinator_max_threads", o.m_coordinator_max_threads);
        t.i32("election_timeout_upper", o.m_election_timeout_upper);
        t.i32("election_timeout_lower", o.m_election_timeout_lower);
        t.i32("heartbeat", o.m_heartbeat);
        t.i32("snapshot_distance", o.m_snapshot_distance);
        t.i32("raft_max_batch", o.m_raft_max_batch);
        t.ulong("batch_size", o.m_batch_size);
        t.ulong("loadgen_sendtx_input_count", o.m_input_count);
        t.ulong("loadgen_sendtx_output_count", o.m_output_count);
        t.dbl("loadgen_invalid_tx_rate", o.m_invalid_rate);
        t.dbl("loadgen_fixed_tx_rate", o.m_fixed_tx_rate);
        o.m_fixed_tx_mode = o.m_input_count != 0 && o.m_output_count != 0;
        t.ulong("window_size", o.m_window_size);
        t.ulong("initial_mint_count", o.m_initial_mint_count);
        t.ulong("initial_mint_value", o.m_initial_mint_value);
        t.ulong("loadgen_count", o.m_loadgen_count);

        // The documented rules.
        valid = true;
        if(o.m_twophase_mode) {
            valid = ns > 0 && ns >= o.m_attestation_threshold && nsh > 0 && nc > 0;
        } else {
            valid = nw > 0 && nar > 0 && na > 0 && (nsh > 0 || ns == 0);
        }
        if(o.m_seed_from != o.m_seed_to && (o.m_seed_from > o.m_seed_to || o.m_seed_value == 0)) {
            valid = false;
        }
        if(o.m_sentinel_public_keys.size() < o.m_attestation_threshold) {
            valid = false;
        }
        return o;
    }

#define SAME(f) PBT_CHECK(a.f == b.f, "option " #f " is not what the configuration says")
    void same(const cfg::options& a, const cfg::options& b) {
        SAME(m_twophase_mode);
        SAME(m_attestation_threshold);
        SAME(m_sentinel_endpoints);
        SAME(m_sentinel_loglevels);
        SAME(m_sentinel_private_keys);
        SAME(m_sentinel_public_keys);
        SAME(m_shard_endpoints);
        SAME(m_shard_db_dirs);
        SAME(m_shard_loglevels);
        SAME(m_shard_ranges);
        SAME(m_shard_completed_txs_cache_size);
        SAME(m_locking_shard_endpoints);
        SAME(m_locking_shard_raft_endpoints);
        SAME(m_locking_shard_readonly_endpoints);
        SAME(m_seed_from);
        SAME(m_seed_to);
        SAME(m_seed_privkey);
        SAME(m_seed_value);
        SAME(m_atomizer_endpoints);
        SAME(m_atomizer_raft_endpoints);
        SAME(m_atomizer_loglevels);
        SAME(m_target_block_interval);
        SAME(m_stxo_cache_depth);
        SAME(m_archiver_endpoints);
        SAME(m_archiver_loglevels);
        SAME(m_archiver_db_dirs);
        SAME(m_watchtower_client_endpoints);
        SAME(m_watchtower_internal_endpoints);
        SAME(m_watchtower_loglevels);
        SAME(m_watchtower_block_cache_size);
        SAME(m_watchtower_error_cache_size);
        SAME(m_coordinator_endpoints);
        SAME(m_coordinator_raft_endpoints);
        SAME(m_coordinator_loglevels);
        SAME(m_coordinator_max_threads);
        SAME(m_election_timeout_upper);
        SAME(m_election_timeout_lower);
        SAME(m_heartbeat);
        SAME(m_snapshot_distance);
        SAME(m_raft_max_batch);
        SAME(m_batch_size);
        SAME(m_input_count);
        SAME(m_output_count);
        SAME(m_invalid_rate);
        SAME(m_fixed_tx_rate);
        SAME(m_fixed_tx_mode);
        SAME(m_window_size);
        SAME(m_initial_mint_count);
        SAME(m_initial_mint_value);
        SAME(m_loadgen_count);
    }
    std::string write(const pbt::Scratch& d, const std::string& text) {
        auto f = d.path() + "/cfg";
        std::ofstream o(f, std::ios::binary | std::ios::trunc);
        o << text;
        return f;
    }
    void clear_env() {
        clearenv();
    }

    void reads_back(Src& s) {
        clear_env();
        Text t{s, {}};
        bool valid = true;
        auto want = model(s, t, valid);
        // Some values come from the environment and win over the file.
        for(auto& l : t.m_lines) {
            if(s.chance(1, 30)) {
                auto k = l.m_key;
                for(auto& c : k) {
                    c = static_cast<char>(std::toupper(c));
                }
                setenv(k.c_str(), l.m_val.c_str(), 1);
                s.label("from the environment");
                if(s.coin()) {
                    l.m_val = l.m_val[0] == '"' ? "\"other:1\"" : "3";
                } else {
                    l.m_key = "was_" + l.m_key;
                }
            }
        }
        // A repeated option: the first one counts.
        pbt::Scratch d;
        auto text = t.render();
        auto f = write(d, text);
        auto r = cfg::read_options(f);
        if(auto* e = std::get_if<std::string>(&r)) {
            pbt::fail("a well-formed configuration was refused: " + *e + "\n" + text);
        }
        same(std::get<cfg::options>(r), want);
        auto l = cfg::load_options(f);
        auto* e = std::get_if<std::string>(&l);
        PBT_CHECK((e == nullptr) == valid, "%s: %s", valid ? "a valid deployment was refused" : "an invalid deployment was accepted",
                  e != nullptr ? e->c_str() : text.c_str());
        if(e == nullptr) {
            same(std::get<cfg::options>(l), want);
        } else {
            PBT_CHECK(!e->empty(), "refused without a message");
        }
        s.label(valid ? "valid" : "invalid deployment");
        if(t.m_lines.size() > 10) {
            s.nontrivial();
        }
    }
    // Without a required option, or with a value it cannot have.
    void refuses(Src& s) {
        clear_env();
        Text t{s, {}};
        bool valid = true;
        (void)model(s, t, valid);
        std::vector<size_t> need;
        for(size_t i = 0; i < t.m_lines.size(); i++) {
            if(t.m_lines[i].m_needed) {
                need.push_back(i);
            }
        }
        std::vector<size_t> num;
        for(size_t i = 0; i < t.m_lines.size(); i++) {
            if(t.m_lines[i].m_val[0] != '"') {
                num.push_back(i);
            }
        }
        const auto kind = s.below(6);
        auto ends = [](const std::string& a, const std::string& b) {
            return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0;
        };
        auto which = [&](auto pred) {
            std::vector<size_t> v;
            for(size_t i = 0; i < t.m_lines.size(); i++) {
                if(pred(t.m_lines[i])) {
                    v.push_back(i);
                }
            }
            if(v.empty()) {
                throw pbt::Discard{};
            }
            return v[s.below(v.size())];
        };
        std::string what;
        switch(kind) {
            case 0: {
                if(need.empty()) {
                    throw pbt::Discard{};
                }
                auto i = s.pick(need);
                what = "without " + t.m_lines[i].m_key;
                t.m_lines.erase(t.m_lines.begin() + static_cast<long>(i));
                break;
            }
            case 1: { // not a number
                if(num.empty()) {
                    throw pbt::Discard{};
                }
                auto i = s.pick(num);
                auto& l = t.m_lines[i];
                l.m_val = s.pick(std::vector<std::string>{"abc", "-1", "+5", "1x", "0x10", "1 2", "99999999999999999999999", "true", "\"", " ", "1\"", "--", "1.5.2", "1.x"});
                if(l.m_key.find("rate") != std::string::npos && l.m_val == "-1") {
                    l.m_val = "x.y";
                }
                what = l.m_key + "=" + l.m_val;
                break;
            }
            case 2: { // a malformed endpoint
                auto i = which([&](auto& l) {
                    return ends(l.m_key, "endpoint");
                });
                auto& l = t.m_lines[i];
                l.m_val = "\"" + s.pick(std::vector<std::string>{"", "host", "host:", ":80", "host:abc", "host:65536", "host:-1", "host:1x", "host:99999999999999999999", ":", "host:80:90"}) + "\"";
                what = l.m_key + "=" + l.m_val;
                break;
            }
            case 3: { // a malformed key
                auto i = which([&](auto& l) {
                    return ends(l.m_key, "_key") || l.m_key == "seed_privkey";
                });
                auto& v = t.m_lines[i].m_val;
                auto at = s.range(1, v.size() - 2);
                switch(s.below(4)) {
                    case 0:
                        v = v.substr(0, at) + "\"";
                        break;
                    case 1:
                        v[at] = s.pick(std::vector<char>{'g', ' ', '-', 'x', '\t', 'G'});
                        break;
                    case 2:
                        v = "\"" + std::string(s.range(1, 400) * 2 + 64, 'a') + "\"";
                        break;
                    default:
                        v = "\"\"";
                }
                what = t.m_lines[i].m_key + "=" + v;
                break;
            }
            case 4: { // a range that is none
                auto i = which([&](auto& l) {
                    return l.m_key.compare(0, 5, "shard") == 0 && (ends(l.m_key, "_end") || ends(l.m_key, "_start"));
                });
                auto& l = t.m_lines[i];
                l.m_val = std::to_string(s.coin() ? s.range(256, 600) : 256 + s.edgy() % (1ULL << 62));
                what = l.m_key + "=" + l.m_val;
                break;
            }
            default: { // a number for a string, a string for a needed number
                auto i = which([&](auto& l) {
                    return l.m_needed;
                });
                auto& l = t.m_lines[i];
                l.m_val = l.m_val[0] == '"' ? "12" : "\"" + l.m_val + "\"";
                what = l.m_key + "=" + l.m_val;
            }
        }
        pbt::Scratch d;
        auto text = t.render();
        auto f = write(d, text);
        s.note("%s", what.c_str());
        auto r = cfg::load_options(f);
        auto* e = std::get_if<std::string>(&r);
        PBT_CHECK(e != nullptr, "accepted %s", what.c_str());
        PBT_CHECK(!e->empty(), "refused without a message");
        s.label("refused, kind " + std::to_string(kind));
        s.nontrivial();
    }
    // Any text at all.
    void any_text(Src& s) {
        clear_env();
        std::string text;
        if(s.chance(1, 4)) {
            auto b = s.bytes(s.size(400));
            text.assign(b.begin(), b.end());
        } else {
            Text t{s, {}};
            bool valid = true;
            (void)model(s, t, valid);
            text = t.render();
            const auto n = s.range(1, 6);
            for(u64 i = 0; i < n && !text.empty(); i++) {
                auto p = s.below(text.size());
                switch(s.below(6)) {
                    case 0:
                        text[p] = static_cast<char>(s.below(256));
                        break;
                    case 1:
                        text.erase(p, s.range(1, 20));
                        break;
                    case 2:
                        text.insert(p, 1, s.pick(std::vector<char>{'"', '=', '\n', '\r', '.', '0', '9', ':', ' ', '-', '\0'}));
                        break;
                    case 3:
                        text.insert(p, text.substr(s.below(text.size()), s.range(1, 60)));
                        break;
                    case 4:
                        text.insert(p, s.pick(std::vector<std::string>{"\nshard_count=18446744073709551615\n", "\ncoordinator_count=4611686018427387904\n", "\nsentinel_count=99999999999\n", "\nshard0_count=18446744073709551615\n", "\nloadgen_fixed_tx_rate=1e999.0\n", "\nheartbeat=.\n"}));
                        break;
                    default:
                        text.resize(p);
                }
            }
        }
        pbt::Scratch d;
        auto r = cfg::load_options(write(d, text));
        if(auto* e = std::get_if<std::string>(&r)) {
            PBT_CHECK(!e->empty(), "refused without a message");
            s.label("refused");
        } else {
            s.label("accepted");
        }
        s.nontrivial();
    }
    void no_file(Src& s) {
        clear_env();
        pbt::Scratch d;
        auto r = cfg::load_options(d.path() + (s.coin() ? "/none" : "/none/none"));
        PBT_CHECK(std::holds_alternative<std::string>(r), "a missing file was read");
        // an empty environment variable
        Text t{s, {}};
        bool valid = true;
        (void)model(s, t, valid);
        if(!t.m_lines.empty()) {
            auto k = s.pick(t.m_lines).m_key;
            for(auto& c : k) {
                c = static_cast<char>(std::toupper(c));
            }
            setenv(k.c_str(), s.coin() ? "" : s.coin() ? "\"" : " ", 1);
            auto q = cfg::load_options(write(d, t.render()));
            PBT_CHECK(std::holds_alternative<std::string>(q), "an empty %s was accepted", k.c_str());
        }
        s.nontrivial();
    }
    // The shares of the load generators.
    void seed_range(Src& s) {
        cfg::options o;
        o.m_seed_from = s.below(1000);
        o.m_loadgen_count = s.range(1, 20);
        o.m_seed_to = o.m_seed_from + o.m_loadgen_count * s.range(1, 500) + s.below(o.m_loadgen_count);
        u64 next = o.m_seed_from;
        u64 size = 0;
        for(u64 i = 0; i < o.m_loadgen_count; i++) {
            auto [a, b] = cfg::loadgen_seed_range(o, i);
            PBT_CHECK(a == next, "generator %llu starts at %zu, the one before ended before %llu", (unsigned long long)i, a,
                      (unsigned long long)next);
            PBT_CHECK(b >= a && b < o.m_seed_to, "generator %llu ends at %zu", (unsigned long long)i, b);
            if(i == 0) {
                size = b - a;
            }
            PBT_CHECK(b - a == size, "generator %llu has another share", (unsigned long long)i);
            next = b + 1;
        }
        PBT_CHECK(o.m_seed_to - next < o.m_loadgen_count, "%zu outputs have no generator", o.m_seed_to - next);
        s.nontrivial();
    }

    // The transaction-language programs take theirs from the command line.
    struct Args {
        std::vector<std::string> m_v{"prog"};
        std::optional<cbdc::parsec::config> read() {
            std::vector<char*> p;
            for(auto& a : m_v) {
                p.push_back(a.data());
            }
            return cbdc::parsec::read_config(static_cast<int>(p.size()), p.data());
        }
    };
    void parsec_args(Src& s) {
        clear_env();
        Text t{s, {}};
        auto I = [](u64 i) {
            return std::to_string(i);
        };
        auto eps = [&](const std::string& name) {
            std::vector<ep> v;
            const auto n = s.range(0, 3);
            t.put(name + "_count", I(n), true);
            for(u64 i = 0; i < n; i++) {
                v.push_back(t.endpoint(name + I(i) + "_endpoint"));
            }
            return v;
        };
        cbdc::parsec::config w{};
        w.m_component_id = s.coin() ? s.below(5) : s.edgy();
        t.put("component_id", I(w.m_component_id), true);
        std::optional<lv> level;
        if(s.coin()) {
            const auto& l = s.pick(levels());
            level = l.second;
            t.put("loglevel", l.first);
        }
        w.m_ticket_machine_endpoints = eps("ticket_machine");
        if(s.coin()) {
            w.m_node_id = s.below(9);
            t.put("node_id", I(*w.m_node_id));
        }
        const auto ns = s.range(0, 3);
        t.put("shard_count", I(ns), true);
        for(u64 i = 0; i < ns; i++) {
            w.m_shard_endpoints.push_back(eps("shard" + I(i)));
        }
        w.m_agent_endpoints = eps("agent");
        w.m_loadgen_accounts = 1000;
        std::vector<std::string> bad;
        if(s.coin()) {
            w.m_load_type = s.coin() ? cbdc::parsec::load_type::erc20 : cbdc::parsec::load_type::transfer;
            t.put("loadgen_txtype", w.m_load_type == cbdc::parsec::load_type::erc20 ? "erc20" : "transfer");
        }
        if(s.coin()) {
            auto k = s.below(1000);
            char b[32];
            std::snprintf(b, sizeof(b), "0.%03llu", (unsigned long long)k);
            w.m_contention_rate = std::strtod(b, nullptr);
            t.put("contention_rate", b);
        }
        if(s.coin()) {
            w.m_loadgen_accounts = s.edgy();
            t.put("loadgen_accounts", I(w.m_loadgen_accounts));
        }
        if(s.coin()) {
            w.m_runner_type = s.coin() ? cbdc::parsec::runner_type::evm : cbdc::parsec::runner_type::lua;
            t.put("runner_type", w.m_runner_type == cbdc::parsec::runner_type::evm ? "evm" : "lua");
        }
        auto build = [&] {
            Args a;
            auto l = t.m_lines;
            for(size_t i = l.size(); i > 1; i--) {
                std::swap(l[i - 1], l[s.below(i)]);
            }
            for(auto& x : l) {
                auto v = x.m_val;
                if(v.size() > 1 && v[0] == '"') {
                    v = v.substr(1, v.size() - 2);
                }
                a.m_v.push_back("--" + x.m_key + "=" + v);
            }
            return a;
        };
        auto r = build().read();
        PBT_CHECK(r.has_value(), "well-formed arguments were refused");
        const auto& a = *r;
        const auto& b = w;
        SAME(m_component_id);
        SAME(m_ticket_machine_endpoints);
        SAME(m_node_id);
        SAME(m_shard_endpoints);
        SAME(m_agent_endpoints);
        SAME(m_runner_type);
        SAME(m_load_type);
        SAME(m_contention_rate);
        SAME(m_loadgen_accounts);
        PBT_CHECK(!level || r->m_loglevel == *level, "another log level");
        // and broken ones
        auto& l = t.m_lines[s.below(t.m_lines.size())];
        bool must = true;
        std::string what;
        switch(s.below(4)) {
            case 0:
                must = l.m_needed;
                what = "without " + l.m_key;
                l.m_key = "x" + l.m_key;
                break;
            case 1:
                if(l.m_key == "loglevel" || l.m_val[0] == '"') {
                    must = l.m_val[0] == '"';
                    l.m_val = "\"nonsense\"";
                } else {
                    l.m_val = "nonsense";
                }
                what = l.m_key + "=" + l.m_val;
                break;
            case 2:
                l.m_val = "";
                must = l.m_key != "loglevel";
                what = l.m_key + "=";
                break;
            default:
                l.m_val = "a=b";
                what = l.m_key + "=a=b";
        }
        s.note("%s", what.c_str());
        auto q = build().read();
        PBT_CHECK(!must || !q.has_value(), "accepted %s", what.c_str());
        auto x = build();
        x.m_v[1 + s.below(x.m_v.size() - 1)] = s.pick(std::vector<std::string>{"plain", "-component_id=1", "--", "--a", "--a--b=1", ""});
        PBT_CHECK(!x.read().has_value(), "accepted an argument that is none");
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C10";
    c.m_rule = "configurations of both architectures written from a random deployment, in any order, with noise and environment "
               "overrides; with required options missing or values malformed; arbitrary texts; command lines of the transaction "
               "language programs. Non-trivial: more than ten options, or a damaged configuration";
    c.m_assumptions = {"an optional option of the wrong type counts as absent, as the parser documents; raft timing options are below 2^31",
                       "the log level that a transaction-language program has without the option is not compared"};
    c.m_props = {{"reads_back", reads_back, 12000, 300000},
                 {"refuses", refuses, 12000, 300000},
                 {"any_text", any_text, 12000, 400000},
                 {"no_file", no_file, 2000, 20000},
                 {"seed_range", seed_range, 20000, 200000},
                 {"parsec_args", parsec_args, 20000, 300000}};
    return pbt::run(argc, argv, c);
}
