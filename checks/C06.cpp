// Encoding and decoding of every message, in every serializer.
#include "messages.hpp"

#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace vt;
using namespace msgs;

namespace {
    std::string diff(const vec& a, const vec& b) {
        size_t i = 0;
        while(i < a.size() && i < b.size() && a[i] == b[i]) {
            i++;
        }
        return pbt::fmt("%zu and %zu bytes, first difference at %zu",
                        a.size(),
                        b.size(),
                        i);
    }
    vec stream_enc(const msg& m, const any& v) {
        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
        auto ser = cbdc::ostream_serializer(ss);
        m.m_enc(ser, v);
        PBT_CHECK(static_cast<bool>(ser), "%s: stream write", m.m_name.c_str());
        auto s = ss.str();
        return vec(s.begin(), s.end());
    }
    vec buffer_enc(const msg& m, const any& v) {
        cbdc::buffer b;
        auto ser = cbdc::buffer_serializer(b);
        m.m_enc(ser, v);
        PBT_CHECK(static_cast<bool>(ser), "%s: buffer write", m.m_name.c_str());
        return to_vec(b);
    }
    vec raft_enc(const msg& m, const any& v) {
        auto b = m.m_raft(v);
        b->pos(0);
        return vec(b->data_begin(), b->data_begin() + b->size());
    }
    // Decodes v with each serializer; calls f(name, value or null, consumed).
    template<typename F>
    void decode_all(const msg& m, const vec& v, F&& f) {
        {
            auto b = to_buf(v);
            auto d = cbdc::buffer_serializer(b);
            auto r = m.m_dec(d);
            bool ok = static_cast<bool>(d);
            bool end = d.end_of_buffer();
            f("buffer", ok ? r : nullptr, end);
        }
        {
            auto b = to_raft(v);
            auto d = cbdc::nuraft_serializer(*b);
            auto r = m.m_dec(d);
            bool ok = static_cast<bool>(d);
            bool end = d.end_of_buffer();
            f("raft", ok ? r : nullptr, end);
        }
        {
            std::stringstream ss(std::string(v.begin(), v.end()),
                                 std::ios::in | std::ios::binary);
            auto d = cbdc::istream_serializer(ss);
            auto r = m.m_dec(d);
            bool ok = static_cast<bool>(d);
            bool end = ok && d.end_of_buffer();
            f("stream", ok ? r : nullptr, end);
        }
        if(m.m_from) {
            auto b = to_buf(v);
            f("from_buffer", m.m_from(b), true);
            auto rb = to_raft(v);
            f("from_buffer (raft)", m.m_from_raft(*rb), true);
        }
    }
    vec checked_encoding(const msg& m, const any& v) {
        auto n = m.m_name.c_str();
        auto a = buffer_enc(m, v);
        PBT_CHECK(m.m_size(v) == a.size(),
                  "%s: computed size %zu, %zu bytes written",
                  n,
                  m.m_size(v),
                  a.size());
        auto b = to_vec(m.m_buffer(v));
        PBT_CHECK(a == b, "%s: make_buffer: %s", n, diff(a, b).c_str());
        auto c = to_vec(*m.m_shared(v));
        PBT_CHECK(a == c, "%s: make_shared_buffer: %s", n, diff(a, c).c_str());
        auto d = raft_enc(m, v);
        PBT_CHECK(a == d, "%s: raft encoding: %s", n, diff(a, d).c_str());
        auto e = stream_enc(m, v);
        PBT_CHECK(a == e, "%s: stream encoding: %s", n, diff(a, e).c_str());
        return a;
    }

    void p_roundtrip(Src& s) {
        const auto& m = s.pick(registry());
        ctx c{s, 1 + s.below(6)};
        auto v = m.m_make(c);
        auto a = checked_encoding(m, v);
        s.note("%s of %zu bytes", m.m_name.c_str(), a.size());
        decode_all(m, a, [&](const char* how, const any& r, bool end) {
            PBT_CHECK(r, "%s: %s decoding failed", m.m_name.c_str(), how);
            PBT_CHECK(end,
                      "%s: %s decoding left bytes",
                      m.m_name.c_str(),
                      how);
            PBT_CHECK(m.m_same(v, r),
                      "%s: %s decoding gave another value",
                      m.m_name.c_str(),
                      how);
        });
        s.label(m.m_name);
        if(a.size() > 1) {
            s.nontrivial();
        }
    }

    void p_prefix(Src& s) {
        const auto& m = s.pick(registry());
        ctx c{s, 1 + s.below(4)};
        auto v = m.m_make(c);
        auto a = buffer_enc(m, v);
        if(a.empty()) {
            throw pbt::Discard{};
        }
        s.note("%s of %zu bytes", m.m_name.c_str(), a.size());
        auto step = a.size() > 600 ? 1 + a.size() / 300 : 1;
        auto off = s.below(step);
        for(size_t len = off; len < a.size(); len += step) {
            auto p = vec(a.begin(), a.begin() + static_cast<long>(len));
            decode_all(m, p, [&](const char* how, const any& r, bool) {
                PBT_CHECK(!r,
                          "%s: %s decoding of %zu of %zu bytes gave a value",
                          m.m_name.c_str(),
                          how,
                          len,
                          a.size());
            });
        }
        s.label(m.m_name);
        if(a.size() > 8) {
            s.nontrivial();
        }
    }

    // Several messages in one buffer or stream: each takes its own bytes.
    void p_sequence(Src& s) {
        std::vector<std::pair<const msg*, any>> ms;
        ctx c{s, 3};
        auto n = 2 + s.below(5);
        vec cat;
        for(size_t i = 0; i < n; i++) {
            const auto& m = s.pick(registry());
            ms.emplace_back(&m, m.m_make(c));
            auto a = buffer_enc(m, ms.back().second);
            cat.insert(cat.end(), a.begin(), a.end());
        }
        auto junk = s.bytes(s.size(20));
        vec all = cat;
        all.insert(all.end(), junk.begin(), junk.end());
        s.note("%zu messages, %zu bytes and %zu more",
               (size_t)n,
               cat.size(),
               junk.size());
        auto go = [&](const char* how, cbdc::serializer& d) {
            for(size_t i = 0; i < n; i++) {
                auto r = ms[i].first->m_dec(d);
                PBT_CHECK(static_cast<bool>(d),
                          "%s: message %zu (%s) failed",
                          how,
                          i,
                          ms[i].first->m_name.c_str());
                PBT_CHECK(ms[i].first->m_same(ms[i].second, r),
                          "%s: message %zu (%s) differs",
                          how,
                          i,
                          ms[i].first->m_name.c_str());
            }
            for(size_t i = 0; i < junk.size(); i++) {
                uint8_t b{};
                PBT_CHECK(d.read(&b, 1) && b == junk[i],
                          "%s: the bytes that follow were touched",
                          how);
            }
            PBT_CHECK(d.end_of_buffer(), "%s: not at the end", how);
        };
        {
            auto b = cbdc::buffer();
            auto ser = cbdc::buffer_serializer(b);
            for(auto& [m, v] : ms) {
                m->m_enc(ser, v);
            }
            PBT_CHECK(to_vec(b) == cat,
                      "one buffer: %s",
                      diff(to_vec(b), cat).c_str());
            b.append(junk.data(), junk.size());
            auto d = cbdc::buffer_serializer(b);
            go("buffer", d);
            // Again from the start.
            d.reset();
            go("buffer, reset", d);
        }
        {
            auto b = nuraft::buffer::alloc(all.size());
            auto ser = cbdc::nuraft_serializer(*b);
            for(auto& [m, v] : ms) {
                m->m_enc(ser, v);
            }
            PBT_CHECK(b->pos() == cat.size(), "raft wrote %zu", b->pos());
            if(!junk.empty()) {
                ser.write(junk.data(), junk.size());
            }
            PBT_CHECK(static_cast<bool>(ser) && ser.end_of_buffer(),
                      "raft buffer is not full");
            uint8_t x = 1;
            PBT_CHECK(!ser.write(&x, 1) && !static_cast<bool>(ser),
                      "wrote beyond the end of a raft buffer");
            auto d = cbdc::nuraft_serializer(*b);
            go("raft", d);
        }
        {
            std::stringstream ss(std::ios::in | std::ios::out
                                 | std::ios::binary);
            auto ser = cbdc::ostream_serializer(ss);
            for(auto& [m, v] : ms) {
                m->m_enc(ser, v);
            }
            ss.write(reinterpret_cast<const char*>(junk.data()),
                     static_cast<long>(junk.size()));
            auto d = cbdc::istream_serializer(ss);
            go("stream", d);
        }
        s.nontrivial();
    }

    // A file: what the wallet, the client and the snapshots use.
    void p_file(Src& s) {
        pbt::Scratch dir;
        auto path = dir.path() + "/f";
        const auto& m = s.pick(registry());
        ctx c{s, 8};
        auto v = m.m_make(c);
        auto a = buffer_enc(m, v);
        {
            std::ofstream f(path, std::ios::binary | std::ios::trunc);
            auto ser = cbdc::ostream_serializer(f);
            m.m_enc(ser, v);
            PBT_CHECK(static_cast<bool>(ser), "writing");
        }
        {
            std::ifstream f(path, std::ios::binary);
            auto d = cbdc::istream_serializer(f);
            auto r = m.m_dec(d);
            PBT_CHECK(static_cast<bool>(d) && m.m_same(v, r),
                      "%s read back from a file",
                      m.m_name.c_str());
            PBT_CHECK(d.end_of_buffer(), "%s: not at the end", m.m_name.c_str());
        }
        struct stat st {};
        PBT_CHECK(::stat(path.c_str(), &st) == 0
                      && static_cast<size_t>(st.st_size) == a.size(),
                  "%s: the file has %zu bytes, the encoding %zu",
                  m.m_name.c_str(),
                  static_cast<size_t>(st.st_size),
                  a.size());
        if(a.size() > 0) {
            auto cut = s.below(a.size());
            PBT_CHECK(::truncate(path.c_str(), static_cast<long>(cut)) == 0,
                      "truncate");
            std::ifstream f(path, std::ios::binary);
            auto d = cbdc::istream_serializer(f);
            auto r = m.m_dec(d);
            PBT_CHECK(!static_cast<bool>(d),
                      "%s: %zu of %zu bytes in a file gave a value",
                      m.m_name.c_str(),
                      (size_t)cut,
                      a.size());
            s.nontrivial();
        }
        s.note("%s of %zu bytes", m.m_name.c_str(), a.size());
    }

    // Containers around and beyond the size the decoder reserves at once.
    template<typename T>
    void big(Src& s, const char* name, u64 elem, std::function<T(u64)> mkv) {
        u64 per = cbdc::config::maximum_reservation / elem;
        u64 k = 1 + s.below(3);
        auto n = per * k;
        switch(s.below(4)) {
            case 0:
                break;
            case 1:
                n -= 1;
                break;
            case 2:
                n += 1;
                break;
            default:
                n += s.below(per);
                break;
        }
        s.note("%s with %zu elements (%zu at a time)", name, (size_t)n,
               (size_t)per);
        auto m = mk<T>(name);
        any v = std::make_shared<T>(mkv(n));
        auto a = checked_encoding(m, v);
        decode_all(m, a, [&](const char* how, const any& r, bool end) {
            PBT_CHECK(r && end, "%s: %s decoding failed", name, how);
            PBT_CHECK(m.m_same(v, r),
                      "%s: %s decoding gave another value",
                      name,
                      how);
        });
        for(int i = 0; i < 3; i++) {
            auto len = i == 0 ? a.size() - 1 : s.below(a.size());
            auto p = vec(a.begin(), a.begin() + static_cast<long>(len));
            decode_all(m, p, [&](const char* how, const any& r, bool) {
                PBT_CHECK(!r,
                          "%s: %s decoding of %zu of %zu bytes gave a value",
                          name,
                          how,
                          (size_t)len,
                          a.size());
            });
        }
        s.label(name);
        s.nontrivial();
    }
    void p_big(Src& s) {
        auto salt = s.below(1000);
        auto h = [salt](u64 i) {
            return mkhash(static_cast<uint8_t>(i), 7, i * 1000 + salt);
        };
        switch(s.below(9)) {
            case 0:
                return big<cbdc::buffer>(s, "buffer", 1, [&](u64 n) {
                    cbdc::buffer b;
                    b.extend(n);
                    auto* p = static_cast<uint8_t*>(b.data());
                    for(u64 i = 0; i < n; i++) {
                        p[i] = static_cast<uint8_t>(i * 31 + (i >> 8) + salt);
                    }
                    return b;
                });
            case 1:
                return big<std::vector<uint8_t>>(s, "bytes", 1, [&](u64 n) {
                    std::vector<uint8_t> v(n);
                    for(u64 i = 0; i < n; i++) {
                        v[i] = static_cast<uint8_t>(i * 31 + (i >> 8) + salt);
                    }
                    return v;
                });
            case 2:
                return big<std::vector<hash_t>>(
                    s,
                    "hashes",
                    sizeof(hash_t),
                    [&](u64 n) {
                        std::vector<hash_t> v;
                        for(u64 i = 0; i < n; i++) {
                            v.push_back(h(i));
                        }
                        return v;
                    });
            case 3:
                return big<std::unordered_set<u64>>(
                    s,
                    "unordered set",
                    sizeof(u64),
                    [&](u64 n) {
                        std::unordered_set<u64> v;
                        for(u64 i = 0; i < n; i++) {
                            v.insert(i * 3 + salt);
                        }
                        return v;
                    });
            case 4:
                return big<std::unordered_map<u64, hash_t>>(
                    s,
                    "unordered map",
                    sizeof(u64) + sizeof(hash_t),
                    [&](u64 n) {
                        std::unordered_map<u64, hash_t> v;
                        for(u64 i = 0; i < n; i++) {
                            v.emplace(i * 3 + salt, h(i));
                        }
                        return v;
                    });
            case 5:
                return big<std::set<u64>>(s, "set", sizeof(u64), [&](u64 n) {
                    std::set<u64> v;
                    for(u64 i = 0; i < n; i++) {
                        v.insert(i * 3 + salt);
                    }
                    return v;
                });
            case 6:
                return big<std::vector<bool>>(s, "bools", 1, [&](u64 n) {
                    std::vector<bool> v;
                    for(u64 i = 0; i < n; i++) {
                        v.push_back(((i * 2654435761U + salt) >> 7) & 1);
                    }
                    return v;
                });
            case 7: {
                return big<at::block>(
                    s,
                    "block",
                    sizeof(tr::compact_tx),
                    [&](u64 n) {
                        at::block b;
                        b.m_height = salt;
                        for(u64 i = 0; i < n; i++) {
                            tr::compact_tx t;
                            t.m_id = h(i);
                            t.m_inputs.push_back(h(i + 1));
                            t.m_uhs_outputs.push_back(h(i + 2));
                            if(i % 7 == 0) {
                                cbdc::pubkey_t k{};
                                k[0] = static_cast<uint8_t>(i);
                                cbdc::signature_t g{};
                                g[1] = static_cast<uint8_t>(i);
                                t.m_attestations.emplace(k, g);
                            }
                            b.m_transactions.push_back(std::move(t));
                        }
                        return b;
                    });
            }
            default:
                return big<rls::state_update_type>(
                    s,
                    "state update",
                    2 * sizeof(cbdc::buffer),
                    [&](u64 n) {
                        rls::state_update_type v;
                        for(u64 i = 0; i < n; i++) {
                            cbdc::buffer k;
                            k.append(&i, 4);
                            cbdc::buffer x;
                            x.append(&salt, 1 + i % 8);
                            v.emplace(std::move(k), std::move(x));
                        }
                        return v;
                    });
        }
    }

    // Values decoded into an object that was used before.
    void p_reuse(Src& s) {
        ctx c{s, 6};
        auto a = M<cbdc::buffer>::make(c);
        auto b = M<cbdc::buffer>::make(c);
        auto oa = M<std::optional<cbdc::buffer>>::make(c);
        auto ob = M<std::optional<cbdc::buffer>>::make(c);
        auto va = M<rls::rpc::response>::make(c);
        auto vb = M<rls::rpc::response>::make(c);
        auto go = [&]<typename T>(const char* n, T& x, const T& y) {
            auto buf = cbdc::make_buffer(y);
            auto d = cbdc::buffer_serializer(buf);
            d >> x;
            PBT_CHECK(static_cast<bool>(d) && M<T>::same(x, y),
                      "%s decoded over another value",
                      n);
        };
        s.note("buffers of %zu and %zu bytes", a.size(), b.size());
        go("buffer", a, b);
        go("optional", oa, ob);
        go("variant", va, vb);
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C06";
    c.m_rule = "the encoding has at least two bytes (round trip), more than "
               "eight (prefixes); several messages in one buffer; a container "
               "of at least the size the decoder reserves at once";
    c.m_assumptions = {
        "replication-log buffers are those of the stand-in for NuRaft in "
        "/verif/shim, which keeps NuRaft's buffer layout and cursor"};
    c.m_props = {
        {"round trip in every serializer", p_roundtrip, 120000, 600000},
        {"strict prefixes fail", p_prefix, 20000, 120000},
        {"several messages in one buffer", p_sequence, 20000, 150000},
        {"files", p_file, 1500, 40000},
        {"large containers", p_big, 32, 2000},
        {"decoding over an earlier value", p_reuse, 5000, 50000},
    };
    return pbt::run(argc, argv, c);
}
