// C23: the replication log store against a reference log, with reopening and
// with the process ending inside an operation.
#include "common.hpp"
#include "crash.hpp"
#include "util/raft/log_store.hpp"

#include <atomic>
#include <libnuraft/nuraft.hxx>
#include <thread>

using namespace vt;

namespace {
    using store = cbdc::raft::log_store;
    using entry_ptr = nuraft::ptr<nuraft::log_entry>;
    struct ent {
        u64 m_term{};
        unsigned m_type{1};
        std::vector<uint8_t> m_data;
        bool operator==(const ent& o) const { return m_term == o.m_term && m_type == o.m_type && m_data == o.m_data; }
    };
    struct model {
        u64 m_start{1};
        u64 m_next{1};
        std::map<u64, ent> m_log;
        bool operator==(const model& o) const { return m_start == o.m_start && m_next == o.m_next && m_log == o.m_log; }
    };
    entry_ptr make(const ent& e) {
        auto b = nuraft::buffer::alloc(e.m_data.size());
        if(!e.m_data.empty()) {
            std::memcpy(b->data_begin(), e.m_data.data(), e.m_data.size());
        }
        return nuraft::cs_new<nuraft::log_entry>(e.m_term, b, static_cast<nuraft::log_val_type>(e.m_type));
    }
    bool null_entry(const entry_ptr& p) {
        return p && p->is_buf_null() && p->get_term() == 0;
    }
    ent read(const entry_ptr& p) {
        ent e;
        PBT_CHECK(p != nullptr, "no entry");
        PBT_CHECK(!p->is_buf_null(), "an empty entry");
        e.m_term = p->get_term();
        e.m_type = p->get_val_type();
        auto& b = p->get_buf();
        b.pos(0);
        e.m_data.assign(b.data_begin(), b.data_begin() + b.size());
        return e;
    }
    ent any_entry(Src& s, u64 term) {
        ent e;
        e.m_term = term;
        e.m_type = 1 + static_cast<unsigned>(s.below(5));
        e.m_data = s.bytes(s.chance(1, 30) ? s.below(20000) : s.size(60));
        return e;
    }
    // Everything the store says, against the model.
    void compare(Src& s, store& l, const model& m, const char* when) {
        PBT_CHECK(l.start_index() == m.m_start, "%s: first index %lu, not %lu", when, l.start_index(), m.m_start);
        PBT_CHECK(l.next_slot() == m.m_next, "%s: next index %lu, not %lu", when, l.next_slot(), m.m_next);
        auto last = l.last_entry();
        if(m.m_log.empty()) {
            PBT_CHECK(null_entry(last), "%s: an empty log has a last entry", when);
        } else {
            PBT_CHECK(read(last) == m.m_log.rbegin()->second, "%s: another last entry", when);
        }
        for(auto i = m.m_start > 3 ? m.m_start - 3 : 0; i < m.m_next + 3; i++) {
            auto it = m.m_log.find(i);
            auto e = l.entry_at(i);
            if(it == m.m_log.end()) {
                PBT_CHECK(null_entry(e), "%s: there is an entry at %lu", when, i);
                PBT_CHECK(l.term_at(i) == 0, "%s: there is a term at %lu", when, i);
            } else {
                PBT_CHECK(read(e) == it->second, "%s: entry %lu is another", when, i);
                PBT_CHECK(l.term_at(i) == it->second.m_term, "%s: entry %lu has another term", when, i);
            }
        }
        for(int k = 0; k < 2; k++) {
            auto a = m.m_start + s.below(m.m_next - m.m_start + 1);
            auto b = a + s.below(m.m_next - a + 1);
            auto v = l.log_entries(a, b);
            PBT_CHECK(v && v->size() == b - a, "%s: entries %lu to %lu are %zu", when, a, b, v ? v->size() : 0);
            for(u64 i = a; i < b; i++) {
                PBT_CHECK(read((*v)[i - a]) == m.m_log.at(i), "%s: of entries %lu to %lu, %lu is another", when, a, b, i);
            }
        }
    }

    struct op {
        enum { append, write_at, compact, flush, pack, apply } m_kind;
        u64 m_index{};
        ent m_ent;
        std::vector<ent> m_many;
    };
    op draw(Src& s, const model& m, u64& term) {
        op o{};
        if(s.chance(1, 4)) {
            term++;
        }
        switch(s.weighted({8, 3, 2, 1, 2})) {
            case 0:
                o.m_kind = op::append;
                o.m_ent = any_entry(s, term);
                break;
            case 1:
                o.m_kind = op::write_at;
                o.m_index = m.m_start + s.below(m.m_next - m.m_start + 1);
                o.m_ent = any_entry(s, term);
                break;
            case 2: {
                o.m_kind = op::compact;
                switch(s.below(6)) {
                    case 0: // what is gone already
                        o.m_index = s.below(m.m_start);
                        break;
                    case 1: // all of it
                        o.m_index = m.m_next - 1;
                        break;
                    case 2: // more than there is
                        o.m_index = m.m_next + (s.chance(1, 4) ? 240 : s.below(20));
                        break;
                    default:
                        o.m_index = m.m_start + s.below(m.m_next - m.m_start + 1);
                }
                break;
            }
            case 3:
                o.m_kind = op::flush;
                break;
            default: {
                o.m_kind = op::apply;
                o.m_index = m.m_start + s.below(m.m_next - m.m_start + 1);
                if(m.m_log.empty() && s.chance(1, 3)) {
                    o.m_index += s.coin() ? s.below(50) : s.pick(std::vector<u64>{250, 65530, (u64{1} << 24) - 5, (u64{1} << 32) - 6, u64{1} << 40});
                }
                auto n = s.size(6);
                for(u64 i = 0; i < n; i++) {
                    o.m_many.push_back(any_entry(s, term));
                }
                break;
            }
        }
        return o;
    }
    void apply(model& m, const op& o) {
        switch(o.m_kind) {
            case op::append:
                m.m_log[m.m_next++] = o.m_ent;
                break;
            case op::write_at:
                m.m_log.erase(m.m_log.lower_bound(o.m_index), m.m_log.end());
                m.m_log[o.m_index] = o.m_ent;
                m.m_next = o.m_index + 1;
                break;
            case op::compact:
                if(o.m_index < m.m_start) {
                    break;
                }
                m.m_log.erase(m.m_log.begin(), m.m_log.upper_bound(o.m_index));
                m.m_start = o.m_index + 1;
                m.m_next = std::max(m.m_next, m.m_start);
                break;
            case op::apply:
                if(!o.m_many.empty() && m.m_log.empty()) {
                    m.m_start = o.m_index;
                    m.m_next = o.m_index;
                }
                for(size_t i = 0; i < o.m_many.size(); i++) {
                    m.m_log[o.m_index + i] = o.m_many[i];
                    m.m_next = std::max(m.m_next, o.m_index + i + 1);
                }
                break;
            default:
                break;
        }
    }
    const char* name(const op& o) {
        static const char* n[] = {"append", "write_at", "compact", "flush", "pack", "apply_pack"};
        return n[o.m_kind];
    }
    // A pack holding the entries, made by another store.
    nuraft::ptr<nuraft::buffer> make_pack(const std::string& dir, const std::vector<ent>& v, u64 skip) {
        store l;
        if(!l.load(dir)) {
            pbt::fail("harness: no store for packs");
        }
        auto first = l.next_slot();
        for(u64 i = 0; i < skip; i++) {
            auto p = make(ent{77, 1, {1, 2, 3}});
            l.append(p);
        }
        for(auto& e : v) {
            auto p = make(e);
            l.append(p);
        }
        auto p = make(ent{78, 1, {4}});
        l.append(p);
        return l.pack(first + skip, static_cast<int32_t>(v.size()));
    }
    void run(store& l, const op& o, const std::string& packs, u64 expect_next) {
        switch(o.m_kind) {
            case op::append: {
                auto p = make(o.m_ent);
                auto at = l.append(p);
                PBT_CHECK(at == expect_next, "appended at %lu, not %lu", at, expect_next);
                break;
            }
            case op::write_at: {
                auto p = make(o.m_ent);
                l.write_at(o.m_index, p);
                break;
            }
            case op::compact:
                PBT_CHECK(l.compact(o.m_index), "compaction to %lu fails", o.m_index);
                break;
            case op::flush:
                PBT_CHECK(l.flush(), "flush fails");
                break;
            case op::apply: {
                auto b = make_pack(packs, o.m_many, o.m_index % 3);
                PBT_CHECK(b != nullptr, "no pack");
                b->pos(0);
                l.apply_pack(o.m_index, *b);
                break;
            }
            default:
                break;
        }
    }
    void describe(Src& s, const op& o) {
        s.note("%s %lu (term %lu, %zu bytes, %zu entries)", name(o), o.m_index, o.m_ent.m_term, o.m_ent.m_data.size(), o.m_many.size());
    }

    void history(Src& s) {
        pbt::Scratch d;
        auto l = std::make_unique<store>();
        PBT_CHECK(l->load(d.path() + "/log"), "the store does not open");
        model m;
        u64 term = 1;
        compare(s, *l, m, "new");
        auto n = 1 + s.size(60);
        bool over = false;
        bool gone = false;
        bool again = false;
        for(u64 i = 0; i < n; i++) {
            if(s.chance(1, 6)) {
                s.note("reopen");
                l.reset();
                l = std::make_unique<store>();
                PBT_CHECK(l->load(d.path() + "/log"), "the store does not open again");
                compare(s, *l, m, "reopened");
                again = true;
                continue;
            }
            auto o = draw(s, m, term);
            describe(s, o);
            over |= (o.m_kind == op::write_at || o.m_kind == op::apply) && o.m_index < m.m_next;
            gone |= o.m_kind == op::compact && o.m_index >= m.m_start;
            run(*l, o, d.path() + "/packs", m.m_next);
            apply(m, o);
            compare(s, *l, m, name(o));
        }
        l.reset();
        l = std::make_unique<store>();
        PBT_CHECK(l->load(d.path() + "/log"), "the store does not open at the end");
        compare(s, *l, m, "at the end");
        // all of it handed to another store
        if(!m.m_log.empty()) {
            auto p = l->pack(m.m_start, static_cast<int32_t>(m.m_next - m.m_start));
            store r;
            PBT_CHECK(r.load(d.path() + "/other"), "a second store does not open");
            p->pos(0);
            r.apply_pack(m.m_start, *p);
            compare(s, r, m, "copied");
        }
        if(over && gone && again) {
            s.nontrivial();
        }
    }

    // The process ends at some byte of what it writes.
    void crash(Src& s) {
        pbt::Scratch d;
        auto dir = d.path() + "/log";
        model m;
        u64 term = 1;
        bool inside = false;
        auto rounds = 1 + s.below(3);
        for(u64 r = 0; r < rounds; r++) {
            auto start = m;
            std::vector<op> ops;
            auto n = 1 + s.size(30);
            auto t = m;
            for(u64 i = 0; i < n; i++) {
                auto o = draw(s, t, term);
                o.m_many.clear();
                if(o.m_kind == op::apply) {
                    o.m_kind = op::flush;
                }
                describe(s, o);
                apply(t, o);
                ops.push_back(std::move(o));
            }
            auto limit = static_cast<size_t>(s.chance(1, 4) ? 1 + s.below(200) : 1 + s.below(6000));
            s.note("the process ends when a file would exceed %zu bytes", limit);
            auto res = crash_run(limit, false, [&](const std::function<void()>& report) {
                store l;
                if(!l.load(dir)) {
                    _exit(3); // no space for opening
                }
                report();
                auto x = start;
                for(auto& o : ops) {
                    run(l, o, "", x.m_next);
                    apply(x, o);
                    report();
                }
            });
            PBT_CHECK(res.m_end != crash_result::broken, "before the end: %s", res.m_what.c_str());
            // m_reports - 1 operations were done, one more may be
            size_t done = res.m_reports == 0 ? 0 : res.m_reports - 1;
            auto a = start;
            for(size_t i = 0; i < done; i++) {
                apply(a, ops[i]);
            }
            auto b = a;
            if(done < ops.size()) {
                apply(b, ops[done]);
                inside |= res.m_reports > 0;
            }
            store l;
            PBT_CHECK(l.load(dir), "the store does not open after the process ended in operation %zu", done);
            // which of the two: told by the first difference
            auto seen = [&](const model& x) {
                if(l.start_index() != x.m_start || l.next_slot() != x.m_next) {
                    return false;
                }
                for(auto& [i, e] : x.m_log) {
                    auto p = l.entry_at(i);
                    if(p->is_buf_null() || !(read(p) == e)) {
                        return false;
                    }
                }
                return true;
            };
            m = seen(b) ? b : a;
            compare(s, l, m, pbt::fmt("after the process ended in operation %zu", done).c_str());
        }
        if(inside) {
            s.nontrivial();
        }
    }

    // Readers beside the writer: what is below the next index is there.
    void readers(Src& s) {
        pbt::Scratch d;
        store l;
        PBT_CHECK(l.load(d.path() + "/log"), "the store does not open");
        auto n = 50 + s.below(200);
        auto seed = s.u64v();
        auto ent_of = [&](u64 i) {
            ent e;
            e.m_term = i / 7 + 1;
            auto x = (seed ^ i) * 0x9e3779b97f4a7c15ULL;
            e.m_data.assign(8 + x % 40, static_cast<uint8_t>(x >> 32));
            return e;
        };
        std::atomic<bool> stop{false};
        std::atomic<u64> floor{1}; // never compacted below
        std::mutex m;
        std::string err;
        std::vector<std::thread> th;
        auto nth = 1 + s.below(3);
        for(u64 t = 0; t < nth; t++) {
            th.emplace_back([&, t] {
                u64 x = seed + t;
                try {
                    while(!stop) {
                        x = x * 6364136223846793005ULL + 1;
                        auto next = l.next_slot();
                        auto lo = n / 2 + 1; // above what is ever compacted
                        if(next <= lo) {
                            auto e = l.last_entry();
                            if(next > 1) {
                                PBT_CHECK(!e->is_buf_null(), "no last entry although the next index is %lu", next);
                            }
                            continue;
                        }
                        auto a = lo + (x >> 33) % (next - lo);
                        PBT_CHECK(read(l.entry_at(a)) == ent_of(a), "entry %lu is not what was appended", a);
                        auto v = l.log_entries(a, next);
                        PBT_CHECK(v->size() == next - a, "entries %lu to %lu are %zu", a, next, v->size());
                        for(u64 i = a; i < next; i++) {
                            PBT_CHECK(read((*v)[i - a]) == ent_of(i), "in a range, entry %lu is not what was appended", i);
                        }
                    }
                } catch(const pbt::Fail& f) {
                    std::lock_guard lk(m);
                    err = f.m_msg;
                }
            });
        }
        u64 gone = 0;
        for(u64 i = 1; i <= n; i++) {
            auto p = make(ent_of(i));
            auto at = l.append(p);
            if(at != i) {
                err = pbt::fmt("appended at %lu, not %lu", at, i);
                break;
            }
            if(i % 16 == 0 && gone < n / 2) {
                auto to = std::min<u64>(i / 2, n / 2);
                l.compact(to);
                gone = to;
            }
        }
        stop = true;
        for(auto& t : th) {
            t.join();
        }
        PBT_CHECK(err.empty(), "%s", err.c_str());
        PBT_CHECK(l.start_index() == gone + 1 && l.next_slot() == n + 1, "at the end the log is %lu to %lu", l.start_index(), l.next_slot());
        s.nontrivial();
    }
}

int main(int argc, char** argv) {
    pbt::Check c;
    c.m_id = "C23";
    c.m_rule = "the history overwrites, compacts and reopens; the process ended inside an operation; readers ran beside the writer";
    c.m_assumptions = {"the consensus library's types are a stand-in with its byte layouts; operations keep its contract (writes at first to next index)",
                       "crashes end the process, not the machine: what was written to a file stays"};
    c.m_props = {{"history", history, 4000, 100000}, {"crash", crash, 2500, 60000}, {"readers", readers, 200, 4000, true}};
    return pbt::run(argc, argv, c);
}
