// Property-based testing engine.
//
// A property is a function of a Src, from which it draws every choice it
// makes. The draws are recorded (the tape); a failing tape is shrunk by
// deleting and lowering draws, and the shrunk tape is the replay file. Every
// case runs in a forked worker, so an abort, a sanitizer report, a signal or
// a hang of the code under test is a failing case like any other.
#pragma once

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {
    using u64 = uint64_t;

    struct Fail {
        std::string m_msg;
    };
    // Thrown when a case turns out to be outside the property's domain.
    struct Discard {};

    std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    [[noreturn]] void fail(const std::string& msg);

    // Where a case that may die leaves what it drew and said.
    struct Mirror {
        static constexpr u64 max_used = 1 << 20;
        volatile int m_outcome;
        volatile u64 m_n;
        volatile u64 m_notes_len;
        u64 m_used[max_used];
        char m_notes[1 << 20];
        char m_msg[8192];
    };

    class Src {
      public:
        explicit Src(u64 seed) : m_rng(seed) {}
        explicit Src(std::vector<u64> tape)
            : m_tape(std::move(tape)),
              m_replay(true) {}

        // Uniform in [0, n). Everything else is built on this.
        u64 below(u64 n);
        // Uniform in [lo, hi].
        u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
        int irange(int lo, int hi) {
            return lo + static_cast<int>(below(static_cast<u64>(hi - lo) + 1));
        }
        u64 u64v();
        // true with probability num/den; false is the simpler value.
        bool chance(u64 num, u64 den) {
            return den - 1 - below(den) < num;
        }
        bool coin() { return below(2) == 1; }
        // In [0, max], small values preferred.
        u64 size(u64 max);
        // An integer of any magnitude, boundary values preferred.
        u64 edgy();
        size_t weighted(std::initializer_list<unsigned> w);
        template<typename T>
        const T& pick(const std::vector<T>& v) {
            return v[below(v.size())];
        }
        std::vector<uint8_t> bytes(size_t n);

        // Description of the case, kept for samples and replay files.
        void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
        void label(const std::string& l) { m_labels.insert(l); }
        void nontrivial() { m_nontrivial = true; }
        bool is_replay() const { return m_replay; }

        std::vector<u64> m_used;
        std::vector<std::string> m_notes;
        std::set<std::string> m_labels;
        bool m_nontrivial{false};
        Mirror* m_mirror{nullptr};

      private:
        u64 next();
        void used(u64 v);
        u64 m_rng{0};
        std::vector<u64> m_tape;
        size_t m_pos{0};
        bool m_replay{false};
    };

    struct Prop {
        std::string m_name;
        std::function<void(Src&)> m_fn;
        u64 m_quick;
        u64 m_thorough;
        // Failures may depend on thread scheduling: an oracle failure counts
        // even when the replay does not show it again.
        bool m_racy{false};
        // Wall-clock seconds after which a case counts as hung.
        double m_hang{20};
        // Parallel workers (0 = one per core).
        unsigned m_workers{0};
    };

    struct Check {
        std::string m_id;
        std::string m_level{"exploration"};
        std::string m_rule;
        std::vector<std::string> m_assumptions;
        std::vector<Prop> m_props;
        // Extra named counters for the evidence file come from labels.
    };

    int run(int argc, char** argv, const Check& c);

    // A scratch directory, removed with its contents when it goes.
    class Scratch {
      public:
        Scratch();
        ~Scratch();
        const std::string& path() const { return m_path; }

      private:
        std::string m_path;
    };

    bool thorough();
    std::string hex(const void* p, size_t n);
}

#define PBT_CHECK(cond, ...)                                                  \
    do {                                                                      \
        if(!(cond)) {                                                         \
            ::pbt::fail(std::string(#cond) + ": " + ::pbt::fmt(__VA_ARGS__)); \
        }                                                                     \
    } while(0)
