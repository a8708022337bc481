// Schedule and short-count injection: the C library's blocking calls, made
// slow or partial now and then, as a loaded machine would.
#pragma once
#include <cstdint>

namespace jit {
    // Chances out of 256, longest delay in microseconds.
    struct setting {
        unsigned m_wait{0};  // before a condition variable sleeps
        unsigned m_lock{0};  // before a mutex is taken
        unsigned m_short{0}; // a socket read or write moves fewer bytes
        unsigned m_io{0};    // before socket calls, after close
        unsigned m_us{100};
        uint64_t m_seed{1};
    };
    void set(const setting& s);
    void off();
    struct scope {
        explicit scope(const setting& s) { set(s); }
        ~scope() { off(); }
    };
}
