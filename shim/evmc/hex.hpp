#pragma once
#include "evmc.hpp"

#include <optional>
namespace evmc {
    inline std::string hex(uint8_t b) {
        static const char* d = "0123456789abcdef";
        return {d[b >> 4], d[b & 15]};
    }
    inline std::string hex(bytes_view v) {
        std::string s;
        for(auto b : v) {
            s += hex(b);
        }
        return s;
    }
}
