// The hash functions as one build configuration makes them.
#include "crypto/sha256.h"

#include <cstring>

extern "C" {
    void v_autodetect(char* name, size_t n) {
        auto s = SHA256AutoDetect();
        std::strncpy(name, s.c_str(), n - 1);
    }
    void* v_new() {
        return new CSHA256();
    }
    void* v_copy(void* p) {
        return new CSHA256(*static_cast<CSHA256*>(p));
    }
    void v_write(void* p, const unsigned char* d, size_t n) {
        static_cast<CSHA256*>(p)->Write(d, n);
    }
    void v_final(void* p, unsigned char* out) {
        static_cast<CSHA256*>(p)->Finalize(out);
    }
    void v_reset(void* p) {
        static_cast<CSHA256*>(p)->Reset();
    }
    void v_delete(void* p) {
        delete static_cast<CSHA256*>(p);
    }
    void v_d64(unsigned char* out, const unsigned char* in, size_t blocks) {
        SHA256D64(out, in, blocks);
    }
}
