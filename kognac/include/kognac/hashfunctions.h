#ifndef KOGNAC_HASHFUNCTIONS_H
#define KOGNAC_HASHFUNCTIONS_H
#include <cstdint>
#include <cstddef>
class Hashes {
    public:
        static uint64_t dbj2s_56(const char *s, const int size) {
            uint64_t h = 5381;
            for (int i = 0; i < size; ++i) h = ((h << 5) + h) + (unsigned char) s[i];
            return h & UINT64_C(0xFFFFFFFFFFFFFF);
        }
        static int dbj2s(const char *s, const int size) { return (int)dbj2s_56(s, size); }
};
#endif
