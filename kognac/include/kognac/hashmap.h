#ifndef KOGNAC_HASHMAP_H
#define KOGNAC_HASHMAP_H
// byte arrays keyed by a 2-byte big-endian length prefix
#include <kognac/utils.h>
#include <sparsehash/dense_hash_map>
#include <cstring>
static char EMPTY_KEY[2] = { 0, 0 };
static char DELETED_KEY[2] = { 0, 0 };
struct hashByteArray {
    size_t operator()(const char *a) const {
        int n = Utils::decode_short(a); size_t h = 5381;
        for (int i = 0; i < n; ++i) h = h * 33 + (unsigned char)a[2 + i];
        return h;
    }
};
struct eqByteArray {
    bool operator()(const char *a, const char *b) const {
        if (a == b) return true;
        if (!a || !b || a == EMPTY_KEY || b == EMPTY_KEY || a == DELETED_KEY || b == DELETED_KEY) return false;
        int n = Utils::decode_short(a);
        return n == Utils::decode_short(b) && memcmp(a + 2, b + 2, n) == 0;
    }
};
typedef google::dense_hash_map<const char *, int64_t, hashByteArray, eqByteArray> ByteArrayToNumberMap;
#endif
