#ifndef KOGNAC_SORTER_H
#define KOGNAC_SORTER_H
#include <kognac/lz4io.h>
#include <algorithm>
class Sorter {
    public:
    template<class K> static std::vector<std::string> sortFiles(std::vector<std::string> in, std::string prefix) {
        std::vector<K> v;
        for (auto &f : in) { LZ4Reader r(f); while (!r.isEof()) { K k; k.readFrom(&r); v.push_back(k); } }
        std::sort(v.begin(), v.end(), [](const K &a, const K &b) { return K::less(a, b); });
        std::string out = prefix + "-sorted";
        { LZ4Writer w(out); for (auto &k : v) k.writeTo(&w); }
        return { out };
    }
};
#endif
