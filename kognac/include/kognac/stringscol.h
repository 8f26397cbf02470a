#ifndef KOGNAC_STRINGSCOL_H
#define KOGNAC_STRINGSCOL_H
#include <vector>
#include <cstring>
#include <cstdint>
class StringCollection {
    std::vector<char*> segs; int64_t segsize; int64_t pos;
    int64_t total;
    std::vector<char*> big;
    public:
    StringCollection(int64_t segsize) : segsize(segsize > (1 << 20) ? (1 << 20) : segsize), pos(0), total(0) {}
    const char *addNew(const char *s, int n) {
        total += n;
        if (n > segsize) { char *b = new char[n]; memcpy(b, s, n); big.push_back(b); return b; }
        if (segs.empty() || pos + n > segsize) { segs.push_back(new char[segsize]); pos = 0; }
        char *b = segs.back() + pos; memcpy(b, s, n); pos += n; return b;
    }
    void clear() { for (auto s : segs) delete[] s; for (auto s : big) delete[] s; segs.clear(); big.clear(); pos = total = 0; }
    int64_t allocatedBytes() { return segs.size() * segsize; }
    int64_t occupiedBytes() { return total; }
    ~StringCollection() { clear(); }
};
#endif
