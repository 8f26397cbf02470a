#ifndef KOGNAC_TRIPLE_H
#define KOGNAC_TRIPLE_H
#include <kognac/lz4io.h>
#include <kognac/disklz4reader.h>
#include <kognac/disklz4writer.h>
class Triple {
    public:
    int64_t s, p, o, count;
    Triple(int64_t s, int64_t p, int64_t o) : s(s), p(p), o(o), count(0) {}
    Triple() : s(0), p(0), o(0), count(0) {}
    bool less(const Triple &t) const {
        if (s != t.s) return s < t.s;
        if (p != t.p) return p < t.p;
        return o < t.o;
    }
    bool greater(const Triple &t) const {
        if (s != t.s) return s > t.s;
        if (p != t.p) return p > t.p;
        return o > t.o;
    }
    void readFrom(LZ4Reader *r) { s = r->parseLong(); p = r->parseLong(); o = r->parseLong(); count = r->parseLong(); }
    void readFrom(int part, DiskLZ4Reader *r) { s = r->readLong(part); p = r->readLong(part); o = r->readLong(part); count = r->readLong(part); }
    void writeTo(LZ4Writer *w) { w->writeLong(s); w->writeLong(p); w->writeLong(o); w->writeLong(count); }
    void writeTo(int part, DiskLZ4Writer *w) { w->writeLong(part, s); w->writeLong(part, p); w->writeLong(part, o); w->writeLong(part, count); }
    void toTriple(Triple &t) { t = *this; }
};
class TripleWriter {
    public:
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3) = 0;
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3, const int64_t count) = 0;
    virtual ~TripleWriter() {}
};
#endif
