#ifndef KOGNAC_TRIPLEWRITERS_H
#define KOGNAC_TRIPLEWRITERS_H
#include <kognac/triple.h>
// First byte of the file: 1 when each row has a count, 0 otherwise; then raw longs.
class SimpleTripleWriter : public TripleWriter {
    LZ4Writer *w;
    public:
    SimpleTripleWriter(std::string dir, std::string prefix, bool quad) {
        w = new LZ4Writer(dir + "/" + prefix + std::to_string(0));
        w->writeByte(quad ? 1 : 0);
    }
    void write(const int64_t a, const int64_t b, const int64_t c) { w->writeLong(a); w->writeLong(b); w->writeLong(c); }
    void write(const int64_t a, const int64_t b, const int64_t c, const int64_t n) { w->writeLong(a); w->writeLong(b); w->writeLong(c); w->writeLong(n); }
    ~SimpleTripleWriter() { delete w; }
};
#endif
