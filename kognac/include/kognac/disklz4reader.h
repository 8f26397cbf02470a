#ifndef KOGNAC_DISKLZ4READER_H
#define KOGNAC_DISKLZ4READER_H
#include <kognac/lz4io.h>
#include <memory>
class DiskLZ4Reader {
    protected:
    struct Part { std::vector<std::string> files; size_t next; std::unique_ptr<LZ4Reader> r; Part() : next(0) {} };
    std::vector<Part> parts;
    LZ4Reader *cur(int id) {
        Part &p = parts[id];
        while (!p.r || p.r->isEof()) {
            p.r.reset();
            if (p.next >= p.files.size()) return NULL;
            p.r.reset(new LZ4Reader(p.files[p.next++]));
        }
        return p.r.get();
    }
    LZ4Reader *must(int id) { LZ4Reader *r = cur(id); if (!r) throw std::runtime_error("DiskLZ4Reader: eof"); return r; }
    public:
    DiskLZ4Reader(int nparts) : parts(nparts) {}
    bool isEOF(int id) { return cur(id) == NULL; }
    char readByte(int id) { return must(id)->parseByte(); }
    int64_t readLong(int id) { return must(id)->parseLong(); }
    int64_t readVLong(int id) { return must(id)->parseVLong(); }
    const char *readString(int id, int &n) { return must(id)->parseString(n); }
    virtual ~DiskLZ4Reader() {}
};
#endif
