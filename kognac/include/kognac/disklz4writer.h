#ifndef KOGNAC_DISKLZ4WRITER_H
#define KOGNAC_DISKLZ4WRITER_H
#include <kognac/lz4io.h>
#include <memory>
// One independent output per partition; a partition is only ever used by one thread at a time.
class DiskLZ4Writer {
    std::vector<std::unique_ptr<LZ4Writer>> w;
    public:
    DiskLZ4Writer(std::vector<std::string> files, int nbuffers = 3, int maxopened = 3) {
        for (auto &f : files) w.emplace_back(new LZ4Writer(f));
    }
    void writeByte(int id, char c) { w[id]->writeByte(c); }
    void writeLong(int id, int64_t n) { w[id]->writeLong(n); }
    void writeVLong(int id, int64_t n) { w[id]->writeVLong(n); }
    void writeShort(int id, short n) { w[id]->writeShort(n); }
    void writeString(int id, const char *s, int n) { w[id]->writeString(s, n); }
    void writeRawArray(int id, const char *s, int n) { w[id]->writeRawArray(s, n); }
    void setTerminated(int id) { w[id].reset(); }
    virtual ~DiskLZ4Writer() {}
};
#endif
