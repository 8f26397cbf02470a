#ifndef KOGNAC_MULTIDISKLZ4READER_H
#define KOGNAC_MULTIDISKLZ4READER_H
#include "triple.h"
#include <kognac/disklz4reader.h>
class MultiDiskLZ4Reader : public DiskLZ4Reader {
    public:
    MultiDiskLZ4Reader(int parts, int nbuffers, int maxopened) : DiskLZ4Reader(parts) {}
    void start() {}
    void addInput(int id, std::vector<std::string> &files) { parts[id].files = files; }
    void stop() {}
};
#endif
