#ifndef KOGNAC_MULTIDISKLZ4WRITER_H
#define KOGNAC_MULTIDISKLZ4WRITER_H
#include <kognac/disklz4writer.h>
class MultiDiskLZ4Writer : public DiskLZ4Writer {
    public: using DiskLZ4Writer::DiskLZ4Writer;
};
#endif
