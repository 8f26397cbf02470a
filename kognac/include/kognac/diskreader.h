#ifndef KOGNAC_DISKREADER_H
#define KOGNAC_DISKREADER_H
#include <kognac/filereader.h>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <list>
class DiskReader {
    public:
    struct Buffer { size_t size; size_t maxsize; char *b; bool gzipped; std::string p; };
    DiskReader(int nbuffers, std::vector<FileInfo> *files) : files(files), fin(false) {}
    void run();
    Buffer getfile();
    void releasefile(Buffer b) { delete[] b.b; }
    bool isReady() { return true; }
    private:
    std::vector<FileInfo> *files; std::list<Buffer> ready; std::mutex m; std::condition_variable c; bool fin;
};
#endif
