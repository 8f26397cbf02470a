#ifndef KOGNAC_COMPRESSOR_H
#define KOGNAC_COMPRESSOR_H
#include <kognac/utils.h>
#include <kognac/filereader.h>
#include <kognac/lz4io.h>
class Compressor {
    std::string input, kbPath; int64_t total;
    std::vector<std::string> files;
    public:
    Compressor(std::string input, std::string kbPath) : input(input), kbPath(kbPath), total(0) {}
    void parse(int dictPartitions, int sampleMethod, int sampleArg, int sampleRate, int parallel,
            int maxReading, bool copyHashes, void *schema, bool onlySample, bool ignorePreds = false);
    void compress(std::string *permDirs, int nperms, int signaturePerms, std::string *dictionaries,
            int ndicts, int parallel, int maxReading, bool ignorePreds = false);
    int64_t getTotalCount() { return total; }
    static void addPermutation(const int perm, int &sig) { sig |= 1 << perm; }
    static void parsePermutationSignature(int sig, int *out) { int j = 0; for (int i = 0; i < 6; ++i) if (sig & (1 << i)) out[j++] = i; }
    static std::vector<std::string> getAllDictFiles(std::string prefix);
    static std::vector<FileInfo> *splitInputInChunks(const std::string &dir, int n, std::string prefix = "");
};
#endif
