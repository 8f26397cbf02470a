#ifndef KOGNAC_FILEREADER_H
#define KOGNAC_FILEREADER_H
#include <string>
#include <cstdint>
#include <memory>
#include <istream>
struct FileInfo { uint64_t size; uint64_t start; bool splittable; std::string path; };
// N-Triples reader: one triple per line; terms keep their delimiters.
class FileReader {
    std::unique_ptr<std::istream> in; std::string line;
    std::string s, p, o; bool valid;
    public:
    FileReader(FileInfo f);
    bool parseTriple();
    bool isTripleValid() { return valid; }
    const char *getCurrentS(int &n) { n = s.size(); return s.c_str(); }
    const char *getCurrentP(int &n) { n = p.size(); return p.c_str(); }
    const char *getCurrentO(int &n) { n = o.size(); return o.c_str(); }
};
#endif
