#ifndef KOGNAC_KOGNAC_H
#define KOGNAC_KOGNAC_H
#include <kognac/compressor.h>
class Kognac { public: static void sortCompressedGraph(std::string in, std::string out, int v); };
#endif
