#ifndef KOGNAC_UTILS_H
#define KOGNAC_UTILS_H
#include <kognac/consts.h>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <algorithm>
class Utils {
    public:
        static bool exists(std::string f);
        static bool isDirectory(std::string f);
        static bool isFile(std::string f);
        static bool isEmpty(std::string dir);
        static bool create_directories(std::string d);
        static void remove_all(std::string d);
        static void remove(std::string f);
        static void rename(std::string a, std::string b);
        static void copy(std::string a, std::string b);
        static uint64_t fileSize(std::string f);
        static void resizeFile(std::string f, uint64_t n);
        static std::string filename(std::string p);
        static std::string parentDir(std::string p);
        static std::string extension(std::string p);
        static bool hasExtension(const std::string &p);
        static std::string removeExtension(std::string p);
        static std::string removeLastExtension(std::string p);
        static std::vector<std::string> getFiles(std::string d, bool ignoreExtension = false);
        static std::vector<std::string> getSubdirs(std::string d);
        static std::vector<std::string> getFilesWithPrefix(std::string d, std::string prefix);
        static std::vector<std::string> getFilesWithSuffix(std::string d, std::string suffix);
        static void linkdir(std::string a, std::string b);
        static void rmlink(std::string a);
        static bool starts_with(const std::string s, const std::string p);
        static bool ends_with(const std::string s, const std::string p);
        static bool contains(const std::string s, const std::string p);
        static int64_t getSystemMemory();
        static int64_t getUsedMemory();
        static int64_t getIOReadBytes();
        static int64_t getIOReadChars();
        static int64_t getCPUCounter();
        static int getNumberPhysicalCores();
        static double get_max_mem();
        // encodings
        static int numBytes(int64_t n);
        static int numBytesFixedLength(int64_t n);
        static int numBytes2(int64_t n);
        static int decode_int(const char *b, int off = 0);
        static void encode_int(char *b, int off, int n);
        static void encode_int(char *b, int n) { encode_int(b, 0, n); }
        static int decode_short(const char *b, int off = 0);
        static void encode_short(char *b, int off, int n);
        static void encode_short(char *b, int n) { encode_short(b, 0, n); }
        static int64_t decode_long(const char *b, int off = 0);
        static void encode_long(char *b, int off, int64_t n);
        static void encode_long(char *b, int64_t n) { encode_long(b, 0, n); }
        static void encode_longNBytes(char *b, uint8_t nbytes, uint64_t n);
        static int64_t decode_longFixedBytes(const char *b, uint8_t nbytes);
        static uint16_t encode_vlong(char *b, int64_t n) { return encode_vlong(b, 0, n); }
        static int encode_vlong(char *b, int off, int64_t n);
        static int64_t decode_vlong(const char *b, int *off);
        static int encode_vlong2(char *b, int off, int64_t n);
        static int64_t decode_vlong2(const char *b, int *off);
        static uint16_t encode_vlong2(char *b, int64_t n) { return encode_vlong2(b, 0, n); }
        static int encode_vint2(char *b, int off, int n);
        static int decode_vint2(const char *b, int *off);
        static void encode_vlong2_fixedLen(char *b, int64_t n, uint8_t len);
        static void encode_vlong2_fixedLen(char *b, int off, int64_t n, uint8_t len) { encode_vlong2_fixedLen(b + off, n, len); }
        static int commonPrefix(const char *a, int la, const char *b, int lb);
        static int commonPrefix(const signed char *a, int s1, int e1, const signed char *b, int s2, int e2);
        static int prefixEquals(const char *a, int la, const char *b, int lb);
        static int compare(const char *a, int la, const char *b, int lb);
};
#endif
