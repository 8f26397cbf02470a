#ifndef KOGNAC_LZ4IO_H
#define KOGNAC_LZ4IO_H
// Stand-in for kognac/lz4io.h: buffered streams of longs/bytes/strings (stored uncompressed).
#include <kognac/utils.h>
#include <cstdio>
#include <string>
#include <vector>
#include <stdexcept>
class LZ4Writer {
    FILE *f; std::string path;
    public:
    LZ4Writer(std::string p) : path(p) {
        f = fopen(p.c_str(), "wb");
        if (!f) throw std::runtime_error("LZ4Writer: cannot open " + p);
    }
    LZ4Writer(const LZ4Writer &) = delete;
    void writeByte(char c) { fputc((unsigned char) c, f); }
    void writeLong(int64_t n) { char b[8]; Utils::encode_long(b, 0, n); fwrite(b, 1, 8, f); }
    void writeVLong(int64_t n) { char b[16]; int l = Utils::encode_vlong2(b, 0, n); fwrite(b, 1, l, f); }
    void writeShort(short n) { char b[2]; Utils::encode_short(b, 0, n); fwrite(b, 1, 2, f); }
    void writeRawArray(const char *b, int n) { fwrite(b, 1, n, f); }
    void writeString(const char *s, int n) { writeVLong(n); fwrite(s, 1, n, f); }
    ~LZ4Writer() { fclose(f); }
};
class LZ4Reader {
    FILE *f; std::vector<char> buf;
    public:
    LZ4Reader(std::string p) {
        f = fopen(p.c_str(), "rb");
        if (!f) throw std::runtime_error("LZ4Reader: cannot open " + p);
    }
    LZ4Reader(const LZ4Reader &) = delete;
    bool isEof() { int c = fgetc(f); if (c == EOF) return true; ungetc(c, f); return false; }
    char parseByte() { int c = fgetc(f); if (c == EOF) throw std::runtime_error("LZ4Reader: eof"); return (char) c; }
    int64_t parseLong() {
        char b[8]; if (fread(b, 1, 8, f) != 8) throw std::runtime_error("LZ4Reader: eof");
        return Utils::decode_long(b, 0);
    }
    int64_t parseVLong() {
        int64_t n = 0; int shift = 0, c;
        do { c = (unsigned char) parseByte(); n |= (int64_t)(c & 127) << shift; shift += 7; } while (c & 128);
        return n;
    }
    int parseInt() { char b[4]; for (int i = 0; i < 4; ++i) b[i] = parseByte(); return Utils::decode_int(b, 0); }
    short parseShort() { char b[2]; for (int i = 0; i < 2; ++i) b[i] = parseByte(); return (short) Utils::decode_short(b, 0); }
    const char *parseString(int &n) {
        n = (int) parseVLong(); buf.resize(n + 1);
        if ((int) fread(buf.data(), 1, n, f) != n) throw std::runtime_error("LZ4Reader: eof");
        buf[n] = 0; return buf.data();
    }
    ~LZ4Reader() { fclose(f); }
};
#endif
