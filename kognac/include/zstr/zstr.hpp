#ifndef ZSTR_STANDIN_HPP
#define ZSTR_STANDIN_HPP
// Stand-in for zstr: reads plain or gzip files (whole), writes gzip on close.
#include <fstream>
#include <sstream>
#include <string>
#include <iterator>
#include <vector>
#include <zlib.h>
#include <cstring>
namespace zstr {
    inline std::string inflateAll(const std::string &in) {
        if (in.size() < 2 || (unsigned char)in[0] != 0x1f || (unsigned char)in[1] != 0x8b) return in;
        std::string out; z_stream z; memset(&z, 0, sizeof(z));
        if (inflateInit2(&z, 15 + 32) != Z_OK) return out;
        z.next_in = (Bytef *)in.data(); z.avail_in = in.size(); std::vector<char> b(1 << 16);
        int r;
        do {
            z.next_out = (Bytef *)b.data(); z.avail_out = b.size();
            r = inflate(&z, Z_NO_FLUSH);
            out.append(b.data(), b.size() - z.avail_out);
            if (r == Z_STREAM_END && z.avail_in) { inflateReset(&z); r = Z_OK; }
        } while (r == Z_OK && (z.avail_in || !z.avail_out));
        inflateEnd(&z); return out;
    }
    class istream : public std::istringstream {
        public:
        istream(std::istream &i) : std::istringstream(inflateAll(std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()))) {}
    };
    class ifstream : public std::istringstream {
        static std::string slurp(const std::string &p) {
            std::ifstream f(p, std::ios::binary);
            return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
        }
        public:
        ifstream(const std::string &p, std::ios_base::openmode = std::ios_base::in) : std::istringstream(inflateAll(slurp(p))) {}
        void close() {}
    };
    class ofstream : public std::ostringstream {
        std::string path; bool done;
        public:
        ofstream(const std::string &p, std::ios_base::openmode = std::ios_base::out) : path(p), done(false) {}
        void close() {
            if (done) return;
            done = true;
            gzFile g = gzopen(path.c_str(), "wb6"); if (!g) return;
            std::string s = str(); if (!s.empty()) gzwrite(g, s.data(), s.size()); gzclose(g);
        }
        ~ofstream() { close(); }
    };
}
#endif
