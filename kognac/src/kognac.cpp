// Stand-in for the parts of KOGNAC that Trident links against. Written for these checks:
// simple, single-threaded, no clever encodings beyond what Trident itself relies on.
#include <kognac/utils.h>
#include <kognac/filereader.h>
#include <kognac/diskreader.h>
#include <kognac/compressor.h>
#include <kognac/kognac.h>
#include <zstr/zstr.hpp>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <dirent.h>
#include <unistd.h>
#include <ftw.h>
#include <set>
#include <map>
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <functional>
using std::string; using std::vector;

bool Utils::exists(string f) { struct stat s; return stat(f.c_str(), &s) == 0; }
bool Utils::isDirectory(string f) { struct stat s; return stat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool Utils::isFile(string f) { struct stat s; return stat(f.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
static vector<string> lsdir(const string &d) {
    vector<string> out; DIR *h = opendir(d.c_str()); if (!h) return out;
    while (struct dirent *e = readdir(h)) { string n = e->d_name; if (n != "." && n != "..") out.push_back(n); }
    closedir(h); std::sort(out.begin(), out.end()); return out;
}
bool Utils::isEmpty(string d) { return lsdir(d).empty(); }
bool Utils::create_directories(string d) {
    string cur; std::stringstream ss(d); string part;
    if (!d.empty() && d[0] == '/') cur = "/";
    while (std::getline(ss, part, '/')) {
        if (part.empty()) continue;
        cur += part; mkdir(cur.c_str(), 0755); cur += "/";
    }
    return isDirectory(d);
}
static int rmfn(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void Utils::remove_all(string d) {
    if (d.empty() || d == "/") return;
    if (isDirectory(d)) nftw(d.c_str(), rmfn, 16, FTW_DEPTH | FTW_PHYS); else ::remove(d.c_str());
}
void Utils::remove(string f) { ::remove(f.c_str()); }
void Utils::rename(string a, string b) { ::rename(a.c_str(), b.c_str()); }
void Utils::copy(string a, string b) {
    std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf();
}
uint64_t Utils::fileSize(string f) { struct stat s; return stat(f.c_str(), &s) == 0 ? s.st_size : 0; }
void Utils::resizeFile(string f, uint64_t n) {
    if (!exists(f)) { std::ofstream o(f, std::ios::binary); }
    if (truncate(f.c_str(), n) != 0) throw std::runtime_error("resizeFile");
}
string Utils::filename(string p) { auto i = p.find_last_of('/'); return i == string::npos ? p : p.substr(i + 1); }
string Utils::parentDir(string p) { auto i = p.find_last_of('/'); return i == string::npos ? string() : p.substr(0, i); }
string Utils::extension(string p) { string f = filename(p); auto i = f.find_last_of('.'); return i == string::npos ? "" : f.substr(i); }
bool Utils::hasExtension(const string &p) { return filename(p).find('.') != string::npos; }
string Utils::removeLastExtension(string p) { auto i = p.find_last_of('.'); return i == string::npos ? p : p.substr(0, i); }
string Utils::removeExtension(string p) { auto i = p.find('.'); return i == string::npos ? p : p.substr(0, i); }
vector<string> Utils::getFiles(string d, bool ignoreExtension) {
    vector<string> out; std::set<string> seen;
    for (auto &n : lsdir(d)) {
        string f = d + "/" + n; if (!isFile(f)) continue;
        if (ignoreExtension) { auto i = n.find_last_of('.'); if (i != string::npos) f = d + "/" + n.substr(0, i); }
        if (seen.insert(f).second) out.push_back(f);
    }
    return out;
}
vector<string> Utils::getSubdirs(string d) { vector<string> o; for (auto &n : lsdir(d)) if (isDirectory(d + "/" + n)) o.push_back(d + "/" + n); return o; }
vector<string> Utils::getFilesWithPrefix(string d, string p) { vector<string> o; for (auto &n : lsdir(d)) if (starts_with(n, p)) o.push_back(n); return o; }
vector<string> Utils::getFilesWithSuffix(string d, string p) { vector<string> o; for (auto &n : lsdir(d)) if (ends_with(n, p)) o.push_back(n); return o; }
void Utils::linkdir(string a, string b) { if (symlink(a.c_str(), b.c_str())) {} }
void Utils::rmlink(string a) { unlink(a.c_str()); }
bool Utils::starts_with(const string s, const string p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
bool Utils::ends_with(const string s, const string p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
bool Utils::contains(const string s, const string p) { return s.find(p) != string::npos; }
int64_t Utils::getSystemMemory() { return 4L << 30; }
int64_t Utils::getUsedMemory() { return 0; }
int64_t Utils::getIOReadBytes() { return 0; }
int64_t Utils::getIOReadChars() { return 0; }
int64_t Utils::getCPUCounter() { return 0; }
int Utils::getNumberPhysicalCores() { return 8; }
double Utils::get_max_mem() { return 0; }

int Utils::numBytes(int64_t n) { int64_t max = 32; for (int i = 1; i < 8; ++i) { if (n < max) return i; max *= 256; } return 8; }
int Utils::numBytesFixedLength(int64_t n) { int b = 0; uint64_t v = n; do { b++; v >>= 8; } while (v); return b; }
int Utils::numBytes2(int64_t n) { uint64_t v = n; int b = 1; while (v >= 128) { v >>= 7; b++; } return b; }
static inline uint64_t rd(const char *b, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | (unsigned char) b[i]; return v; }
static inline void wr(char *b, int n, uint64_t v) { for (int i = n - 1; i >= 0; --i) { b[i] = (char)(v & 255); v >>= 8; } }
int Utils::decode_int(const char *b, int off) { return (int) rd(b + off, 4); }
void Utils::encode_int(char *b, int off, int n) { wr(b + off, 4, (uint32_t) n); }
int Utils::decode_short(const char *b, int off) { return (int) rd(b + off, 2); }
void Utils::encode_short(char *b, int off, int n) { wr(b + off, 2, (uint32_t) n); }
int64_t Utils::decode_long(const char *b, int off) { return (int64_t) rd(b + off, 8); }
void Utils::encode_long(char *b, int off, int64_t n) { wr(b + off, 8, n); }
void Utils::encode_longNBytes(char *b, uint8_t nb, uint64_t n) { wr(b, nb, n); }
int64_t Utils::decode_longFixedBytes(const char *b, uint8_t nb) { return (int64_t) rd(b, nb); }
int Utils::encode_vlong(char *b, int off, int64_t n) {
    int nb = numBytes(n); wr(b + off, nb, n); b[off] |= (char)((nb - 1) << 5); return off + nb;
}
int64_t Utils::decode_vlong(const char *b, int *off) {
    int nb = (((unsigned char) b[*off]) >> 5) + 1;
    uint64_t v = (unsigned char) b[*off] & 31;
    for (int i = 1; i < nb; ++i) v = (v << 8) | (unsigned char) b[*off + i];
    *off += nb; return (int64_t) v;
}
int Utils::encode_vlong2(char *b, int off, int64_t n) {
    uint64_t v = n;
    while (v >= 128) { b[off++] = (char)((v & 127) | 128); v >>= 7; }
    b[off++] = (char) v; return off;
}
int64_t Utils::decode_vlong2(const char *b, int *off) {
    int pos = *off, shift = 0; uint64_t v = 0; unsigned char c;
    do { c = b[pos++]; v |= (uint64_t)(c & 127) << shift; shift += 7; } while (c & 128);
    *off = pos; return (int64_t) v;
}
int Utils::encode_vint2(char *b, int off, int n) { return encode_vlong2(b, off, (uint32_t) n); }
int Utils::decode_vint2(const char *b, int *off) { return (int) decode_vlong2(b, off); }
void Utils::encode_vlong2_fixedLen(char *b, int64_t n, uint8_t len) {
    uint64_t v = n;
    for (int i = 0; i < len - 1; ++i) { b[i] = (char)((v & 127) | 128); v >>= 7; }
    b[len - 1] = (char)(v & 127);
}
int Utils::commonPrefix(const char *a, int la, const char *b, int lb) { int i = 0; while (i < la && i < lb && a[i] == b[i]) i++; return i; }
int Utils::commonPrefix(const signed char *a, int s1, int e1, const signed char *b, int s2, int e2) {
    int i = 0; while (s1 + i < e1 && s2 + i < e2 && a[s1 + i] == b[s2 + i]) i++; return i;
}
int Utils::prefixEquals(const char *a, int la, const char *b, int lb) {
    int i = 0; while (i < la && i < lb && a[i] == b[i]) i++;
    if (i == la) return 0;
    if (i == lb) return 1;
    return ((int) a[i] & 0xff) - ((int) b[i] & 0xff);
}
int Utils::compare(const char *a, int la, const char *b, int lb) {
    for (int i = 0; i < la && i < lb; ++i) if (a[i] != b[i]) return ((int) a[i] & 0xff) - ((int) b[i] & 0xff);
    return la - lb;
}

FileReader::FileReader(FileInfo f) : valid(false) { in.reset(new zstr::ifstream(f.path)); }
static bool term(const string &l, size_t &i, string &out) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++;
    size_t st = i; if (i >= l.size()) return false;
    if (l[i] == '<') { i = l.find('>', i); if (i == string::npos) return false; i++; }
    else if (l[i] == '"') {
        i++;
        while (i < l.size() && l[i] != '"') i += l[i] == '\\' ? 2 : 1;
        if (i >= l.size()) return false;
        i++;
        if (i < l.size() && l[i] == '@') while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++;
        else if (l.compare(i, 3, "^^<") == 0) { i = l.find('>', i); if (i == string::npos) return false; i++; }
    } else { while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++; if (l[st] == '.') return false; }
    out = l.substr(st, i - st); return true;
}
bool FileReader::parseTriple() {
    while (std::getline(*in, line)) {
        if (line.empty() || line[0] == '#') continue;
        size_t i = 0; valid = term(line, i, s) && term(line, i, p) && term(line, i, o);
        if (s.size() >= MAX_TERM_SIZE || p.size() >= MAX_TERM_SIZE || o.size() >= MAX_TERM_SIZE) valid = false;
        return true;
    }
    return false;
}
void DiskReader::run() {
    for (auto &f : *files) {
        Buffer b; std::ifstream i(f.path, std::ios::binary);
        i.seekg(f.start); b.size = f.size; b.maxsize = f.size; b.b = new char[f.size + 1]; b.b[f.size] = 0;
        i.read(b.b, f.size); b.gzipped = Utils::ends_with(f.path, ".gz"); b.p = f.path;
        if (b.size == 0) { delete[] b.b; continue; }
        std::unique_lock<std::mutex> l(m); ready.push_back(b); c.notify_all();
    }
    std::unique_lock<std::mutex> l(m); fin = true; c.notify_all();
}
DiskReader::Buffer DiskReader::getfile() {
    std::unique_lock<std::mutex> l(m); while (ready.empty() && !fin) c.wait(l);
    Buffer b; b.b = NULL; b.size = 0; if (!ready.empty()) { b = ready.front(); ready.pop_front(); } return b;
}
// ids: the most frequent terms ("popular") come first in order of frequency, the rest follow in
// lexicographic (unsigned byte) order, which is the order Trident's loader expects for its append.
void Compressor::parse(int, int, int, int, int, int, bool, void *, bool, bool) {
    if (Utils::isDirectory(input)) files = Utils::getFiles(input); else files.push_back(input);
}
static void eachTriple(const vector<string> &files, std::function<void(const string &, const string &, const string &)> fn) {
    for (auto &f : files) {
        FileInfo i; i.path = f; i.start = 0; i.size = Utils::fileSize(f); i.splittable = false; FileReader r(i);
        while (r.parseTriple()) if (r.isTripleValid()) { int n; const char *c = r.getCurrentS(n); string s(c, n); c = r.getCurrentP(n); string p(c, n); c = r.getCurrentO(n); fn(s, p, string(c, n)); }
    }
}
void Compressor::compress(string *permDirs, int nperms, int sig, string *dicts, int ndicts, int parallel, int maxReading, bool ignorePreds) {
    std::map<string, int64_t> freq;
    eachTriple(files, [&](const string &s, const string &p, const string &o) { freq[s]++; if (!ignorePreds) freq[p]++; freq[o]++; });
    int64_t popular = freq.size() / 10; if (popular > 1000) popular = 1000;
    vector<std::pair<int64_t, string>> byf; for (auto &f : freq) byf.push_back(std::make_pair(-f.second, f.first));
    std::sort(byf.begin(), byf.end());
    std::map<string, int64_t> id;
    {
        LZ4Writer w(dicts[0]);
        for (int64_t i = 0; i < popular; ++i) {
            const string &t = byf[i].second; id[t] = i; string v(2, 0); Utils::encode_short(&v[0], t.size()); v += t;
            w.writeLong(i); w.writeString(v.data(), v.size());
        }
    }
    {
        LZ4Writer w(dicts[0] + ".0"); int64_t n = popular;
        for (auto &f : freq) if (!id.count(f.first)) { w.writeLong(n); w.writeString(f.first.data(), f.first.size()); id[f.first] = n++; }
    }
    int nf = parallel < 1 ? 1 : parallel; vector<std::unique_ptr<LZ4Writer>> out;
    for (int i = 0; i < nf; ++i) out.emplace_back(new LZ4Writer(permDirs[0] + "/input-" + std::to_string(i)));
    total = 0;
    eachTriple(files, [&](const string &s, const string &p, const string &o) {
        LZ4Writer *w = out[total++ % nf].get();
        w->writeLong(id[s]); w->writeLong(ignorePreds ? 0 : id[p]); w->writeLong(id[o]);
    });
}
vector<string> Compressor::getAllDictFiles(string prefix) {
    vector<string> o; for (int i = 0; Utils::exists(prefix + "." + std::to_string(i)); ++i) o.push_back(prefix + "." + std::to_string(i)); return o;
}
vector<FileInfo> *Compressor::splitInputInChunks(const string &dir, int n, string prefix) {
    vector<FileInfo> *out = new vector<FileInfo>[n]; int i = 0;
    for (auto &f : Utils::getFilesWithPrefix(dir, prefix)) {
        FileInfo x; x.path = dir + "/" + f; x.start = 0; x.size = Utils::fileSize(x.path); x.splittable = false; out[i++ % n].push_back(x);
    }
    return out;
}
void Kognac::sortCompressedGraph(string in, string outf, int) {
    vector<std::vector<int64_t>> t;
    for (auto &f : Utils::getFiles(in)) { LZ4Reader r(f); while (!r.isEof()) { int64_t a = r.parseLong(), b = r.parseLong(), c = r.parseLong(); t.push_back({a, b, c}); } }
    std::sort(t.begin(), t.end());
    zstr::ofstream o(outf); for (auto &x : t) o << x[0] << " " << x[1] << " " << x[2] << "\n";
}
