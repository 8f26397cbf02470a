#ifndef KOGNAC_FILEMERGER_H
#define KOGNAC_FILEMERGER_H
#include <kognac/lz4io.h>
#include <queue>
#include <memory>
// k-way merge of sorted streams. With considerNextFiles, a name stands for the
// consecutive segments name.0, name.1, ...
template<class K>
class FileMerger {
    struct Stream { std::vector<std::string> segs; size_t next; std::unique_ptr<LZ4Reader> r; };
    struct El { K k; int idx; };
    struct Cmp { bool operator()(const El &a, const El &b) const { return a.k.greater(b.k); } };
    std::vector<Stream> streams;
    std::priority_queue<El, std::vector<El>, Cmp> q;
    bool del;
    void load(int i) {
        Stream &s = streams[i];
        while (!s.r || s.r->isEof()) {
            if (s.r && del) { s.r.reset(); Utils::remove(s.segs[s.next - 1]); }
            s.r.reset();
            if (s.next >= s.segs.size()) return;
            s.r.reset(new LZ4Reader(s.segs[s.next++]));
        }
        El e; e.k.readFrom(s.r.get()); e.idx = i; q.push(e);
    }
    public:
    FileMerger(std::vector<std::string> files, bool considerNextFiles = false, bool deletePreviousExt = false) : del(deletePreviousExt) {
        for (auto &f : files) {
            streams.emplace_back(); Stream &s = streams.back(); s.next = 0;
            if (considerNextFiles) {
                std::string base = f;
                auto p = f.find_last_of('.'), sl = f.find_last_of('/');
                if (!Utils::exists(f + ".0") && p != std::string::npos && (sl == std::string::npos || p > sl) && Utils::exists(f)) base = f.substr(0, p);
                for (int i = 0; Utils::exists(base + "." + std::to_string(i)); ++i) s.segs.push_back(base + "." + std::to_string(i));
                if (s.segs.empty() && Utils::exists(f)) s.segs.push_back(f);
            } else s.segs.push_back(f);
        }
        for (size_t i = 0; i < streams.size(); ++i) load(i);
    }
    bool isEmpty() { return q.empty(); }
    K get() { El e = q.top(); q.pop(); load(e.idx); return e.k; }
    ~FileMerger() {}
};
template<int N, class K>
class FastFileMerger : public FileMerger<K> { public: using FileMerger<K>::FileMerger; };
#endif
