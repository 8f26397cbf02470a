// Low-level building blocks against reference models: ArrayItr, RmItr, CacheIdx, PropertyMap/KBConfig, FFT.
#include <trident/iterators/arrayitr.h>
#include <trident/iterators/rmitr.h>
#include <trident/kb/cacheidx.h>
#include <trident/kb/kbconfig.h>
#include <trident/utils/propertymap.h>
#include <trident/utils/fft.h>
#include <cmath>
#include "pbt.h"
using namespace pbt;

typedef std::vector<std::pair<uint64_t, uint64_t>> P;

static P genPairs(Src &s, int maxN, uint64_t dom, bool allowEmpty = true) {
    std::set<std::pair<uint64_t, uint64_t>> r;
    int n = s.range(allowEmpty ? 0 : 1, maxN);
    uint64_t d1 = 1 + s.below(dom), d2 = 1 + s.below(dom);
    uint64_t off = s.chance(1, 4) ? (uint64_t) s.skew(1ULL << 40) : 0;
    for (int i = 0; i < n; ++i) { uint64_t a = off + s.below(d1), b = s.below(d2); if (s.chance(1, 30)) b = s.skew(1ULL << 40); r.insert(std::make_pair(a, b)); }
    if (!allowEmpty && r.empty()) r.insert(std::make_pair(off, 0));
    return P(r.begin(), r.end());
}
static std::string show(const P &p) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < p.size() && i < 40; ++i) o << (i ? " " : "") << p[i].first << "," << p[i].second;
    if (p.size() > 40) o << " ...(" << p.size() << ")";
    o << "]"; return o.str();
}

static void arrayitr(Src &s, Case &c) {
    P all = genPairs(s, 40, 12, false);
    std::shared_ptr<Pairs> v(new Pairs(all.begin(), all.end()));
    int mode = s.below(4); int64_t c1 = -1, c2 = -1;
    if (mode == 1 || mode == 2) {
        std::pair<uint64_t, uint64_t> e = all[s.below(all.size())];
        c1 = e.first; if (mode == 2) c2 = e.second;
        if (s.chance(1, 4)) c1 = std::max<int64_t>(0, c1 + s.range(-2, 2));
        if (mode == 2 && s.chance(1, 3)) c2 = std::max<int64_t>(0, c2 + s.range(-2, 2));
    }
    bool ign = mode == 3;
    P exp; for (size_t i = 0; i < all.size(); ++i) if ((c1 < 0 || (int64_t) all[i].first == c1) && (c2 < 0 || (int64_t) all[i].second == c2)) exp.push_back(all[i]);
    std::ostringstream d; d << "ArrayItr over " << show(all) << " c1=" << c1 << " c2=" << c2 << (ign ? " ignoreSecondColumn" : "") << " ops:";
    c.describe(d.str());
    ArrayItr it; it.initializeConstraints(); it.init(v, c1, c2); it.setKey(7);
    if (ign) it.ignoreSecondColumn();
    std::vector<uint64_t> firsts; std::map<uint64_t, int64_t> cnt;
    for (auto &e : exp) { if (firsts.empty() || firsts.back() != e.first) firsts.push_back(e.first); cnt[e.first]++; }
    size_t pos = 0; // index of the next element in exp / firsts
    size_t N = ign ? firsts.size() : exp.size();
    if (c1 < 0) PCHECK(c, it.getCardinality() == N, "arrayitr-card", "getCardinality()=" << it.getCardinality() << " expected " << N);
    bool started = false, marked = false, stay = false, cur = false, mcur = false, hn = false, mhn = false; size_t mpos = 0;
    int nops = s.range(5, 60); bool sawMove = false, sawReset = false;
    for (int k = 0; k < nops; ++k) {
        int op = s.below(8);
        if (op <= 3) {
            bool h = it.hasNext(); hn = true;
            c.note(" hasNext");
            PCHECK(c, h == (pos < N), "arrayitr-hasnext", "hasNext()=" << h << " at " << pos << "/" << N);
            if (h) {
                it.next(); c.note(" next");
                int64_t e1 = ign ? firsts[pos] : exp[pos].first;
                PCHECK(c, it.getValue1() == e1, "arrayitr-value", "value1 " << it.getValue1() << " expected " << e1 << " at " << pos);
                if (!ign) PCHECK(c, it.getValue2() == (int64_t) exp[pos].second, "arrayitr-value", "value2 " << it.getValue2() << " expected " << exp[pos].second);
                if (ign && !stay && s.flip()) { c.note(" count"); PCHECK(c, it.getCount() == cnt[e1], "arrayitr-count", "getCount()=" << it.getCount() << " expected " << cnt[e1] << " for " << e1); }
                stay = false;
                pos++; started = cur = true; hn = false;
            }
        } else if (op == 4) { bool h = it.hasNext(); hn = true; PCHECK(c, h == (pos < N), "arrayitr-hasnext", "hasNext()=" << h << " at " << pos << "/" << N); }
        else if (op == 5 && c1 < 0 && started) { // moveto is called right after next()
            hn = true; if (!it.hasNext()) continue;
            it.next(); hn = false; pos++; stay = false;
            int64_t cur1 = ign ? firsts[pos - 1] : exp[pos - 1].first, cur2 = ign ? 0 : exp[pos - 1].second;
            auto &t = all[s.below(all.size())];
            int64_t t1 = std::max<int64_t>(0, (int64_t) t.first + s.range(-1, 1)), t2 = ign ? 0 : std::max<int64_t>(0, (int64_t) t.second + s.range(-1, 1));
            it.moveto(t1, t2); sawMove = true; cur = false;
            { std::ostringstream o; o << " next moveto(" << t1 << "," << t2 << ")"; c.note(o.str()); }
            if (cur1 > t1 || (cur1 == t1 && (ign || cur2 >= t2))) { pos--; stay = true; }
            else if (ign) { while (pos < N && (int64_t) firsts[pos] < t1) pos++; }
            else while (pos < N && ((int64_t) exp[pos].first < t1 || ((int64_t) exp[pos].first == t1 && (int64_t) exp[pos].second < t2))) pos++;
        } else if (op == 6 && !stay) { it.mark(); mpos = pos; mcur = cur; mhn = hn; marked = true; c.note(" mark"); }
        else if (op == 7 && marked) {
            it.reset(0); pos = mpos; stay = false; cur = mcur; hn = mhn; c.note(" reset"); sawReset = true;
            if (cur) {
                int64_t e1 = ign ? firsts[pos - 1] : exp[pos - 1].first;
                PCHECK(c, it.getValue1() == e1, "arrayitr-value", "value1 " << it.getValue1() << " after reset, expected " << e1);
                if (!ign) PCHECK(c, it.getValue2() == (int64_t) exp[pos - 1].second, "arrayitr-value", "value2 " << it.getValue2() << " after reset, expected " << exp[pos - 1].second);
                if (ign && !hn && s.flip()) { c.note(" count"); PCHECK(c, it.getCount() == cnt[e1], "arrayitr-count", "getCount()=" << it.getCount() << " after reset, expected " << cnt[e1] << " for " << e1); }
            }
        }
    }
    c.label(ign ? "ignore-second" : c1 >= 0 ? (c2 >= 0 ? "two constraints" : "one constraint") : "free");
    if (sawMove) c.label("moveto"); if (sawReset) c.label("reset");
    c.nontrivial(N > 1 && (c1 >= 0 || sawMove || sawReset || ign));
}

// a plain PairItr over a vector, standing in for the table iterators RmItr is given
struct VecItr : public PairItr {
    P v; size_t pos; bool ign; int64_t cur1, cur2, cnt; size_t mpos;
    VecItr(const P &p) : v(p), pos(0), ign(false), cur1(-1), cur2(-1), cnt(0), mpos(0) { initializeConstraints(); }
    int getTypeItr() { return 4711; }
    int64_t getValue1() { return cur1; }
    int64_t getValue2() { return cur2; }
    size_t groupEnd(size_t i) { size_t j = i; while (j < v.size() && v[j].first == v[i].first) j++; return j; }
    bool hasNext() { return pos < v.size(); }
    void next() { cur1 = v[pos].first; cur2 = v[pos].second; if (ign) { size_t e = groupEnd(pos); cnt = e - pos; pos = e; } else { cnt = 1; pos++; } }
    void ignoreSecondColumn() { // the iterator stays on the group it is at
        ign = true; if (pos > 0) { size_t b = pos - 1; while (b > 0 && v[b - 1].first == v[pos - 1].first) b--; size_t e = groupEnd(b); cnt = e - b; pos = e; }
    }
    int64_t getCount() { return cnt; }
    uint64_t getCardinality() { if (!ign) return v.size(); uint64_t n = 0; for (size_t i = 0; i < v.size(); i = groupEnd(i)) n++; return n; }
    uint64_t estCardinality() { return getCardinality(); }
    void clear() {}
    void mark() { mpos = pos; }
    void reset(const char) { pos = mpos; }
    void moveto(const int64_t c1, const int64_t c2) {
        if (cur1 > c1 || (cur1 == c1 && (ign || cur2 >= c2))) { pos--; return; }
        while (pos < v.size() && ((int64_t) v[pos].first < c1 || ((int64_t) v[pos].first == c1 && (int64_t) v[pos].second < c2))) pos++;
    }
};

static void rmitr(Src &s, Case &c) {
    P all = genPairs(s, 40, 12, false), rm;
    int den = 1 + s.below(4);
    for (auto &e : all) if ((int) s.below(den + 1) >= 1) rm.push_back(e);
    if (rm.empty()) rm.push_back(all[s.below(all.size())]);
    bool ign = s.chance(1, 3);
    P exp; std::set<std::pair<uint64_t, uint64_t>> rs(rm.begin(), rm.end());
    for (auto &e : all) if (!rs.count(e)) exp.push_back(e);
    std::map<uint64_t, int64_t> cnt; std::set<uint64_t> a1; for (auto &e : all) a1.insert(e.first);
    std::vector<uint64_t> firsts; for (auto &e : exp) { if (!cnt[e.first]++) firsts.push_back(e.first); }
    int64_t gone = a1.size() - firsts.size();
    { std::ostringstream d; d << "RmItr over " << show(all) << " minus " << show(rm) << (ign ? " ignoreSecondColumn" : ""); c.describe(d.str()); }
    VecItr m(all), r(rm); m.setKey(5); r.setKey(5);
    RmItr it; it.init(&m, &r, gone);
    if (ign) it.ignoreSecondColumn();
    size_t N = ign ? firsts.size() : exp.size(), pos = 0;
    PCHECK(c, it.getCardinality() == N, "rmitr-card", "getCardinality()=" << it.getCardinality() << " expected " << N);
    bool started = false, sawMove = false; int nops = s.range(5, 60);
    for (int k = 0; k < nops; ++k) {
        int op = s.below(6);
        if (op <= 3) {
            bool h = it.hasNext(); PCHECK(c, h == (pos < N), "rmitr-hasnext", "hasNext()=" << h << " at " << pos << "/" << N);
            if (!h) break;
            it.next();
            if (ign) {
                PCHECK(c, it.getValue1() == (int64_t) firsts[pos], "rmitr-value", "got " << it.getValue1() << " expected " << firsts[pos]);
                PCHECK(c, it.getCount() == cnt[firsts[pos]], "rmitr-count", "count of " << firsts[pos] << " is " << it.getCount() << " expected " << cnt[firsts[pos]]);
            } else PCHECK(c, it.getValue1() == (int64_t) exp[pos].first && it.getValue2() == (int64_t) exp[pos].second, "rmitr-value",
                   "got " << it.getValue1() << "," << it.getValue2() << " expected " << exp[pos].first << "," << exp[pos].second);
            PCHECK(c, it.getKey() == 5, "rmitr-key", "key " << it.getKey());
            pos++; started = true;
            if (op == 3 && !ign) { // moveto right after next
                auto &t = all[s.below(all.size())];
                int64_t t1 = t.first, t2 = std::max<int64_t>(0, (int64_t) t.second + s.range(-1, 1));
                it.moveto(t1, t2); sawMove = true;
                { std::ostringstream o; o << " moveto(" << t1 << "," << t2 << ")"; c.note(o.str()); }
                int64_t cur1 = exp[pos - 1].first, cur2 = exp[pos - 1].second;
                if (cur1 > t1 || (cur1 == t1 && cur2 >= t2)) pos--;
                else while (pos < N && ((int64_t) exp[pos].first < t1 || ((int64_t) exp[pos].first == t1 && (int64_t) exp[pos].second < t2))) pos++;
            }
        } else { bool h = it.hasNext(); PCHECK(c, h == (pos < N), "rmitr-hasnext", "hasNext()=" << h << " at " << pos << "/" << N); if (h) { it.next(); pos++; } }
    }
    if (sawMove) c.label("moveto"); c.label(N ? "some left" : "all removed");
    c.nontrivial(N > 0 && rm.size() > 0);
    (void) started;
}

static void cacheidx(Src &s, Case &c) {
    CacheIdx idx; std::map<uint64_t, std::map<uint64_t, P>> model; // key -> startKey -> pairs
    std::map<uint64_t, std::map<uint64_t, uint64_t>> ends;
    std::ostringstream d; int n = s.range(1, 14); int merges = 0;
    uint64_t nk = 1 + s.below(4);
    std::map<uint64_t, std::vector<uint64_t>> freeSlots;
    for (uint64_t k = 0; k < nk; ++k) for (uint64_t i = 0; i < 16; ++i) freeSlots[k].push_back(i * 100);
    for (int i = 0; i < n; ++i) {
        uint64_t key = s.below(nk); if (s.chance(1, 10)) key += 0;
        auto &fs = freeSlots[key];
        std::vector<CacheBlock> *b = new std::vector<CacheBlock>(); P *p = new P();
        int nb = s.range(1, 3); std::vector<uint64_t> starts;
        for (int j = 0; j < nb && !fs.empty(); ++j) { size_t w = s.below(fs.size()); starts.push_back(fs[w]); fs.erase(fs.begin() + w); }
        std::sort(starts.begin(), starts.end());
        bool existed = model.count(key);
        for (uint64_t st : starts) {
            CacheBlock x; x.startKey = st; x.startArray = p->size(); uint64_t k1 = st; int m = s.range(1, 6);
            for (int q = 0; q < m; ++q) { p->push_back(std::make_pair(k1, s.below(1000))); if (q + 1 < m && s.flip()) k1++; }
            x.endKey = k1; x.endArray = p->size(); b->push_back(x);
            model[key][st] = P(p->begin() + x.startArray, p->end()); ends[key][st] = k1;
        }
        d << " store(" << key << "; " << starts.size() << " blocks," << p->size() << " pairs)";
        if (starts.empty()) { delete b; delete p; continue; }
        if (existed) merges++;
        idx.storeIdx(key, b, p);
        for (uint64_t k = 0; k <= nk; ++k) {
            auto r = idx.getIndex(k);
            if (!model.count(k)) { PCHECK(c, r.first == NULL && r.second == NULL, "cacheidx-absent", "getIndex of a key never stored is not NULL"); continue; }
            PCHECK(c, r.first && r.second, "cacheidx-lost", "getIndex(" << k << ") is NULL after storeIdx");
            PCHECK(c, r.second->size() == model[k].size(), "cacheidx-blocks", "key " << k << " has " << r.second->size() << " blocks, expected " << model[k].size());
            size_t j = 0;
            for (auto &m : model[k]) {
                CacheBlock &x = (*r.second)[j++];
                PCHECK(c, x.startKey == m.first && x.endKey == ends[k][m.first], "cacheidx-range", "block " << j << " of key " << k << " covers " << x.startKey << ".." << x.endKey << " expected " << m.first << ".." << ends[k][m.first]);
                PCHECK(c, x.endArray <= r.first->size() && x.startArray <= x.endArray && P(r.first->begin() + x.startArray, r.first->begin() + x.endArray) == m.second,
                       "cacheidx-content", "block " << j << " of key " << k << " does not hold the pairs stored for it");
            }
        }
    }
    c.describe("CacheIdx" + d.str()); if (merges) c.label("merge"); c.nontrivial(merges > 0);
}

static void config(Src &s, Case &c) {
    PropertyMap m; std::map<int, std::string> model; std::map<int, int> kind; // 0 int 1 long 2 bool 3 string
    std::map<int, int64_t> val; std::ostringstream d; int n = s.range(1, 40); int overw = 0;
    bool kb = s.flip(); KBConfig cfg; const int NP = 20;
    // only a few arbitrary parameters of KBConfig are set; the others must keep the value they had
    std::vector<KBParam> ps = {DICTPARTITIONS, NINDICES, AGGRINDICES, INCOMPLINDICES, USEFIXEDSTRAT, FIXEDSTRAT, THRESHOLD_SKIP_TABLE, RELSOWNIDS, TREE_MAXELEMENTSNODE, TREE_MAXSIZECACHETREE, TREE_MAXNODESINCACHE,
        TREE_NODEMINBYTES, TREE_MAXFILESIZE, DICT_MAXELEMENTSNODE, DICT_MAXSIZECACHETREE, INVDICT_MAXSIZECACHETREE, STORAGE_CACHE_SIZE, STORAGE_MAX_FILE_SIZE, SB_PREALLBUFFERS, SB_CACHESIZE};
    std::map<int, std::string> orig; for (int i = 0; i < NP; ++i) orig[i] = cfg.getParam(ps[i]);
    for (int i = 0; i < n; ++i) {
        int k = s.below(NP), kd = s.below(4); int64_t v = 0; std::string sv;
        if (model.count(k)) overw++;
        if (kd == 0) { v = (int) (int64_t) s.boundary({0, 127, 255, 65535, 2147483645ULL}, 2147483647); if (s.chance(1, 4)) v = -v; kb ? cfg.setParamInt(ps[k], v) : m.setInt(k, v); sv = std::to_string(v); }
        else if (kd == 1) { v = (int64_t) s.boundary({0, 2147483647, 4294967295ULL, 1ULL << 40, (uint64_t) INT64_MAX - 2}, INT64_MAX); if (s.chance(1, 4)) v = -v; kb ? cfg.setParamLong(ps[k], v) : m.setLong(k, v); sv = std::to_string(v); }
        else if (kd == 2) { v = s.flip(); kb ? cfg.setParamBool(ps[k], v) : m.setBool(k, v); sv = v ? "1" : "0"; }
        else { int l = s.below(8); for (int j = 0; j < l; ++j) sv += (char) s.range(32, 126); kb ? cfg.setParam(ps[k], sv) : m.set(k, sv); }
        model[k] = sv; kind[k] = kd; val[k] = v; d << " " << k << ":=" << sv;
        for (int q = 0; q < NP; ++q) {
            if (model.count(q)) {
                std::string g = kb ? cfg.getParam(ps[q]) : m.get(q);
                if (kind[q] == 3) PCHECK(c, g == model[q], "config-string", "key " << q << " reads '" << g << "' expected '" << model[q] << "'");
                if (kind[q] == 0) { int g = kb ? cfg.getParamInt(ps[q]) : m.getInt(q); PCHECK(c, g == val[q], "config-int", "key " << q << " reads " << g << " expected " << val[q]); }
                if (kind[q] <= 1) { int64_t g = kb ? cfg.getParamLong(ps[q]) : m.getLong(q); PCHECK(c, g == val[q], "config-long", "key " << q << " reads " << g << " expected " << val[q]); }
                if (kind[q] == 2) { bool g = kb ? cfg.getParamBool(ps[q]) : m.getBool(q); PCHECK(c, g == (bool) val[q], "config-bool", "key " << q << " reads " << g << " expected " << val[q]); }
                if (!kb && kind[q] == 0) PCHECK(c, m.getInt(q, 12345) == val[q], "config-default", "a set key returns the default");
                if (!kb && kind[q] == 1) PCHECK(c, m.getLong(q, 12345) == val[q], "config-default", "a set key returns the default");
                if (!kb && kind[q] == 2) PCHECK(c, m.getBool(q, !val[q]) == (bool) val[q], "config-default", "a set key returns the default");
            } else if (kb) PCHECK(c, cfg.getParam(ps[q]) == orig[q], "config-frame", "setting one parameter changed parameter " << q);
            else {
                PCHECK(c, m.getInt(q, 4321) == 4321 && m.getLong(q, 1LL << 41) == 1LL << 41 && m.getBool(q, true) && !m.getBool(q, false), "config-default", "an unset key does not return the default");
                bool thrown = false; try { m.getInt(q); } catch (int) { thrown = true; } PCHECK(c, thrown, "config-absent", "an unset key has a value");
            }
        }
    }
    c.describe(std::string(kb ? "KBConfig" : "PropertyMap") + d.str()); c.label(kb ? "KBConfig" : "PropertyMap"); c.nontrivial(overw > 0);
}

void fft(std::vector<Complex> &in, std::vector<Complex> &out);
void ifft(std::vector<Complex> &in, std::vector<Complex> &out);
static int fftLen(Src &s) { return s.chance(1, 4) ? 1 << s.range(0, 8) : s.chance(1, 10) ? (int) s.range(1, 300) : (int) s.range(1, 48); }

static void fourier(Src &s, Case &c) {
    int n = fftLen(s); std::vector<Complex> a(n), f(n), b(n); double scale = 1;
    bool real = s.chance(1, 3);
    for (int i = 0; i < n; ++i) { a[i] = Complex(s.range(-1000, 1000) / 100.0, real ? 0.0 : s.range(-1000, 1000) / 100.0); scale = std::max(scale, std::fabs(a[i].real) + std::fabs(a[i].imag)); }
    { std::ostringstream d; d << "fft n=" << n << " of"; for (int i = 0; i < n && i < 8; ++i) d << " " << a[i].real << (a[i].imag < 0 ? "" : "+") << a[i].imag << "i"; c.describe(d.str()); }
    std::vector<Complex> in(a); fft(in, f);
    PCHECK(c, (int) f.size() == n, "fft-size", "the transform of " << n << " values has " << f.size());
    for (int i = 0; i < n; ++i) PCHECK(c, in[i].real == a[i].real && in[i].imag == a[i].imag, "fft-input", "the forward transform changed its input at " << i);
    for (int k = 0; k < n; ++k) {
        double re = 0, im = 0;
        for (int t = 0; t < n; ++t) { double an = -2 * M_PI * ((double) t * k) / n, co = std::cos(an), si = std::sin(an); re += a[t].real * co - a[t].imag * si; im += a[t].real * si + a[t].imag * co; }
        PCHECK(c, std::fabs(re - f[k].real) < 1e-7 * scale * n && std::fabs(im - f[k].imag) < 1e-7 * scale * n, "fft-forward", "coefficient " << k << " is " << f[k].real << "," << f[k].imag << " expected " << re << "," << im);
    }
    ifft(f, b);
    PCHECK(c, (int) b.size() == n, "fft-size", "the inverse has " << b.size() << " values");
    for (int i = 0; i < n; ++i) PCHECK(c, std::fabs(b[i].real - a[i].real) < 1e-7 * scale * n && std::fabs(b[i].imag - a[i].imag) < 1e-7 * scale * n, "fft-roundtrip", "element " << i << " comes back as " << b[i].real << "," << b[i].imag << " instead of " << a[i].real << "," << a[i].imag);
    Complex x = a[0], y = a[n - 1], z = x; z += y;
    PCHECK(c, z.real == x.real + y.real && z.imag == x.imag + y.imag, "complex-add", "x+=y is wrong");
    z = ~x; PCHECK(c, z.real == x.real && z.imag == -x.imag, "complex-conj", "~x is not the conjugate");
    c.label(real ? "real" : "complex"); c.nontrivial(n > 2);
}

static void conv(Src &s, Case &c) {
    int n = fftLen(s); std::vector<double> a(n), b(n);
    for (int i = 0; i < n; ++i) { a[i] = s.range(-1000, 1000) / 100.0; b[i] = s.range(-1000, 1000) / 100.0; }
    bool corr = s.flip(), flt = s.flip();
    std::vector<double> out;
    if (flt) { std::vector<float> f; corr ? ccorr(&a[0], &b[0], n, f) : cconv(&a[0], &b[0], n, f); out.assign(f.begin(), f.end()); }
    else corr ? ccorr(&a[0], &b[0], n, out) : cconv(&a[0], &b[0], n, out);
    { std::ostringstream d; d << (corr ? "ccorr" : "cconv") << (flt ? "<float>" : "<double>") << " n=" << n << " a="; for (int i = 0; i < n && i < 6; ++i) d << a[i] << ","; d << " b="; for (int i = 0; i < n && i < 6; ++i) d << b[i] << ","; c.describe(d.str()); }
    PCHECK(c, (int) out.size() == n, "fft-size", (corr ? "ccorr" : "cconv") << " of two vectors of " << n << " produced " << out.size() << " values");
    double scale = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) scale = std::max(scale, std::fabs(a[i] * b[j]));
    for (int k = 0; k < n && k < (int) out.size(); ++k) {
        double e = 0; for (int i = 0; i < n; ++i) e += corr ? a[i] * b[(i + k) % n] : a[i] * b[((k - i) % n + n) % n];
        PCHECK(c, std::fabs(e - out[k]) <= (flt ? 1e-4 : 1e-7) * scale * n, corr ? "fft-ccorr" : "fft-cconv", "element " << k << " is " << out[k] << ", the definition gives " << e);
    }
    Complex x(a[0], b[0]), y(b[n - 1], a[n / 2]), z = x; z *= y; Complex w = x * y;
    PCHECK(c, std::fabs(w.real - (x.real * y.real - x.imag * y.imag)) < 1e-6 && std::fabs(w.imag - (x.real * y.imag + x.imag * y.real)) < 1e-6, "complex-mul", "complex product wrong");
    PCHECK(c, std::fabs(z.real - w.real) < 1e-6 && std::fabs(z.imag - w.imag) < 1e-6, "complex-mulassign", "x*=y gives " << z.real << "+" << z.imag << "i, x*y gives " << w.real << "+" << w.imag << "i");
    double dv = s.range(1, 50) / 4.0; Complex q = x / dv;
    PCHECK(c, std::fabs(q.real * dv - x.real) < 1e-6 && std::fabs(q.imag * dv - x.imag) < 1e-6, "complex-div", "(x/d)*d differs from x: " << q.real * dv << "+" << q.imag * dv << "i vs " << x.real << "+" << x.imag << "i");
    double t = s.range(-500, 500) / 50.0;
    PCHECK(c, std::fabs(sigmoid(t) - t / (1 + std::fabs(t))) < 1e-12 && std::fabs(sigmoid_given_fun(t) - t * (1 - t)) < 1e-9, "sigmoid", "sigmoid helper differs from its definition");
    c.label(corr ? "ccorr" : "cconv"); c.nontrivial(n > 2);
}

int main(int argc, char **argv) {
    return Engine({Facet("arrayitr", arrayitr, 400000, 10000000), Facet("rmitr", rmitr, 300000, 8000000), Facet("cacheidx", cacheidx, 100000, 3000000),
                   Facet("config", config, 60000, 600000), Facet("conv", conv, 60000, 600000), Facet("fourier", fourier, 60000, 600000)}).main(argc, argv);
}
