// Generator of knowledge bases (triples x storage configuration), the loader driver and the reference model.
#ifndef KBGEN_H
#define KBGEN_H
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/updater.h>
#include <trident/kb/kbconfig.h>
#include <array>
#include "pbt.h"
using namespace pbt;

typedef std::array<uint64_t, 3> T3;
static const int PERMS[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}, {1, 0, 2}};
static const char *PNAME[6] = {"SPO", "OPS", "POS", "SOP", "OSP", "PSO"};

inline T3 permute(const T3 &t, int idx) { return T3{{t[PERMS[idx][0]], t[PERMS[idx][1]], t[PERMS[idx][2]]}}; }
inline std::string show(const T3 &t) { std::ostringstream o; o << t[0] << "," << t[1] << "," << t[2]; return o.str(); }
template <class V> std::string showAll(const V &v, size_t n = 60) {
    std::ostringstream o; size_t i = 0; o << "{";
    for (auto &t : v) { if (i++ == n) { o << " ...(" << v.size() << ")"; break; } o << " " << show(t); }
    return o.str() + " }";
}

struct KBSpec {
    int nind; bool aggr, fixed; int fstrat; bool skip; int thr; bool plain, flat, sample; double srate; int threads, readers; bool sepTmp, partials, rels; int nfiles; bool blocks;
    KBSpec() : nind(6), aggr(false), fixed(false), fstrat(0), skip(false), thr(20), plain(false), flat(false), sample(false), srate(0.01), threads(2), readers(1), sepTmp(false), partials(false), rels(false), nfiles(1), blocks(false) {}
    std::string str() const {
        std::ostringstream o; o << "nindices=" << nind << (aggr ? " aggr" : "");
        if (fixed) o << " fixedStrat=" << fstrat;
        if (skip) o << " skipTables<" << thr;
        if (plain) o << " plainList"; if (flat) o << " flatTree"; if (sample) o << " sample=" << srate; if (partials) o << " partials"; if (rels) o << " relsOwnIDs"; if (blocks) o << " inBlocks";
        o << " threads=" << threads << "/" << readers << " files=" << nfiles; return o.str();
    }
};

inline KBSpec genSpec(Src &s, bool onlyFull = false) {
    KBSpec k; static const int ni[4] = {6, 3, 4, 1};
    k.nind = onlyFull ? 6 : ni[s.below(4)];
    k.aggr = (k.nind == 3 || k.nind == 6) && s.chance(1, 4); // aggregation is not defined for 1 (rejected) and 4 indices
    k.fixed = s.chance(1, 3); k.fstrat = s.below(3) == 0 ? FIXEDSTRAT5 : s.flip() ? FIXEDSTRAT6 : FIXEDSTRAT7;
    k.skip = s.chance(1, 4); k.thr = s.below(12);
    k.plain = s.chance(1, 10); k.flat = s.chance(1, 6);
    k.sample = s.chance(1, 12); k.srate = 0.01 + s.unit() * 0.6;
    k.threads = 1 + s.below(4); k.readers = 1 + s.below(k.threads); k.sepTmp = s.flip(); k.partials = s.chance(1, 6);
    k.nfiles = s.chance(1, 5) ? 1 + (int) s.below(4) : 1;
    return k;
}

// A pool of identifiers of very different magnitudes.
inline std::vector<uint64_t> genPool(Src &s, int n) {
    static const std::vector<uint64_t> base = {0, 0, 0, 100, 250, 65530, (1ULL << 24) - 4, (1ULL << 31) - 4, (1ULL << 32) - 4, (1ULL << 39) - 1000};
    std::set<uint64_t> r; uint64_t b = base[s.below(base.size())]; int stride = s.chance(1, 4) ? 1 + (int) s.below(300) : 1;
    int mode = s.below(4);
    for (int i = 0; i < n; ++i) {
        if (mode == 3 && s.chance(1, 4)) r.insert(base[s.below(base.size())] + s.below(600));
        else r.insert(b + (uint64_t) i * stride);
    }
    return std::vector<uint64_t>(r.begin(), r.end());
}

inline std::set<T3> genTriples(Src &s, int maxN) {
    std::set<T3> r;
    int big = s.chance(1, 12); // enough rows for the inner indices of the tables and for multi-level trees
    int n = 1 + (int) s.below(big ? maxN * 20 : s.flip() ? 12 : maxN);
    int ne = 1 + (int) s.skew(big ? 900 : 60), nr = 1 + (int) s.skew(20);
    std::vector<uint64_t> ents = genPool(s, ne), rels = s.flip() ? ents : genPool(s, nr);
    if (rels.size() > 12 && s.chance(3, 4)) rels.resize(1 + s.below(12));
    int hub = s.below(5); // 1: subject hub, 2: object hub, 3: predicate hub
    uint64_t hs = ents[s.below(ents.size())], ho = ents[s.below(ents.size())], hp = rels[s.below(rels.size())];
    if (s.chance(1, 14)) { // a group of rows around the size at which its counter needs more than a byte
        int g = 254 + (int) s.below(4), free = s.below(3); uint64_t b = s.chance(1, 3) ? 65500 : s.below(300); for (int i = 0; i < g; ++i) { T3 t{{hs, hp, ho}}; t[free] = b + i; r.insert(t); }
    }
    for (int i = 0; i < n; ++i) {
        T3 t{{ents[s.below(ents.size())], rels[s.below(rels.size())], ents[s.below(ents.size())]}};
        if (hub && s.chance(3, 4)) { if (hub == 1) t[0] = hs; if (hub == 2) t[2] = ho; if (hub == 3) t[1] = hp; if (hub == 4) { t[1] = hp; t[2] = ho; } }
        r.insert(t);
    }
    return r;
}

// development aid: KB_TRIPLES="s,p,o s,p,o" replaces the generated triples of a replay
inline void debugTriples(std::set<T3> &t) {
    const char *e = getenv("KB_TRIPLES"); if (!e) return;
    t.clear(); std::istringstream i(e); std::string w;
    while (i >> w) { unsigned long long a, b, c; if (sscanf(w.c_str(), "%llu,%llu,%llu", &a, &b, &c) == 3) t.insert(T3{{a, b, c}}); }
}
// the flat tree is an array indexed by the identifier that is driven by the SOP tables: it needs them and dense identifiers
inline void fitSpec(KBSpec &k, const std::set<T3> &t) {
    uint64_t mx = 0; for (auto &e : t) for (int i = 0; i < 3; ++i) mx = std::max(mx, e[i]);
    if (k.skip || k.nind == 1 || k.nind == 3 || mx > 100000) k.flat = false;
}

struct Model {
    std::set<T3> spo; std::vector<T3> ord[6]; // ord[i]: permuted and sorted
    std::vector<uint64_t> terms;              // every id in use
    void build(const std::set<T3> &t) {
        spo = t; std::set<uint64_t> x;
        for (int i = 0; i < 6; ++i) { ord[i].clear(); for (auto &e : t) ord[i].push_back(permute(e, i)); std::sort(ord[i].begin(), ord[i].end()); }
        for (auto &e : t) for (int k = 0; k < 3; ++k) x.insert(e[k]);
        terms.assign(x.begin(), x.end());
    }
    // rows of permutation idx whose first nb components equal f
    std::vector<T3> rows(int idx, const T3 &f, int nb) const {
        std::vector<T3> r;
        for (auto &e : ord[idx]) { bool ok = true; for (int k = 0; k < nb; ++k) if (e[k] != f[k]) ok = false; if (ok) r.push_back(e); }
        return r;
    }
    std::vector<T3> match(int64_t s, int64_t p, int64_t o) const {
        std::vector<T3> r; for (auto &e : spo) if ((s < 0 || e[0] == (uint64_t) s) && (p < 0 || e[1] == (uint64_t) p) && (o < 0 || e[2] == (uint64_t) o)) r.push_back(e);
        return r;
    }
    uint64_t someTerm(Src &s) const { return terms[s.below(terms.size())]; }
};

// the random switch between the two table layouts is a tuning knob measured at run time: make it an input
static int64_t g_breakpoint = 64;
extern "C" size_t __wrap__ZN12StorageStrat22getBinaryBreakingPointEv() { return g_breakpoint; }

inline void writeFile(const std::string &f, const std::string &c) { std::ofstream o(f.c_str(), std::ios::binary); o << c; }

// Loads the triples with the configuration; returns the KB directory.
inline std::string loadIds(Case &c, const KBSpec &k, const std::set<T3> &triples, Src &s, const std::string &name = "kb") {
    std::string d = c.dir("in-" + name), kbd = c.scratch + "/" + name; std::vector<T3> v(triples.begin(), triples.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]); // the input is not sorted
    const int nf = std::min<int>(k.nfiles, v.size()); int dup = s.below(4); for (int i = 0; i < dup; ++i) v.push_back(v[s.below(v.size())]);
    std::vector<std::string> out(nf);
    for (size_t i = 0; i < v.size(); ++i) { char b[100]; snprintf(b, 100, "%llu %llu %llu\n", (unsigned long long) v[i][0], (unsigned long long) v[i][1], (unsigned long long) v[i][2]); out[i % nf] += b; }
    if (s.chance(1, 4)) out[s.below(nf)].pop_back(); // no newline at the end of a file
    for (int i = 0; i < nf; ++i) writeFile(d + "/t" + (nf > 1 ? "-" + std::to_string(i) : ""), out[i]);
    ParamsLoad p; p.inputformat = "rdf"; p.inputCompressed = true; p.triplesInputDir = d + "/t"; p.dictDir = "";
    p.kbDir = kbd; p.tmpDir = k.sepTmp ? c.scratch + "/tmp-" + name : kbd; p.parallelThreads = k.threads; p.maxReadingThreads = k.readers; p.nindices = k.nind; p.aggrIndices = k.aggr;
    p.canSkipTables = k.skip; p.thresholdSkipTable = k.thr; p.enableFixedStrat = k.fixed; p.fixedStrat = k.fstrat; p.storePlainList = k.plain; p.sample = k.sample; p.sampleRate = k.srate;
    p.flatTree = k.flat; p.createIndicesInBlocks = k.blocks; p.dictionaries = 1;
    Loader l; l.load(p);
    return kbd;
}

struct OpenKB {
    KBConfig cfg; std::unique_ptr<KB> kb; std::unique_ptr<Querier> q;
    OpenKB(const std::string &dir, bool partials = false, std::vector<std::string> upd = std::vector<std::string>()) {
        kb.reset(new KB(dir.c_str(), true, false, true, cfg, upd, partials)); q.reset(kb->query());
    }
    ~OpenKB() { q.reset(); kb.reset(); }
    void newQuerier() { q.reset(kb->query()); }
};

// the three arguments of getIterator/getCard for the first nb components of a row of permutation idx
inline void bindArgs(int idx, const T3 &row, int nb, int64_t *a) { a[0] = a[1] = a[2] = -1; for (int k = 0; k < nb; ++k) a[PERMS[idx][k]] = row[k]; }
inline PairItr *iter(Querier *q, int idx, const T3 &row, int nb) { int64_t a[3]; bindArgs(idx, row, nb, a); return q->getIterator(idx, a[0], a[1], a[2]); }

// An exception that escapes a read operation is a failure of that operation
template <class F> void guard(Case &c, const std::string &what, const char *key, F f) {
    if (c.verbose) fprintf(stderr, "  %s\n", what.c_str());
    try { f(); } catch (int x) { PFAIL(c, key, what << ": throws int " << x); } catch (std::exception &x) { PFAIL(c, key, what << ": throws " << x.what()); }
}
// Compare a whole iterator to the expected rows.
inline void checkRows(Case &c, PairItr *it, const std::vector<T3> &exp, const std::string &what, const char *key) {
    size_t i = 0;
    while (it->hasNext()) {
        it->next();
        T3 g{{(uint64_t) it->getKey(), (uint64_t) it->getValue1(), (uint64_t) it->getValue2()}};
        if (c.verbose) fprintf(stderr, "    row %s\n", show(g).c_str());
        PCHECK(c, i < exp.size(), key, what << ": unexpected extra row " << show(g) << " after " << i << " rows");
        if (i >= exp.size()) return;
        PCHECK(c, g == exp[i], key, what << ": row " << i << " is " << show(g) << " expected " << show(exp[i]));
        i++;
    }
    PCHECK(c, i == exp.size(), key, what << ": only " << i << " of " << exp.size() << " rows; next expected " << (i < exp.size() ? show(exp[i]) : ""));
}
inline std::string what(int idx, const T3 &row, int nb) { std::ostringstream o; o << PNAME[idx] << "("; for (int k = 0; k < 3; ++k) { if (k) o << ","; if (k < nb) o << row[k]; else o << "?"; } o << ")"; return o.str(); }
// a row that is (mostly) not in the KB, but close to one that is
inline T3 nearRow(Src &s, const Model &m, int idx) {
    T3 r = m.ord[idx][s.below(m.ord[idx].size())];
    int n = 1 + s.below(2);
    for (int i = 0; i < n; ++i) { int k = s.below(3); r[k] = s.flip() ? m.someTerm(s) : s.flip() ? r[k] + 1 : (r[k] ? r[k] - 1 : 0); }
    return r;
}
#endif
