// Storage structures against models: string buffer, B+ trees (text -> id, id -> position, id -> coordinates), reopened from disk.
#include <trident/tree/stringbuffer.h>
#include <trident/tree/root.h>
#include <trident/tree/treeitr.h>
#include <trident/tree/coordinates.h>
#include <trident/utils/propertymap.h>
#include <trident/kb/consts.h>
#include <map>
#include <memory>
#include "pbt.h"
using namespace pbt;

#include <kognac/utils.h>
static std::string fresh(Case &c) { std::string d = c.dir("store") + "/x"; Utils::remove_all(d); Utils::create_directories(d); return d; }
static std::string word(Src &s, const std::vector<std::string> &prev, int maxLen) {
    std::string r;
    if (!prev.empty() && s.chance(2, 3)) { const std::string &b = prev[s.chance(1, 2) ? prev.size() - 1 : s.below(prev.size())]; r = b.substr(0, s.below(b.size() + 1)); }
    int n = s.chance(1, 12) ? s.below(maxLen) : s.below(20);
    int abc = 1 + s.below(3); bool bin = s.chance(1, 10);
    // long parts are filled from one random byte, to keep the choice stream short
    if (n > 40) { unsigned x = 1 + s.below(250); for (int i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; r.push_back((char) ('a' + (x >> 16) % (bin ? 150 : 26))); } }
    else for (int i = 0; i < n; ++i) r.push_back(bin ? (char) s.below(256) : (char) ('a' + s.below(abc)));
    if ((int) r.size() > maxLen) r.resize(maxLen);
    return r;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void checkString(Case &c, StringBuffer &sb, int64_t pos, const std::string &w, const char *when) {
    std::vector<char> buf(w.size() + 70000); int size = -1; sb.get(pos, buf.data(), size);
    PCHECK(c, size == (int) w.size() && std::string(buf.data(), size) == w, "sbuf-get", when << ": string at " << pos << " has size " << size << " expected " << w.size() << " '" << w.substr(0, 40) << "'");
}
static void checkCmp(Src &s, Case &c, StringBuffer &sb, int64_t pos, const std::string &w, const std::vector<std::string> &all) {
    std::string q; int k = s.below(4); if (k == 0) q = w; else if (k == 1) { q = w; if (!q.empty()) q[s.below(q.size())] ^= 1 << s.below(8); } else if (k == 2) q = w.substr(0, s.below(w.size() + 1)); else q = all[s.below(all.size())];
    if (s.chance(1, 6)) q.push_back('x');
    std::string qq = q; int r = sb.cmp(pos, &qq[0], qq.size()), e = w.compare(q); // compares unsigned bytes
    PCHECK(c, sgn(r) == sgn(e), "sbuf-cmp", "cmp(string at " << pos << " '" << w.substr(0, 60) << "' size " << w.size() << ", '" << q.substr(0, 60) << "' size " << q.size() << ")=" << r << " expected sign " << sgn(e));
}
static void sbuf(Src &s, Case &c) {
    ::Stats st; std::string dir = fresh(c); std::vector<std::string> all; std::vector<int64_t> pos;
    int n = 1 + s.below(s.chance(1, 3) ? 900 : 60), maxLen = s.pick(std::vector<int>{3, 40, 700, 3000}); bool exact = s.chance(1, 4);
    c.describe("string buffer, " + std::to_string(n) + " strings of length <= " + std::to_string(maxLen) + (exact ? ", filled up to a block boundary" : ""));
    {
        StringBuffer sb(dir, false, 1 + s.below(10), 5 * SB_BLOCK_SIZE, &st);
        for (int i = 0; i < n; ++i) {
            std::string w = word(s, all, maxLen); int64_t p = sb.getSize();
            if (exact && s.chance(1, 8)) { int64_t room = SB_BLOCK_SIZE - p % SB_BLOCK_SIZE; int target = (int) room - s.below(8); if (target >= 1 && target < 65000) { w.assign(target, 'q'); for (size_t k = 0; k < w.size(); k += 97) w[k] = 'a' + (k / 97 + i) % 26; w[0] = (char) ('A' + i % 50); } }
            sb.append(&w[0], w.size()); all.push_back(w); pos.push_back(p);
            if (s.chance(1, 4)) { size_t k = s.below(all.size()); checkString(c, sb, pos[k], all[k], "while writing"); checkCmp(s, c, sb, pos[k], all[k], all); c.evals += 2; }
        }
        if (exact && s.flip()) { int64_t room = SB_BLOCK_SIZE - sb.getSize() % SB_BLOCK_SIZE; for (int hdr = 2; hdr < 6; ++hdr) { // try to end exactly at the boundary
                int t = (int) room - hdr; if (t < 1) continue; int vb = t < 128 ? 1 : t < 16384 ? 2 : 3; if (vb + 1 != hdr) continue;
                std::string w(t, 'z'); w[0] = 1; for (size_t k = 1; k < w.size(); k += 51) w[k] = 'a' + k % 26; int64_t p = sb.getSize(); sb.append(&w[0], t); all.push_back(w); pos.push_back(p); if (sb.getSize() % SB_BLOCK_SIZE == 0) c.label("exact"); break; } }
        c.label("bytes", sb.getSize()); if (sb.getSize() > SB_BLOCK_SIZE) c.label("several-blocks"); if (sb.getSize() > 6 * SB_BLOCK_SIZE) c.label("beyond-cache");
    }
    StringBuffer rb(dir, true, 1 + s.below(10), 5 * SB_BLOCK_SIZE, &st);
    for (size_t i = 0; i < all.size(); ++i) { checkString(c, rb, pos[i], all[i], "reopened"); c.evals++; }
    for (int i = 0; i < 60; ++i) { size_t k = s.below(all.size()); checkString(c, rb, pos[k], all[k], "reopened, random"); checkCmp(s, c, rb, pos[k], all[k], all); c.evals += 2; }
    if (all.size() > 10) c.nontrivial();
}

static PropertyMap conf(Src &s, bool tk, bool tv, std::string &d) {
    PropertyMap m; m.setBool(TEXT_KEYS, tk); m.setBool(TEXT_VALUES, tv); m.setBool(COMPRESSED_NODES, false);
    int el = s.pick(std::vector<int>{4, 8, 16, 64, 2048}), nc = s.pick(std::vector<int>{20, 40, 1000}), fs = s.pick(std::vector<int>{4096, 65536, 64 * 1024 * 1024}), nf = MAX_N_FILES, mb = s.chance(1, 2) ? 0 : 1 + s.below(64);
    m.setInt(MAX_EL_PER_NODE, el); m.setInt(MAX_NODES_IN_CACHE, nc); m.setInt(FILE_MAX_SIZE, fs); m.setInt(MAX_N_OPENED_FILES, nf); m.setInt(NODE_MIN_BYTES, mb);
    m.setLong(CACHE_MAX_SIZE, INT64_C(2000000000));
    d += " node<=" + std::to_string(el) + " cached=" + std::to_string(nc) + " file<=" + std::to_string(fs) + " minbytes=" + std::to_string(mb); return m;
}

static void texttree(Src &s, Case &c) {
    ::Stats st; std::string dir = fresh(c), d = "text tree"; PropertyMap m = conf(s, true, false, d);
    std::map<std::string, nTerm> M; std::vector<std::string> all; int n = 1 + s.below(s.chance(1, 3) ? 400 : 60); bool sorted = s.chance(1, 4); int maxLen = s.pick(std::vector<int>{3, 30, 500});
    c.describe(d + " n=" + std::to_string(n) + (sorted ? " appended in order" : ""));
    std::vector<std::string> w; { std::set<std::string> u; for (int i = 0; i < n; ++i) { std::string x = word(s, w, maxLen); if (x.empty()) x = "a"; if (sorted && !u.insert(x).second) continue; w.push_back(x); } if (sorted) std::sort(w.begin(), w.end()); }
    {
        StringBuffer sb(dir, false, 1 + s.below(10), 5 * SB_BLOCK_SIZE, &st); Root r(dir, &sb, false, m); nTerm id = s.below(1000);
        for (auto &x : w) {
            id += 1 + (s.chance(1, 5) ? s.skew(1ULL << 38) / 1000 : 0); nTerm v = id; std::string y = x; bool known = M.count(x);
            c.note(std::string(" ") + (sorted ? "append" : "put") + " '" + x.substr(0, 20) + "'"); if (sorted) { r.append((tTerm *) &y[0], y.size(), v); M[x] = id; }
            else if (!known && s.chance(1, 3)) { r.put((tTerm *) &y[0], y.size(), v); M[x] = id; }
            else { bool ins = r.insertIfNotExists((tTerm *) &y[0], y.size(), v); PCHECK(c, ins == !known, "texttree-insert", "insertIfNotExists('" << x << "') = " << ins); if (!known) M[x] = id; PCHECK(c, v == M[x], "texttree-insert-value", "insertIfNotExists('" << x << "') gives " << v << " expected " << M[x]); }
            if (!known) all.push_back(x); c.evals++;
            if (s.chance(1, 3)) { std::string q = s.chance(1, 4) ? word(s, all, maxLen) : all[s.below(all.size())]; if (q.empty()) q = "b"; nTerm g = 0; std::string y2 = q; bool f = r.get((tTerm *) &y2[0], y2.size(), &g); PCHECK(c, f == (M.count(q) > 0) && (!f || g == M[q]), "texttree-get", "while writing: get('" << q << "') found " << f << " value " << g); c.evals++; }
        }
    }
    StringBuffer sb(dir, true, 1 + s.below(10), 5 * SB_BLOCK_SIZE, &st); Root r(dir, &sb, true, m);
    for (int k = 0; k < 2; ++k) for (size_t i = 0; i < all.size(); ++i) { const std::string &q = all[k ? s.below(all.size()) : i]; nTerm g = 0; std::string y = q; bool f = r.get((tTerm *) &y[0], y.size(), &g); PCHECK(c, f && g == M[q], "texttree-reopened", "get('" << q << "') found " << f << " value " << g << " expected " << M[q]); c.evals++; if (k && i > 60) break; }
    for (int i = 0; i < 30; ++i) { std::string q = word(s, all, maxLen); if (q.empty()) q = "b"; std::string y = q; nTerm g = 0; bool f = r.get((tTerm *) &y[0], y.size(), &g); PCHECK(c, f == (M.count(q) > 0) && (!f || g == M[q]), "texttree-absent", "get('" << q << "') found " << f); c.evals++; }
    { std::unique_ptr<TreeItr> it(r.itr()); auto e = M.begin(); while (it->hasNext()) { PCHECK(c, e != M.end(), "texttree-itr", "too many"); int64_t v = 0, k = it->next(v); int size = 0; std::string t; { std::vector<char> b(70000); sb.get(k, b.data(), size); t.assign(b.data(), size); } PCHECK(c, t == e->first && v == (int64_t) e->second, "texttree-itr", "'" << t << "'->" << v << " expected '" << e->first << "'->" << e->second); ++e; c.evals++; } PCHECK(c, e == M.end(), "texttree-itr", "iteration ended early"); }
    if (M.size() > 8) c.nontrivial(); if (M.size() > 40) c.label("many");
}

static std::vector<nTerm> ids(Src &s, int n) {
    std::set<nTerm> u; nTerm x = s.chance(1, 4) ? s.skew(1ULL << 39) : s.below(5); std::vector<nTerm> r; int style = s.below(4); nTerm step = 1 + s.below(300);
    for (int i = 0; i < n; ++i) { u.insert(x); if (style == 0) x++; else if (style == 1) x += step; else if (style == 2) x += 1 + s.below(5); else x += 1 + s.skew(1ULL << 33); if (s.chance(1, 20)) x += 1 + s.below(1000); }
    return std::vector<nTerm>(u.begin(), u.end());
}
static void idtree(Src &s, Case &c) {
    std::string dir = fresh(c), d = "id tree"; PropertyMap m = conf(s, false, true, d); std::map<nTerm, int64_t> M; std::vector<nTerm> k = ids(s, 1 + s.below(s.chance(1, 3) ? 600 : 60)), ks = k;
    int order = s.below(3); if (order == 1) std::reverse(k.begin(), k.end()); else if (order == 2) for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[s.below(i)]);
    c.describe(d + " n=" + std::to_string(k.size()) + (order == 0 ? " ascending" : order == 1 ? " descending" : " shuffled") + " from " + std::to_string(ks[0]) + " to " + std::to_string(ks.back()));
    std::vector<nTerm> in; bool app = order == 0 && s.flip();
    { Root r(dir, NULL, false, m); int64_t v = s.below(100);
        for (nTerm x : k) { v = s.chance(1, 3) ? (int64_t) s.skew(1ULL << 39) : v + 1 + s.below(80); if (app) r.append(x, v); else r.put(x, v); M[x] = v; in.push_back(x); c.evals++;
            if (s.chance(1, 3)) { nTerm q = s.chance(1, 3) ? ks[s.below(ks.size())] + s.below(3) : in[s.below(in.size())]; int64_t g = 0; bool f = r.get(q, g); PCHECK(c, f == (M.count(q) > 0) && (!f || g == M[q]), "idtree-get", "while writing: get(" << q << ") found " << f << " value " << g); c.evals++; } } }
    Root r(dir, NULL, true, m);
    for (size_t i = 0; i < 2 * ks.size() + 20; ++i) { nTerm q = i < ks.size() ? ks[i] : ks[s.below(ks.size())] + (s.chance(1, 3) ? s.below(4) : 0); int64_t g = 0; bool f = r.get(q, g); PCHECK(c, f == (M.count(q) > 0) && (!f || g == M[q]), "idtree-reopened", "get(" << q << ") found " << f << " value " << g << " expected " << (M.count(q) ? M[q] : -1)); c.evals++; }
    { std::unique_ptr<TreeItr> it(r.itr()); auto e = M.begin(); while (it->hasNext()) { int64_t v = 0, x = it->next(v); PCHECK(c, e != M.end() && x == (int64_t) e->first && v == e->second, "idtree-itr", x << "->" << v); ++e; } PCHECK(c, e == M.end(), "idtree-itr", "iteration ended early"); }
    if (ks.size() > 8) c.nontrivial(); if (ks.size() > 40) c.label("many");
}

struct Co { bool on[6]; int f[6]; int64_t p[6], n[6]; int st[6]; };
static void coordtree(Src &s, Case &c) {
    std::string dir = fresh(c), d = "coordinates tree"; PropertyMap m = conf(s, false, false, d); m.setInt(LEAF_MAX_INTERNAL_LINES, 10 + s.below(50)); std::map<nTerm, Co> M; std::vector<nTerm> k = ids(s, 1 + s.below(s.chance(1, 3) ? 300 : 50));
    c.describe(d + " n=" + std::to_string(k.size()) + " from " + std::to_string(k[0]) + " to " + std::to_string(k.back())); bool app = s.flip();
    auto same = [&](nTerm x, TermCoordinates &t, const char *w) { Co &e = M[x]; for (int i = 0; i < 6; ++i) { PCHECK(c, t.exists(i) == e.on[i], w, "key " << x << " permutation " << i << " exists " << t.exists(i)); if (e.on[i]) PCHECK(c, t.getFileIdx(i) == e.f[i] && t.getMark(i) == e.p[i] && t.getNElements(i) == e.n[i] && (int) (uint8_t) t.getStrategy(i) == e.st[i], w, "key " << x << " permutation " << i << ": file " << t.getFileIdx(i) << "/" << e.f[i] << " pos " << t.getMark(i) << "/" << e.p[i] << " n " << t.getNElements(i) << "/" << e.n[i] << " strategy " << (int) (uint8_t) t.getStrategy(i) << "/" << e.st[i]); } };
    { Root r(dir, NULL, false, m);
        for (nTerm x : k) { Co e; TermCoordinates t; t.clear(); bool any = false; for (int i = 0; i < 6; ++i) { e.on[i] = s.chance(2, 3) || (i == 5 && !any); any |= e.on[i]; if (e.on[i]) { e.f[i] = s.chance(1, 4) ? s.below(30000) : s.below(4); e.p[i] = s.skew(1ULL << 38); e.n[i] = 1 + s.skew(1ULL << 38); e.st[i] = s.below(256); t.set(i, (short) e.f[i], e.p[i], e.n[i], (char) e.st[i]); } }
            if (app) r.append(x, &t); else r.put(x, &t); M[x] = e; c.evals++; } }
    Root r(dir, NULL, true, m);
    for (size_t i = 0; i < 2 * k.size() + 20; ++i) { nTerm q = i < k.size() ? k[i] : k[s.below(k.size())] + (s.chance(1, 3) ? s.below(4) : 0); TermCoordinates t; bool f = r.get(q, &t); PCHECK(c, f == (M.count(q) > 0), "coordtree-get", "get(" << q << ") found " << f); if (f) same(q, t, "coordtree-value"); c.evals++; }
    { std::unique_ptr<TreeItr> it(r.itr()); auto e = M.begin(); while (it->hasNext()) { TermCoordinates t; int64_t x = it->next(&t); PCHECK(c, e != M.end() && x == (int64_t) e->first, "coordtree-itr", "key " << x); same(x, t, "coordtree-itr"); ++e; } PCHECK(c, e == M.end(), "coordtree-itr", "iteration ended early"); }
    if (k.size() > 8) c.nontrivial();
}
int main(int argc, char **argv) { return Engine({Facet("sbuf", sbuf, 3000, 60000), Facet("texttree", texttree, 6000, 100000), Facet("idtree", idtree, 8000, 150000), Facet("coordtree", coordtree, 8000, 150000)}).main(argc, argv); }
