// SNAP graph algorithms against brute-force definitions on small random graphs.
#include "snapgen.h"
#include <functional>
#include <omp.h>

template<class PG> struct Kind;
template<> struct Kind<PUNGraph> { enum { dir = 0, multi = 0 }; static const char *name() { return "UN"; } };
template<> struct Kind<PNGraph> { enum { dir = 1, multi = 0 }; static const char *name() { return "N"; } };
template<> struct Kind<PNEANet> { enum { dir = 1, multi = 1 }; static const char *name() { return "NEA"; } };
typedef std::vector<std::set<int>> AdjV;

static AdjV reach(const Adj &a, bool out, bool in) { AdjV r(a.n); for (int i = 0; i < a.n; ++i) { if (out) r[i].insert(a.out[i].begin(), a.out[i].end()); if (in) r[i].insert(a.in[i].begin(), a.in[i].end()); } return r; }

// ---------------------------------------------------------------- traversal
template<class PG> static void traversalT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); Adj A(g); bool dir = Kind<PG>::dir; int n = A.n;
    if (!dir) { A.out = A.und; A.in = A.und; }
    for (int rep = 0; rep < 3; ++rep) {
        int si = s.below(n), src = A.ids[si]; bool isDir = s.flip();
        AdjV adj = reach(A, true, !isDir); std::vector<int> d = bfsDist(adj, si);
        // all distances
        TIntH H; int far = TSnap::GetShortPath(G, src, H, isDir); std::map<int, int> got, exp; int mx = 0, reached = 0;
        for (int i = 0; i < H.Len(); ++i) { TInt k, v; H.GetKeyDat(i, k, v); got[k] = v; }
        for (int i = 0; i < n; ++i) if (d[i] >= 0) { exp[A.ids[i]] = d[i]; mx = std::max(mx, d[i]); ++reached; }
        PCHECK(c, got == exp, "shortpath-all", "GetShortPath(" << src << ", all, dir=" << isDir << ") reaches " << got.size() << " nodes, expected " << exp.size());
        PCHECK(c, far == mx, "shortpath-far", "GetShortPath returns " << far << " expected " << mx);
        int lim = s.range(0, 4); TIntH H2; TSnap::GetShortPath(G, src, H2, isDir, lim); got.clear(); for (int i = 0; i < H2.Len(); ++i) { TInt k, v; H2.GetKeyDat(i, k, v); got[k] = v; }
        std::map<int, int> e2; for (auto &x : exp) if (x.second <= lim) e2.insert(x);
        PCHECK(c, got == e2, "shortpath-limit", "GetShortPath(" << src << ", MaxDist=" << lim << ") reaches " << got.size() << " expected " << e2.size());
        for (int k = 0; k < 3; ++k) { int ti = s.below(n); int r = TSnap::GetShortPath(G, src, A.ids[ti], isDir); PCHECK(c, r == d[ti], "shortpath-pair", "GetShortPath(" << src << "," << A.ids[ti] << ",dir=" << isDir << ")=" << r << " expected " << d[ti]); }
        { std::vector<std::pair<int64_t, int64_t>> ps; std::vector<int64_t> e; AdjV both = reach(A, true, true); for (int k = 0; k < 3; ++k) { int a = s.below(n), b = s.below(n); ps.push_back({A.ids[a], A.ids[b]}); e.push_back(bfsDist(both, a)[b]); }
          std::vector<int64_t> r = TSnap::GetShortPath(G, ps); PCHECK(c, r == e, "shortpath-pairs", "GetShortPath(pairs) differs"); }
        // hops
        for (int hop = 0; hop <= mx + 1; ++hop) { TIntV v; int r = TSnap::GetNodesAtHop(G, src, hop, v, isDir); std::vector<int> e; for (auto &x : exp) if (x.second == hop) e.push_back(x.first); PCHECK(c, r == (int) e.size() && sorted(vec(v)) == e, "nodesathop", "GetNodesAtHop(" << src << "," << hop << ",dir=" << isDir << ") " << show(sorted(vec(v))) << " expected " << show(e)); }
        TIntPrV hv; int r = TSnap::GetNodesAtHops(G, src, hv, isDir); std::map<int, int> hc, hg; for (auto &x : exp) hc[x.second]++; for (int i = 0; i < hv.Len(); ++i) hg[hv[i].Val1] = hv[i].Val2;
        PCHECK(c, hg == hc && r == (int) hc.size(), "nodesathops", "GetNodesAtHops(" << src << ",dir=" << isDir << ")");
        // BFS tree
        bool fo = s.flip(), fi = !fo || s.flip(); AdjV ad = reach(A, fo, fi); std::vector<int> bd = bfsDist(ad, si);
        PNGraph T = TSnap::GetBfsTree(G, src, fo, fi); std::set<int> tn; int cnt = 0, depth = 0; for (int i = 0; i < n; ++i) if (bd[i] >= 0) { ++cnt; depth = std::max(depth, bd[i]); tn.insert(A.ids[i]); }
        TIntV nv; T->GetNIdV(nv); PCHECK(c, sorted(vec(nv)) == std::vector<int>(tn.begin(), tn.end()), "bfstree-nodes", "BFS tree nodes " << show(sorted(vec(nv))));
        std::set<std::pair<int, int>> te, ee; for (auto e = T->BegEI(); e < T->EndEI(); e++) te.insert({e.GetSrcNId(), e.GetDstNId()});
        for (int i = 0; i < n; ++i) if (bd[i] >= 0) for (int j : ad[i]) if (bd[j] == bd[i] + 1) ee.insert({A.ids[i], A.ids[j]});
        PCHECK(c, te == ee, "bfstree-edges", "BFS tree of " << src << " (out=" << fo << ",in=" << fi << ") has " << te.size() << " edges, the shortest-path edges are " << ee.size());
        int ts, td; int rr = TSnap::GetSubTreeSz(G, src, fo, fi, ts, td); PCHECK(c, rr == cnt && ts == cnt && td == depth, "subtreesz", "GetSubTreeSz " << ts << "," << td << " expected " << cnt << "," << depth);
        // TBreathFS, reused over several searches, both implementations
        TBreathFS<PG> B(G, s.flip());
        for (int k = 0; k < 3; ++k) {
            int bi = s.below(n), bsrc = A.ids[bi]; bool o = s.flip(), in = !o || s.flip(); int md = s.chance(1, 3) ? s.range(0, 3) : (int) TInt::Mx; int tg = s.chance(1, 3) ? A.ids[s.below(n)] : -1; bool hyb = s.flip() && G->GetMxNId() < 3000;
            AdjV aa = reach(A, o, in); std::vector<int> dd = bfsDist(aa, bi); if (hyb && tg == bsrc) tg = -1;
            if (hyb) B.DoBfsHybrid(bsrc, o, in, tg, md); else B.DoBfs(bsrc, o, in, tg, md);
            std::string w = std::string(hyb ? "DoBfsHybrid(" : "DoBfs(") + std::to_string(bsrc) + ",out=" + std::to_string(o) + ",in=" + std::to_string(in) + ",target=" + std::to_string(tg) + ",max=" + std::to_string(md) + ")";
            if (tg < 0) { int vis = 0; for (int i = 0; i < n; ++i) { int e = dd[i] >= 0 && dd[i] <= md ? dd[i] : -1; vis += e >= 0; PCHECK(c, B.GetHops(bsrc, A.ids[i]) == e, hyb ? "bfshybrid" : "bfs", w << ": hops to " << A.ids[i] << " " << B.GetHops(bsrc, A.ids[i]) << " expected " << e); }
                PCHECK(c, B.GetNVisited() == vis, "bfs-visited", w << " visits " << B.GetNVisited() << " expected " << vis);
                int ti = s.below(n); TIntV p; if (o && in) { int l = B.GetRndPath(bsrc, A.ids[ti], p); int e = dd[ti] >= 0 && dd[ti] <= md ? dd[ti] : -1; PCHECK(c, l == e, "rndpath-len", w << " GetRndPath length " << l << " expected " << e);
                    if (e >= 0) { PCHECK(c, p.Len() == e + 1 && p[0] == bsrc && p[e] == A.ids[ti], "rndpath-ends", "path " << show(vec(p))); for (int i = 0; i < e; ++i) PCHECK(c, aa[A.idx[p[i]]].count(A.idx[p[i + 1]]), "rndpath-edge", "path " << show(vec(p)) << " uses a missing edge"); } } }
            else { int ti = A.idx[tg]; int e = dd[ti] >= 0 && dd[ti] <= md ? dd[ti] : -1; PCHECK(c, B.GetHops(bsrc, tg) == e, "bfs-target", w << ": hops to the target " << B.GetHops(bsrc, tg) << " expected " << e); }
        }
        // distances over out-links
        if (G->GetMxNId() < 3000) { TIntV D; int depth2 = TSnap::GetShortestDistances(G, src, true, false, D); AdjV ao = reach(A, true, false); std::vector<int> od = bfsDist(ao, si); int mxo = 0;
            for (int i = 0; i < n; ++i) { int e = od[i] >= 0 ? od[i] : 2147483646; mxo = std::max(mxo, od[i]); PCHECK(c, D[A.ids[i]] == e, "shortestdists", "GetShortestDistances(" << src << ")[" << A.ids[i] << "]=" << D[A.ids[i]].Val << " expected " << e); }
            PCHECK(c, depth2 == mxo, "shortestdists-depth", "GetShortestDistances returns " << depth2 << " expected " << mxo);
            TIntV D2; int depth3 = TSnap::GetShortestDistancesMP2(G, src, true, false, D2); PCHECK(c, depth3 == depth2 && D2 == D, "shortestdists-mp", "GetShortestDistancesMP2 differs from the sequential version"); }
        c.evals++;
    }
    // diameters with every node as a start
    bool isDir = s.flip(); AdjV adj = reach(A, true, !isDir); std::map<int, double> cnt; double sum = 0, tot = 0; int mx = 0; std::vector<std::vector<int>> all;
    for (int i = 0; i < n; ++i) { auto d = bfsDist(adj, i); all.push_back(d); for (int x : d) if (x >= 0) { cnt[x]++; sum += x; tot++; mx = std::max(mx, x); } }
    auto eff = [](const std::map<int, double> &cnt) { double T = 0; for (auto &x : cnt) T += x.second; double need = 0.9 * T, acc = 0; int prevK = 0; double prev = 0; bool first = true; for (auto &x : cnt) { acc += x.second; if (acc > need) { if (first) return 1.0; return prevK + (need - prev) / (acc - prev); } prevK = x.first; prev = acc; first = false; } return (double) cnt.rbegin()->first; };
    double effD; int full; double avg; double r = TSnap::GetBfsEffDiam(G, n + (int) s.below(5), isDir, effD, full, avg);
    PCHECK(c, full == mx, "fulldiam", "full diameter " << full << " expected " << mx << " dir=" << isDir);
    PCHECK(c, near(avg, sum / tot), "avgspl", "average path length " << avg << " expected " << sum / tot);
    PCHECK(c, near(effD, eff(cnt)) && r == effD, "effdiam", "effective diameter " << effD << " expected " << eff(cnt));
    PCHECK(c, TSnap::GetBfsFullDiam(G, n, isDir) == mx, "fulldiam2", "GetBfsFullDiam");
    PCHECK(c, near(TSnap::GetBfsEffDiam(G, n, isDir), eff(cnt)), "effdiam2", "GetBfsEffDiam");
    { std::set<int> sub; int k = s.range(1, n); for (int i = 0; i < k; ++i) sub.insert(s.below(n)); TIntV sv; for (int i : sub) sv.Add(A.ids[i]); std::map<int, double> cc; int mm = 0; for (int i : sub) for (int j : sub) if (all[i][j] >= 0) { cc[all[i][j]]++; mm = std::max(mm, all[i][j]); }
      double ed; int fd; TSnap::GetBfsEffDiam(G, n, sv, isDir, ed, fd); PCHECK(c, fd == mm && near(ed, eff(cc)), "effdiam-sub", "diameters over a node subset: " << ed << "," << fd << " expected " << eff(cc) << "," << mm); }
    c.label(Kind<PG>::name());
}
static void traversal(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 60 : 14; Gen g = genGraph(s, o); int k = s.below(3); c.describe((k == 0 ? "UN " : k == 1 ? "N " : "NEA ") + g.show());
    if (k == 0) traversalT<PUNGraph>(s, c, g); else if (k == 1) traversalT<PNGraph>(s, c, g); else traversalT<PNEANet>(s, c, g);
    c.nontrivial(nonTrivial(g));
}

// ---------------------------------------------------------------- components
typedef std::set<std::set<int>> Part;
static Part toPart(const TCnComV &v, const char *what, Case &c) { Part p; for (int i = 0; i < v.Len(); ++i) { std::set<int> s; for (int j = 0; j < v[i].Len(); ++j) s.insert(v[i][j]); PCHECK(c, (int) s.size() == v[i].Len(), std::string(what) + "-dup", "a component lists a node twice"); PCHECK(c, p.insert(s).second, std::string(what) + "-dup2", "a component is listed twice"); if (i) PCHECK(c, v[i - 1].Len() >= v[i].Len(), std::string(what) + "-order", "components not sorted by size"); } return p; }
static std::map<int, int> sizes(const Part &p) { std::map<int, int> r; for (auto &x : p) r[x.size()]++; return r; }
static std::map<int, int> cntOf(const TIntPrV &v) { std::map<int, int> r; for (int i = 0; i < v.Len(); ++i) r[v[i].Val1] += v[i].Val2; return r; }
static std::string showP(const Part &p) { std::ostringstream o; for (auto &s : p) { o << "{"; for (int i : s) o << i << " "; o << "}"; } return o.str(); }
static Part wcc(const Adj &A, const AdjV &und, const std::set<int> &skip = std::set<int>()) { Part p; std::vector<bool> seen(A.n); for (int i = 0; i < A.n; ++i) if (!seen[i] && !skip.count(i)) { std::set<int> comp; std::vector<int> st{i}; seen[i] = true; while (!st.empty()) { int u = st.back(); st.pop_back(); comp.insert(A.ids[u]); for (int v : und[u]) if (!seen[v] && !skip.count(v)) { seen[v] = true; st.push_back(v); } } p.insert(comp); } return p; }
template<class PG> static std::set<int> nodesOf(const PG &G) { std::set<int> r; for (auto n = G->BegNI(); n < G->EndNI(); n++) r.insert(n.GetId()); return r; }

template<class PG> static void componentsT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); Adj A(g); bool dir = Kind<PG>::dir; Part W = wcc(A, A.und), S;
    { std::vector<std::vector<int>> d; for (int i = 0; i < A.n; ++i) d.push_back(bfsDist(dir ? A.out : A.und, i)); std::vector<bool> seen(A.n); for (int i = 0; i < A.n; ++i) if (!seen[i]) { std::set<int> x; for (int j = 0; j < A.n; ++j) if (d[i][j] >= 0 && d[j][i] >= 0) { x.insert(A.ids[j]); seen[j] = true; } S.insert(x); } }
    TCnComV v; TSnap::GetWccs(G, v); Part p = toPart(v, "wcc", c); PCHECK(c, p == W, "wcc", "weak components " << showP(p) << " expected " << showP(W));
    TCnComV v2; TSnap::GetSccs(G, v2); p = toPart(v2, "scc", c); PCHECK(c, p == S, "scc", "strong components " << showP(p) << " expected " << showP(S));
    TIntPrV cv; TSnap::GetWccSzCnt(G, cv); PCHECK(c, cntOf(cv) == sizes(W), "wccsz", "GetWccSzCnt differs"); TSnap::GetSccSzCnt(G, cv); PCHECK(c, cntOf(cv) == sizes(S), "sccsz", "GetSccSzCnt differs");
    PCHECK(c, TSnap::IsConnected(G) == (W.size() == 1) && TSnap::IsWeaklyConn(G) == (W.size() == 1), "isconnected", "IsConnected with " << W.size() << " components");
    int i = s.below(A.n); TIntV nv; TSnap::GetNodeWcc(G, A.ids[i], nv); std::set<int> mine; for (auto &x : W) if (x.count(A.ids[i])) mine = x; PCHECK(c, sorted(vec(nv)) == std::vector<int>(mine.begin(), mine.end()), "nodewcc", "GetNodeWcc(" << A.ids[i] << ") " << show(sorted(vec(nv))));
    size_t mw = 0, ms = 0; for (auto &x : W) mw = std::max(mw, x.size()); for (auto &x : S) ms = std::max(ms, x.size());
    PCHECK(c, near(TSnap::GetMxWccSz(G), mw / (double) A.n) && near(TSnap::GetMxSccSz(G), ms / (double) A.n), "mxsz", "largest component fractions");
    auto induced = [&](const PG &H, const std::set<int> &ns, const char *k) { std::map<std::pair<int, int>, int> e, got; for (auto ei = G->BegEI(); ei < G->EndEI(); ei++) if (ns.count(ei.GetSrcNId()) && ns.count(ei.GetDstNId())) e[{ei.GetSrcNId(), ei.GetDstNId()}]++; for (auto ei = H->BegEI(); ei < H->EndEI(); ei++) { int a = ei.GetSrcNId(), b = ei.GetDstNId(); got[{a, b}]++; } PCHECK(c, e == got, std::string(k) + "-edges", "the largest component is not the induced subgraph"); };
    PG M = TSnap::GetMxWcc(G); std::set<int> ns = nodesOf(M); PCHECK(c, W.count(ns) && ns.size() == mw, "mxwcc", "GetMxWcc has " << ns.size() << " nodes"); induced(M, ns, "mxwcc");
    M = TSnap::GetMxScc(G); ns = nodesOf(M); PCHECK(c, S.count(ns) && ns.size() == ms, "mxscc", "GetMxScc has " << ns.size() << " nodes"); induced(M, ns, "mxscc");
    c.label(Kind<PG>::name());
}
static void biconT(Src &s, Case &c, const Gen &g0) {
    Gen g = g0; g.edges.clear(); for (auto &e : g0.edges) if (e.first != e.second) g.edges.push_back(e);
    PUNGraph G = buildSimple<PUNGraph>(g); Adj A(g); std::vector<std::pair<int, int>> E; for (int i = 0; i < A.n; ++i) for (int j : A.und[i]) if (i < j) E.push_back({i, j});
    std::vector<int> uf(E.size()); for (size_t i = 0; i < E.size(); ++i) uf[i] = i; std::function<int(int)> fnd = [&](int x) { return uf[x] == x ? x : uf[x] = fnd(uf[x]); };
    std::set<int> art, bridgesN; size_t W = wcc(A, A.und).size();
    for (int v = 0; v < A.n; ++v) { std::set<int> skip{v}; Part q = wcc(A, A.und, skip); if (q.size() > W) art.insert(A.ids[v]); std::map<int, int> comp; int k = 0; for (auto &x : q) { for (int y : x) comp[A.idx[y]] = k; ++k; }
        for (size_t a = 0; a < E.size(); ++a) for (size_t b = a + 1; b < E.size(); ++b) { int u = E[a].first == v ? E[a].second : E[a].second == v ? E[a].first : -1, w = E[b].first == v ? E[b].second : E[b].second == v ? E[b].first : -1; if (u >= 0 && w >= 0 && comp[u] == comp[w]) uf[fnd(a)] = fnd(b); } }
    std::map<int, std::set<int>> bl; std::map<int, int> ne; for (size_t a = 0; a < E.size(); ++a) { bl[fnd(a)].insert(A.ids[E[a].first]); bl[fnd(a)].insert(A.ids[E[a].second]); ne[fnd(a)]++; }
    std::multiset<std::set<int>> blocks, got; for (auto &b : bl) blocks.insert(b.second); std::set<std::pair<int, int>> bridges; for (size_t a = 0; a < E.size(); ++a) if (ne[fnd(a)] == 1) { int x = A.ids[E[a].first], y = A.ids[E[a].second]; bridges.insert({std::min(x, y), std::max(x, y)}); }
    TCnComV v; TSnap::GetBiCon(G, v); for (int i = 0; i < v.Len(); ++i) { std::set<int> x; for (int j = 0; j < v[i].Len(); ++j) x.insert(v[i][j]); PCHECK(c, (int) x.size() == v[i].Len(), "bicon-dup", "a biconnected component lists a node twice"); got.insert(x); }
    PCHECK(c, got == blocks, "bicon", "GetBiCon " << showP(Part(got.begin(), got.end())) << " expected " << showP(Part(blocks.begin(), blocks.end())));
    std::map<int, int> sz; for (auto &b : blocks) sz[b.size()]++; TIntPrV cv; TSnap::GetBiConSzCnt(G, cv); PCHECK(c, cntOf(cv) == sz, "biconsz", "GetBiConSzCnt differs");
    TIntV av; TSnap::GetArtPoints(G, av); PCHECK(c, sorted(vec(av)) == std::vector<int>(art.begin(), art.end()), "artpoints", "GetArtPoints " << show(sorted(vec(av))) << " expected " << show(std::vector<int>(art.begin(), art.end())));
    TIntPrV bv; TSnap::GetEdgeBridges(G, bv); std::set<std::pair<int, int>> gb; for (int i = 0; i < bv.Len(); ++i) gb.insert({std::min<int>(bv[i].Val1, bv[i].Val2), std::max<int>(bv[i].Val1, bv[i].Val2)}); PCHECK(c, gb == bridges, "bridges", "GetEdgeBridges finds " << gb.size() << " expected " << bridges.size());
    if (!blocks.empty()) { size_t mb = 0; for (auto &b : blocks) mb = std::max(mb, b.size()); PUNGraph M = TSnap::GetMxBiCon(G); std::set<int> ns = nodesOf(M); PCHECK(c, ns.size() == mb && blocks.count(ns), "mxbicon", "GetMxBiCon has " << ns.size() << " nodes expected " << mb); }
    // components hanging on the rest by one edge
    if (!bridges.empty()) { AdjV nb = A.und; for (auto &b : bridges) { nb[A.idx[b.first]].erase(A.idx[b.second]); nb[A.idx[b.second]].erase(A.idx[b.first]); } Part q = wcc(A, nb); size_t mx = 0, times = 0; std::set<int> K; for (auto &x : q) { if (x.size() > mx) { mx = x.size(); times = 0; K = x; } times += x.size() == mx; }
        if (times == 1) { for (auto &b : bridges) if (!K.count(b.first) && !K.count(b.second)) { nb[A.idx[b.first]].insert(A.idx[b.second]); nb[A.idx[b.second]].insert(A.idx[b.first]); } Part e = wcc(A, nb); e.erase(K); TCnComV w; TSnap::Get1CnCom(G, w); Part got1; for (int i = 0; i < w.Len(); ++i) { std::set<int> x; for (int j = 0; j < w[i].Len(); ++j) x.insert(w[i][j]); got1.insert(x); } PCHECK(c, got1 == e, "1cncom", "Get1CnCom " << showP(got1) << " expected " << showP(e)); } }
    c.label("bicon");
}
static void components(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 40 : 12; Gen g = genGraph(s, o); int k = s.below(4); c.describe((k == 0 ? "UN " : k == 1 ? "N " : k == 2 ? "NEA " : "bicon ") + g.show());
    if (k == 0) componentsT<PUNGraph>(s, c, g); else if (k == 1) componentsT<PNGraph>(s, c, g); else if (k == 2) componentsT<PNEANet>(s, c, g); else biconT(s, c, g);
    c.nontrivial(nonTrivial(g));
}

int main(int argc, char **argv) {
    omp_set_num_threads(3);
    return Engine({Facet("traversal", traversal, 80000, 600000), Facet("components", components, 120000, 900000)}).main(argc, argv);
}
