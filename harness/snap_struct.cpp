// Structural measures: degrees and edge counts, in-place transformations, triads and clustering, cores.
#include "snapkind.h"
struct Deg { std::map<int, int> in, out, deg; };
template<class PG> static Deg degrees(const std::vector<int> &ids, const std::vector<std::pair<int, int>> &E) {
    Deg d; for (int i : ids) d.in[i] = d.out[i] = d.deg[i] = 0;
    for (auto &e : E) {
        if (Kind<PG>::dir) { d.out[e.first]++; d.in[e.second]++; d.deg[e.first]++; d.deg[e.second]++; }
        else { d.deg[e.first]++; if (e.first != e.second) d.deg[e.second]++; }
    }
    if (!Kind<PG>::dir) { d.in = d.deg; d.out = d.deg; }
    return d;
}

template<class PG> static void degreeT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); auto E = edgesOf<PG>(g); Deg d = degrees<PG>(g.ids, E); std::vector<int> ids = g.ids; int n = ids.size(); const bool dir = Kind<PG>::dir;
    auto cnt = [](const std::map<int, int> &m) { std::map<int, int> r; for (auto &x : m) r[x.second]++; return r; };
    auto fromPr = [](const TIntPrV &v) { std::map<int, int> r; for (int i = 0; i < v.Len(); ++i) r[v[i].Val1] += v[i].Val2; return r; };
    auto fromFl = [](const TFltPrV &v) { std::map<int, int> r; for (int i = 0; i < v.Len(); ++i) r[(int) v[i].Val1] += (int) v[i].Val2; return r; };
    auto ordPr = [&](const TIntPrV &v, const char *k) { for (int i = 1; i < v.Len(); ++i) PCHECK(c, v[i - 1].Val1 < v[i].Val1, k, k << ": the degrees are not increasing"); };
    TIntPrV v; TFltPrV f;
    TSnap::GetInDegCnt(G, v); PCHECK(c, fromPr(v) == cnt(d.in), "indegcnt", "GetInDegCnt"); ordPr(v, "indegcnt-order");
    TSnap::GetOutDegCnt(G, v); PCHECK(c, fromPr(v) == cnt(d.out), "outdegcnt", "GetOutDegCnt"); ordPr(v, "outdegcnt-order");
    TSnap::GetDegCnt(G, v); PCHECK(c, fromPr(v) == cnt(d.deg), "degcnt", "GetDegCnt"); ordPr(v, "degcnt-order");
    TSnap::GetInDegCnt(G, f); PCHECK(c, fromFl(f) == cnt(d.in), "indegcnt-flt", "GetInDegCnt (real)");
    TSnap::GetOutDegCnt(G, f); PCHECK(c, fromFl(f) == cnt(d.out), "outdegcnt-flt", "GetOutDegCnt (real)");
    TSnap::GetDegCnt(G, f); PCHECK(c, fromFl(f) == cnt(d.deg), "degcnt-flt", "GetDegCnt (real)");
    auto vals = [](const std::map<int, int> &m) { std::vector<int> r; for (auto &x : m) r.push_back(x.second); return sorted(r); };
    TIntV a, b; TSnap::GetDegSeqV(G, a); PCHECK(c, sorted(vec(a)) == vals(d.deg), "degseq", "GetDegSeqV");
    TSnap::GetDegSeqV(G, a, b); PCHECK(c, sorted(vec(a)) == vals(d.in) && sorted(vec(b)) == vals(d.out), "degseq2", "GetDegSeqV in/out");
    TSnap::GetNodeInDegV(G, v); { std::map<int, int> r; for (int i = 0; i < v.Len(); ++i) r[v[i].Val1] = v[i].Val2; PCHECK(c, v.Len() == n && r == d.in, "nodeindeg", "GetNodeInDegV"); }
    TSnap::GetNodeOutDegV(G, v); { std::map<int, int> r; for (int i = 0; i < v.Len(); ++i) r[v[i].Val1] = v[i].Val2; PCHECK(c, v.Len() == n && r == d.out, "nodeoutdeg", "GetNodeOutDegV"); }
    int k = s.below(5); auto has = [&](const std::map<int, int> &m) { int r = 0; for (auto &x : m) r += x.second == k; return r; };
    PCHECK(c, TSnap::CntInDegNodes(G, k) == has(d.in) && TSnap::CntOutDegNodes(G, k) == has(d.out) && TSnap::CntDegNodes(G, k) == has(d.deg), "cntdeg", "Cnt*DegNodes(" << k << ")");
    PCHECK(c, TSnap::CntNonZNodes(G) == n - (cnt(d.deg).count(0) ? cnt(d.deg)[0] : 0), "nonz", "CntNonZNodes");
    auto isMax = [&](const std::map<int, int> &m, int id) { if (!m.count(id)) return false; for (auto &x : m) if (x.second > m.at(id)) return false; return true; };
    PCHECK(c, isMax(d.deg, TSnap::GetMxDegNId(G)) && isMax(d.in, TSnap::GetMxInDegNId(G)) && isMax(d.out, TSnap::GetMxOutDegNId(G)), "mxdeg", "GetMx*DegNId is not of maximal degree");
    std::set<std::pair<int, int>> und, di; int self = 0, bi = 0; for (auto &e : E) { if (e.first == e.second) { ++self; continue; } und.insert({std::min(e.first, e.second), std::max(e.first, e.second)}); di.insert(e); if (!dir) di.insert({e.second, e.first}); }
    for (auto &e : und) bi += di.count(e) && di.count({e.second, e.first});
    PCHECK(c, TSnap::CntUniqUndirEdges(G) == (int) und.size(), "uniq-und", "CntUniqUndirEdges " << TSnap::CntUniqUndirEdges(G) << " expected " << und.size());
    PCHECK(c, TSnap::CntUniqDirEdges(G) == (int) di.size(), "uniq-dir", "CntUniqDirEdges " << TSnap::CntUniqDirEdges(G) << " expected " << di.size());
    if (!Kind<PG>::multi) PCHECK(c, TSnap::CntUniqBiDirEdges(G) == bi, "uniq-bidir", "CntUniqBiDirEdges " << TSnap::CntUniqBiDirEdges(G) << " expected " << bi);
    PCHECK(c, TSnap::CntSelfEdges(G) == self, "self", "CntSelfEdges " << TSnap::CntSelfEdges(G) << " expected " << self);
    { int x = s.below(n); TIntSet S; std::set<int> in; int m = s.below(n + 1); for (int i = 0; i < m; ++i) { int y = ids[s.below(n)]; S.AddKey(y); } std::set<int> nb; for (auto &e : E) { if (e.first == ids[x] && S.IsKey(e.second)) nb.insert(e.second); if (e.second == ids[x] && S.IsKey(e.first)) nb.insert(e.first); }
      PCHECK(c, TSnap::CntEdgesToSet(G, ids[x], S) == (int) nb.size(), "edgestoset", "CntEdgesToSet " << TSnap::CntEdgesToSet(G, ids[x], S) << " expected " << nb.size()); }
    // transformations
    std::set<int> ns(ids.begin(), ids.end()); EdgeSet ES = normal<PG>(E);
    { PG H = buildSimple<PG>(g); TSnap::AddSelfEdges(H); EdgeSet X = ES; for (int i : ns) if (!X.count({i, i})) X.insert({i, i}); same(c, H, ns, X, "addself");
      TSnap::DelSelfEdges(H); EdgeSet Y; for (auto &e : ES) if (e.first != e.second) Y.insert(e); same(c, H, ns, Y, "delself"); }
    { PG H = buildSimple<PG>(g); TSnap::DelZeroDegNodes(H); std::set<int> m; for (int i : ns) if (d.deg[i]) m.insert(i); same(c, H, m, ES, "delzero"); }
    { PG H = buildSimple<PG>(g); int o = s.below(4), i2 = s.below(4); TSnap::DelDegKNodes(H, o, i2); std::set<int> m; for (int i : ns) if (d.out[i] != o && d.in[i] != i2) m.insert(i); EdgeSet X; for (auto &e : ES) if (m.count(e.first) && m.count(e.second)) X.insert(e); same(c, H, m, X, "deldegk"); }
    { PG H = buildSimple<PG>(g); TIntV del; std::set<int> m = ns; int q = s.below(n + 1); for (int i = 0; i < q; ++i) { int y = s.pick(ids); if (m.erase(y)) del.Add(y); } TSnap::DelNodes(H, del); EdgeSet X; for (auto &e : ES) if (m.count(e.first) && m.count(e.second)) X.insert(e); same(c, H, m, X, "delnodes"); }
    c.label(Kind<PG>::name());
}
template<class PG> static void undirT(Src &s, Case &c, const Gen &g) {
    auto E = edgesOf<PG>(g); EdgeSet ES = normal<PG>(E), X = ES; std::set<int> ns(g.ids.begin(), g.ids.end());
    for (auto &e : E) if (!ES.count({e.second, e.first})) X.insert({e.second, e.first});
    if (!Kind<PG>::multi) { EdgeSet Y; for (auto &e : X) if (!Y.count(e)) Y.insert(e); X = Y; }
    PG G = buildSimple<PG>(g); TSnap::MakeUnDir(G); same(c, G, ns, X, "makeundir");
    PG G2 = buildSimple<PG>(g), H = TSnap::GetUnDir(G2); same(c, H, ns, X, "getundir"); same(c, G2, ns, ES, "getundir-src");
    // trees: every edge from the child to its parent
    Gen t; t.ids = g.ids; bool ok = true; int n = g.n(); std::vector<int> par(n, -1); std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[s.below(i + 1)]);
    for (int i = 1; i < n; ++i) { int p = perm[s.below(i)]; par[perm[i]] = p; t.edges.push_back({g.ids[perm[i]], g.ids[p]}); }
    std::vector<std::pair<int, int>> raw = t.edges;
    int mod = s.below(4); if (n >= 3 && mod == 1) { t.edges.pop_back(); ok = false; } else if (n >= 3 && mod == 2) { std::pair<int, int> e = {g.ids[s.below(n)], g.ids[s.below(n)]}; t.edges[s.below(t.edges.size())] = e; }
    auto TE = edgesOf<PG>(t); Deg d = degrees<PG>(t.ids, TE); int roots = 0, root = -1; for (int i : t.ids) if (!d.out[i]) { ++roots; root = i; }
    { Adj A(t); std::vector<int> b = bfsDist(A.und, 0); for (int x : b) if (x < 0) ok = false; } if (roots != 1 || (int) TE.size() != n - 1) ok = false; if (n == 1 && TE.empty()) { ok = true; root = t.ids[0]; }
    PG T = buildSimple<PG>(t); int r; bool is = TSnap::IsTree(T, r); PCHECK(c, is == ok && (!ok || r == root), "istree", "IsTree " << is << " root " << r << " expected " << ok << " " << root << " for " << t.show());
    if (ok && mod == 0) PCHECK(c, TSnap::GetTreeRootNId(T) == root, "treeroot", "GetTreeRootNId");
}
static void degree(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 10) ? 40 : 12; Gen g = genGraph(s, o); int k = s.below(6);
    const char *nm[] = {"UN ", "N ", "NEA ", "NE ", "undir N ", "undir NEA "}; c.describe(nm[k] + g.show());
    if (k == 0) degreeT<PUNGraph>(s, c, g); else if (k == 1) degreeT<PNGraph>(s, c, g); else if (k == 2) degreeT<PNEANet>(s, c, g); else if (k == 3) degreeT<PNEGraph>(s, c, g); else if (k == 4) undirT<PNGraph>(s, c, g); else undirT<PNEGraph>(s, c, g);
    c.nontrivial(nonTrivial(g));
}

// ---------------------------------------------------------------- triads
template<class PG> static void triadsT(Src &s, Case &c, const Gen &g, bool dense) {
    PG G = buildSimple<PG>(g); Adj A(g); int n = A.n; AdjV nb = A.und; bool loops = false; for (int i = 0; i < n; ++i) loops |= nb[i].erase(i) > 0; auto E = edgesOf<PG>(g); Deg d = degrees<PG>(g.ids, E);
    std::vector<long> cl(n), op(n); long tc = 0, to = 0; for (int i = 0; i < n; ++i) { for (int a : nb[i]) for (int b : nb[i]) if (a < b) { if (nb[a].count(b)) cl[i]++; else op[i]++; } tc += cl[i]; to += op[i]; } long tri = tc / 3;
    auto cf = [&](int i) { return cl[i] + op[i] ? cl[i] / (double) (cl[i] + op[i]) : 0.0; };
    double sum = 0; std::map<int, std::pair<double, int>> by; for (int i = 0; i < n; ++i) { sum += cf(i); auto &p = by[d.deg[A.ids[i]]]; p.first += cf(i); p.second++; }
    auto degCf = [&](const TFltPrV &v, const char *k) { PCHECK(c, v.Len() == (int) by.size(), k, k << ": " << v.Len() << " degrees, expected " << by.size()); for (int i = 0; i < v.Len(); ++i) { int dg = (int) v[i].Val1; PCHECK(c, by.count(dg) && near(v[i].Val2, by[dg].first / by[dg].second), k, k << ": degree " << dg << " coefficient " << (double) v[i].Val2); } };
    { TIntTrV v; TSnap::GetTriads(G, v); std::set<int> seen; for (int i = 0; i < v.Len(); ++i) { int x = A.idx[v[i].Val1]; seen.insert(x); PCHECK(c, v[i].Val2 == cl[x] && v[i].Val3 == op[x], "triads", "GetTriads: node " << v[i].Val1 << " closed " << v[i].Val2 << " open " << v[i].Val3 << " expected " << cl[x] << " " << op[x]); } PCHECK(c, (int) seen.size() == n && v.Len() == n, "triads-n", "GetTriads lists " << v.Len()); }
    { TIntTrV v; TSnap::GetTriads_v0(G, v); std::set<int> seen; for (int i = 0; i < v.Len(); ++i) { int x = A.idx[v[i].Val1]; seen.insert(x); PCHECK(c, v[i].Val2 == cl[x] && v[i].Val3 == op[x], "triads0", "GetTriads_v0: node " << v[i].Val1 << " closed " << v[i].Val2 << " open " << v[i].Val3 << " expected " << cl[x] << " " << op[x]); } PCHECK(c, (int) seen.size() == n, "triads0-n", "GetTriads_v0"); }
    TFltPrV fv; double avg = TSnap::GetClustCf(G, fv); PCHECK(c, near(avg, sum / n), "clustcf", "GetClustCf " << avg << " expected " << sum / n); degCf(fv, "clustcf-deg");
    int64 cx, ox; avg = TSnap::GetClustCf(G, fv, cx, ox); PCHECK(c, near(avg, sum / n) && cx == tri && ox == to, "clustcf2", "GetClustCf: " << avg << " closed " << cx << " open " << ox << " expected " << sum / n << " " << tri << " " << to); degCf(fv, "clustcf2-deg");
    if (dense) { PCHECK(c, near(TSnap::GetClustCf(G), sum / n), "clustcf-dense", "GetClustCf() " << TSnap::GetClustCf(G)); PCHECK(c, TSnap::GetTriads(G) == tri, "ntriads", "GetTriads() " << TSnap::GetTriads(G) << " expected " << tri); TSnap::GetTriads(G, cx, ox, -1); PCHECK(c, cx == tri && ox == to, "ntriads2", "GetTriads closed " << cx << " open " << ox); }
    TIntFltH h; TSnap::GetNodeClustCf(G, h); PCHECK(c, h.Len() == n, "nodeclust-n", "GetNodeClustCf has " << h.Len()); for (int i = 0; i < n; ++i) PCHECK(c, near(h.GetDat(A.ids[i]), cf(i)), "nodeclust", "GetNodeClustCf"); 
    std::map<int, int> part; for (int i = 0; i < n; ++i) part[cl[i]]++;
    for (int i = 0; i < n; ++i) { int C, O; int r = TSnap::GetNodeTriads(G, A.ids[i], C, O); PCHECK(c, r == cl[i] && C == cl[i] && O == op[i] && TSnap::GetNodeTriads(G, A.ids[i]) == cl[i], "nodetriads", "GetNodeTriads(" << A.ids[i] << ") closed " << C << " open " << O); PCHECK(c, near(TSnap::GetNodeClustCf(G, A.ids[i]), cf(i)), "nodeclust1", "GetNodeClustCf(node)"); TIntV u; TSnap::GetUniqueNbrV(G, A.ids[i], u); std::vector<int> e; for (int x : nb[i]) e.push_back(A.ids[x]); PCHECK(c, vec(u) == sorted(e), "uniquenbr", "GetUniqueNbrV(" << A.ids[i] << ") = " << show(vec(u)) << " expected " << show(sorted(e))); }
    { int x = s.below(n); TIntSet gs; std::set<int> in; for (int y : nb[x]) if (s.flip()) { gs.AddKey(A.ids[y]); in.insert(y); } int i1 = 0, i2 = 0, i3 = 0, a1, a2, a3; for (int a : nb[x]) for (int b : nb[x]) if (a < b && nb[a].count(b)) { int k = in.count(a) + in.count(b); (k == 2 ? i1 : k == 1 ? i2 : i3)++; } int r = TSnap::GetNodeTriads(G, A.ids[x], gs, a1, a2, a3); PCHECK(c, r == i1 && a1 == i1 && a2 == i2 && a3 == i3, "grouptriads", "GetNodeTriads with a group: " << a1 << " " << a2 << " " << a3 << " expected " << i1 << " " << i2 << " " << i3); }
    TIntPrV pv; TSnap::GetTriadParticip(G, pv); std::map<int, int> got; for (int i = 0; i < pv.Len(); ++i) got[pv[i].Val1] += pv[i].Val2; PCHECK(c, got == part, "particip", "GetTriadParticip");
    { int te = 0; for (auto &e : E) { int a = A.idx[e.first], b = A.idx[e.second]; if (a == b) continue; bool t = false; for (int x : nb[a]) t |= nb[b].count(x) > 0; te += t; } int r = TSnap::GetTriadEdges(G); PCHECK(c, r == te, "triadedges", "GetTriadEdges " << r << " expected " << te); }
    PCHECK(c, TSnap::CountTriangles(G) == tri, "triangles", "CountTriangles " << TSnap::CountTriangles(G) << " expected " << tri);
    { fflush(stdout); int sv = dup(1), nu = open("/dev/null", O_WRONLY); dup2(nu, 1); int64 t = TSnap::GetTriangleCnt(G); fflush(stdout); dup2(sv, 1); close(sv); close(nu); PCHECK(c, t == tri, "triangles2", "GetTriangleCnt " << t << " expected " << tri); }
    for (int q = 0; q < 4; ++q) { int x = s.below(n), y = s.below(n); std::vector<int> e; for (int z : nb[x]) if (nb[y].count(z) && z != x && z != y) e.push_back(A.ids[z]); TIntV v; int r = TSnap::GetCmnNbrs(G, A.ids[x], A.ids[y], v); PCHECK(c, r == (int) e.size() && sorted(vec(v)) == sorted(e) && TSnap::GetCmnNbrs(G, A.ids[x], A.ids[y]) == r, "cmnnbr", "GetCmnNbrs(" << A.ids[x] << "," << A.ids[y] << ") = " << show(vec(v)) << " expected " << show(e));
        const AdjV &o = A.get(Kind<PG>::dir); std::vector<int> l; for (int z : o[x]) if (o[z].count(y)) l.push_back(A.ids[z]); r = TSnap::GetLen2Paths(G, A.ids[x], A.ids[y], v); std::vector<int> gv = sorted(vec(v)); PCHECK(c, r == v.Len() && TSnap::GetLen2Paths(G, A.ids[x], A.ids[y]) == r, "len2n", "GetLen2Paths returns " << r); gv.erase(std::unique(gv.begin(), gv.end()), gv.end()); PCHECK(c, gv == sorted(l) && (Kind<PG>::multi || r == (int) l.size()), "len2", "GetLen2Paths(" << A.ids[x] << "," << A.ids[y] << ") = " << show(gv) << " expected " << show(l)); }
    c.label(std::string(Kind<PG>::name()) + (loops ? "+loops" : "")); c.nontrivial(nonTrivial(g) && tri > 0);
}
// Burt's network constraint
template<class PG> static void constraintT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); Adj A(g); int n = A.n; const AdjV &o = A.get(Kind<PG>::dir);
    std::vector<std::vector<double>> C(n, std::vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && !o[i].empty()) { double v = 0; if (o[i].count(j)) v += 1.0 / o[i].size(); for (int q : o[i]) if (q != i && q != j && o[q].count(j)) v += 1.0 / o[i].size() / o[q].size(); C[i][j] = v * v; }
    TNetConstraint<PG> N(G, true); int nz = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { PCHECK(c, near(N.GetEdgeC(A.ids[i], A.ids[j]), C[i][j]), "edgec", "GetEdgeC(" << A.ids[i] << "," << A.ids[j] << ") = " << N.GetEdgeC(A.ids[i], A.ids[j]) << " expected " << C[i][j]); nz += C[i][j] != 0; }
    PCHECK(c, N.Len() == nz, "constraint-len", "Len " << N.Len() << " expected " << nz);
    for (int k = 0; k < N.Len(); ++k) { TIntPr p = N.GetNodePr(k); PCHECK(c, near(N.GetC(k), C[A.idx[p.Val1]][A.idx[p.Val2]]), "getc", "GetC(" << k << ")"); }
    for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += C[i][j]; double got = N.GetNodeC(A.ids[i]); PCHECK(c, near(got, t), "nodec", "GetNodeC(" << A.ids[i] << ") = " << got << " expected " << t); }
    int i = s.below(n); TNetConstraint<PG> M(G, false); M.CalcConstraints(A.ids[i]); for (int j = 0; j < n; ++j) PCHECK(c, near(M.GetEdgeC(A.ids[i], A.ids[j]), C[i][j]), "edgec1", "after CalcConstraints(" << A.ids[i] << "): " << M.GetEdgeC(A.ids[i], A.ids[j]) << " expected " << C[i][j]);
    c.label(std::string("constraint") + Kind<PG>::name()); c.nontrivial(nonTrivial(g) && nz > 2);
}
static void triads(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 30 : 10; bool dense = s.chance(1, 3); o.dense0 = dense; Gen g = genGraph(s, o); int k = s.below(6);
    if (g.n() >= 3) { int m = s.below(4); for (int i = 0; i < m; ++i) { int a = s.pick(g.ids), b = s.pick(g.ids), d = s.pick(g.ids); if (a != b && b != d && a != d) { g.edges.push_back({a, b}); g.edges.push_back({b, d}); if (s.flip()) g.edges.push_back({a, d}); else g.edges.push_back({d, a}); } } }
    const char *nm[] = {"UN ", "N ", "NEA ", "NE ", "constraint UN ", "constraint N "}; c.describe(nm[k] + g.show());
    if (k == 0) triadsT<PUNGraph>(s, c, g, dense); else if (k == 1) triadsT<PNGraph>(s, c, g, dense); else if (k == 2) triadsT<PNEANet>(s, c, g, dense); else if (k == 3) triadsT<PNEGraph>(s, c, g, dense); else if (k == 4) constraintT<PUNGraph>(s, c, g); else constraintT<PNGraph>(s, c, g);
}

// ---------------------------------------------------------------- cores
template<class PG> static void coresT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); auto E = edgesOf<PG>(g); bool loops = false; for (auto &e : E) loops |= e.first == e.second;
    auto core = [&](int k) { std::set<int> in(g.ids.begin(), g.ids.end()); for (bool ch = true; ch;) { ch = false; std::vector<std::pair<int, int>> X; for (auto &e : E) if (in.count(e.first) && in.count(e.second)) X.push_back(e); Deg d = degrees<PG>(std::vector<int>(in.begin(), in.end()), X); std::set<int> keep; for (int i : in) if (d.deg[i] >= k) keep.insert(i); ch = keep.size() != in.size(); in = keep; } return in; };
    auto induced = [&](const std::set<int> &in) { std::vector<std::pair<int, int>> X; for (auto &e : E) if (in.count(e.first) && in.count(e.second)) X.push_back(e); return normal<PG>(X); };
    TKCore<PG> K(G); int k = 0; std::map<int, std::pair<int, int>> exp; exp[0] = {g.n(), (int) E.size()};
    while (true) { ++k; std::set<int> e = core(k); int r = K.GetNextCore(); std::vector<int> ev(e.begin(), e.end()); PCHECK(c, r == (int) e.size() && vec(K.GetNIdV()) == ev && K.GetCoreNodes() == r && K.GetCurK() == k, "nextcore", "core " << k << " = " << show(vec(K.GetNIdV())) << " expected " << show(ev)); EdgeSet X = induced(e); if (!loops || Kind<PG>::dir) PCHECK(c, K.GetCoreEdges() == (int) X.size(), "coreedges", "core " << k << " has " << K.GetCoreEdges() << " edges, expected " << X.size()); if (!r) break; exp[k] = {r, (int) X.size()}; same(c, K.GetCoreG(), e, X, "coreg"); }
    int q = s.range(1, 5); std::set<int> e = core(q); TKCore<PG> K2(G); if (s.flip()) K2.GetNextCore(); PCHECK(c, K2.GetCoreK(q) == (int) e.size(), "corek", "GetCoreK(" << q << ") = " << K2.GetCoreNodes() << " expected " << e.size()); same(c, TSnap::GetKCore(G, q), e, induced(e), "getkcore");
    TIntPrV v; int mk = TSnap::GetKCoreNodes(G, v); PCHECK(c, mk == k && v.Len() == (int) exp.size(), "corenodes", "GetKCoreNodes"); for (int i = 0; i < v.Len(); ++i) PCHECK(c, v[i].Val1 == i && exp[i].first == v[i].Val2, "corenodes", "GetKCoreNodes level " << i);
    mk = TSnap::GetKCoreEdges(G, v); PCHECK(c, mk == k && v.Len() == (int) exp.size(), "corededges", "GetKCoreEdges"); if (!loops || Kind<PG>::dir) for (int i = 0; i < v.Len(); ++i) PCHECK(c, v[i].Val1 == i && exp[i].second == v[i].Val2, "corededges", "GetKCoreEdges level " << i << ": " << v[i].Val2 << " expected " << exp[i].second);
    c.label(Kind<PG>::name()); c.nontrivial(nonTrivial(g) && k > 2);
}
static void cores(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 40 : 12; Gen g = genGraph(s, o); int m = s.below(3 * g.n()); for (int i = 0; i < m; ++i) g.edges.push_back({s.pick(g.ids), s.pick(g.ids)}); int k = s.below(3);
    const char *nm[] = {"UN ", "N ", "NE "}; c.describe(nm[k] + g.show()); if (k == 0) coresT<PUNGraph>(s, c, g); else if (k == 1) coresT<PNGraph>(s, c, g); else coresT<PNEGraph>(s, c, g);
}
int main(int argc, char **argv) {
    omp_set_num_threads(3);
    return Engine({Facet("degree", degree, 120000, 600000), Facet("triads", triads, 60000, 600000), Facet("cores", cores, 80000, 400000)}).main(argc, argv);
}
