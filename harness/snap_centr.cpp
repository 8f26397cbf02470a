// Centrality and ranking: distance-based, betweenness (Brandes vs. path enumeration), PageRank, HITS, eigenvector, weighted variants, group centrality.
#include "snapkind.h"
typedef std::vector<double> VD;
// in-edges with multiplicity as the graph kind keeps them: (source index, target index, edge number)
template<class PG> static std::vector<std::pair<int, int>> edgeIdx(const Gen &g, const Adj &A) {
    std::vector<std::pair<int, int>> r; std::set<std::pair<int, int>> seen;
    for (auto &e : g.edges) { int a = A.idx.at(e.first), b = A.idx.at(e.second); if (Kind<PG>::multi) { r.push_back({a, b}); continue; } if (seen.insert({a, b}).second) r.push_back({a, b}); if (!Kind<PG>::dir && seen.insert({b, a}).second) r.push_back({b, a}); }
    return r;
}
static VD pagerank(int n, const std::vector<std::pair<int, int>> &E, const VD &w, double C, int iters) {
    VD out(n), x(n, 1.0 / n); for (size_t i = 0; i < E.size(); ++i) out[E[i].first] += w[i];
    for (int k = 0; k < iters; ++k) { VD t(n); for (size_t i = 0; i < E.size(); ++i) if (out[E[i].first] > 0) t[E[i].second] += C * x[E[i].first] * w[i] / out[E[i].first]; double s = 0; for (double v : t) s += v; for (double &v : t) v += (1 - s) / n; x = t; }
    return x;
}
static void cmp(Case &c, const Adj &A, TIntFltH &h, const VD &e, const char *key, double eps = 1e-9) {
    PCHECK(c, h.Len() == A.n, std::string(key) + "-n", key << " has " << h.Len() << " values for " << A.n << " nodes");
    for (int i = 0; i < A.n; ++i) PCHECK(c, h.IsKey(A.ids[i]) && near(h.GetDat(A.ids[i]), e[i], eps), key, key << ": node " << A.ids[i] << " has " << (h.IsKey(A.ids[i]) ? (double) h.GetDat(A.ids[i]) : -1.0) << " expected " << e[i]);
}
// shortest path counts from every source by the distance matrix
static void brute(const std::vector<VD> &D, const std::vector<VD> &S, VD &node, std::map<std::pair<int, int>, double> &edge, const std::vector<std::vector<double>> &mult, const std::vector<VD> &W, const std::vector<int> &src) {
    int n = D.size(); node.assign(n, 0);
    for (int s : src) for (int t = 0; t < n; ++t) if (s != t && S[s][t] > 0) {
        for (int v = 0; v < n; ++v) if (v != s && v != t && S[s][v] > 0 && S[v][t] > 0 && D[s][v] + D[v][t] == D[s][t]) node[v] += S[s][v] * S[v][t] / S[s][t];
        for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) if (u != v && mult[u][v] > 0 && S[s][u] > 0 && S[v][t] > 0 && D[s][u] + W[u][v] + D[v][t] == D[s][t]) edge[{u, v}] += S[s][u] * mult[u][v] * S[v][t] / S[s][t];
    }
}
static const double INF = 1e18;
// all-pairs distances and numbers of shortest paths for positive weights; mult = number of parallel edges of the minimal weight
static void apsp(int n, const std::vector<VD> &W, const std::vector<VD> &mult, std::vector<VD> &D, std::vector<VD> &S) {
    D.assign(n, VD(n, INF)); S.assign(n, VD(n, 0));
    for (int i = 0; i < n; ++i) { D[i][i] = 0; for (int j = 0; j < n; ++j) if (i != j && mult[i][j] > 0) D[i][j] = std::min(D[i][j], W[i][j]); }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j];
    for (int s = 0; s < n; ++s) { std::vector<int> o; for (int i = 0; i < n; ++i) if (D[s][i] < INF) o.push_back(i); std::sort(o.begin(), o.end(), [&](int a, int b) { return D[s][a] < D[s][b]; }); S[s][s] = 1; for (int v : o) if (v != s) for (int u : o) if (u != v && mult[u][v] > 0 && D[s][u] + W[u][v] == D[s][v]) S[s][v] += S[s][u] * mult[u][v]; }
}

template<class PG> static void distT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); Adj A(g); int n = A.n; auto E = edgeIdx<PG>(g, A);
    for (int q = 0; q < 3; ++q) { int i = s.below(n); bool dir = s.flip(), norm = s.flip(); auto d = bfsDist(dir ? (Kind<PG>::dir ? A.out : A.und) : A.und, i); double sum = 0; int r = 0, ecc = 0; for (int x : d) if (x >= 0) { sum += x; ++r; ecc = std::max(ecc, x); } double f = r > 1 ? sum / (r - 1) : 0; if (norm && r > 1) f *= (n - 1) / (double) (r - 1);
        double x = TSnap::GetFarnessCentr(G, A.ids[i], dir, norm); PCHECK(c, near(x, f), "farness", "GetFarnessCentr(" << A.ids[i] << "," << dir << "," << norm << ") = " << x << " expected " << f); x = TSnap::GetFarnessCentrMP(G, A.ids[i], dir, norm); PCHECK(c, near(x, f), "farnessmp", "GetFarnessCentrMP = " << x << " expected " << f);
        double cl = f ? 1 / f : 0; PCHECK(c, near(TSnap::GetClosenessCentr(G, A.ids[i], dir, norm), cl) && near(TSnap::GetClosenessCentrMP(G, A.ids[i], dir, norm), cl), "closeness", "GetClosenessCentr(" << A.ids[i] << ")"); PCHECK(c, TSnap::GetNodeEcc(G, A.ids[i], dir) == ecc, "ecc", "GetNodeEcc(" << A.ids[i] << "," << dir << ") = " << TSnap::GetNodeEcc(G, A.ids[i], dir) << " expected " << ecc); }
    // PageRank, HITS: exactly K steps
    int K = s.range(1, 15); double C = s.flip() ? 0.85 : 0.1 + 0.8 * s.unit(); VD w(E.size(), 1.0); VD e = pagerank(n, E, w, C, K); TIntFltH h;
    TSnap::GetPageRank(G, h, C, 0.0, K); cmp(c, A, h, e, "pagerank"); TIntFltH h1; TSnap::GetPageRank_v1(G, h1, C, 0.0, K); cmp(c, A, h1, e, "pagerank_v1"); TIntFltH h2; TSnap::GetPageRankMP(G, h2, C, 0.0, K); cmp(c, A, h2, e, "pagerankmp");
    double sum = 0; for (int i = 0; i < h.Len(); ++i) { sum += h[i]; PCHECK(c, h[i] > 0, "pagerank-positive", "a PageRank value is not positive"); } PCHECK(c, near(sum, 1), "pagerank-sum", "the PageRank values add up to " << sum);
    if (s.chance(1, 3)) { double eps = 1e-7; TIntFltH h3; TSnap::GetPageRank(G, h3, C, eps, 10000); VD x(n); for (int i = 0; i < n; ++i) x[i] = h3.GetDat(A.ids[i]); VD y = pagerank(n, E, w, C, 3000); double dd = 0; for (int i = 0; i < n; ++i) dd += std::fabs(x[i] - y[i]); PCHECK(c, dd <= eps / (1 - C) + 1e-9, "pagerank-fix", "converged PageRank is " << dd << " away from the fixpoint"); }
    if (!E.empty()) {
        VD hub(n, 1), au(n, 1); auto norm = [](VD &v) { double t = 0; for (double x : v) t += x * x; t = std::sqrt(t); for (double &x : v) x /= t; };
        for (int k = 0; k < K; ++k) { VD a(n), b(n); for (auto &p : E) a[p.second] += hub[p.first]; norm(a); for (auto &p : E) b[p.first] += a[p.second]; norm(b); au = a; hub = b; }
        TIntFltH hh, ha; TSnap::GetHits(G, hh, ha, K); cmp(c, A, hh, hub, "hubs"); cmp(c, A, ha, au, "authorities"); TIntFltH mh, ma; TSnap::GetHitsMP(G, mh, ma, K); cmp(c, A, mh, hub, "hubsmp"); cmp(c, A, ma, au, "authoritiesmp");
    }
    c.label(std::string("rank") + Kind<PG>::name());
}
static void eigen(Src &s, Case &c, const Gen &g) {
    PUNGraph G = buildSimple<PUNGraph>(g); Adj A(g); int n = A.n, K = s.range(1, 12); auto E = edgeIdx<PUNGraph>(g, A);
    for (int i = 0; i < n; ++i) { double x = TSnap::GetDegreeCentr(G, A.ids[i]), d = n > 1 ? A.und[i].size() / (double) (n - 1) : 0; PCHECK(c, near(x, d), "degreecentr", "GetDegreeCentr = " << x << " expected " << d); }
    if (!E.empty()) { VD x(n, 1.0 / n); for (int k = 0; k < K; ++k) { VD t(n); for (auto &p : E) t[p.second] += x[p.first]; double q = 0; for (double v : t) q += v * v; q = std::sqrt(q); for (double &v : t) v /= q; x = t; } TIntFltH h; TSnap::GetEigenVectorCentr(G, h, 0.0, K); cmp(c, A, h, x, "eigenvector"); }
    // groups
    TIntH grp; std::set<int> S; int m = s.range(1, std::min(n, 4)); for (int i = 0; i < m; ++i) { int x = s.below(n); if (S.insert(x).second) grp.AddDat(S.size() - 1, A.ids[x]); }
    std::set<int> nb; for (int x : S) for (int y : A.und[x]) if (!S.count(y)) nb.insert(y); double gd = TSnap::GetGroupDegreeCentr(G, grp); PCHECK(c, gd == nb.size(), "groupdegree", "GetGroupDegreeCentr = " << gd << " expected " << nb.size());
    double sum = 0; int len = 0; std::vector<int> best(n, -1); for (int x : S) { auto d = bfsDist(A.und, x); for (int i = 0; i < n; ++i) if (d[i] >= 0 && (best[i] < 0 || d[i] < best[i])) best[i] = d[i]; } for (int b : best) if (b > 0) { sum += b; ++len; } double e = sum ? len / sum : 0; double gc = TSnap::GetGroupClosenessCentr(G, grp); PCHECK(c, near(gc, e), "groupcloseness", "GetGroupClosenessCentr = " << gc << " expected " << e);
    // greedy choice of k nodes: every step takes a node of maximal gain
    bool loops = false; for (int i = 0; i < n; ++i) loops |= A.und[i].count(i); int k = s.range(1, 4), which = s.below(3);
    if (!loops) { TIntH r; { Quiet q; r = which == 1 ? TSnap::MaxCPGreedyBetter3(G, k) : which == 2 ? TSnap::MaxCPGreedyBetter1(G, k) : TSnap::MaxCPGreedyBetter(G, k); }
        std::set<int> NN, used; auto gain = [&](int v) { int x = A.und[v].size(); for (int y : A.und[v]) x -= NN.count(y); x -= NN.count(v); return x; };
        int steps = r.Len(); for (int i = 0; i < steps; ++i) { PCHECK(c, r.IsKey(i) && A.idx.count(r.GetDat(i)), "greedy-id", "step " << i << " chose no node"); int v = A.idx[r.GetDat(i)], mx = which == 2 ? -100 : 0; for (int u = 0; u < n; ++u) if (!used.count(u)) mx = std::max(mx, gain(u)); PCHECK(c, !used.count(v) && gain(v) == mx && (mx > 0 || which == 2), "greedy", "step " << i << " of the greedy choice takes " << A.ids[v] << " (gain " << gain(v) << "), the best gain is " << mx); used.insert(v); NN.insert(v); for (int y : A.und[v]) NN.insert(y); }
        if (steps < k) { int mx = 0; for (int u = 0; u < n; ++u) if (!used.count(u)) mx = std::max(mx, gain(u)); PCHECK(c, mx <= 0, "greedy-stop", "the greedy choice stops after " << steps << " of " << k << " although a gain of " << mx << " is possible"); } }
    c.label("eigen+group");
}
template<class PG> static void betwT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); Adj A(g); int n = A.n; bool dir = Kind<PG>::dir; std::vector<VD> W(n, VD(n, 1)), M(n, VD(n, 0)), D, S; for (auto &e : edgeIdx<PG>(g, A)) M[e.first][e.second] = 1; apsp(n, W, M, D, S);
    std::vector<int> src; for (int i = 0; i < n; ++i) src.push_back(i); VD node; std::map<std::pair<int, int>, double> ed; brute(D, S, node, ed, M, W, src); if (!dir) for (double &x : node) x /= 2;
    std::map<std::pair<int, int>, double> und; for (auto &e : ed) { int a = A.ids[e.first.first], b = A.ids[e.first.second]; und[{std::min(a, b), std::max(a, b)}] += e.second; }
    auto cmpE = [&](TIntPrFltH &h, const char *k) { for (int i = h.FFirstKeyId(); h.FNextKeyId(i);) { std::pair<int, int> p(h.GetKey(i).Val1, h.GetKey(i).Val2); double e = und.count(p) ? und[p] : 0; PCHECK(c, near(h[i], e), k, k << ": edge " << p.first << "-" << p.second << " has " << (double) h[i] << " expected " << e); } for (auto &e : und) PCHECK(c, h.IsKey(TIntPr(e.first.first, e.first.second)), k, k << ": edge " << e.first.first << "-" << e.first.second << " is missing"); };
    TIntFltH h; TIntPrFltH he; TSnap::GetBetweennessCentr(G, h, dir); cmp(c, A, h, node, "betweenness"); TSnap::GetBetweennessCentr(G, he, dir); cmpE(he, "edge-betweenness"); TIntFltH h2; TIntPrFltH he2; TSnap::GetBetweennessCentr(G, h2, he2, dir); cmp(c, A, h2, node, "betweenness2"); cmpE(he2, "edge-betweenness2");
    std::vector<int> sub; TIntV sv; for (int i = 0; i < n; ++i) if (s.flip()) { sub.push_back(i); sv.Add(A.ids[i]); } VD nd; std::map<std::pair<int, int>, double> x; brute(D, S, nd, x, M, W, sub); if (!dir) for (double &q : nd) q /= 2; TIntFltH h3; TIntPrFltH he3; TSnap::GetBetweennessCentr(G, sv, h3, dir, true, he3, true); cmp(c, A, h3, nd, "betweenness-sub");
    c.label(std::string("betweenness") + Kind<PG>::name());
}
static void weighted(Src &s, Case &c, const Gen &g) {
    PNEANet G = TNEANet::New(); for (int i : g.ids) G->AddNode(i); Adj A(g); int n = A.n, m = g.edges.size(); bool rnd = s.flip(); std::vector<int> eid; VD w; int mxe = 0;
    if (rnd) { std::set<int> used; for (int i = 0; i < m; ++i) { int x; do x = s.below(4 * m + 2); while (!used.insert(x).second); eid.push_back(x); } } else for (int i = 0; i < m; ++i) eid.push_back(i);
    for (int i = 0; i < m; ++i) { w.push_back(s.range(1, s.flip() ? 3 : 9)); mxe = std::max(mxe, eid[i]); }
    std::ostringstream o; o << " weights"; for (int i = 0; i < m; ++i) o << " " << eid[i] << ":" << w[i]; c.note(o.str());
    TFltV at(mxe + 1); for (int i = 0; i < m; ++i) at[eid[i]] = w[i];
    for (int i = 0; i < m; ++i) G->AddEdge(g.edges[i].first, g.edges[i].second, eid[i]);
    std::vector<VD> W(n, VD(n, INF)), M(n, VD(n, 0)), D, S; for (int i = 0; i < m; ++i) { int a = A.idx[g.edges[i].first], b = A.idx[g.edges[i].second]; if (w[i] < W[a][b]) { W[a][b] = w[i]; M[a][b] = 1; } else if (w[i] == W[a][b]) M[a][b]++; } apsp(n, W, M, D, S);
    for (int q = 0; q < 3; ++q) { int i = s.below(n); TIntFltH h; TSnap::GetWeightedShortestPath(G, A.ids[i], h, at); int r = 0; double sum = 0; for (int j = 0; j < n; ++j) { bool re = D[i][j] < INF; PCHECK(c, h.IsKey(A.ids[j]) == re && (!re || near(h.GetDat(A.ids[j]), D[i][j])), "dijkstra", "GetWeightedShortestPath from " << A.ids[i] << " to " << A.ids[j] << ": " << (h.IsKey(A.ids[j]) ? (double) h.GetDat(A.ids[j]) : -1.0) << " expected " << (re ? D[i][j] : -1)); if (re) { ++r; sum += D[i][j]; } }
        bool norm = s.flip(); double f = r > 1 ? sum / (r - 1) : 0; if (norm && r > 1) f *= (n - 1) / (double) (r - 1); PCHECK(c, near(TSnap::GetWeightedFarnessCentr(G, A.ids[i], true, at, norm), f) && near(TSnap::GetWeightedClosenessCentr(G, A.ids[i], true, at, norm), f ? 1 / f : 0), "wfarness", "GetWeightedFarnessCentr"); }
    std::vector<int> src; for (int i = 0; i < n; ++i) src.push_back(i); VD node; std::map<std::pair<int, int>, double> ed; brute(D, S, node, ed, M, W, src); TIntFltH h; TSnap::GetWeightedBetweennessCentr(G, h, at, true, 1.0); cmp(c, A, h, node, "wbetweenness");
    TIntPrFltH he; TSnap::GetWeightedBetweennessCentr(G, he, at, true, 1.0); std::map<std::pair<int, int>, double> und; for (auto &e : ed) { int a = A.ids[e.first.first], b = A.ids[e.first.second]; und[{std::min(a, b), std::max(a, b)}] += e.second; } for (int i = he.FFirstKeyId(); he.FNextKeyId(i);) { std::pair<int, int> p(he.GetKey(i).Val1, he.GetKey(i).Val2); PCHECK(c, near(he[i], und.count(p) ? und[p] : 0), "wedge", "weighted edge betweenness of " << p.first << "-" << p.second << " is " << (double) he[i]); } for (auto &e : und) PCHECK(c, he.IsKey(TIntPr(e.first.first, e.first.second)), "wedge-missing", "an edge has no betweenness");
    // weighted PageRank
    G->AddFltAttrE("w"); for (int i = 0; i < m; ++i) G->AddFltAttrDatE(eid[i], w[i], "w"); std::vector<std::pair<int, int>> E; for (auto &e : g.edges) E.push_back({A.idx[e.first], A.idx[e.second]}); int K = s.range(1, 12); VD e = pagerank(n, E, w, 0.85, K);
    if (m) { TIntFltH p; int rc = TSnap::GetWeightedPageRank(G, p, "w", 0.85, 0.0, K); PCHECK(c, rc == 0, "wpagerank-rc", "GetWeightedPageRank returned " << rc); cmp(c, A, p, e, "wpagerank"); TIntFltH p2; rc = TSnap::GetWeightedPageRankMP(G, p2, "w", 0.85, 0.0, K); PCHECK(c, rc == 0, "wpagerankmp-rc", "GetWeightedPageRankMP returned " << rc); cmp(c, A, p2, e, "wpagerankmp"); PCHECK(c, TSnap::GetWeightedPageRank(G, p, "nope") == -1, "wpagerank-noattr", "a missing attribute is accepted"); }
    c.label("weighted");
}
static void rank(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 40 : 12; Gen g = genGraph(s, o); int k = s.below(4); const char *nm[] = {"UN ", "N ", "NEA ", "eigen "}; c.describe(nm[k] + g.show());
    if (k == 0) distT<PUNGraph>(s, c, g); else if (k == 1) distT<PNGraph>(s, c, g); else if (k == 2) distT<PNEANet>(s, c, g); else eigen(s, c, g);
    c.nontrivial(nonTrivial(g));
}
static void between(Src &s, Case &c) {
    GenOpt o; o.maxN = s.chance(1, 8) ? 20 : 9; Gen g = genGraph(s, o); int k = s.below(3); const char *nm[] = {"UN ", "N ", "weighted "}; c.describe(nm[k] + g.show());
    if (k == 0) betwT<PUNGraph>(s, c, g); else if (k == 1) betwT<PNGraph>(s, c, g); else weighted(s, c, g);
    c.nontrivial(nonTrivial(g));
}
int main(int argc, char **argv) {
    omp_set_num_threads(3);
    return Engine({Facet("rank", rank, 60000, 500000), Facet("between", between, 100000, 400000)}).main(argc, argv);
}
