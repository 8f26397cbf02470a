// Subgraphs, conversions, egonets, generators, flow and communities.
#include "snapkind.h"
typedef TPt<TNodeEDatNet<TInt, TInt>> PNodeD;
typedef TPt<TNodeEdgeNet<TInt, TInt>> PNodeE;
template<class PG> static std::vector<int> nodeIds(const PG &G) { std::vector<int> r; for (auto n = G->BegNI(); n < G->EndNI(); n++) r.push_back(n.GetId()); return r; }
static TIntV tv(const std::vector<int> &v) { TIntV r; for (int x : v) r.Add(x); return r; }
static void shuffle(Src &s, std::vector<int> &v) { for (int i = (int) v.size() - 1; i > 0; --i) std::swap(v[i], v[s.below(i + 1)]); }
static std::vector<int> subset(Src &s, const std::vector<int> &all) {
    std::vector<int> r; int mode = s.below(4);
    for (int x : all) if (mode == 0 || s.chance(mode == 1 ? 3 : 1, mode == 1 ? 4 : 2)) r.push_back(x);
    if (s.flip()) shuffle(s, r);
    return r;
}
static EdgeList induced(const EdgeList &E, const std::set<int> &ns) { EdgeList r; for (auto &e : E) if (ns.count(e.first) && ns.count(e.second)) r.push_back(e); return r; }
static EdgeList renum(const EdgeList &E, const std::vector<int> &order) {
    std::map<int, int> p; for (size_t i = 0; i < order.size(); ++i) p[order[i]] = i;
    EdgeList r; for (auto &e : E) if (p.count(e.first) && p.count(e.second)) r.push_back({p[e.first], p[e.second]}); return r;
}
static std::set<int> iota(int n) { std::set<int> r; for (int i = 0; i < n; ++i) r.insert(i); return r; }
template<class PG> static std::map<int, std::pair<int, int>> edgeIds(const PG &G) { std::map<int, std::pair<int, int>> r; for (auto e = G->BegEI(); e < G->EndEI(); e++) r[e.GetId()] = {e.GetSrcNId(), e.GetDstNId()}; return r; }
static Gen genG(Src &s, Case &c, bool self = true, int maxN = 14) {
    GenOpt o; o.maxN = maxN; o.selfLoops = self; Gen g = genGraph(s, o);
    c.describe(g.show()); if (nonTrivial(g)) c.nontrivial(); return g;
}

// ---- subgraphs
template<class PG> struct Renumbered { static void check(Case &, const PG &, const std::vector<int> &, const EdgeList &) {} };
template<class PG> static void renumbered(Case &c, const PG &G, const std::vector<int> &valid, const std::vector<int> &asked, const EdgeList &E) {
    PG R = TSnap::GetSubGraph(G, tv(asked), true); same<PG>(c, R, iota(valid.size()), normal<PG>(renum(E, valid)), "subgraph-renumbered");
}
template<> struct Renumbered<PUNGraph> { static void check(Case &c, const PUNGraph &G, const std::vector<int> &v, const std::vector<int> &a, const EdgeList &E) { renumbered(c, G, v, a, E); } };
template<> struct Renumbered<PNGraph> { static void check(Case &c, const PNGraph &G, const std::vector<int> &v, const std::vector<int> &a, const EdgeList &E) { renumbered(c, G, v, a, E); } };
template<class PG> static void subT(Src &s, Case &c, const Gen &g) {
    PG G = buildSimple<PG>(g); EdgeList E = edgesOf<PG>(g); std::vector<int> V = subset(s, g.ids), asked = V;
    std::set<int> ids(g.ids.begin(), g.ids.end()), ns(V.begin(), V.end());
    if (s.chance(1, 3)) { int k = s.range(1, 3); std::set<int> used; for (int i = 0; i < k; ++i) { int x = s.below(80); if (!ids.count(x) && used.insert(x).second) asked.insert(asked.begin() + s.below(asked.size() + 1), x); } }
    c.note(" | asked " + show(asked));
    PG S = TSnap::GetSubGraph(G, tv(asked)); same<PG>(c, S, ns, normal<PG>(induced(E, ns)), "subgraph");
    PG S2 = TSnap::GetSubGraph<PG>(G, tv(asked)); same<PG>(c, S2, ns, normal<PG>(induced(E, ns)), "subgraph2");
    same<PG>(c, G, ids, normal<PG>(E), "subgraph-input");
}
template<class PG> static void esubT(Src &s, Case &c, const Gen &g) { // by edge ids
    PG G = buildSimple<PG>(g); auto all = edgeIds(G); std::vector<int> ev; for (auto &x : all) ev.push_back(x.first);
    // remove a few edges so that the ids have gaps
    int del = s.below(3); for (int i = 0; i < del && !ev.empty(); ++i) { int k = s.below(ev.size()); G->DelEdge(ev[k]); all.erase(ev[k]); ev.erase(ev.begin() + k); }
    std::vector<int> W = subset(s, ev); std::map<int, std::pair<int, int>> want; std::set<int> ns; EdgeList el;
    for (int x : W) { want[x] = all[x]; ns.insert(all[x].first); ns.insert(all[x].second); el.push_back(all[x]); }
    c.note(" | edge ids " + show(W));
    PG S = TSnap::GetESubGraph(G, tv(W)); same<PG>(c, S, ns, normal<PG>(el), "esubgraph"); PCHECK(c, edgeIds(S) == want, "esubgraph-ids", "edge ids not kept");
    std::vector<int> V = subset(s, g.ids); std::set<int> vs(V.begin(), V.end()); std::map<int, std::pair<int, int>> w2; for (auto &x : all) if (vs.count(x.second.first) && vs.count(x.second.second)) w2[x.first] = x.second;
    PG S2 = TSnap::GetSubGraph(G, tv(V)); PCHECK(c, graphNodes(S2) == vs && edgeIds(S2) == w2, "subgraph-ids", "induced subgraph of a multigraph loses or invents edge ids");
    PUNGraph U = TSnap::ConvertESubGraph<PUNGraph>(G, tv(W)); same<PUNGraph>(c, U, ns, normal<PUNGraph>(keep<PUNGraph>(el)), "convert-esub-un");
    PNGraph N = TSnap::ConvertESubGraph<PNGraph>(G, tv(W)); same<PNGraph>(c, N, ns, normal<PNGraph>(keep<PNGraph>(el)), "convert-esub-n");
    // renumbered: nodes in order of first appearance
    std::vector<int> ord; for (auto &e : el) { if (std::find(ord.begin(), ord.end(), e.first) == ord.end()) ord.push_back(e.first); if (std::find(ord.begin(), ord.end(), e.second) == ord.end()) ord.push_back(e.second); }
    PNGraph R = TSnap::ConvertESubGraph<PNGraph>(G, tv(W), true); same<PNGraph>(c, R, iota(ord.size()), normal<PNGraph>(keep<PNGraph>(renum(el, ord))), "convert-esub-renum");
}
template<class PG> static void epairT(Src &s, Case &c, const Gen &g) { // by node pairs
    PG G = buildSimple<PG>(g); EdgeList E = edgesOf<PG>(g), W; for (auto e : E) if (s.flip()) { if (!Kind<PG>::dir && s.flip()) std::swap(e.first, e.second); W.push_back(e); }
    TIntPrV ev; std::set<int> ns; for (auto &e : W) { ev.Add(TIntPr(e.first, e.second)); ns.insert(e.first); ns.insert(e.second); }
    PG S = TSnap::GetESubGraph(G, ev); same<PG>(c, S, ns, normal<PG>(W), "epair-subgraph");
    int k = s.below(g.n() + 1); PG R = TSnap::GetRndSubGraph(G, k); auto rn = graphNodes(R);
    PCHECK(c, (int) rn.size() == k, "rndsub-size", "GetRndSubGraph(" << k << ") has " << rn.size() << " nodes");
    for (int x : rn) PCHECK(c, G->IsNode(x), "rndsub-node", "node " << x << " is not in the graph");
    same<PG>(c, R, rn, normal<PG>(induced(E, rn)), "rndsub");
    int m = s.below(E.size() + 1); PG Q = TSnap::GetRndESubGraph(G, m); EdgeSet q = graphEdges(Q), all = normal<PG>(E); std::set<int> qn; for (auto &e : q) { PCHECK(c, all.count(e), "rndesub-edge", "invented edge"); qn.insert(e.first); qn.insert(e.second); }
    PCHECK(c, Q->GetEdges() == m && (int) q.size() == m, "rndesub-size", "GetRndESubGraph(" << m << ") has " << Q->GetEdges() << " edges"); same<PG>(c, Q, qn, q, "rndesub");
}
static void addD(PNodeD &G, int a, int b, int v) { G->AddEdge(a, b, v); }
static void addD(PNodeE &G, int a, int b, int v) { G->AddEdge(a, b, -1, v); }
template<class PNet> static void datT(Src &s, Case &c, const Gen &g, bool multi) { // networks with edge data
    PNet G = PNet::TObj::New(); std::map<int, int> nd; for (int i : g.ids) { nd[i] = s.below(9); G->AddNode(i, nd[i]); }
    typedef std::multiset<std::tuple<int, int, int>> T; T all; std::map<std::pair<int, int>, int> simple;
    for (auto &e : g.edges) { int v = s.below(4); addD(G, e.first, e.second, v); if (multi) { all.insert(std::make_tuple(e.first, e.second, v)); } else { simple[e] = v; } }
    if (!multi) for (auto &x : simple) all.insert(std::make_tuple(x.first.first, x.first.second, x.second));
    auto got = [](const PNet &H) { T r; for (auto e = H->BegEI(); e < H->EndEI(); e++) r.insert(std::make_tuple(e.GetSrcNId(), e.GetDstNId(), (int) e.GetDat().Val)); return r; };
    auto nodesOk = [&](const PNet &H, const std::set<int> &ns, const char *k) { PCHECK(c, graphNodes(H) == ns, k, k << ": node set"); for (int x : ns) PCHECK(c, H->GetNDat(x) == nd[x], k, k << ": data of node " << x); };
    PCHECK(c, got(G) == all, "dat-build", "the network does not hold its edges");
    std::vector<int> V = subset(s, g.ids); std::set<int> vs(V.begin(), V.end());
    int cmp = (int) s.below(3) - 1, val = s.below(4); auto pass = [&](int d) { return cmp == 1 ? d > val : cmp == -1 ? d < val : d == val; };
    T w, w2, w3; std::set<int> wn; for (auto &t : all) { bool in = vs.count(std::get<0>(t)) && vs.count(std::get<1>(t)); if (in) w.insert(t); if (pass(std::get<2>(t))) { w2.insert(t); wn.insert(std::get<0>(t)); wn.insert(std::get<1>(t)); if (in) w3.insert(t); } }
    PNet S = TSnap::GetSubGraph(G, tv(V)); nodesOk(S, vs, "dat-sub-nodes"); PCHECK(c, got(S) == w, "dat-sub", "subgraph of a network: edges or their data");
    PNet A = TSnap::GetEDatSubGraph(G, TInt(val), cmp); nodesOk(A, wn, "edat-sub-nodes"); PCHECK(c, got(A) == w2, "edat-sub", "GetEDatSubGraph: edges or their data (cmp " << cmp << ", value " << val << ")");
    PNet B = TSnap::GetEDatSubGraph(G, tv(V), TInt(val), cmp); nodesOk(B, vs, "edat-sub2-nodes"); PCHECK(c, got(B) == w3, "edat-sub2", "GetEDatSubGraph with nodes: edges or their data");
}
static void subgraph(Src &s, Case &c) {
    int k = s.below(8); Gen g = genG(s, c); c.label("kind" + std::to_string(k));
    switch (k) {
        case 0: subT<PUNGraph>(s, c, g); { PUNGraph G = buildSimple<PUNGraph>(g); auto V = subset(s, g.ids); Renumbered<PUNGraph>::check(c, G, V, V, edgesOf<PUNGraph>(g)); } break;
        case 1: subT<PNGraph>(s, c, g); { PNGraph G = buildSimple<PNGraph>(g); auto V = subset(s, g.ids); Renumbered<PNGraph>::check(c, G, V, V, edgesOf<PNGraph>(g)); } break;
        case 2: subT<PNEGraph>(s, c, g); esubT<PNEGraph>(s, c, g); break;
        case 3: subT<PNEANet>(s, c, g); break;
        case 4: epairT<PUNGraph>(s, c, g); break;
        case 5: epairT<PNGraph>(s, c, g); break;
        case 6: datT<PNodeD>(s, c, g, false); break;
        default: datT<PNodeE>(s, c, g, true);
    }
}
// ---- conversions
template<class PO, class PI> static void convT(Src &s, Case &c, const Gen &g0) {
    Gen g = g0; const bool both = !Kind<PI>::dir && Kind<PO>::dir;
    if (both && Kind<PO>::multi) { EdgeList f; for (auto &e : g.edges) if (e.first != e.second) f.push_back(e); g.edges = f; }
    PI G = buildSimple<PI>(g); EdgeList E = edgesOf<PI>(g), X; std::vector<int> order = nodeIds(G); std::set<int> ids(g.ids.begin(), g.ids.end());
    for (auto &e : E) { X.push_back(e); if (both) X.push_back({e.second, e.first}); }
    PO A = TSnap::ConvertGraph<PO>(G); same<PO>(c, A, ids, normal<PO>(keep<PO>(X)), "convert");
    PO B = TSnap::ConvertGraph<PO>(G, true); same<PO>(c, B, iota(order.size()), normal<PO>(keep<PO>(renum(X, order))), "convert-renum");
    std::vector<int> V = subset(s, g.ids); std::set<int> vs(V.begin(), V.end()); c.note(" | nodes " + show(V));
    PO C = TSnap::ConvertSubGraph<PO>(G, tv(V)); same<PO>(c, C, vs, normal<PO>(keep<PO>(induced(X, vs))), "convert-sub");
    PO D = TSnap::ConvertSubGraph<PO>(G, tv(V), true); same<PO>(c, D, iota(V.size()), normal<PO>(keep<PO>(renum(X, V))), "convert-sub-renum");
    same<PI>(c, G, ids, normal<PI>(E), "convert-input");
}
static void convert(Src &s, Case &c) {
    int k = s.below(9); Gen g = genG(s, c); c.label("kind" + std::to_string(k));
    switch (k) {
        case 0: convT<PUNGraph, PUNGraph>(s, c, g); break;
        case 1: convT<PNGraph, PUNGraph>(s, c, g); break;
        case 2: convT<PNEGraph, PUNGraph>(s, c, g); break;
        case 3: convT<PUNGraph, PNGraph>(s, c, g); break;
        case 4: convT<PNGraph, PNGraph>(s, c, g); break;
        case 5: convT<PNEGraph, PNGraph>(s, c, g); break;
        case 6: convT<PUNGraph, PNEGraph>(s, c, g); break;
        case 7: convT<PNGraph, PNEANet>(s, c, g); break;
        default: convT<PNEGraph, PNEGraph>(s, c, g);
    }
}
// ---- egonets
static void egonet(Src &s, Case &c) {
    Gen g = genG(s, c); int ctr = s.pick(g.ids); c.note(" | centre " + std::to_string(ctr)); Adj a(g);
    std::set<int> ego; ego.insert(ctr); for (int v : a.und[a.idx[ctr]]) ego.insert(a.ids[v]);
    if (s.flip()) {
        PUNGraph G = buildSimple<PUNGraph>(g); EdgeList E = edgesOf<PUNGraph>(g); int around = 0; for (auto &e : E) around += ego.count(e.first) != ego.count(e.second);
        int got = -7; PUNGraph S = TSnap::GetEgonet(G, ctr, got); same<PUNGraph>(c, S, ego, normal<PUNGraph>(induced(E, ego)), "egonet-un");
        PCHECK(c, got == around, "egonet-around", "edges around the egonet: " << got << " expected " << around);
    } else {
        PNGraph G = buildSimple<PNGraph>(g); EdgeList E = edgesOf<PNGraph>(g); int in = 0, out = 0; for (auto &e : E) { in += !ego.count(e.first) && ego.count(e.second); out += ego.count(e.first) && !ego.count(e.second); }
        int gi = -7, go = -7; PNGraph S = TSnap::GetEgonet(G, ctr, gi, go); same<PNGraph>(c, S, ego, normal<PNGraph>(induced(E, ego)), "egonet-n");
        PCHECK(c, gi == in && go == out, "egonet-inout", "edges into/out of the egonet: " << gi << "/" << go << " expected " << in << "/" << out);
    }
}
// ---- deterministic generators
template<class PG> static void detT(Src &s, Case &c) {
    const bool isDir = s.flip(); int kind = s.below(6); EdgeList E; int n = 0; PG G; std::ostringstream d; d << Kind<PG>::name() << " dir " << isDir << " ";
    auto add = [&](int a, int b) { E.push_back({a, b}); if (Kind<PG>::dir && !isDir) E.push_back({b, a}); };
    switch (kind) {
        case 0: { int r = s.range(1, 7), q = s.range(1, 7); d << "grid " << r << "x" << q; G = TSnap::GenGrid<PG>(r, q, isDir); n = r * q; for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { if (i + 1 < r) add(i * q + j, (i + 1) * q + j); if (j + 1 < q) add(i * q + j, i * q + j + 1); } } break;
        case 1: { n = s.range(1, 20); d << "star " << n; G = TSnap::GenStar<PG>(n, isDir); for (int i = 1; i < n; ++i) add(0, i); } break;
        case 2: { n = s.range(1, 16); int o = s.range(0, 5); d << "circle " << n << " " << o; G = TSnap::GenCircle<PG>(n, o, isDir); for (int i = 0; i < n; ++i) for (int x = 1; x <= o; ++x) add(i, (i + x) % n); } break;
        case 3: { n = s.range(1, 10); d << "full " << n; G = TSnap::GenFull<PG>(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) E.push_back({i, j}); } break;
        case 4: { int f = s.range(1, 4), l = s.range(0, 3); bool up = s.flip(); d << "tree " << f << "^" << l << " up " << up; G = TSnap::GenTree<PG>(f, l, isDir, up); n = 1; int w = 1; for (int i = 0; i < l; ++i) { w *= f; n += w; }
            for (int v = 1; v < n; ++v) { int p = (v - 1) / f; if (isDir) { if (up) E.push_back({v, p}); else E.push_back({p, v}); } else { E.push_back({v, p}); E.push_back({p, v}); } } } break;
        default: { // Ravasz-Barabasi: the base graph, replaced by five copies per level whose outer nodes link to the centre
            int l = s.range(0, 2); d << "hierarchy " << l; G = TSnap::GenBaraHierar<PG>(l); n = 5; int b[8][2] = {{1, 2}, {2, 3}, {3, 4}, {4, 1}, {1, 0}, {3, 0}, {2, 0}, {4, 0}}; for (auto &x : b) E.push_back({x[0], x[1]});
            for (int k = 1; k <= l; ++k) { EdgeList base = E; for (int q = 1; q <= 4; ++q) for (auto &e : base) E.push_back({e.first + q * n, e.second + q * n});
                for (int v = n; v < 5 * n; ++v) { bool outer = true; int x = v; for (int p = 0; p < k; ++p) { if (x % 5 == 0) outer = false; x /= 5; } if (outer) E.push_back({v, 0}); }
                n *= 5; } }
    }
    c.describe(d.str()); if (n > 2) c.nontrivial(); c.label("gen" + std::to_string(kind));
    same<PG>(c, G, iota(n), normal<PG>(keep<PG>(E)), (std::string("gen-") + std::to_string(kind)).c_str());
}
static void detgen(Src &s, Case &c) { switch (s.below(3)) { case 0: detT<PUNGraph>(s, c); break; case 1: detT<PNGraph>(s, c); break; default: detT<PNEGraph>(s, c); } }
// ---- random generators
template<class PG> static void simpleOk(Case &c, const PG &G, int n, const char *k, bool self = false) {
    PCHECK(c, graphNodes(G) == iota(n), std::string(k) + "-nodes", k << ": node ids are not 0.." << n - 1); PCHECK(c, G->IsOk(), std::string(k) + "-ok", k << ": IsOk");
    EdgeSet E = graphEdges(G); PCHECK(c, (int) E.size() == G->GetEdges(), std::string(k) + "-count", k << ": edge count"); for (auto &e : E) { PCHECK(c, E.count(e) == 1, std::string(k) + "-dup", k << ": duplicate edge"); PCHECK(c, self || e.first != e.second, std::string(k) + "-loop", k << ": self loop"); }
}
static std::map<int, int> degOf(const EdgeSet &E) { std::map<int, int> r; for (auto &e : E) { r[e.first]++; if (e.first != e.second) r[e.second]++; } return r; }
static void rndgen(Src &s, Case &c) {
    Quiet q; int kind = s.below(13), seed = 1 + s.below(100000); std::ostringstream d; d << "kind " << kind << " seed " << seed << " "; c.label("rnd" + std::to_string(kind)); c.nontrivial();
    TInt::Rnd.PutSeed(seed); TRnd R(seed), R2(seed), R3(1 + s.below(100000));
    auto again = [&](const EdgeSet &a, const EdgeSet &b) { PCHECK(c, a == b, "rnd-repeat-" + std::to_string(kind), d.str() << ": the same random generator state gives another graph"); };
    switch (kind) {
        case 0: { int n = s.range(2, 14); bool dir = s.flip(); int mx = n * (n - 1) / (dir ? 1 : 2), m = s.below(mx + 1); d << "Gnm N " << n << " " << m << " dir " << dir; c.describe(d.str());
            PNGraph G = TSnap::GenRndGnm<PNGraph>(n, m, dir, R); simpleOk(c, G, n, "gnm"); PCHECK(c, G->GetEdges() == (dir ? m : 2 * m), "gnm-edges", d.str() << ": " << G->GetEdges() << " edges"); if (!dir) for (auto &e : graphEdges(G)) PCHECK(c, G->IsEdge(e.second, e.first), "gnm-sym", "not symmetric");
            again(graphEdges(G), graphEdges(TSnap::GenRndGnm<PNGraph>(n, m, dir, R2))); } break;
        case 1: { int n = s.range(2, 14), m = s.below(n * (n - 1) / 2 + 1); d << "Gnm UN " << n << " " << m; c.describe(d.str()); PUNGraph G = TSnap::GenRndGnm<PUNGraph>(n, m, false, R); simpleOk(c, G, n, "gnm-un"); PCHECK(c, G->GetEdges() == m, "gnm-un-edges", d.str() << ": " << G->GetEdges()); again(graphEdges(G), graphEdges(TSnap::GenRndGnm<PUNGraph>(n, m, false, R2))); } break;
        case 2: { int l = s.range(1, 8), r = s.range(1, 8), m = s.below(l * r + 1); d << "bipart " << l << " " << r << " " << m; c.describe(d.str()); PBPGraph G = TSnap::GenRndBipart(l, r, m, R), H = TSnap::GenRndBipart(l, r, m, R2);
            PCHECK(c, G->GetLNodes() == l && G->GetRNodes() == r && G->GetEdges() == m && G->IsOk(), "bipart", d.str() << ": " << G->GetLNodes() << " " << G->GetRNodes() << " " << G->GetEdges());
            for (int i = 0; i < l + r; ++i) PCHECK(c, G->IsNode(i) && G->IsLNode(i) == (i < l), "bipart-side", "node " << i << " on the wrong side");
            EdgeSet a, b; for (auto e = G->BegEI(); e < G->EndEI(); e++) a.insert({e.GetSrcNId(), e.GetDstNId()}); for (auto e = H->BegEI(); e < H->EndEI(); e++) b.insert({e.GetSrcNId(), e.GetDstNId()}); PCHECK(c, (int) a.size() == m, "bipart-edges", "edge iteration"); for (auto &e : a) PCHECK(c, a.count(e) == 1, "bipart-dup", "duplicate edge"); again(a, b); } break;
        case 3: { int n = s.range(2, 25), o = s.range(1, 5); d << "prefattach " << n << " " << o; c.describe(d.str()); PUNGraph G = TSnap::GenPrefAttach(n, o, R); simpleOk(c, G, n, "pref"); std::map<int, int> back; for (auto &e : graphEdges(G)) back[std::max(e.first, e.second)]++; PCHECK(c, back[1] == 1, "pref-first", "nodes 0 and 1 are not linked"); for (int i = 2; i < n; ++i) PCHECK(c, back[i] >= 1 && back[i] <= std::min(o, i), "pref-deg", "node " << i << " links to " << back[i] << " earlier nodes");
            if (o <= 2) for (int i = 2; i < n; ++i) PCHECK(c, back[i] == o, "pref-exact", "node " << i << " links to " << back[i] << " earlier nodes, expected " << o); again(graphEdges(G), graphEdges(TSnap::GenPrefAttach(n, o, R2))); } break;
        case 4: { int n = s.range(2, 25), o = s.range(1, 4); double beta = s.unit() * 0.5; d << "geo " << n << " " << o << " " << beta; c.describe(d.str()); PUNGraph G = TSnap::GenGeoPrefAttach(n, o, beta, R); simpleOk(c, G, n, "geo"); std::map<int, int> back; for (auto &e : graphEdges(G)) back[std::max(e.first, e.second)]++; for (auto &x : back) PCHECK(c, x.second <= std::min(o, x.first), "geo-deg", "node " << x.first << " links to " << x.second << " earlier nodes"); again(graphEdges(G), graphEdges(TSnap::GenGeoPrefAttach(n, o, beta, R2))); } break;
        case 5: { int n = s.range(2, 20), o = s.range(1, std::min(5, n - 1)); double p = s.chance(1, 3) ? 0 : s.unit(); d << "smallworld " << n << " " << o << " " << p; c.describe(d.str()); PUNGraph G = TSnap::GenSmallWorld(n, o, p, R); simpleOk(c, G, n, "small"); PCHECK(c, G->GetEdges() <= n * o, "small-edges", "too many edges");
            if (p == 0) { EdgeList E; for (int i = 0; i < n; ++i) for (int x = 1; x <= o; ++x) E.push_back({i, (i + x) % n}); PCHECK(c, graphEdges(G) == normal<PUNGraph>(keep<PUNGraph>(E)), "small-ring", d.str() << ": not the ring lattice"); }
            again(graphEdges(G), graphEdges(TSnap::GenSmallWorld(n, o, p, R2))); } break;
        case 6: { int n = s.range(1, 20); TIntV v; std::vector<int> w; int sum = 0; for (int i = 0; i < n; ++i) { w.push_back(s.below(6)); v.Add(w[i]); sum += w[i]; } d << "conf " << show(w); c.describe(d.str()); PUNGraph G = TSnap::GenConfModel(v, R); simpleOk(c, G, n, "conf"); auto dg = degOf(graphEdges(G)); for (int i = 0; i < n; ++i) PCHECK(c, dg[i] <= w[i], "conf-deg", "node " << i << " has degree " << dg[i] << " > " << w[i]); TIntV v2; for (int x : w) v2.Add(x); again(graphEdges(G), graphEdges(TSnap::GenConfModel(v2, R2))); } break;
        case 7: { int n = s.range(1, 25); double b = s.unit(); d << "copy " << n << " " << b; c.describe(d.str()); PNGraph G = TSnap::GenCopyModel(n, b, R); simpleOk(c, G, n, "copy", true); std::map<int, int> out; for (auto &e : graphEdges(G)) { out[e.first]++; PCHECK(c, e.second < e.first || (e.first == 0 && e.second == 0), "copy-target", "edge " << e.first << ">" << e.second); } for (int i = 0; i < n; ++i) PCHECK(c, out[i] == 1, "copy-out", "node " << i << " has out-degree " << out[i]); again(graphEdges(G), graphEdges(TSnap::GenCopyModel(n, b, R2))); } break;
        case 8: { int n = s.range(2, 30), m = s.below(n); double A = 0.15 + 0.3 * s.unit(), B = 0.1 + 0.1 * s.unit(), C = 0.1 + 0.1 * s.unit(); d << "rmat " << n << " " << m << " " << A << " " << B << " " << C; c.describe(d.str()); PNGraph G = TSnap::GenRMat(n, m, A, B, C, R); simpleOk(c, G, n, "rmat"); PCHECK(c, G->GetEdges() == m, "rmat-edges", d.str() << ": " << G->GetEdges()); again(graphEdges(G), graphEdges(TSnap::GenRMat(n, m, A, B, C, R2))); } break;
        case 9: { int n = s.range(1, 25); double f = 0.6 * s.unit(), b = 0.6 * s.unit(); d << "fire " << n << " " << f << " " << b; c.describe(d.str()); PNGraph G = TSnap::GenForestFire(n, f, b); simpleOk(c, G, n, "fire"); std::map<int, int> out; for (auto &e : graphEdges(G)) { out[e.first]++; PCHECK(c, e.second < e.first, "fire-target", "edge to a later node"); } for (int i = 1; i < n; ++i) PCHECK(c, out[i] >= 1, "fire-out", "node " << i << " has no link"); if (f == 0 && b == 0) PCHECK(c, G->GetEdges() == n - 1, "fire-tree", "no burning, but " << G->GetEdges() << " edges"); } break;
        case 11: { int k = s.range(1, 3), n = 4 * k * k + 12 + 2 * s.below(5), sw = s.below(4); d << "regular " << n << " " << k << " " << sw; c.describe(d.str()); PUNGraph G = TSnap::GenRndDegK(n, k, sw, R); simpleOk(c, G, n, "regular"); auto dg = degOf(graphEdges(G)); for (int i = 0; i < n; ++i) PCHECK(c, dg[i] == k, "regular-deg", "node " << i << " has degree " << dg[i] << " expected " << k); } break;
        case 12: { int n = s.range(4, 30); double e = 1.5 + 2 * s.unit(); d << "powerlaw " << n << " " << e; c.describe(d.str()); PUNGraph G = TSnap::GenRndPowerLaw(n, e, true, R); simpleOk(c, G, n, "powerlaw"); for (auto &x : degOf(graphEdges(G))) PCHECK(c, x.second <= n / 2, "powerlaw-deg", "node " << x.first << " has degree " << x.second); again(graphEdges(G), graphEdges(TSnap::GenRndPowerLaw(n, e, true, R2))); } break;
        default: { int k = s.range(1, 3), n = 4 * k * k + 12 + s.below(8); std::vector<int> w; int sum = 0; bool reg = s.flip(); for (int i = 0; i < n; ++i) w.push_back(reg ? k : s.range(0, k)); for (int x : w) sum += x; if (sum % 2) w[0] += w[0] < k ? 1 : -1; std::sort(w.rbegin(), w.rend()); int pos = 0; for (int x : w) pos += x > 0;
            if (pos < 4 * k * k + 8) for (int i = 0; i < n; ++i) w[i] = k; sum = 0; for (int x : w) sum += x; if (sum % 2) w[n - 1]--; TIntV v; for (int x : w) v.Add(x); d << "degseq " << show(w); c.describe(d.str());
            PUNGraph G = TSnap::GenDegSeq(v, R); simpleOk(c, G, n, "degseq"); auto dg = degOf(graphEdges(G)); for (int i = 0; i < n; ++i) PCHECK(c, dg[i] == w[i], "degseq-deg", "node " << i << " has degree " << dg[i] << " expected " << w[i]); }
    }
}
template<class PG> static void rewT(Src &s, Case &c, const Gen &g0, int sw, int seed) {
    Gen g = g0; PG G = buildSimple<PG>(g); EdgeList E = edgesOf<PG>(g); std::set<int> ids(g.ids.begin(), g.ids.end()); TRnd R(seed), R2(seed);
    PG H = TSnap::GenRewire(G, sw, R), H2 = TSnap::GenRewire(G, sw, R2); PCHECK(c, graphNodes(H) == ids, "rewire-nodes", "the nodes change"); PCHECK(c, H->IsOk() && H->GetEdges() == (int) E.size(), "rewire-edges", "GenRewire: " << H->GetEdges() << " edges, the original has " << E.size());
    for (int i : g.ids) PCHECK(c, H->GetNI(i).GetDeg() == G->GetNI(i).GetDeg(), "rewire-deg", "the degree of node " << i << " becomes " << H->GetNI(i).GetDeg() << ", was " << G->GetNI(i).GetDeg());
    PCHECK(c, graphEdges(H) == graphEdges(H2), "rewire-repeat", "the same seed gives another rewiring"); same<PG>(c, G, ids, normal<PG>(E), "rewire-input");
    if (sw == 0) PCHECK(c, graphEdges(H) == graphEdges(G), "rewire-none", "no switching, but the edges change");
}
static void rewire(Src &s, Case &c) {
    Quiet q; Gen g = genG(s, c, false); int sw = s.below(6), seed = 1 + s.below(100000), k = s.below(3); c.note(" | switches " + std::to_string(sw)); c.note(" | kind " + std::to_string(k));
    if (k == 0) rewT<PUNGraph>(s, c, g, sw, seed);
    else if (k == 1) rewT<PNGraph>(s, c, g, sw, seed);
    else {
        PBPGraph G = TBPGraph::New(); int n = g.n(), l = s.range(1, n); std::set<std::pair<int, int>> E; for (int i = 0; i < n; ++i) G->AddNode(g.ids[i], i < l); std::map<int, int> ix; for (int i = 0; i < n; ++i) ix[g.ids[i]] = i;
        for (auto e : g.edges) { if (ix[e.first] >= l) std::swap(e.first, e.second); if (ix[e.first] < l && ix[e.second] >= l && E.insert(e).second) G->AddEdge(e.first, e.second); }
        TRnd R(seed); PBPGraph H = TSnap::GenRewire(G, sw, R); PCHECK(c, H->IsOk() && H->GetLNodes() == G->GetLNodes() && H->GetRNodes() == G->GetRNodes() && H->GetEdges() == G->GetEdges(), "rewire-bp-count", "bipartite rewiring changes the counts");
        std::map<int, int> dg; EdgeSet got; for (auto e = H->BegEI(); e < H->EndEI(); e++) { got.insert({e.GetSrcNId(), e.GetDstNId()}); dg[e.GetSrcNId()]++; dg[e.GetDstNId()]++; } for (auto &e : got) PCHECK(c, got.count(e) == 1, "rewire-bp-dup", "duplicate edge");
        for (int i = 0; i < n; ++i) { PCHECK(c, H->IsNode(g.ids[i]) && H->IsLNode(g.ids[i]) == (i < l), "rewire-bp-side", "node " << g.ids[i] << " changes side"); int w = 0; for (auto &e : E) w += e.first == g.ids[i] || e.second == g.ids[i]; PCHECK(c, dg[g.ids[i]] == w, "rewire-bp-deg", "degree of node " << g.ids[i] << ": " << dg[g.ids[i]] << " expected " << w); }
    }
}
// ---- maximum flow
static void flow(Src &s, Case &c) {
    GenOpt o; o.maxN = 10; o.minN = 2; Gen g = genGraph(s, o); for (int i : g.ids) if (i > 5000) return; // dense arrays indexed by id
    if (s.flip()) { int k = s.range(1, 12); for (int i = 0; i < k; ++i) g.edges.push_back({s.pick(g.ids), s.pick(g.ids)}); }
    PNEANet G = TNEANet::New(); for (int i : g.ids) G->AddNode(i); TStr cap("capacity"); G->AddIntAttrE(cap); std::vector<int> C; std::ostringstream d; std::vector<int> del;
    for (auto &e : g.edges) { int e1 = G->AddEdge(e.first, e.second), w = s.chance(1, 6) ? 0 : s.chance(1, 10) ? (int) s.skew(100000) : s.range(1, 12); C.push_back(w); G->AddIntAttrDatE(e1, w, cap); if (s.chance(1, 12)) del.push_back(e1); d << e.first << ">" << e.second << ":" << w << " "; }
    int src = s.pick(g.ids), snk = s.pick(g.ids); Gen h = g;
    for (int e : del) { G->DelEdge(e); C[e] = 0; }
    c.describe("flow " + std::to_string(src) + " to " + std::to_string(snk) + ": " + d.str()); if (src != snk && g.edges.size() > 2) c.nontrivial();
    // minimum cut over all node subsets
    int n = g.n(); std::map<int, int> ix; for (int i = 0; i < n; ++i) ix[g.ids[i]] = i; long best = -1;
    if (src == snk) best = 0; else for (int m = 0; m < (1 << n); ++m) { if (!(m >> ix[src] & 1) || (m >> ix[snk] & 1)) continue; long w = 0; for (size_t e = 0; e < g.edges.size(); ++e) if ((m >> ix[g.edges[e].first] & 1) && !(m >> ix[g.edges[e].second] & 1)) w += C[e]; if (best < 0 || w < best) best = w; }
    if (best > 0) c.label("positive");
    int ek = TSnap::GetMaxFlowIntEK(G, src, snk); PCHECK(c, ek == best, "flow-ek", "Edmonds-Karp finds " << ek << ", the minimum cut is " << best);
    int pr = TSnap::GetMaxFlowIntPR(G, src, snk); PCHECK(c, pr == best, "flow-pr", "push-relabel finds " << pr << ", the minimum cut is " << best);
    PCHECK(c, G->GetEdges() == (int) (g.edges.size() - del.size()), "flow-input", "the network changes");
}
// ---- communities
static void community(Src &s, Case &c) {
    Quiet q; Gen g = genG(s, c, false, 16); PUNGraph G = buildSimple<PUNGraph>(g); EdgeList E = edgesOf<PUNGraph>(g); int m = E.size(); std::map<int, int> deg; for (auto &e : E) { deg[e.first]++; deg[e.second]++; }
    auto modul = [&](const std::vector<std::set<int>> &P, double M) { double r = 0; for (auto &S : P) { double in = 0, dg = 0; for (int x : S) dg += deg[x]; for (auto &e : E) in += S.count(e.first) && S.count(e.second) ? 2 : 0; r += in / (2 * M) - (dg / (2 * M)) * (dg / (2 * M)); } return r; };
    std::set<int> ids(g.ids.begin(), g.ids.end());
    { std::vector<int> V = subset(s, g.ids); std::set<int> S(V.begin(), V.end()); int in = -1, out = -1, wi = 0, wo = 0; TSnap::GetEdgesInOut(G, tv(V), in, out); for (auto &e : E) { int k = S.count(e.first) + S.count(e.second); wi += k == 2; wo += k == 1; } PCHECK(c, in == wi && out == wo, "edges-in-out", "GetEdgesInOut " << in << "/" << out << " expected " << wi << "/" << wo);
      PNGraph D = buildSimple<PNGraph>(g); (void) D;
      if (m) { double w = modul({S}, m), x = TSnap::GetModularity(G, tv(V)); PCHECK(c, near(x, w, 1e-9) || std::fabs(x - w) < 1e-12, "modularity-1", "modularity of one community " << x << " expected " << w); int M = m + s.below(9); x = TSnap::GetModularity(G, tv(V), M); w = modul({S}, M); PCHECK(c, near(x, w), "modularity-m", "modularity with " << M << " edges: " << x << " expected " << w); } }
    auto parts = [&](const TCnComV &v, const char *k) { std::vector<std::set<int>> P; std::set<int> all; for (int i = 0; i < v.Len(); ++i) { std::set<int> S; for (int j = 0; j < v[i].Len(); ++j) { S.insert(v[i][j]); PCHECK(c, all.insert(v[i][j]).second, std::string(k) + "-twice", k << ": node " << v[i][j] << " is in two communities"); } PCHECK(c, !S.empty(), std::string(k) + "-empty", k << ": empty community"); P.push_back(S); } PCHECK(c, all == ids, std::string(k) + "-cover", k << ": the communities do not cover the nodes"); return P; };
    if (m) { // a random partition
        int k = s.range(1, 4); std::vector<std::vector<int>> b(k); for (int i : g.ids) b[s.below(k)].push_back(i); TCnComV v; std::vector<std::set<int>> P; for (auto &x : b) { v.Add(TCnCom(tv(x))); P.push_back(std::set<int>(x.begin(), x.end())); }
        double x = TSnap::GetModularity(G, v), w = modul(P, m); PCHECK(c, near(x, w), "modularity", "modularity " << x << " expected " << w); }
    TCnComV cn; double Q = TSnap::CommunityCNM(G, cn); auto P = parts(cn, "cnm");
    if (m) { double w = modul(P, m); PCHECK(c, near(Q, w, 1e-7), "cnm-q", "CNM reports modularity " << Q << ", its partition has " << w);
        for (size_t i = 0; i < P.size(); ++i) for (size_t j = i + 1; j < P.size(); ++j) { double e = 0, a = 0, b = 0; for (auto &x : E) e += (P[i].count(x.first) && P[j].count(x.second)) || (P[j].count(x.first) && P[i].count(x.second)); for (int x : P[i]) a += deg[x]; for (int x : P[j]) b += deg[x]; double gain = e / m - 2 * (a / (2 * m)) * (b / (2 * m)); PCHECK(c, gain < 1e-9, "cnm-maximal", "merging two of CNM's communities would still raise the modularity by " << gain); } }
    if (m) { // Infomap: a partition
        TCnComV im; TSnap::Infomap(G, im); parts(im, "infomap"); }
    same<PUNGraph>(c, G, ids, normal<PUNGraph>(E), "community-input");
    if (m) { PUNGraph H = buildSimple<PUNGraph>(g); TCnComV gn; double q1 = TSnap::CommunityGirvanNewman(H, gn); auto PG = parts(gn, "gn"); double w = modul(PG, m); PCHECK(c, q1 <= w + 1e-9, "gn-q", "Girvan-Newman reports modularity " << q1 << ", its partition has only " << w);
        // every community is connected, and no worse than the connected components
        Adj a(g); std::vector<std::set<int>> comps; for (auto &S : PG) { int r = a.idx[*S.begin()]; std::vector<std::set<int>> sub(a.n); for (int x : S) for (int y : a.und[a.idx[x]]) if (S.count(a.ids[y])) sub[a.idx[x]].insert(y); auto d = bfsDist(sub, r); for (int x : S) PCHECK(c, d[a.idx[x]] >= 0, "gn-connected", "a Girvan-Newman community is not connected"); } }
}
int main(int argc, char **argv) {
    return Engine({
        Facet("subgraph", subgraph, 150000, 3000000, 20), Facet("convert", convert, 120000, 3000000, 20), Facet("egonet", egonet, 100000, 2000000, 20),
        Facet("detgen", detgen, 60000, 600000, 20), Facet("rndgen", rndgen, 150000, 3000000, 20), Facet("rewire", rewire, 100000, 2000000, 20),
        Facet("flow", flow, 150000, 3000000, 20), Facet("community", community, 40000, 800000, 30),
    }).main(argc, argv);
}
