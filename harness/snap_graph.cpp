// SNAP graph and network classes as abstract data types: stateful histories against a set / multiset model.
#include "snapgen.h"

// Model of every kind of graph: nodes, and edges by id (simple graphs number them internally)
struct Model {
    bool dir, multi; std::set<int> nodes; std::map<int, std::pair<int, int>> edges; int nextE = 0;
    std::pair<int, int> norm(int a, int b) const { return !dir && a > b ? std::make_pair(b, a) : std::make_pair(a, b); }
    int find(int a, int b) const { auto p = norm(a, b); for (auto &e : edges) if (e.second == p) return e.first; return -1; }
    bool has(int a, int b) const { return find(a, b) >= 0; }
    void add(int a, int b) { if (!multi && has(a, b)) return; edges[nextE++] = norm(a, b); }
    void del(int a, int b) { auto p = norm(a, b); for (auto it = edges.begin(); it != edges.end();) if (it->second == p) it = edges.erase(it); else ++it; }
    void delNode(int n) { nodes.erase(n); for (auto it = edges.begin(); it != edges.end();) if (it->second.first == n || it->second.second == n) it = edges.erase(it); else ++it; }
    std::vector<int> nbrs(int n, int what) const { // 0 out, 1 in, 2 nbr
        std::vector<int> r;
        for (auto &e : edges) {
            int a = e.second.first, b = e.second.second;
            if (!dir) { if (a == n) r.push_back(b); else if (b == n) r.push_back(a); }
            else { if (what != 1 && a == n) r.push_back(b); if (what != 0 && b == n) r.push_back(a); }
        }
        std::sort(r.begin(), r.end()); return r;
    }
};
template<class G> struct Tr;
template<> struct Tr<TUNGraph> { enum { dir = 0, multi = 0, undirnet = 0, net = 0 }; static const char *name() { return "TUNGraph"; } };
template<> struct Tr<TNGraph> { enum { dir = 1, multi = 0, net = 0 }; static const char *name() { return "TNGraph"; } };
template<> struct Tr<TUndirNet> { enum { dir = 0, multi = 0, net = 1 }; static const char *name() { return "TUndirNet"; } };
template<> struct Tr<TDirNet> { enum { dir = 1, multi = 0, net = 1 }; static const char *name() { return "TDirNet"; } };
template<> struct Tr<TNEGraph> { enum { dir = 1, multi = 1, net = 0 }; static const char *name() { return "TNEGraph"; } };
template<> struct Tr<TNEANet> { enum { dir = 1, multi = 1, net = 1 }; static const char *name() { return "TNEANet"; } };

template<class G, bool multi> struct EdgeChk;
template<class G> struct EdgeChk<G, false> {
    static void run(Case &c, G &g, const Model &m, const std::string &nm) {
        std::vector<std::pair<int, int>> got, exp;
        for (typename G::TEdgeI e = g.BegEI(); e < g.EndEI(); e++) { got.push_back(std::make_pair(e.GetSrcNId(), e.GetDstNId())); PCHECK(c, got.size() <= m.edges.size() + 5, nm + "-edgeiter", "the edge iterator visits too many edges"); }
        for (auto &e : got) if (!m.dir && e.first > e.second) PFAIL(c, nm + "-edgeiter", "undirected edge visited as " << e.first << "," << e.second);
        for (auto &e : m.edges) exp.push_back(e.second);
        std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
        PCHECK(c, got == exp, nm + "-edgeiter", "the edge iterator visits " << got.size() << " edges, expected " << exp.size());
        for (auto &e : m.edges) { typename G::TEdgeI ei = g.GetEI(e.second.first, e.second.second);
            std::pair<int, int> p(ei.GetSrcNId(), ei.GetDstNId()); PCHECK(c, m.norm(p.first, p.second) == e.second, nm + "-getei", "GetEI(" << e.second.first << "," << e.second.second << ") is " << p.first << "," << p.second); }
    }
    static void nodeEdges(Case &, typename G::TNodeI &, const Model &, int, const std::string &) {}
};
template<class G> struct EdgeChk<G, true> {
    static void run(Case &c, G &g, const Model &m, const std::string &nm) {
        std::map<int, std::pair<int, int>> got; size_t n = 0;
        for (typename G::TEdgeI e = g.BegEI(); e < g.EndEI(); e++) { got[e.GetId()] = std::make_pair(e.GetSrcNId(), e.GetDstNId()); ++n; PCHECK(c, n <= m.edges.size() + 5, nm + "-edgeiter", "the edge iterator visits too many edges"); }
        PCHECK(c, got == m.edges && n == m.edges.size(), nm + "-edgeiter", "the edge iterator visits " << n << " edges (" << got.size() << " ids), expected " << m.edges.size());
        for (auto &e : m.edges) {
            PCHECK(c, g.IsEdge(e.first), nm + "-isedge-id", "IsEdge(id " << e.first << ") is false");
            typename G::TEdgeI ei = g.GetEI(e.first); PCHECK(c, ei.GetId() == e.first && ei.GetSrcNId() == e.second.first && ei.GetDstNId() == e.second.second, nm + "-getei", "GetEI(" << e.first << ")");
            int id = g.GetEId(e.second.first, e.second.second); auto it = m.edges.find(id);
            PCHECK(c, it != m.edges.end() && it->second == e.second, nm + "-geteid", "GetEId(" << e.second.first << "," << e.second.second << ")=" << id);
        }
        TIntV v; g.GetEIdV(v); std::vector<int> ids = sorted(vec(v)), exp; for (auto &e : m.edges) exp.push_back(e.first);
        PCHECK(c, ids == exp, nm + "-geteidv", "GetEIdV " << show(ids) << " expected " << show(exp));
    }
    static void nodeEdges(Case &c, typename G::TNodeI &ni, const Model &m, int n, const std::string &nm) {
        std::vector<int> o, i, eo, ei;
        for (int k = 0; k < ni.GetOutDeg(); ++k) o.push_back(ni.GetOutEId(k));
        for (int k = 0; k < ni.GetInDeg(); ++k) i.push_back(ni.GetInEId(k));
        for (auto &e : m.edges) { if (e.second.first == n) eo.push_back(e.first); if (e.second.second == n) ei.push_back(e.first); }
        PCHECK(c, sorted(o) == eo && sorted(i) == ei, nm + "-node-edges", "node " << n << " out edges " << show(o) << " expected " << show(eo) << "; in " << show(i) << " expected " << show(ei));
        for (int e : o) PCHECK(c, ni.IsOutEId(e) && ni.IsNbrEId(e), nm + "-isouteid", "IsOutEId(" << e << ")");
        for (int e : i) PCHECK(c, ni.IsInEId(e), nm + "-isineid", "IsInEId(" << e << ")");
        std::vector<int> nb, en; for (int k = 0; k < ni.GetDeg(); ++k) nb.push_back(ni.GetNbrEId(k));
        en = eo; en.insert(en.end(), ei.begin(), ei.end());
        PCHECK(c, sorted(nb) == sorted(en), nm + "-nbreid", "GetNbrEId " << show(nb));
    }
};

// every observation of the graph against the model
template<class G> static void verify(Case &c, G &g, const Model &m, const std::string &nm) {
    PCHECK(c, g.GetNodes() == (int) m.nodes.size(), nm + "-nodes", "GetNodes()=" << g.GetNodes() << " expected " << m.nodes.size());
    PCHECK(c, g.GetEdges() == (int) m.edges.size(), nm + "-edges", "GetEdges()=" << g.GetEdges() << " expected " << m.edges.size());
    PCHECK(c, g.Empty() == m.nodes.empty(), nm + "-empty", "Empty()=" << g.Empty());
    PCHECK(c, g.IsOk(false), nm + "-isok", "IsOk() is false");
    TIntV v; g.GetNIdV(v);
    PCHECK(c, sorted(vec(v)) == std::vector<int>(m.nodes.begin(), m.nodes.end()), nm + "-nidv", "GetNIdV " << show(sorted(vec(v))));
    std::vector<int> it; for (typename G::TNodeI ni = g.BegNI(); ni < g.EndNI(); ni++) it.push_back(ni.GetId());
    PCHECK(c, it == vec(v), nm + "-nodeiter", "node iterator " << show(it) << " GetNIdV " << show(vec(v)));
    if (!m.nodes.empty()) PCHECK(c, g.GetMxNId() > *m.nodes.rbegin(), nm + "-mxnid", "GetMxNId()=" << g.GetMxNId());
    for (int n : m.nodes) {
        PCHECK(c, g.IsNode(n), nm + "-isnode", "IsNode(" << n << ") is false");
        typename G::TNodeI ni = g.GetNI(n);
        PCHECK(c, ni.GetId() == n, nm + "-getni", "GetNI(" << n << ").GetId()=" << ni.GetId());
        std::vector<int> o, i, b, eo = m.nbrs(n, 0), ei = m.nbrs(n, 1), eb = m.nbrs(n, 2);
        PCHECK(c, ni.GetOutDeg() == (int) eo.size() && ni.GetInDeg() == (int) ei.size() && ni.GetDeg() == (int) eb.size(), nm + "-degrees",
               "degrees of " << n << ": " << ni.GetOutDeg() << "/" << ni.GetInDeg() << "/" << ni.GetDeg() << " expected " << eo.size() << "/" << ei.size() << "/" << eb.size());
        for (int k = 0; k < ni.GetOutDeg(); ++k) o.push_back(ni.GetOutNId(k));
        for (int k = 0; k < ni.GetInDeg(); ++k) i.push_back(ni.GetInNId(k));
        for (int k = 0; k < ni.GetDeg(); ++k) b.push_back(ni.GetNbrNId(k));
        if (!m.multi) PCHECK(c, std::is_sorted(o.begin(), o.end()) && std::is_sorted(i.begin(), i.end()), nm + "-unsorted", "neighbours of " << n << " not sorted: " << show(o) << " " << show(i));
        PCHECK(c, sorted(o) == eo && sorted(i) == ei && sorted(b) == eb, nm + "-nbrs", "neighbours of " << n << ": " << show(o) << show(i) << show(b) << " expected " << show(eo) << show(ei) << show(eb));
        EdgeChk<G, (bool) Tr<G>::multi>::nodeEdges(c, ni, m, n, nm);
        for (int q : m.nodes) {
            bool out = m.has(n, q), in = m.has(q, n);
            PCHECK(c, g.IsEdge(n, q) == out, nm + "-isedge", "IsEdge(" << n << "," << q << ")=" << !out);
            PCHECK(c, ni.IsOutNId(q) == out && ni.IsInNId(q) == in && ni.IsNbrNId(q) == (out || in), nm + "-isnbr", "IsOut/In/NbrNId of " << n << "," << q);
        }
    }
    EdgeChk<G, (bool) Tr<G>::multi>::run(c, g, m, nm);
}

template<class G, bool dir> struct Call;
template<class G> struct Call<G, true> { static void del(G &g, int a, int b, bool d) { g.DelEdge(a, b, d); } static bool is(G &g, int a, int b, bool d) { return g.IsEdge(a, b, d); } };
template<class G> struct Call<G, false> { static void del(G &g, int a, int b, bool) { g.DelEdge(a, b); } static bool is(G &g, int a, int b, bool) { return g.IsEdge(a, b); } };
template<class G> static int addEdge2(G &, int, int, ...) { return -99; }
static int addEdge2(TUNGraph &g, int a, int b, int) { return g.AddEdge2(a, b); }
static int addEdge2(TNGraph &g, int a, int b, int) { return g.AddEdge2(a, b); }
template<class G> static int addUnchecked(G &, int, ...) { return -99; }
static int addUnchecked(TUNGraph &g, int n, int) { return g.AddNodeUnchecked(n); }
static int addUnchecked(TNGraph &g, int n, int) { return g.AddNodeUnchecked(n); }
template<class G> static bool addWith(G &, int, const TIntV &, const TIntV &, ...) { return false; }
static bool addWith(TUNGraph &g, int n, const TIntV &, const TIntV &o, int) { g.AddNode(n, o); return true; }
static bool addWith(TUndirNet &g, int n, const TIntV &, const TIntV &o, int) { g.AddNode(n, o); return true; }
template<class G, bool multi> struct AddE;
template<class G> struct AddE<G, false> { static void go(Src &, Case &c, G &g, Model &m, int a, int b, const std::string &nm) {
    bool had = m.has(a, b); int r = g.AddEdge(a, b); PCHECK(c, r == (had ? -2 : -1), nm + "-addedge-result", "AddEdge(" << a << "," << b << ")=" << r << " had=" << had); m.add(a, b); } };
template<class G> struct AddE<G, true> { static void go(Src &s, Case &c, G &g, Model &m, int a, int b, const std::string &nm) {
    int id = -1; if (s.chance(1, 3)) { id = s.below(40); if (m.edges.count(id)) id = -1; }
    int r = g.AddEdge(a, b, id); PCHECK(c, id >= 0 ? r == id : !m.edges.count(r) && r >= 0, nm + "-addedge-result", "AddEdge(" << a << "," << b << "," << id << ")=" << r); m.edges[r] = std::make_pair(a, b); } };
template<class G, bool multi> struct DelId { static bool go(G &, int) { return false; } };
template<class G> struct DelId<G, true> { static bool go(G &g, int id) { g.DelEdge(id); return true; } };

template<class G> static void history(Src &s, Case &c) {
    typedef TPt<G> PG; std::string nm = Tr<G>::name();
    PG g = G::New(); Model m; m.dir = Tr<G>::dir; m.multi = Tr<G>::multi;
    c.describe(nm + " history:"); c.label(nm);
    int dom = s.pick(std::vector<int>{4, 8, 20}), nops = s.range(3, 45); bool sawDel = false; size_t maxE = 0;
    int verifyEvery = s.pick(std::vector<int>{1, 1, 4});
    auto anyNode = [&]() { auto it = m.nodes.begin(); std::advance(it, s.below(m.nodes.size())); return *it; };
    auto newId = [&]() { return s.chance(1, 12) ? (int) s.skew(1 << 24) : (int) s.below(dom); };
    for (int k = 0; k < nops; ++k) {
        int op = s.below(22);
        if (m.nodes.size() < 2) op = 0;
        if (op <= 2) {
            int id = s.flip() ? -1 : newId(); if (id >= 0 && m.nodes.count(id)) id = -1;
            int mx = g->GetMxNId(); int r = g->AddNode(id); c.note(" AddNode(" + std::to_string(id) + ")");
            PCHECK(c, id >= 0 ? r == id : r == mx && !m.nodes.count(r), nm + "-addnode", "AddNode(" << id << ")=" << r << " GetMxNId was " << mx); m.nodes.insert(r);
        } else if (op == 3) {
            int id = newId(); int r = addUnchecked(*g, id, 0);
            if (r != -99) { c.note(" AddNodeUnchecked(" + std::to_string(id) + ")"); PCHECK(c, r == id || (m.nodes.count(id) && r == -1), nm + "-addunchecked", "AddNodeUnchecked(" << id << ")=" << r); m.nodes.insert(id); }
        } else if (op == 4) {
            int id = newId(); if (m.nodes.count(id)) continue;
            TIntV in, out; std::set<int> si, so; for (int i = s.below(4); i > 0; --i) { int a = anyNode(), b = anyNode(); if (so.insert(a).second) out.Add(a); if (si.insert(b).second) in.Add(b); }
            if (addWith(*g, id, in, out, 0)) { c.note(" AddNode(" + std::to_string(id) + ",in" + show(vec(in)) + ",out" + show(vec(out)) + ")"); m.nodes.insert(id); for (int o : so) m.add(id, o); if (m.dir) for (int i : si) m.add(i, id); }
        } else if (op <= 12) {
            int a = anyNode(), b = s.chance(1, 8) ? a : anyNode(); c.note(" AddEdge(" + std::to_string(a) + "," + std::to_string(b) + ")");
            AddE<G, (bool) Tr<G>::multi>::go(s, c, *g, m, a, b, nm);
        } else if (op == 13) {
            int a = newId(), b = newId(); bool had = m.has(a, b); int r = addEdge2(*g, a, b, 0);
            if (r != -99) { c.note(" AddEdge2(" + std::to_string(a) + "," + std::to_string(b) + ")"); PCHECK(c, r == (had ? -2 : -1), nm + "-addedge2", "AddEdge2=" << r); m.nodes.insert(a); m.nodes.insert(b); m.add(a, b); }
        } else if (op <= 16) {
            if (m.edges.empty()) continue;
            auto it = m.edges.begin(); std::advance(it, s.below(m.edges.size())); int a = it->second.first, b = it->second.second; int id = it->first;
            sawDel = true;
            if (m.multi && s.flip()) { c.note(" DelEdge(id " + std::to_string(id) + ")"); DelId<G, (bool) Tr<G>::multi>::go(*g, id); m.edges.erase(id); }
            else { bool d = !m.dir || s.flip(); if (!d && s.flip()) std::swap(a, b); if (!m.dir && s.flip()) std::swap(a, b);
                c.note(" DelEdge(" + std::to_string(a) + "," + std::to_string(b) + (d ? ")" : ",undir)"));
                PCHECK(c, (Call<G, (bool) Tr<G>::dir>::is(*g, a, b, d)), nm + "-isedge-dir", "IsEdge(" << a << "," << b << "," << d << ") is false");
                Call<G, (bool) Tr<G>::dir>::del(*g, a, b, d); m.del(a, b); if (!d) m.del(b, a); }
        } else if (op == 17) { int n = anyNode(); c.note(" DelNode(" + std::to_string(n) + ")"); g->DelNode(n); m.delNode(n); sawDel = true; }
        else if (op == 18) { c.note(" Defrag"); bool only = s.flip(); g->Defrag(only); }
        else if (op == 19) { c.note(" reload"); g = reload(g); }
        else if (op == 20) { c.note(" copy"); PG h = new G(*g); if (s.flip()) { verify(c, *h, m, nm); h->AddNode(); g->GetNodes(); } else { PG e = G::New(); *e = *g; g = e; } }
        else if (op == 21) { if (s.chance(1, 10)) { c.note(" Clr"); g->Clr(); m.nodes.clear(); m.edges.clear(); } else { int r = g->GetRndNId(); PCHECK(c, m.nodes.count(r), nm + "-rnd", "GetRndNId()=" << r);
            int x = newId(); PCHECK(c, g->IsNode(x) == (m.nodes.count(x) > 0), nm + "-isnode", "IsNode(" << x << ")"); } }
        maxE = std::max(maxE, m.edges.size()); c.evals++;
        if (k % verifyEvery == 0 || k + 1 == nops) verify(c, *g, m, nm);
    }
    verify(c, *g, m, nm);
    c.nontrivial(maxE >= 3 && sawDel);
}
static void graph(Src &s, Case &c) {
    switch (s.below(6)) {
        case 0: history<TUNGraph>(s, c); break;
        case 1: history<TNGraph>(s, c); break;
        case 2: history<TUndirNet>(s, c); break;
        case 3: history<TDirNet>(s, c); break;
        case 4: history<TNEGraph>(s, c); break;
        default: history<TNEANet>(s, c); break;
    }
}

// ---- bipartite graph
static void bipartite(Src &s, Case &c) {
    PBPGraph g = TBPGraph::New(); std::set<int> L, R; std::set<std::pair<int, int>> E; c.describe("TBPGraph history:");
    int nops = s.range(3, 40), dom = s.pick(std::vector<int>{6, 14}); bool del = false;
    auto pick = [&](std::set<int> &x) { auto it = x.begin(); std::advance(it, s.below(x.size())); return *it; };
    for (int k = 0; k <= nops; ++k) {
        int op = s.below(12); if (L.empty() || R.empty()) op = 0;
        if (k == nops) op = 99;
        if (op <= 3) { bool l = s.flip(); if (L.empty()) l = true; else if (R.empty()) l = false; int id = s.flip() ? -1 : (int) s.below(dom); if (L.count(id) || R.count(id)) id = -1;
            int r = g->AddNode(id, l); c.note((l ? " AddL(" : " AddR(") + std::to_string(r) + ")"); PCHECK(c, (id < 0 || r == id) && !L.count(r) && !R.count(r), "bp-addnode", "AddNode=" << r); (l ? L : R).insert(r); }
        else if (op <= 8) { int a = pick(L), b = pick(R); bool had = E.count({a, b}); int r; if (s.flip()) r = g->AddEdge(a, b); else r = g->AddEdge(b, a); c.note(" AddEdge(" + std::to_string(a) + "," + std::to_string(b) + ")"); PCHECK(c, r == (had ? -2 : -1), "bp-addedge", "AddEdge=" << r); E.insert({a, b}); }
        else if (op == 9 && !E.empty()) { auto it = E.begin(); std::advance(it, s.below(E.size())); c.note(" DelEdge(" + std::to_string(it->first) + "," + std::to_string(it->second) + ")"); if (s.flip()) g->DelEdge(it->first, it->second); else g->DelEdge(it->second, it->first); E.erase(it); del = true; }
        else if (op == 10) { bool l = s.flip(); int n = l ? pick(L) : pick(R); g->DelNode(n); c.note(" DelNode(" + std::to_string(n) + ")"); (l ? L : R).erase(n); for (auto it = E.begin(); it != E.end();) if (it->first == n || it->second == n) it = E.erase(it); else ++it; del = true; }
        else if (op == 11) { c.note(" reload"); g = reload(g); if (s.flip()) g->Defrag(s.flip()); }
        PCHECK(c, g->GetLNodes() == (int) L.size() && g->GetRNodes() == (int) R.size() && g->GetNodes() == (int) (L.size() + R.size()), "bp-nodes", "node counts " << g->GetLNodes() << "," << g->GetRNodes());
        PCHECK(c, g->GetEdges() == (int) E.size(), "bp-edges", "GetEdges()=" << g->GetEdges() << " expected " << E.size());
        PCHECK(c, g->IsOk(false), "bp-isok", "IsOk() false");
        TIntV v; std::set<int> all = L; all.insert(R.begin(), R.end());
        g->GetNIdV(v); PCHECK(c, sorted(vec(v)) == std::vector<int>(all.begin(), all.end()), "bp-nidv", "GetNIdV");
        v.Clr(); g->GetLNIdV(v); PCHECK(c, sorted(vec(v)) == std::vector<int>(L.begin(), L.end()), "bp-lnidv", "GetLNIdV");
        v.Clr(); g->GetRNIdV(v); PCHECK(c, sorted(vec(v)) == std::vector<int>(R.begin(), R.end()), "bp-rnidv", "GetRNIdV");
        for (int n : all) { bool l = L.count(n); TBPGraph::TNodeI ni = g->GetNI(n); std::vector<int> e, a; for (auto &p : E) { if (p.first == n) e.push_back(p.second); if (p.second == n) e.push_back(p.first); }
            PCHECK(c, ni.GetId() == n && ni.IsLeft() == l && ni.IsRight() == !l && g->IsLNode(n) == l && g->IsRNode(n) == !l, "bp-side", "side of " << n);
            PCHECK(c, ni.GetDeg() == (int) e.size() && ni.GetOutDeg() == (int) e.size() && ni.GetInDeg() == (int) e.size(), "bp-deg", "degrees of " << n);
            for (int i = 0; i < ni.GetDeg(); ++i) a.push_back(ni.GetNbrNId(i)); PCHECK(c, a == sorted(e), "bp-nbrs", "neighbours of " << n << ": " << show(a) << " expected " << show(sorted(e))); }
        for (int a : L) for (int b : R) PCHECK(c, g->IsEdge(a, b) == (E.count({a, b}) > 0), "bp-isedge", "IsEdge(" << a << "," << b << ")");
        std::vector<int> it; for (auto ni = g->BegNI(); ni < g->EndNI(); ni++) { it.push_back(ni.GetId()); if (it.size() > all.size()) break; }
        PCHECK(c, sorted(it) == std::vector<int>(all.begin(), all.end()), "bp-nodeiter", "node iterator " << show(it));
        it.clear(); for (auto ni = g->BegLNI(); ni < g->EndLNI(); ni++) { it.push_back(ni.GetId()); if (it.size() > all.size()) break; }
        PCHECK(c, sorted(it) == std::vector<int>(L.begin(), L.end()), "bp-lnodeiter", "left node iterator " << show(it));
        it.clear(); for (auto ni = g->BegRNI(); ni < g->EndRNI(); ni++) { it.push_back(ni.GetId()); if (it.size() > all.size()) break; }
        PCHECK(c, sorted(it) == std::vector<int>(R.begin(), R.end()), "bp-rnodeiter", "right node iterator " << show(it));
        std::set<std::pair<int, int>> got; size_t cnt = 0;
        for (auto ei = g->BegEI(); ei < g->EndEI(); ei++) { int a = ei.GetSrcNId(), b = ei.GetDstNId(); if (!L.count(a)) std::swap(a, b); got.insert({a, b}); if (++cnt > E.size() + 3) break; }
        PCHECK(c, cnt == E.size() && got == E, "bp-edgeiter", "the edge iterator visits " << cnt << " edges, expected " << E.size());
        c.evals++;
    }
    c.nontrivial(E.size() >= 2 && del);
}


// ---- attributes
struct Val { int t = -1; int i = 0; double f = 0; std::string s; std::vector<int> v;
    bool operator==(const Val &o) const { return t == o.t && i == o.i && f == o.f && s == o.s && v == o.v; }
    std::string show() const { std::ostringstream o; if (t == 0) o << i; else if (t == 1) o << f; else if (t == 2) o << "'" << s << "'"; else if (t == 3) o << ::show(v); else o << "none"; return o.str(); } };
static Val genVal(Src &s, int t) { Val v; v.t = t; if (t == 0) v.i = s.range(-5, 100); else if (t == 1) v.f = s.range(-50, 50) / 4.0; else if (t == 2) v.s = std::string("v") + std::to_string(s.below(30)); else { int n = s.below(4); for (int k = 0; k < n; ++k) v.v.push_back(s.below(9)); } return v; }
static Val defVal(int t) { Val v; v.t = t; if (t == 0) v.i = TInt::Mn; else if (t == 1) v.f = TFlt::Mn; else if (t == 2) v.s = TStr::GetNullStr().CStr(); return v; }
static TIntV toV(const std::vector<int> &v) { TIntV r; for (int x : v) r.Add(x); return r; }

// dense attributes of TNEANet: nodes and edges
struct DAttr { int t; Val def; bool declared; };
struct Dense { bool node; std::map<std::string, DAttr> attrs; std::map<int, std::map<std::string, Val>> vals; };
static Val getDense(PNEANet &g, bool node, int id, const std::string &a, int t) {
    Val v; v.t = t; TStr A(a.c_str());
    if (t == 0) v.i = node ? g->GetIntAttrDatN(id, A) : g->GetIntAttrDatE(id, A);
    else if (t == 1) v.f = node ? g->GetFltAttrDatN(id, A) : g->GetFltAttrDatE(id, A);
    else if (t == 2) v.s = (node ? g->GetStrAttrDatN(id, A) : g->GetStrAttrDatE(id, A)).CStr();
    else v.v = vec(node ? g->GetIntVAttrDatN(id, A) : g->GetIntVAttrDatE(id, A));
    return v;
}
static void setDense(Case &c, PNEANet &g, bool node, int id, const std::string &a, const Val &v) {
    TStr A(a.c_str()); int r;
    if (v.t == 0) r = node ? g->AddIntAttrDatN(id, TInt(v.i), A) : g->AddIntAttrDatE(id, TInt(v.i), A);
    else if (v.t == 1) r = node ? g->AddFltAttrDatN(id, TFlt(v.f), A) : g->AddFltAttrDatE(id, TFlt(v.f), A);
    else if (v.t == 2) r = node ? g->AddStrAttrDatN(id, TStr(v.s.c_str()), A) : g->AddStrAttrDatE(id, TStr(v.s.c_str()), A);
    else r = node ? g->AddIntVAttrDatN(id, toV(v.v), A) : g->AddIntVAttrDatE(id, toV(v.v), A);
    PCHECK(c, r == 0, "attr-set", "setting attribute " << a << " of " << id << " returns " << r);
}
static void netattr(Src &s, Case &c) {
    PNEANet g = TNEANet::New(); Dense D[2]; D[0].node = false; D[1].node = true; std::map<int, std::pair<int, int>> E; c.describe("TNEANet attributes:");
    int nops = s.range(4, 40); bool set = false, del = false; int dom = s.pick(std::vector<int>{4, 10});
    auto addItem = [&](Dense &d, int id) { auto &m = d.vals[id]; m.clear(); for (auto &a : d.attrs) m[a.first] = a.second.def; };
    auto check = [&]() {
        for (auto &d : D) {
            for (auto &it : d.vals) for (auto &a : d.attrs) {
                Val got = getDense(g, d.node, it.first, a.first, a.second.t);
                PCHECK(c, got == it.second[a.first], std::string("attr-value-") + (d.node ? "node" : "edge"), "attribute " << a.first << " of " << (d.node ? "node " : "edge ") << it.first << " is " << got.show() << " expected " << it.second[a.first].show());
            }
            TStrV in, fn, sn; if (d.node) g->GetAttrNNames(in, fn, sn); else g->GetAttrENames(in, fn, sn);
            for (int t = 0; t < 3; ++t) { std::set<std::string> got, exp; TStrV &v = t == 0 ? in : t == 1 ? fn : sn; for (int i = 0; i < v.Len(); ++i) got.insert(v[i].CStr()); for (auto &a : d.attrs) if (a.second.t == t) exp.insert(a.first);
                PCHECK(c, got == exp, "attr-names", "attribute names of type " << t << ": " << got.size() << " expected " << exp.size()); }
        }
        PCHECK(c, g->GetNodes() == (int) D[1].vals.size() && g->GetEdges() == (int) E.size(), "attr-counts", "node/edge counts");
    };
    auto any = [&](Dense &d) { auto it = d.vals.begin(); std::advance(it, s.below(d.vals.size())); return it->first; };
    for (int k = 0; k < nops; ++k) {
        int op = s.below(16); if (D[1].vals.size() < 2) op = 0;
        if (op <= 1) { int id = s.flip() ? -1 : (int) s.below(dom); if (D[1].vals.count(id)) id = -1; int r = g->AddNode(id); c.note(" AddNode(" + std::to_string(r) + ")"); addItem(D[1], r); }
        else if (op <= 3) { int a = any(D[1]), b = any(D[1]); int id = s.flip() ? -1 : (int) s.below(dom); if (E.count(id)) id = -1; int r = g->AddEdge(a, b, id); c.note(" AddEdge(" + std::to_string(a) + "," + std::to_string(b) + ")=" + std::to_string(r)); E[r] = {a, b}; addItem(D[0], r); }
        else if (op == 4) { // declare an attribute
            Dense &d = D[s.below(2)]; int t = s.below(4); std::string nm = std::string(1, "ifsv"[t]) + std::to_string(s.below(3)); if (d.attrs.count(nm)) continue;
            DAttr a; a.t = t; a.declared = true; a.def = t == 3 || s.flip() ? defVal(t) : genVal(s, t); TStr A(nm.c_str()); int r;
            if (t == 0) r = d.node ? g->AddIntAttrN(A, TInt(a.def.i)) : g->AddIntAttrE(A, TInt(a.def.i));
            else if (t == 1) r = d.node ? g->AddFltAttrN(A, TFlt(a.def.f)) : g->AddFltAttrE(A, TFlt(a.def.f));
            else if (t == 2) r = d.node ? g->AddStrAttrN(A, TStr(a.def.s.c_str())) : g->AddStrAttrE(A, TStr(a.def.s.c_str()));
            else r = d.node ? g->AddIntVAttrN(A) : g->AddIntVAttrE(A);
            c.note(std::string(" declare") + (d.node ? "N " : "E ") + nm + "=" + a.def.show()); PCHECK(c, r == 0, "attr-declare", "returns " << r);
            d.attrs[nm] = a; for (auto &v : d.vals) v.second[nm] = a.def;
        } else if (op <= 9) { // set a value
            Dense &d = D[s.below(2)]; if (d.vals.empty()) continue; int id = any(d); int t = s.below(4); std::string nm = std::string(1, "ifsv"[t]) + std::to_string(s.below(3)); Val v = genVal(s, t);
            c.note(std::string(" set") + (d.node ? "N " : "E ") + std::to_string(id) + "." + nm + "=" + v.show()); setDense(c, g, d.node, id, nm, v); set = true;
            if (!d.attrs.count(nm)) { DAttr a; a.t = t; a.declared = false; a.def = defVal(t); d.attrs[nm] = a; for (auto &x : d.vals) x.second[nm] = a.def; }
            d.vals[id][nm] = v;
        } else if (op == 10) { // delete one value
            Dense &d = D[s.below(2)]; if (d.vals.empty() || d.attrs.empty()) continue; int id = any(d); auto it = d.attrs.begin(); std::advance(it, s.below(d.attrs.size())); TStr A(it->first.c_str());
            c.note(std::string(" delval") + (d.node ? "N " : "E ") + std::to_string(id) + "." + it->first); int r = d.node ? g->DelAttrDatN(id, A) : g->DelAttrDatE(id, A); PCHECK(c, r == 0, "attr-delval", "returns " << r);
            d.vals[id][it->first] = it->second.def; del = true;
            if (it->second.t != 3) { bool dd = d.node ? g->IsAttrDeletedN(id, A) : g->IsAttrDeletedE(id, A); PCHECK(c, dd, "attr-isdeleted", "a deleted value is not reported as deleted"); }
        } else if (op == 11) { // delete an attribute
            Dense &d = D[s.below(2)]; if (d.attrs.empty()) continue; auto it = d.attrs.begin(); std::advance(it, s.below(d.attrs.size())); TStr A(it->first.c_str()); std::string nm = it->first;
            c.note(std::string(" delattr") + (d.node ? "N " : "E ") + nm); int r = d.node ? g->DelAttrN(A) : g->DelAttrE(A); PCHECK(c, r == 0, "attr-delattr", "returns " << r); d.attrs.erase(it); for (auto &v : d.vals) v.second.erase(nm); del = true;
        } else if (op == 12) { int n = any(D[1]); c.note(" DelNode(" + std::to_string(n) + ")"); g->DelNode(n); D[1].vals.erase(n); for (auto it = E.begin(); it != E.end();) if (it->second.first == n || it->second.second == n) { D[0].vals.erase(it->first); it = E.erase(it); } else ++it; del = true; }
        else if (op == 13) { if (E.empty()) continue; int e = any(D[0]); c.note(" DelEdge(" + std::to_string(e) + ")"); g->DelEdge(e); E.erase(e); D[0].vals.erase(e); del = true; }
        else if (op == 14) { c.note(" reload"); g = reload(g); }
        else { c.note(" Defrag"); g->Defrag(s.chance(1, 3)); }
        check(); c.evals++;
    }
    c.nontrivial(set && del);
}

// sparse attributes: TUndirNet/TDirNet (edges by end points) and TNEANet (edges by id)
template<class G> struct SA; // uniform access to edges
struct SAPair {
    template<class G, class V> static int set(G &g, std::pair<int, int> e, const TStr &a, const V &v) { return g.AddSAttrDatE(e.first, e.second, a, v); }
    template<class G, class V> static int get(G &g, std::pair<int, int> e, const TStr &a, V &v) { return g.GetSAttrDatE(e.first, e.second, a, v); }
    template<class G> static int del(G &g, std::pair<int, int> e, const TStr &a) { return g.DelSAttrDatE(e.first, e.second, a); }
    template<class G> static int names(G &g, std::pair<int, int> e, TAttrType t, TAttrPrV &v) { return g.GetSAttrVE(e.first, e.second, t, v); }
};
struct SAId {
    template<class G, class V> static int set(G &g, std::pair<int, int> e, const TStr &a, const V &v) { return g.AddSAttrDatE(TInt(e.first), a, v); }
    template<class G, class V> static int get(G &g, std::pair<int, int> e, const TStr &a, V &v) { return g.GetSAttrDatE(TInt(e.first), a, v); }
    template<class G> static int del(G &g, std::pair<int, int> e, const TStr &a) { return g.DelSAttrDatE(TInt(e.first), a); }
    template<class G> static int names(G &g, std::pair<int, int> e, TAttrType t, TAttrPrV &v) { return g.GetSAttrVE(TInt(e.first), t, v); }
};
template<> struct SA<TUndirNet> : SAPair { static std::vector<std::pair<int, int>> ids(TUndirNet &g, const TStr &a) { TIntPrV v; g.GetIdVSAttrE(a, v); std::vector<std::pair<int, int>> r; for (int i = 0; i < v.Len(); ++i) r.push_back({v[i].Val1, v[i].Val2}); return r; } };
template<> struct SA<TDirNet> : SAPair { static std::vector<std::pair<int, int>> ids(TDirNet &g, const TStr &a) { TIntPrV v; g.GetIdVSAttrE(a, v); std::vector<std::pair<int, int>> r; for (int i = 0; i < v.Len(); ++i) r.push_back({v[i].Val1, v[i].Val2}); return r; } };
template<> struct SA<TNEANet> : SAId { static std::vector<std::pair<int, int>> ids(TNEANet &g, const TStr &a) { TIntV v; g.GetIdVSAttrE(a, v); std::vector<std::pair<int, int>> r; for (int i = 0; i < v.Len(); ++i) r.push_back({v[i], 0}); return r; } };

template<class G> static void sparse(Src &s, Case &c) {
    typedef TPt<G> PG; typedef SA<G> A; bool undir = !Tr<G>::dir, multi = Tr<G>::multi; std::string nm = std::string("sattr-") + Tr<G>::name();
    PG g = G::New(); c.describe(std::string(Tr<G>::name()) + " sparse attributes:"); c.label(Tr<G>::name());
    std::set<int> N; typedef std::pair<int, int> PP; std::map<PP, PP> E; // key -> end points
    std::map<std::string, Val> tN, tE; // attribute types
    std::map<int, std::map<std::string, Val>> vN; std::map<PP, std::map<std::string, Val>> vE; bool set = false, del = false;
    auto norm = [&](int a, int b) { return undir && a > b ? PP(b, a) : PP(a, b); };
    auto any = [&]() { auto it = N.begin(); std::advance(it, s.below(N.size())); return *it; };
    auto anyE = [&]() { auto it = E.begin(); std::advance(it, s.below(E.size())); return *it; };
    int nops = s.range(5, 40), dom = s.pick(std::vector<int>{3, 6});
    auto fn = [](int t) { return std::string(1, "ifs"[t]); };
    for (int k = 0; k < nops; ++k) {
        int op = s.below(15); if (N.size() < 2) op = 0;
        if (op <= 1) { int id = s.below(dom + 3); if (N.count(id)) continue; g->AddNode(id); N.insert(id); c.note(" AddNode(" + std::to_string(id) + ")"); }
        else if (op <= 4) { int a = any(), b = any(); c.note(" AddEdge(" + std::to_string(a) + "," + std::to_string(b) + ")");
            if (multi) { int id = s.below(2 * dom); if (E.count({id, 0})) continue; struct L { static void add(TNEANet &g, int a, int b, int id) { g.AddEdge(a, b, id); } static void add(TUndirNet &g, int a, int b, int) { g.AddEdge(a, b); } static void add(TDirNet &g, int a, int b, int) { g.AddEdge(a, b); } }; L::add(*g, a, b, id); E[{id, 0}] = {a, b}; }
            else { g->AddEdge(a, b); E[norm(a, b)] = norm(a, b); } }
        else if (op <= 6) { int n = s.chance(1, 8) ? dom + 10 : any(), t = s.below(3); std::string a = fn(s.chance(1, 8) ? (int) s.below(3) : t) + std::to_string(s.below(2)); Val v = genVal(s, t); TStr an(a.c_str());
            c.note(" setN " + std::to_string(n) + "." + a + "=" + v.show()); int r = t == 0 ? g->AddSAttrDatN(TInt(n), an, TInt(v.i)) : t == 1 ? g->AddSAttrDatN(TInt(n), an, TFlt(v.f)) : g->AddSAttrDatN(TInt(n), an, TStr(v.s.c_str()));
            int e = !N.count(n) ? -1 : tN.count(a) && tN[a].t != t ? -2 : 0; PCHECK(c, (r == 0) == (e == 0), nm + "-setn", "AddSAttrDatN returns " << r << " expected " << e); if (!e) { tN[a].t = t; vN[n][a] = v; set = true; } }
        else if (op <= 9) { if (E.empty()) continue; auto ed = anyE(); PP key = ed.first, arg = key; if (undir && s.flip()) std::swap(arg.first, arg.second); int t = s.below(3); std::string a = fn(s.chance(1, 8) ? (int) s.below(3) : t) + std::to_string(s.below(2)); Val v = genVal(s, t); TStr an(a.c_str());
            c.note(" setE " + std::to_string(arg.first) + "," + std::to_string(arg.second) + "." + a + "=" + v.show()); int r = t == 0 ? A::set(*g, arg, an, TInt(v.i)) : t == 1 ? A::set(*g, arg, an, TFlt(v.f)) : A::set(*g, arg, an, TStr(v.s.c_str()));
            int e = tE.count(a) && tE[a].t != t ? -2 : 0; PCHECK(c, (r == 0) == (e == 0), nm + "-sete", "AddSAttrDatE returns " << r << " expected " << e); if (!e) { tE[a].t = t; vE[key][a] = v; set = true; } }
        else if (op == 10) { if (s.flip()) { if (vN.empty() || tN.empty()) continue; int n = any(); auto it = tN.begin(); std::advance(it, s.below(tN.size())); bool had = vN.count(n) && vN[n].count(it->first); c.note(" delN " + std::to_string(n) + "." + it->first); int r = g->DelSAttrDatN(TInt(n), TStr(it->first.c_str())); PCHECK(c, (r == 0) == had, nm + "-deln", "DelSAttrDatN returns " << r << " had " << had); vN[n].erase(it->first); }
            else { if (E.empty() || tE.empty()) continue; auto ed = anyE(); auto it = tE.begin(); std::advance(it, s.below(tE.size())); PP key = ed.first, arg = key; if (undir && s.flip()) std::swap(arg.first, arg.second); bool had = vE.count(key) && vE[key].count(it->first); c.note(" delE " + std::to_string(arg.first) + "," + std::to_string(arg.second) + "." + it->first); int r = A::del(*g, arg, TStr(it->first.c_str())); PCHECK(c, (r == 0) == had, nm + "-dele", "DelSAttrDatE returns " << r << " had " << had); vE[key].erase(it->first); }
            del = true; }
        else if (op == 11) { int n = any(); c.note(" DelNode(" + std::to_string(n) + ")"); g->DelNode(n); N.erase(n); vN.erase(n); for (auto it = E.begin(); it != E.end();) if (it->second.first == n || it->second.second == n) { vE.erase(it->first); it = E.erase(it); } else ++it; del = true; }
        else if (op == 12) { if (E.empty()) continue; auto ed = anyE(); int a = ed.second.first, b = ed.second.second; if (undir && s.flip()) std::swap(a, b); bool d = !Tr<G>::dir || s.flip(); c.note(" DelEdge(" + std::to_string(a) + "," + std::to_string(b) + (d ? ")" : ",undir)")); Call<G, (bool) Tr<G>::dir>::del(*g, a, b, d);
            for (auto it = E.begin(); it != E.end();) { PP p = it->second; if (p == PP(a, b) || (undir && p == PP(b, a)) || (!d && p == PP(b, a))) { vE.erase(it->first); it = E.erase(it); } else ++it; } del = true; }
        else if (op == 13) { c.note(" reload"); g = reload(g); }
        else { c.note(" Defrag"); g->Defrag(s.flip()); }
        // observe
        for (int n : N) for (auto &a : tN) { TStr an(a.first.c_str()); Val got; got.t = -1; int r; TInt i; TFlt f; TStr st; if (a.second.t == 0) { r = g->GetSAttrDatN(TInt(n), an, i); if (!r) { got.t = 0; got.i = i; } } else if (a.second.t == 1) { r = g->GetSAttrDatN(TInt(n), an, f); if (!r) { got.t = 1; got.f = f; } } else { r = g->GetSAttrDatN(TInt(n), an, st); if (!r) { got.t = 2; got.s = st.CStr(); } }
            Val exp; if (vN.count(n) && vN[n].count(a.first)) exp = vN[n][a.first]; PCHECK(c, got == exp, nm + "-getn", "node " << n << "." << a.first << " is " << got.show() << " expected " << exp.show()); }
        for (auto &ed : E) for (auto &a : tE) { PP arg = ed.first; if (undir && s.flip()) std::swap(arg.first, arg.second); TStr an(a.first.c_str()); Val got; got.t = -1; int r; TInt i; TFlt f; TStr st; if (a.second.t == 0) { r = A::get(*g, arg, an, i); if (!r) { got.t = 0; got.i = i; } } else if (a.second.t == 1) { r = A::get(*g, arg, an, f); if (!r) { got.t = 1; got.f = f; } } else { r = A::get(*g, arg, an, st); if (!r) { got.t = 2; got.s = st.CStr(); } }
            Val exp; if (vE.count(ed.first) && vE[ed.first].count(a.first)) exp = vE[ed.first][a.first]; PCHECK(c, got == exp, nm + "-gete", "edge " << ed.first.first << "," << ed.first.second << "." << a.first << " is " << got.show() << " expected " << exp.show()); }
        for (auto &a : tN) { TIntV v; g->GetIdVSAttrN(TStr(a.first.c_str()), v); std::vector<int> e; for (auto &x : vN) if (x.second.count(a.first)) e.push_back(x.first); PCHECK(c, sorted(vec(v)) == e, nm + "-idvn", "nodes with " << a.first << ": " << show(sorted(vec(v))) << " expected " << show(e)); }
        for (auto &a : tE) { auto v = A::ids(*g, TStr(a.first.c_str())); std::sort(v.begin(), v.end()); std::vector<PP> e; for (auto &x : vE) if (x.second.count(a.first)) e.push_back(x.first); PCHECK(c, v == e, nm + "-idve", "edges with " << a.first << ": " << v.size() << " expected " << e.size()); }
        for (int n : N) for (int t = 0; t < 3; ++t) { TAttrPrV v; g->GetSAttrVN(TInt(n), t == 0 ? atInt : t == 1 ? atFlt : atStr, v); std::set<std::string> got, exp; for (int i = 0; i < v.Len(); ++i) got.insert(v[i].Val1.CStr()); for (auto &x : vN[n]) if (x.second.t == t) exp.insert(x.first); PCHECK(c, got == exp, nm + "-vn", "attributes of node " << n); }
        for (auto &ed : E) for (int t = 0; t < 3; ++t) { TAttrPrV v; A::names(*g, ed.first, t == 0 ? atInt : t == 1 ? atFlt : atStr, v); std::set<std::string> got, exp; for (int i = 0; i < v.Len(); ++i) got.insert(v[i].Val1.CStr()); for (auto &x : vE[ed.first]) if (x.second.t == t) exp.insert(x.first); PCHECK(c, got == exp, nm + "-ve", "attributes of edge " << ed.first.first << "," << ed.first.second); }
        c.evals++;
    }
    c.nontrivial(set && del);
}
static void sattr(Src &s, Case &c) { switch (s.below(3)) { case 0: sparse<TUndirNet>(s, c); break; case 1: sparse<TDirNet>(s, c); break; default: sparse<TNEANet>(s, c); } }

int main(int argc, char **argv) {
    return Engine({Facet("graph", graph, 100000, 600000), Facet("bipartite", bipartite, 80000, 300000), Facet("netattr", netattr, 60000, 300000), Facet("sattr", sattr, 60000, 300000)}).main(argc, argv);
}
