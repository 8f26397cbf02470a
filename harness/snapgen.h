// Random graphs and the reference model of a SNAP graph, shared by the SNAP harnesses.
#pragma once
#include "Snap.h"
#undef min
#undef max
#include <map>
#include <set>
#include <vector>
#include <string>
#include <sstream>
#include <algorithm>
#include <queue>
#include <cmath>
#include <memory>
#include "pbt.h"
using namespace pbt;

// A random directed graph (undirected users ignore the direction): node ids and edges in insertion order (duplicates possible)
struct Gen {
    std::vector<int> ids;
    std::vector<std::pair<int, int>> edges;
    std::string show() const {
        std::ostringstream o; o << "nodes";
        for (int i : ids) o << " " << i;
        o << " | edges";
        for (auto &e : edges) o << " " << e.first << ">" << e.second;
        return o.str();
    }
    int n() const { return ids.size(); }
};
struct GenOpt { int maxN = 14; bool dense0 = false; bool selfLoops = true; bool dup = true; int minN = 1; bool connectedBias = false; };

inline Gen genGraph(Src &s, const GenOpt &o) {
    Gen g; int n = s.range(o.minN, o.maxN);
    int idmode = o.dense0 ? 0 : s.below(4);
    std::set<int> ids;
    if (idmode == 0) for (int i = 0; i < n; ++i) ids.insert(i);
    else if (idmode == 1) { int off = s.range(1, 50); for (int i = 0; i < n; ++i) ids.insert(off + i); }
    else while ((int) ids.size() < n) ids.insert(idmode == 2 ? s.below(3 * n + 5) : (int) s.skew(1 << 20));
    g.ids.assign(ids.begin(), ids.end());
    if (!o.dense0 && s.flip()) for (int i = n - 1; i > 0; --i) std::swap(g.ids[i], g.ids[s.below(i + 1)]);
    auto add = [&](int a, int b) {
        if (a == b && !o.selfLoops) return;
        g.edges.push_back(std::make_pair(g.ids[a], g.ids[b]));
    };
    int shapes = s.range(1, 2);
    for (int sh = 0; sh < shapes; ++sh) {
        int kind = s.below(9);
        int lo = s.below(n), len = 1 + s.below(n - lo), hi = lo + len; // nodes [lo,hi)
        switch (kind) {
            case 0: for (int i = lo; i + 1 < hi; ++i) add(i, i + 1); break;                                      // path
            case 1: for (int i = lo; i < hi; ++i) add(i, i + 1 < hi ? i + 1 : lo); break;                        // cycle
            case 2: for (int i = lo; i < hi; ++i) if (i != lo) { if (s.flip()) add(lo, i); else add(i, lo); } break; // star
            case 3: if (len <= 7) for (int i = lo; i < hi; ++i) for (int j = lo; j < hi; ++j) if (i < j) { if (s.flip()) add(i, j); else add(j, i); } break; // clique
            case 4: for (int i = lo + 1; i < hi; ++i) { int p = lo + s.below(i - lo); if (s.flip()) add(p, i); else add(i, p); } break; // tree
            case 5: for (int i = lo; i < hi; ++i) for (int j = lo; j < hi; ++j) if ((i - lo) % 2 == 0 && (j - lo) % 2 == 1 && s.flip()) add(i, j); break; // bipartite
            default: { int m = s.below(3 * n + 1); if (m > 60) m = 60; for (int k = 0; k < m; ++k) add(s.below(n), s.below(n)); }
        }
    }
    if (o.connectedBias && s.chance(1, 2)) for (int i = 1; i < n; ++i) add(s.below(i), i);
    if (s.chance(1, 3) && !g.edges.empty()) { int k = s.range(1, 4); for (int i = 0; i < k; ++i) { auto e = s.pick(g.edges); g.edges.push_back(std::make_pair(e.second, e.first)); } }
    if (o.dup && s.chance(1, 4) && !g.edges.empty()) g.edges.push_back(s.pick(g.edges));
    return g;
}
inline bool nonTrivial(const Gen &g) { return g.n() >= 3 && g.edges.size() >= 2; }

template<class PG> PG buildSimple(const Gen &g) {
    PG G = PG::TObj::New();
    for (int i : g.ids) G->AddNode(i);
    for (auto &e : g.edges) G->AddEdge(e.first, e.second);
    return G;
}
// adjacency as index sets: out/in/und over positions in g.ids
struct Adj {
    int n; std::map<int, int> idx; std::vector<int> ids;
    std::vector<std::set<int>> out, in, und;
    explicit Adj(const Gen &g) : n(g.n()), ids(g.ids), out(n), in(n), und(n) {
        for (int i = 0; i < n; ++i) idx[ids[i]] = i;
        for (auto &e : g.edges) { int a = idx[e.first], b = idx[e.second]; out[a].insert(b); in[b].insert(a); und[a].insert(b); und[b].insert(a); }
    }
    const std::vector<std::set<int>> &get(bool dir) const { return dir ? out : und; }
};
inline std::vector<int> bfsDist(const std::vector<std::set<int>> &a, int s) {
    std::vector<int> d(a.size(), -1); std::queue<int> q; d[s] = 0; q.push(s);
    while (!q.empty()) { int u = q.front(); q.pop(); for (int v : a[u]) if (d[v] < 0) { d[v] = d[u] + 1; q.push(v); } }
    return d;
}
inline std::vector<int> vec(const TIntV &v) { std::vector<int> r; for (int i = 0; i < v.Len(); ++i) r.push_back(v[i]); return r; }
inline std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
inline std::string show(const std::vector<int> &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
inline bool near(double a, double b, double eps = 1e-9) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a - b) <= eps * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

// reload through the memory streams
template<class PG> PG reload(const PG &G) { TMOut O; G->Save(O); PSIn I = O.GetSIn(false); return PG::TObj::Load(*I); }
