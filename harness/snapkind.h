// What each SNAP graph kind keeps of a generated edge list, and comparison of a graph with an expected node set and edge multiset.
#pragma once
#include "snapgen.h"
#include <unistd.h>
#include <fcntl.h>
template<class PG> struct Kind;
template<> struct Kind<PUNGraph> { static const bool dir = false, multi = false; static const char *name() { return "UN"; } };
template<> struct Kind<PNGraph> { static const bool dir = true, multi = false; static const char *name() { return "N"; } };
template<> struct Kind<PNEANet> { static const bool dir = true, multi = true; static const char *name() { return "NEA"; } };
template<> struct Kind<PNEGraph> { static const bool dir = true, multi = true; static const char *name() { return "NE"; } };
typedef std::vector<std::set<int>> AdjV;
typedef std::vector<std::pair<int, int>> EdgeList;

// the multiset of edges the graph kind keeps
template<class PG> static EdgeList keep(const EdgeList &E0) {
    EdgeList r;
    if (Kind<PG>::multi) return E0;
    std::set<std::pair<int, int>> seen;
    for (auto e : E0) { if (!Kind<PG>::dir && e.first > e.second) std::swap(e.first, e.second); if (seen.insert(e).second) r.push_back(e); }
    return r;
}
template<class PG> static EdgeList edgesOf(const Gen &g) { return keep<PG>(g.edges); }
typedef std::multiset<std::pair<int, int>> EdgeSet;
template<class PG> static EdgeSet normal(const EdgeList &E) { EdgeSet r; for (auto e : E) { if (!Kind<PG>::dir && e.first > e.second) std::swap(e.first, e.second); r.insert(e); } return r; }
template<class PG> static EdgeSet graphEdges(const PG &G) { EdgeList v; for (auto e = G->BegEI(); e < G->EndEI(); e++) v.push_back({e.GetSrcNId(), e.GetDstNId()}); return normal<PG>(v); }
template<class PG> static std::set<int> graphNodes(const PG &G) { std::set<int> r; for (auto n = G->BegNI(); n < G->EndNI(); n++) r.insert(n.GetId()); return r; }
static std::string showE(const EdgeSet &E) { std::ostringstream o; for (auto &e : E) o << e.first << ">" << e.second << " "; return o.str(); }
template<class PG> static void same(Case &c, const PG &G, const std::set<int> &ns, const EdgeSet &E, const char *key) {
    PCHECK(c, graphNodes(G) == ns && G->GetNodes() == (int) ns.size(), std::string(key) + "-nodes", key << ": " << G->GetNodes() << " nodes, expected " << ns.size());
    EdgeSet got = graphEdges(G); PCHECK(c, got == E && G->GetEdges() == (int) E.size(), std::string(key) + "-edges", key << ": edges " << showE(got) << " expected " << showE(E));
    PCHECK(c, G->IsOk(), std::string(key) + "-ok", key << ": IsOk() is false");
}
// several SNAP routines print progress
struct Quiet { int sv, nu; Quiet() { fflush(stdout); sv = dup(1); nu = open("/dev/null", O_WRONLY); dup2(nu, 1); } ~Quiet() { fflush(stdout); dup2(sv, 1); close(sv); close(nu); } };
