// SPARQL queries over a knowledge base loaded from text, through Trident's own database layer.
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/kbconfig.h>
#include <trident/kb/dictmgmt.h>
#include <layers/TridentLayer.hpp>
#define SPARQL_NO_MAIN
#include "sparql.cpp"

static int64_t g_breakpoint = 64;
extern "C" size_t __wrap__ZN12StorageStrat22getBinaryBreakingPointEv() { return g_breakpoint; }

static void kbquery(Src &s, Case &c) {
    MemDB db; Dict D; world(s, db, D); std::set<u64> used; for (auto &x : db.t) used.insert(x.v, x.v + 3);
    for (size_t i = 0; i < D.known; ++i) if (!used.count(i)) { Tri t; t.v[0] = D.iri[i] ? i : 0; t.v[1] = 0; t.v[2] = i; db.t.insert(t); } // every known term occurs in the data
    std::string d = c.dir("in"), nt, cfg; for (auto &x : db.t) { for (int j = 0; j < 3; ++j) nt += D.text(x.v[j]) + " "; nt += ".\n"; }
    { std::ofstream o((d + "/t.nt").c_str(), std::ios::binary); o << nt; }
    ParamsLoad p; p.inputformat = "rdf"; p.inputCompressed = false; p.triplesInputDir = d; p.kbDir = c.scratch + "/kb"; p.tmpDir = p.kbDir; p.parallelThreads = 1 + s.below(3); p.maxReadingThreads = 1;
    p.nindices = 6; p.aggrIndices = s.flip(); p.canSkipTables = s.flip(); p.thresholdSkipTable = s.below(8); p.enableFixedStrat = false; p.storePlainList = s.flip(); p.sample = s.flip(); p.sampleRate = s.flip() ? 0.01 : 0.5; p.flatTree = false; p.dictionaries = 1; p.dictMethod = DICT_HEURISTICS; p.storeDicts = true; p.relsOwnIDs = false;
    g_breakpoint = s.pick(std::vector<int64_t>{0, 2, 4, 64});
    cfg = std::string(p.aggrIndices ? " aggr" : "") + (p.canSkipTables ? " skip" + std::to_string(p.thresholdSkipTable) : "") + (p.storePlainList ? " plain" : "") + (p.sample ? " sample" : ""); c.describe("load" + cfg + "\n" + nt);
    { Loader l; l.load(p); }
    KBConfig kc; KB kb(p.kbDir.c_str(), true, false, true, kc); DictMgmt *dict = kb.getDictMgmt(); std::map<u64, u64> ids;
    for (size_t i = 0; i < D.known; ++i) { std::string x = D.text(i); nTerm v = 0; bool used = true, has = dict->getNumber(x.c_str(), x.size(), &v); PCHECK(c, has == used, "kbquery-dict", x << (has ? " is" : " is not") << " in the dictionary"); if (has) ids[v] = i; }
    TridentLayer layer(kb); if (!p.sample || s.chance(1, 3)) { layer.disableBifocalSampling(); cfg += " nobif"; }
    int n = 1 + s.below(12); for (int i = 0; i < n; ++i) { int level = s.below(4); ask(s, c, level, db, D, &layer, &ids); c.desc = "load" + cfg + " " + c.desc; c.evals++; c.label("queries"); }
}
int main(int argc, char **argv) { return Engine({Facet("kbquery", kbquery, 1500, 30000)}).main(argc, argv); }
