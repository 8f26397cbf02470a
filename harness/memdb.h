// In-memory database behind the DBLayer interface: a set of triples, a dictionary, a scan that skips to hinted positions, and cost
// estimates that are either constant or arbitrary (a hash of the pattern).
#pragma once
#include <dblayer.hpp>
#include "pbt.h"
using namespace pbt;
typedef uint64_t u64;
#define Row PRow // trident has a class Row
typedef std::vector<u64> Row;
typedef std::map<Row, u64> Bag;
static const u64 NUL = UINT64_MAX;
static u64 nul(u64 v) { return v; }

// ------------------------------------------------------------------ in-memory database
struct Tri { u64 v[3]; bool operator<(const Tri &o) const { return std::lexicographical_compare(v, v + 3, o.v, o.v + 3); } };
static int POS[6][3] = {{0, 1, 2}, {0, 2, 1}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}, {1, 2, 0}}; // SPO SOP OPS OSP PSO POS, as in DataOrder
static const int UNORD[6] = {0, 1, 2, 3, 5, 4};                                          // Order_No_Order_*: SPO SOP OPS OSP POS PSO
static int permOf(DBLayer::DataOrder o) { return o < 6 ? o : UNORD[o - 6]; }
struct MemDB : public DBLayer {
    std::set<Tri> t; Src *s; bool loose; u64 skips, costSeed; std::vector<std::string> names; std::vector<Type::ID> types; std::vector<unsigned> subs;
    MemDB() : s(0), loose(false), skips(0), costSeed(0) {}
    double cost(std::initializer_list<u64> l, double top) { if (!costSeed) return 1; u64 h = costSeed; for (u64 x : l) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; } return 1 + (h % 1000) * top / 1000; }
    struct Sc : public DBLayer::Scan {
        MemDB *db; Aggr_t a; Hint *h; std::vector<Row> rows; size_t pos; // rows: v1 v2 v3 count, sorted
        void load(const DataOrder o, Aggr_t ag, Hint *hint) {
            a = ag; h = hint; pos = 0; std::map<Row, u64> m; const int *p = POS[permOf(o)]; int n = a == AGGR_NO ? 3 : a == AGGR_SKIP_LAST ? 2 : 1;
            for (auto &x : db->t) { Row r; for (int i = 0; i < 3; ++i) r.push_back(i < n ? x.v[p[i]] : 0); m[r]++; }
            for (auto &x : m) { Row r = x.first; r.push_back(x.second); rows.push_back(r); }
        }
        u64 getValue1() { return rows[pos][0]; } u64 getValue2() { return rows[pos][1]; } u64 getValue3() { return rows[pos][2]; } u64 getCount() { return rows[pos][3]; }
        size_t lim;
        bool ok() { return pos < lim; }
        bool next() {
            if (pos >= lim) return false;
            ++pos;
            if (pos < lim && h && db->s && db->s->chance(1, 3)) { // the engine may skip to the hinted position
                Row q(rows[pos].begin(), rows[pos].begin() + 3);
                if (a == AGGR_NO) h->next(q[0], q[1], q[2]); else if (a == AGGR_SKIP_LAST) h->next(q[0], q[1]); else h->next(q[0]);
                size_t np = std::lower_bound(rows.begin(), rows.begin() + lim, q) - rows.begin();
                if (np > pos) { db->skips += np - pos; pos = np; }
            }
            return ok();
        }
        bool seek(const Row &q, int con) { // position at the first match; strict layers only return matches, loose ones go on to the end
            pos = std::lower_bound(rows.begin(), rows.end(), q) - rows.begin(); lim = rows.size();
            if (!db->loose && con) { size_t e = pos; while (e < rows.size() && std::equal(q.begin(), q.begin() + con, rows[e].begin())) ++e; lim = e; }
            return ok();
        }
        bool first() { return seek(Row(), 0); }
        bool first(u64 x, bool c) { return seek(Row{x}, c ? 1 : 0); }
        bool first(u64 x, bool c, u64 y, bool d) { return seek(d ? Row{x, y} : Row{x}, c + (c && d)); }
        bool first(u64 x, bool c, u64 y, bool d, u64 z, bool e) { return seek(e ? Row{x, y, z} : d ? Row{x, y} : Row{x}, c + (c && d) + (c && d && e)); }
    };
    bool lookup(const std::string &x, ::Type::ID ty, unsigned st, u64 &id) { for (size_t i = 0; i < names.size(); ++i) if (names[i] == x && types[i] == ty && subs[i] == st) { id = i; return true; } return false; }
    bool lookupById(u64 id, const char *&a, const char *&b, ::Type::ID &ty, unsigned &st) { if (id >= names.size()) return false; a = names[id].c_str(); b = a + names[id].size(); ty = types[id]; st = subs[id]; return true; }
    bool lookupById(u64 id, char *o, size_t &n, ::Type::ID &ty, unsigned &st) { if (id >= names.size()) return false; n = names[id].size(); memcpy(o, names[id].data(), n); ty = types[id]; st = subs[id]; return true; }
    u64 getNextId() { return names.size(); }
    double getScanCost(DataOrder o, u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) { return cost({1, (u64) o, a, b, c, d, e, f}, 1000); }
    double getScanCost(DataOrder o, u64 a, u64 b, u64 c, u64 d) { return cost({2, (u64) o, a, b, c, d}, 1000); }
    double getJoinSelectivity(bool a, u64 b, bool c, u64 d, bool e, u64 f, bool g, u64 h, bool i, u64 j, bool k, u64 l) { double x = cost({3, a, b, c, d, e, f, g, h, i, j, k, l}, 2) - 1; return costSeed ? (x < 0.2 ? -1 : x) : 1; }
    double getScanCost(DataOrder o, u64 a, u64 b) { return cost({4, (u64) o, a, b}, 1000); }
    u64 getCardinality(u64 a, u64 b, u64 c) { return (u64) cost({5, a, b, c}, 500); }
    u64 getCardinality() { return t.size(); }
    std::unique_ptr<DBLayer::Scan> getScan(const DataOrder o, const Aggr_t a, Hint *h) { Sc *x = new Sc(); x->db = this; x->lim = 0; x->load(o, a, h); return std::unique_ptr<DBLayer::Scan>(x); }
};
static void fill(MemDB &db, Src &s) {
    int n = s.below(s.chance(1, 6) ? 80 : 25); u64 d[3]; for (int i = 0; i < 3; ++i) d[i] = 1 + s.below(s.flip() ? 4 : 12);
    for (int i = 0; i < n; ++i) { Tri x; for (int j = 0; j < 3; ++j) x.v[j] = s.below(d[j]); db.t.insert(x); }
}

