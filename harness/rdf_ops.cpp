// RDF engine operators over in-memory inputs against bag relational algebra.
#include <dblayer.hpp>
#include <rts/runtime/Runtime.hpp>
#include <rts/runtime/DomainDescription.hpp>
#include <rts/runtime/TemporaryDictionary.hpp>
#include <rts/operator/Operator.hpp>
#include <rts/operator/PlanPrinter.hpp>
#include <rts/operator/Scheduler.hpp>
#include <rts/operator/IndexScan.hpp>
#include <rts/operator/AggregatedIndexScan.hpp>
#include <rts/operator/FullyAggregatedIndexScan.hpp>
#include <rts/operator/MergeJoin.hpp>
#include <rts/operator/HashJoin.hpp>
#include <rts/operator/NestedLoopJoin.hpp>
#include <rts/operator/CartProd.hpp>
#include <rts/operator/Union.hpp>
#include <rts/operator/MergeUnion.hpp>
#include <rts/operator/Minus.hpp>
#include <rts/operator/DuplLimit.hpp>
#include <rts/operator/HashGroupify.hpp>
#include <rts/operator/GroupBy.hpp>
#include <rts/operator/Sort.hpp>
#include <rts/operator/Filter.hpp>
#include <rts/operator/NestedLoopFilter.hpp>
#include <rts/operator/ValuesScan.hpp>
#include <rts/operator/SingletonScan.hpp>
#include <rts/operator/EmptyScan.hpp>
#include <rts/operator/Assignment.hpp>
#include <infra/util/Pool.hpp>
#include <infra/util/VarPool.hpp>
#include <memory>
#include <atomic>
#include <mutex>
#include "memdb.h"
// ------------------------------------------------------------------ in-memory input operator
struct In : public Operator {
    std::vector<Register *> regs; std::vector<Row> rows; size_t pos; bool scramble; int runs; // row: values, count
    In(const std::vector<Register *> &r, const std::vector<Row> &x, bool scramble) : Operator(1), regs(r), rows(x), pos(0), scramble(scramble), runs(0) {}
    u64 put() {
        if (pos >= rows.size()) { if (scramble) for (auto r : regs) r->value = 424242; return 0; } // what a filtering input leaves behind
        for (size_t i = 0; i < regs.size(); ++i) regs[i]->value = rows[pos][i];
        return rows[pos].back();
    }
    u64 first() { pos = 0; runs++; return put(); }
    u64 next() { if (pos < rows.size()) ++pos; return put(); }
    void print(PlanPrinter &) {} void addMergeHint(Register *, Register *) {} void getAsyncInputCandidates(Scheduler &) {}
};
static std::vector<Row> genRows(Src &s, int ar, int maxN, u64 dom, bool sorted, bool counts = true) {
    std::vector<Row> r; int n = s.below(maxN + 1);
    for (int i = 0; i < n; ++i) { Row x; for (int j = 0; j < ar; ++j) x.push_back(s.below(dom)); x.push_back(counts && s.chance(1, 3) ? 1 + s.below(4) : 1); r.push_back(x); }
    if (sorted) std::stable_sort(r.begin(), r.end(), [](const Row &a, const Row &b) { return a[0] < b[0]; });
    return r;
}
static std::string show(const std::vector<Row> &r) { std::ostringstream o; o << "["; for (size_t i = 0; i < r.size() && i < 30; ++i) { if (i) o << " "; for (size_t j = 0; j + 1 < r[i].size(); ++j) { if (j) o << ","; if (nul(r[i][j]) == NUL) o << "-"; else o << r[i][j]; } o << "x" << r[i].back(); } o << "]"; return o.str(); }
static std::string show(const Bag &b) { std::vector<Row> r; for (auto &x : b) { Row y = x.first; y.push_back(x.second); r.push_back(y); } return show(r); }
// run an operator to its end; order = the rows as produced
static Bag run(Case &c, Operator *op, const std::vector<Register *> &out, std::vector<Row> *order = 0, size_t cap = 200000) {
    Bag b; size_t k = 0;
    for (u64 n = op->first(); n; n = op->next()) {
        Row r; for (auto x : out) r.push_back(nul(x->value));
        b[r] += n; if (order) { r.push_back(n); order->push_back(r); }
        if (++k > cap) { PFAIL(c, "op-runaway", "the operator does not end"); break; }
    }
    return b;
}
static void expect(Case &c, const char *key, const Bag &got, const Bag &want) { PCHECK(c, got == want, key, "expected " + show(want) + "\n     got " + show(got)); }

// ------------------------------------------------------------------ scans
struct Regs { std::vector<Register> r; Regs(size_t n, u64 init = 777) : r(n) { for (auto &x : r) { x.value = init; x.domain = 0; } } Register *operator[](size_t i) { return &r[i]; } };
static void scan(Src &s, Case &c) {
    MemDB db; fill(db, s); db.s = s.flip() ? &s : 0; db.loose = s.flip();
    DBLayer::DataOrder o = (DBLayer::DataOrder) s.below(12); const int *p = POS[permOf(o)]; int kind = s.below(3), n = 3 - kind;
    Regs R(3); bool bound[3]; std::string d = "order " + std::to_string(o) + " kind " + std::to_string(kind) + " bound";
    for (int i = 0; i < 3; ++i) { bound[i] = s.flip(); if (bound[i]) { R[i]->value = s.chance(1, 8) ? 50 + s.below(3) : s.below(5); d += " " + std::to_string(i) + "=" + std::to_string(R[i]->value); } }
    Register *a[3]; bool used[3] = {false, false, false}; for (int i = 0; i < n; ++i) used[p[i]] = true;
    for (int i = 0; i < 3; ++i) { a[i] = used[i] ? R[i] : 0; if (!used[i]) bound[i] = false; }
    std::unique_ptr<Operator> op;
    if (kind == 0) op.reset(IndexScan::create(db, o, a[0], bound[0], a[1], bound[1], a[2], bound[2], 1));
    else if (kind == 1) op.reset(AggregatedIndexScan::create(db, o, a[0], bound[0], a[1], bound[1], a[2], bound[2], 1));
    else op.reset(FullyAggregatedIndexScan::create(db, o, a[0], bound[0], a[1], bound[1], a[2], bound[2], 1));
    int rounds = 1 + s.below(3); c.describe(d + " over " + std::to_string(db.t.size()) + " triples"); c.nontrivial(db.t.size() >= 4); c.label(kind == 0 ? "full scan" : kind == 1 ? "aggregated" : "fully aggregated");
    std::vector<Register *> out; for (int i = 0; i < n; ++i) out.push_back(a[p[i]]);
    for (int k = 0; k < rounds; ++k) { // a scan is restarted with other bound values inside nested loops
        if (k) for (int i = 0; i < 3; ++i) if (bound[i]) R[i]->value = s.below(5);
        Bag want; for (auto &x : db.t) { bool ok = true; for (int i = 0; i < 3; ++i) if (bound[i] && x.v[i] != R[i]->value) ok = false; if (!ok) continue; Row r; for (int i = 0; i < n; ++i) r.push_back(x.v[p[i]]); want[r]++; }
        std::vector<Row> seq; Bag got = run(c, op.get(), out, &seq);
        expect(c, "scan-tuples", got, want);
        if (o < 6) for (size_t i = 1; i < seq.size(); ++i) PCHECK(c, Row(seq[i - 1].begin(), seq[i - 1].end() - 1) < Row(seq[i].begin(), seq[i].end() - 1), "scan-order", "tuples out of order: " + show(seq));
        u64 tot = 0; for (auto &x : want) tot += x.second;
        if (!want.empty()) PCHECK(c, op->getObservedOutputCardinality() == tot, "scan-observed", "observed cardinality " + std::to_string(op->getObservedOutputCardinality()) + " for " + std::to_string(tot));
    }
}

// ------------------------------------------------------------------ joins
// an input with `ar` columns; column 0 is the join column
struct Input { Operator *op; std::vector<Register *> regs; std::vector<Row> rows; std::string d; };
static Bag bagOf(const std::vector<Row> &r) { Bag b; for (auto &x : r) b[Row(x.begin(), x.end() - 1)] += x.back(); return b; }
static Input mkIn(Src &s, Regs &R, size_t &ri, MemDB &db, bool sorted, u64 dom, bool scans, int depth = 0) {
    Input in; int k = scans ? s.below(6) : 0;
    if (k >= 1 && k <= 3) { // an index scan sorted on its first variable
        int kind = k - 1; DBLayer::DataOrder o = (DBLayer::DataOrder) s.below(6); const int *p = POS[o]; int n = 3 - kind; Register *a[3] = {0, 0, 0}; bool b[3] = {false, false, false}; int nb = n > 1 ? s.below(n) : 0;
        std::vector<Register *> all; for (int i = 0; i < n; ++i) { a[p[i]] = R[ri++]; all.push_back(a[p[i]]); }
        u64 con[3]; in.d = "scan" + std::to_string(kind) + "/" + std::to_string(o);
        for (int i = 0; i < nb; ++i) { b[p[i]] = true; con[i] = s.below(4); a[p[i]]->value = con[i]; in.d += " =" + std::to_string(con[i]); }
        if (kind == 0) in.op = IndexScan::create(db, o, a[0], b[0], a[1], b[1], a[2], b[2], 1);
        else if (kind == 1) in.op = AggregatedIndexScan::create(db, o, a[0], b[0], a[1], b[1], a[2], b[2], 1);
        else in.op = FullyAggregatedIndexScan::create(db, o, a[0], b[0], a[1], b[1], a[2], b[2], 1);
        std::map<Row, u64> m; for (auto &x : db.t) { Row r; bool ok = true; for (int i = 0; i < n; ++i) { if (i < nb && x.v[p[i]] != con[i]) ok = false; r.push_back(x.v[p[i]]); } if (ok) m[Row(r.begin() + nb, r.end())]++; }
        for (auto &x : m) { Row r = x.first; r.push_back(x.second); in.rows.push_back(r); }
        in.regs.assign(all.begin() + nb, all.end());
    } else if (k == 4 && depth < 2) { // a nested merge join on the same variable
        Input l = mkIn(s, R, ri, db, true, dom, scans, depth + 1), r = mkIn(s, R, ri, db, true, dom, scans, depth + 1);
        std::vector<Register *> lt(l.regs.begin() + 1, l.regs.end()), rt(r.regs.begin() + 1, r.regs.end());
        in.op = new MergeJoin(l.op, l.regs[0], lt, r.op, r.regs[0], rt, false, false, 1);
        for (auto &x : l.rows) for (auto &y : r.rows) if (x[0] == y[0]) { Row z(x.begin(), x.end() - 1); z.insert(z.end(), y.begin() + 1, y.end() - 1); z.push_back(x.back() * y.back()); in.rows.push_back(z); }
        in.regs = l.regs; in.regs.insert(in.regs.end(), rt.begin(), rt.end()); in.d = "(" + l.d + " join " + r.d + ")";
        return in;
    } else {
        int ar = 1 + s.below(3); for (int i = 0; i < ar; ++i) in.regs.push_back(R[ri++]);
        in.rows = genRows(s, ar, 14, dom, sorted); in.op = new In(in.regs, in.rows, s.flip());
    }
    if (k != 4) in.d += show(in.rows);
    return in;
}
static std::vector<Register *> cat(const std::vector<Register *> &a, const std::vector<Register *> &b, size_t skip = 0) { std::vector<Register *> r = a; r.insert(r.end(), b.begin() + skip, b.end()); return r; }
static void join(Src &s, Case &c) {
    MemDB db; fill(db, s); db.s = &s; db.loose = s.flip();
    Regs R(64, NUL); size_t ri = 0; int kind = s.below(4); u64 dom = s.chance(1, 5) ? 40 : 1 + s.below(8); static const char *nm[] = {"merge", "hash", "nested loop", "product"};
    bool domains = s.chance(1, 3); PotentialDomainDescription pd;
    Input l = mkIn(s, R, ri, db, kind == 0, dom, true), r = mkIn(s, R, ri, db, kind == 0, dom, true);
    if (kind == 1 && s.chance(1, 6)) { // keys that collide in the hash table, or many keys
        bool many = s.flip(); int n = many ? s.range(900, 2600) : s.range(3, 40); delete l.op; l.rows.clear();
        for (int i = 0; i < n; ++i) { Row x; for (size_t j = 0; j < l.regs.size(); ++j) x.push_back(j ? s.below(3) : many ? s.below(4000) : (u64) s.below(30) << 10); x.push_back(1 + s.below(2)); l.rows.push_back(x); }
        l.op = new In(l.regs, l.rows, false); l.d = many ? "many" : "colliding " + show(l.rows);
        if (!r.rows.empty() && dynamic_cast<In *>(r.op)) { for (auto &x : r.rows) x[0] = l.rows[s.below(l.rows.size())][0]; delete r.op; r.op = new In(r.regs, r.rows, false); }
        c.label(many ? "many keys" : "colliding keys");
    }
    if (domains && kind < 2) { l.regs[0]->domain = r.regs[0]->domain = &pd; }
    std::vector<Register *> lt(l.regs.begin() + 1, l.regs.end()), rt(r.regs.begin() + 1, r.regs.end()); std::unique_ptr<Operator> op;
    if (kind == 0) op.reset(new MergeJoin(l.op, l.regs[0], lt, r.op, r.regs[0], rt, false, false, 1));
    else if (kind == 1) op.reset(new HashJoin(l.op, l.regs[0], lt, r.op, r.regs[0], rt, 1, 1, 1, false, false, 0));
    else if (kind == 2) op.reset(new NestedLoopJoin(l.op, r.op, 1));
    else op.reset(new CartProd(l.op, l.regs, r.op, r.regs, 1, false, false, 0));
    c.describe(std::string(nm[kind]) + " join (join column first) of " + l.d + " and " + r.d + (domains ? " with a shared domain" : ""));
    { std::map<u64, u64> f; u64 out = 0; for (auto &x : l.rows) f[x[0]]++; for (auto &y : r.rows) out += kind > 1 ? l.rows.size() : f[y[0]]; if (out > 60000) { c.label("too large"); return; } }
    Bag want; size_t big = 0; bool rep = false; std::map<u64, int> lc; for (auto &x : l.rows) lc[x[0]]++;
    for (auto &x : l.rows) for (auto &y : r.rows) if (kind > 1 || x[0] == y[0]) { Row z(x.begin(), x.end() - 1); z.insert(z.end(), y.begin(), y.end() - 1); want[z] += x.back() * y.back(); ++big; if (lc[x[0]] > 1) rep = true; }
    c.nontrivial(big >= 2); c.label(nm[kind]); if (rep) c.label("repeated keys"); if (domains) c.label("domain");
    std::vector<Row> seq; Bag got = run(c, op.get(), cat(l.regs, r.regs), &seq);
    expect(c, kind == 0 ? "merge-join" : kind == 1 ? "hash-join" : kind == 2 ? "nested-loop-join" : "cartesian-product", got, want);
    if (kind == 0) for (size_t i = 1; i < seq.size(); ++i) PCHECK(c, seq[i - 1][0] <= seq[i][0], "merge-join-order", "output not sorted: " + show(seq));
    if (db.skips) c.label("skipping scan");
    if (s.chance(1, 3) && !domains) { // run again, as inside a nested loop
        Bag again = run(c, op.get(), cat(l.regs, r.regs)); PCHECK(c, again == want, "join-rerun", "the second run differs: expected " + show(want) + "\n     got " + show(again)); c.label("run twice");
    }
}
// left outer joins: the optional side is padded with nulls
static void outer(Src &s, Case &c) {
    Regs R(32); size_t ri = 0; MemDB db; int kind = s.below(3); bool leftOpt = s.flip(); static const char *nm[] = {"merge", "hash", "product"};
    u64 dom = 1 + s.below(8);
    Input l = mkIn(s, R, ri, db, kind == 0, dom, false), r = mkIn(s, R, ri, db, kind == 0, dom, false);
    std::vector<Register *> lt(l.regs.begin() + 1, l.regs.end()), rt(r.regs.begin() + 1, r.regs.end()); std::unique_ptr<Operator> op;
    if (kind == 0) op.reset(new MergeJoin(l.op, l.regs[0], lt, r.op, r.regs[0], rt, leftOpt, !leftOpt, 1));
    else if (kind == 1) op.reset(new HashJoin(l.op, l.regs[0], lt, r.op, r.regs[0], rt, 1, 1, 1, leftOpt, !leftOpt, 0));
    else op.reset(new CartProd(l.op, l.regs, r.op, r.regs, 1, leftOpt, !leftOpt, 0));
    c.describe(std::string(nm[kind]) + " join, " + (leftOpt ? "left" : "right") + " side optional: " + l.d + " and " + r.d);
    Input &m = leftOpt ? r : l, &o = leftOpt ? l : r; Bag want; int matched = 0, un = 0;
    // columns: the join value (from the mandatory side), the other columns of the left and right side
    auto push = [&](const Row *x, const Row *y, u64 n) { Row z; if (kind < 2) z.push_back(leftOpt ? (*y)[0] : (*x)[0]); size_t f = kind < 2 ? 1 : 0;
        for (size_t i = f; i < l.regs.size(); ++i) z.push_back(x ? (*x)[i] : NUL); for (size_t i = f; i < r.regs.size(); ++i) z.push_back(y ? (*y)[i] : NUL); want[z] += n; };
    for (auto &x : m.rows) { bool any = false; for (auto &y : o.rows) if (kind == 2 || x[0] == y[0]) { any = true; matched++; if (leftOpt) push(&y, &x, x.back() * y.back()); else push(&x, &y, x.back() * y.back()); } if (!any) { un++; if (leftOpt) push(0, &x, x.back()); else push(&x, 0, x.back()); } }
    c.nontrivial(matched && (un || kind == 2)); c.label(nm[kind]); if (matched && un) c.label("matched and unmatched");
    std::vector<Register *> out; if (kind < 2) { out.push_back(leftOpt ? r.regs[0] : l.regs[0]); out = cat(cat(out, lt), rt); } else out = cat(l.regs, r.regs);
    Bag got = run(c, op.get(), out);
    expect(c, kind == 0 ? "outer-merge-join" : kind == 1 ? "outer-hash-join" : "outer-product", got, want);
}

// ------------------------------------------------------------------ set operators
static void setops(Src &s, Case &c) {
    Regs R(40); size_t ri = 0; MemDB db; int kind = s.below(9); u64 dom = s.chance(1, 5) ? 100 : 1 + s.below(6); std::unique_ptr<Operator> op; std::vector<Register *> out; Bag want; std::string d; bool ordered = false; const char *key = "";
    int ar = 1 + s.below(3); std::vector<Register *> regs; for (int i = 0; i < ar; ++i) regs.push_back(R[ri++]);
    std::vector<u64> valuesKept; bool rerun = true; (void) valuesKept;
    auto in = [&](bool sorted = false) { std::vector<Row> r = genRows(s, ar, s.chance(1, 5) ? 60 : 12, dom, sorted); d += " " + show(r); return r; };
    std::vector<Row> seqWant; bool haveSeq = false;
    if (kind == 0) { // union with projection mappings
        key = "union"; int np = 1 + s.below(3); std::vector<Operator *> parts; std::vector<std::vector<Register *>> maps, inits; int oa = 1 + s.below(3); for (int i = 0; i < oa; ++i) out.push_back(R[ri++]);
        for (int k = 0; k < np; ++k) {
            int a = 1 + s.below(3); std::vector<Register *> pr; for (int i = 0; i < a; ++i) pr.push_back(R[ri++]);
            std::vector<Row> rows = genRows(s, a, 8, dom, false); d += " part" + show(rows); parts.push_back(new In(pr, rows, s.flip()));
            std::vector<Register *> mp, it; std::vector<int> from(oa, -1); for (int i = 0; i < oa; ++i) if (s.chance(3, 4)) { from[i] = s.below(a); mp.push_back(pr[from[i]]); mp.push_back(out[i]); } else it.push_back(out[i]);
            maps.push_back(mp); inits.push_back(it);
            for (auto &x : rows) { Row z; for (int i = 0; i < oa; ++i) z.push_back(from[i] < 0 ? NUL : x[from[i]]); want[z] += x.back(); }
        }
        op.reset(new Union(parts, maps, inits, 1)); c.nontrivial(want.size() > 1);
    } else if (kind == 1) {
        key = "merge-union"; ar = 1; Register *a = R[ri++], *b = R[ri++], *r = s.flip() ? a : R[ri++]; std::vector<Row> x = in(true), y = in(true);
        op.reset(new MergeUnion(r, new In({a}, x, s.flip()), a, new In({b}, y, s.flip()), b, 1)); out = {r}; ordered = true;
        for (auto &z : x) want[{z[0]}] += z[1]; for (auto &z : y) want[{z[0]}] += z[1]; c.nontrivial(x.size() && y.size());
    } else if (kind == 2) {
        key = "minus"; std::vector<Row> x = in(); int b = 1 + s.below(3); std::vector<Register *> mr; for (int i = 0; i < b; ++i) mr.push_back(R[ri++]);
        std::vector<Row> y = genRows(s, b, 10, dom, false); d += " minus " + show(y); int k = 1 + s.below(std::min(ar, b)); std::vector<std::pair<Register *, Register *>> ch; std::vector<std::pair<int, int>> cols;
        for (int i = 0; i < k; ++i) { int p = s.below(ar), q = s.below(b); ch.push_back({regs[p], mr[q]}); cols.push_back({p, q}); d += " " + std::to_string(p) + "=" + std::to_string(q); }
        op.reset(new Minus(new In(regs, x, s.flip()), new In(mr, y, s.flip()), ch, 1)); out = regs;
        for (auto &z : x) { bool hit = false; for (auto &w : y) { bool e = true; for (auto &q : cols) if (z[q.first] != w[q.second]) e = false; if (e) hit = true; } if (!hit) want[Row(z.begin(), z.end() - 1)] += z.back(); }
        c.nontrivial(x.size() > 1 && !y.empty());
    } else if (kind == 3) {
        key = "limit"; std::vector<Row> x = in(); bool dup = s.flip(); u64 lim = s.chance(1, 3) ? UINT64_MAX : s.below(12), off = s.flip() ? 0 : s.below(6); d += std::string(dup ? " duplicates" : " no duplicates") + " limit " + std::to_string(lim) + " offset " + std::to_string(off);
        op.reset(new DuplLimit(new In(regs, x, s.flip()), regs, dup ? DuplLimit::Duplicates : DuplLimit::NoDuplicates, lim, off)); out = regs; haveSeq = true; rerun = false;
        u64 k = 0; for (auto &z : x) for (u64 i = 0; i < (dup ? z.back() : 1); ++i, ++k) if (k >= off && seqWant.size() < lim) { Row w(z.begin(), z.end() - 1); want[w]++; w.push_back(1); seqWant.push_back(w); }
        c.nontrivial(x.size() > 2);
    } else if (kind == 4) {
        key = "groupify"; int n = s.chance(1, 10) ? s.range(100, 600) : 0; std::vector<Row> x = in(); if (n) { u64 big = s.flip() ? 1000 : 20; for (int i = 0; i < n; ++i) { Row r; for (int j = 0; j < ar; ++j) r.push_back(s.below(big)); r.push_back(1); x.push_back(r); } }
        op.reset(new HashGroupify(new In(regs, x, s.flip()), regs, 1)); out = regs; want = bagOf(x); haveSeq = false; c.nontrivial(x.size() > 2);
    } else if (kind == 5) {
        key = "groupby"; std::vector<Row> x = in(); std::map<unsigned, Register *> b; std::vector<unsigned> ids; for (int i = 0; i < ar; ++i) { unsigned id = 3 * i + s.below(3); b[id] = regs[i]; ids.push_back(id); }
        std::vector<int> ks; for (int i = 0; i < ar; ++i) if (s.flip()) ks.push_back(i); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[s.below(i)]); if (ks.empty()) ks.push_back(0);
        std::vector<unsigned> gr; for (int k : ks) gr.push_back(ids[k]); bool dist = s.flip(); d += dist ? " distinct by" : " by"; for (int k : ks) d += " " + std::to_string(k);
        op.reset(new GroupBy(new In(regs, x, s.flip()), b, gr, dist, 1)); out = regs; c.nontrivial(x.size() > 2);
        std::vector<Row> seq; Bag got = run(c, op.get(), out, &seq);
        auto kof = [&](const Row &r) { Row k; for (int i : ks) k.push_back(r[i]); return k; };
        c.describe(std::string(key) + d);
        for (size_t i = 1; i < seq.size(); ++i) PCHECK(c, kof(seq[i - 1]) <= kof(seq[i]), "groupby-order", "not grouped: " + show(seq));
        if (!dist) expect(c, "groupby", got, bagOf(x));
        else { std::set<Row> k1, k2; for (auto &z : x) k1.insert(kof(z)); for (auto &z : seq) { PCHECK(c, k2.insert(kof(z)).second, "groupby-distinct", "key twice: " + show(seq)); PCHECK(c, bagOf(x).count(Row(z.begin(), z.end() - 1)), "groupby-distinct", "row not in the input"); PCHECK(c, z.back() == 1, "groupby-distinct", "count of a distinct row is not 1"); } PCHECK(c, k1 == k2, "groupby-distinct", "keys lost: " + show(seq)); }
        c.label(key); return;
    } else if (kind == 6) {
        key = "filter"; std::vector<Row> x = in(); int col = s.below(ar); bool ex = s.flip(), dom2 = s.chance(1, 3); std::vector<u64> v; int n = s.below(5); for (int i = 0; i < n; ++i) v.push_back(s.below(dom + 2)); d += ex ? " not in" : " in"; for (u64 y : v) d += " " + std::to_string(y);
        static PotentialDomainDescription pd; pd = PotentialDomainDescription(); if (dom2) regs[col]->domain = &pd;
        op.reset(new Filter(new In(regs, x, s.flip()), regs[col], v, ex, 1)); out = regs; haveSeq = true;
        for (auto &z : x) if ((std::count(v.begin(), v.end(), z[col]) > 0) != ex) { want[Row(z.begin(), z.end() - 1)] += z.back(); seqWant.push_back(z); }
        c.nontrivial(x.size() > 2 && n);
        std::vector<Row> seq; Bag got = run(c, op.get(), out, &seq); c.describe(std::string(key) + " column " + std::to_string(col) + d); expect(c, key, got, want); PCHECK(c, seq == seqWant, "filter-order", "rows reordered");
        if (dom2 && !ex) for (u64 y : v) PCHECK(c, pd.couldQualify(y), "filter-domain", "the domain excludes an allowed value " + std::to_string(y));
        c.label(key); return;
    } else if (kind == 7) {
        key = "values"; int n = s.below(8); std::vector<u64> v; for (int i = 0; i < n * ar; ++i) v.push_back(s.below(dom)); out = regs; haveSeq = true; for (int i = 0; i < n; ++i) { Row w(v.begin() + i * ar, v.begin() + (i + 1) * ar); want[w]++; w.push_back(1); seqWant.push_back(w); }
        valuesKept = v; op.reset(new ValuesScan(regs, valuesKept, 1)); d += " " + show(seqWant); c.nontrivial(n > 1);
    } else {
        key = "bind"; std::vector<Row> x = in(); int no = 1 + s.below(2); std::vector<Assignment::AssignmentArgument> as; std::vector<Register *> o2; std::vector<int> from; std::vector<u64> con;
        for (int i = 0; i < no; ++i) { Assignment::AssignmentArgument a; a.reg = 0; a.defaultValue = s.below(9); int f = s.flip() ? (int) s.below(ar) : -1; if (f >= 0) a.reg = regs[f]; as.push_back(a); o2.push_back(R[ri++]); from.push_back(f); con.push_back(a.defaultValue); }
        op.reset(new Assignment(new In(regs, x, s.flip()), as, o2, 1)); out = cat(regs, o2); haveSeq = true;
        for (auto &z : x) { Row w(z.begin(), z.end() - 1); for (int i = 0; i < no; ++i) w.push_back(from[i] >= 0 ? z[from[i]] : con[i]); want[w] += z.back(); w.push_back(z.back()); seqWant.push_back(w); }
        c.nontrivial(x.size() > 1);
    }
    c.describe(std::string(key) + d); c.label(key);
    int rounds = rerun && s.chance(1, 3) ? 2 : 1;
    for (int k = 0; k < rounds; ++k) {
        std::vector<Row> seq; Bag got = run(c, op.get(), out, &seq);
        expect(c, k ? (std::string(key) + "-rerun").c_str() : key, got, want);
        if (haveSeq) PCHECK(c, seq == seqWant, "order", std::string(key) + " reordered: expected " + show(seqWant) + " got " + show(seq));
        if (ordered) for (size_t i = 1; i < seq.size(); ++i) PCHECK(c, seq[i - 1][0] <= seq[i][0], "merge-union-order", "not sorted: " + show(seq));
        if (kind == 4) { std::set<Row> k2; for (auto &z : seq) PCHECK(c, k2.insert(Row(z.begin(), z.end() - 1)).second, "groupify-duplicate", "a group appears twice: " + show(seq)); }
    }
    if (rounds > 1) c.label("run twice");
}
// nested loops over scans bound by the outer side, value filters, sorting
static void loops(Src &s, Case &c) {
    MemDB db; fill(db, s); db.s = &s; db.loose = s.flip(); int kind = s.below(2); Regs R(12);
    if (kind == 0) { // outer rows bind components of the inner scan
        DBLayer::DataOrder o = (DBLayer::DataOrder) s.below(12); bool b[3]; std::vector<int> bc; for (int i = 0; i < 3; ++i) { b[i] = s.flip(); if (b[i]) bc.push_back(i); }
        if (bc.empty()) { b[0] = true; bc.push_back(0); }
        std::vector<Register *> lr; for (int i : bc) lr.push_back(R[i]); lr.push_back(R[5]);
        std::vector<Row> rows = genRows(s, lr.size(), 8, 5, false); c.describe("index nested loop, order " + std::to_string(o) + " outer " + show(rows) + " over " + std::to_string(db.t.size()) + " triples");
        NestedLoopJoin j(new In(lr, rows, s.flip()), IndexScan::create(db, o, R[0], b[0], R[1], b[1], R[2], b[2], 1), 1);
        Bag want; for (auto &x : rows) for (auto &t : db.t) { bool ok = true; for (size_t i = 0; i < bc.size(); ++i) if (t.v[bc[i]] != x[i]) ok = false; if (ok) want[{t.v[0], t.v[1], t.v[2], x[bc.size()]}] += x.back(); }
        c.nontrivial(want.size() > 1); expect(c, "index-nested-loop", run(c, &j, {R[0], R[1], R[2], R[5]}), want); c.label("index nested loop");
    } else { // disjunction of values bound into a scan
        DBLayer::DataOrder o = (DBLayer::DataOrder) s.below(12); int f = s.below(3); std::set<u64> vs; int n = s.below(5); for (int i = 0; i < n; ++i) vs.insert(s.below(8)); std::vector<u64> v(vs.begin(), vs.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]);
        Operator *sc = IndexScan::create(db, o, R[0], f == 0, R[1], f == 1, R[2], f == 2, 1); NestedLoopFilter nf(sc, R[f], v, 1); c.describe("nested loop filter on " + std::to_string(f) + ", order " + std::to_string(o));
        Bag want; for (auto &t : db.t) if (vs.count(t.v[f])) want[{t.v[0], t.v[1], t.v[2]}]++;
        c.nontrivial(want.size() > 1); expect(c, "nested-loop-filter", run(c, &nf, {R[0], R[1], R[2]}), want); delete sc; c.label("nested loop filter");
    }
}
static void sorting(Src &s, Case &c) {
    MemDB db; int nn = 1 + s.below(12); for (int i = 0; i < nn; ++i) { std::string x; int n = s.below(4); for (int j = 0; j < n; ++j) x += "ab\xc3"[s.below(3)]; x += s.flip() ? "" : std::to_string(i); db.names.push_back(x); db.types.push_back((Type::ID) s.below(4)); db.subs.push_back(Type::hasSubType(db.types.back()) ? s.below(3) : 0); }
    Regs R(4); int ar = 1 + s.below(3); std::vector<Register *> regs; for (int i = 0; i < ar; ++i) regs.push_back(R[i]);
    std::vector<Row> rows = genRows(s, ar, s.chance(1, 6) ? 60 : 14, nn, false); for (auto &r : rows) for (int j = 0; j < ar; ++j) if (s.chance(1, 12)) r[j] = NUL;
    std::vector<std::pair<Register *, bool>> ord; std::vector<std::pair<int, bool>> oc; int k = s.below(ar + 1); std::string d;
    for (int i = 0; i < k; ++i) { int col = s.below(ar); bool desc = s.flip(); ord.push_back({regs[col], desc}); oc.push_back({col, desc}); d += " " + std::to_string(col) + (desc ? "desc" : ""); }
    if (s.chance(1, 8)) { bool desc = s.flip(); ord.push_back({(Register *) 0, desc}); oc.push_back({-1, desc}); d += desc ? " count desc" : " count"; }
    if (s.chance(1, 10)) { ord.push_back({R[3], false}); d += " (a variable that is not sorted on)"; }
    c.describe("sort by" + d + " " + show(rows)); c.nontrivial(rows.size() > 2 && !oc.empty());
    Sort so(db, new In(regs, rows, s.flip()), regs, ord, 1); std::vector<Row> seq; Bag got = run(c, &so, regs, &seq); Bag want = bagOf(rows); expect(c, "sort-rows", got, want);
    auto cmp = [&](u64 a, u64 b) -> int { if (a == b) return 0; if (a == NUL) return -1; if (b == NUL) return 1; // nulls first
        if (db.types[a] != db.types[b]) return db.types[a] < db.types[b] ? -1 : 1; if (db.subs[a] != db.subs[b]) return db.subs[a] < db.subs[b] ? -1 : 1; int z = db.names[a].compare(db.names[b]); return z < 0 ? -1 : z > 0 ? 1 : a < b ? -1 : 1; };
    for (size_t i = 1; i < seq.size(); ++i) for (auto &o : oc) {
        int x = o.first < 0 ? (seq[i - 1].back() < seq[i].back() ? -1 : seq[i - 1].back() > seq[i].back()) : cmp(seq[i - 1][o.first], seq[i][o.first]); if (o.second) x = -x;
        PCHECK(c, x <= 0, "sort-order", "rows " + std::to_string(i - 1) + " and " + std::to_string(i) + " out of order: " + show(seq)); if (x) break;
    }
    Bag again = run(c, &so, regs); PCHECK(c, again == want, "sort-rerun", "the second run differs");
}

// ------------------------------------------------------------------ infrastructure
static void domain(Src &s, Case &c) {
    // potential domains never exclude a value that every restriction allows
    int k = 1 + s.below(3); PotentialDomainDescription p[2]; std::vector<std::set<u64>> obs; u64 scale = s.flip() ? 40 : s.flip() ? 3000 : 1ULL << 40; std::string d;
    std::set<u64> allowed; 
    for (int i = 0; i < k; ++i) { ObservedDomainDescription o; std::set<u64> v; int n = s.below(12); for (int j = 0; j < n; ++j) { u64 x = s.flip() || i == 0 || obs[0].empty() ? s.below(scale) : *std::next(obs[0].begin(), s.below(obs[0].size())); v.insert(x); o.add(x); } obs.push_back(v); p[0].restrictTo(o); d += " {"; for (u64 x : v) { d += " " + std::to_string(x); PCHECK(c, o.couldQualify(x), "domain-observed", "an observed value does not qualify"); } d += " }"; }
    for (u64 x : obs[0]) { bool all = true; for (auto &v : obs) if (!v.count(x)) all = false; if (all) allowed.insert(x); }
    c.describe("domain restricted to" + d); c.nontrivial(!allowed.empty() && obs[0].size() > 1);
    if (s.flip()) { p[0].sync(p[1]); if (s.flip()) p[0] = p[1]; }
    for (u64 x : allowed) PCHECK(c, p[0].couldQualify(x), "domain-lost", "value " + std::to_string(x) + " is excluded");
    for (int i = 0; i < 12; ++i) {
        u64 q = s.flip() && !obs[0].empty() ? *std::next(obs[0].begin(), s.below(obs[0].size())) + s.range(-3, 3) : s.below(scale + 100); if (q > (1ULL << 62)) q = 0;
        u64 r = p[0].nextCandidate(q); PCHECK(c, r >= q, "domain-next", "nextCandidate(" + std::to_string(q) + ") goes back to " + std::to_string(r));
        auto it = allowed.lower_bound(q); if (it != allowed.end()) PCHECK(c, r <= *it, "domain-next", "nextCandidate(" + std::to_string(q) + ") = " + std::to_string(r) + " skips " + std::to_string(*it));
        if (r != UINT64_MAX) { PCHECK(c, p[0].couldQualify(r), "domain-next", "nextCandidate returns a value that does not qualify: " + std::to_string(r)); for (u64 x = q; x < r && x < q + 5000; ++x) if (p[0].couldQualify(x)) PFAIL(c, "domain-next", "nextCandidate(" + std::to_string(q) + ") = " + std::to_string(r) + " skips candidate " + std::to_string(x)); }
    }
}
struct Obj { static long live; u64 a, b; Obj() : a(1), b(2) { live++; } Obj(const Obj &o) : a(o.a), b(o.b) { live++; } ~Obj() { live--; } };
long Obj::live = 0;
struct Collect { std::multiset<void *> s; template <class T> void operator()(T *x) { s.insert((void *) x); } };
struct Var { u64 n; u64 v[]; };
static void pools(Src &s, Case &c) {
    int kind = s.below(4), n = s.below(s.chance(1, 5) ? 400 : 60); unsigned extra = s.below(5) * 8; StructPool<Obj> sp(1 + s.below(20)); InitZeroStructPool<Obj> zp; Pool<Obj> *op = new Pool<Obj>(1 + s.below(40)); VarPool<Var> vp(extra, 1 + s.below(20)); Obj::live = 0;
    std::map<void *, u64> live; u64 stamp = 1; c.describe("pool kind " + std::to_string(kind) + " steps " + std::to_string(n)); c.nontrivial(n > 10); size_t unit = kind == 3 ? 8 + extra : sizeof(Obj);
    auto check = [&]() { for (auto &x : live) { u64 *p = (u64 *) x.first; for (size_t i = 0; i < unit / 8; ++i) PCHECK(c, p[i] == x.second, "pool-content", "a live object was overwritten"); } };
    auto e = [&]() { Collect k; if (kind == 0) sp.enumAll(k); else if (kind == 1) zp.enumAll(k); else if (kind == 2) op->enumAll(k); else vp.enumAll(k); std::multiset<void *> w; for (auto &x : live) w.insert(x.first); PCHECK(c, k.s == w, "pool-enum", "enumeration visits " + std::to_string(k.s.size()) + " objects, " + std::to_string(w.size()) + " are live"); };
    for (int i = 0; i < n; ++i) {
        int a = s.below(20);
        if (a < 13 || live.empty()) {
            void *p; if (kind == 0) p = sp.alloc(); else if (kind == 1) { Obj *o = zp.alloc(); PCHECK(c, o->a == 0 && o->b == 0, "pool-zero", "object not zeroed"); p = o; } else if (kind == 2) { Obj *o; if (s.flip()) { o = op->alloc(); PCHECK(c, o->a == 1 && o->b == 2, "pool-ctor", "constructor not run"); } else { Obj v; v.a = 7; o = op->alloc(v); PCHECK(c, o->a == 7, "pool-ctor", "copy lost"); } p = o; } else p = vp.alloc();
            PCHECK(c, !live.count(p), "pool-alloc", "a live object was handed out again"); for (size_t j = 0; j < unit / 8; ++j) ((u64 *) p)[j] = stamp; live[p] = stamp++;
        } else if (a < 18) { auto it = std::next(live.begin(), s.below(live.size())); if (kind == 0) sp.free((Obj *) it->first); else if (kind == 1) zp.free((Obj *) it->first); else if (kind == 2) op->free((Obj *) it->first); else vp.free((Var *) it->first); live.erase(it); }
        else if (a == 18) e();
        else if (s.chance(1, 4)) { if (kind == 0) sp.freeAll(); else if (kind == 1) zp.freeAll(); else if (kind == 2) { op->freeAll(); PCHECK(c, Obj::live == 0, "pool-dtor", "freeAll left objects undestroyed"); } else vp.freeAll(); live.clear(); }
        if (kind == 2) PCHECK(c, Obj::live == (long) live.size(), "pool-live", "constructed objects: " + std::to_string(Obj::live));
    }
    check(); e(); check(); delete op; if (kind == 2) PCHECK(c, Obj::live == 0, "pool-dtor", "the destructor left objects undestroyed");
}
static void tempdict(Src &s, Case &c) {
    MemDB db; int nn = s.below(6); for (int i = 0; i < nn; ++i) { db.names.push_back("n" + std::to_string(i)); db.types.push_back((Type::ID) s.below(3)); db.subs.push_back(s.below(2)); }
    TemporaryDictionary td(db); typedef std::tuple<std::string, int, unsigned> K; std::map<K, u64> m; std::set<u64> ids; int n = s.below(40); c.describe("temporary dictionary over " + std::to_string(nn) + " terms, " + std::to_string(n) + " lookups"); c.nontrivial(n > 6);
    for (int i = 0; i < nn; ++i) m[K(db.names[i], db.types[i], db.subs[i])] = i;
    for (int i = 0; i < n; ++i) {
        std::string x = (s.flip() ? "n" : "t") + std::to_string(s.below(6)); Type::ID ty = (Type::ID) s.below(3); unsigned st = s.below(2); u64 id = 99999; PCHECK(c, td.lookup(x, ty, st, id), "tempdict", "lookup failed"); K k(x, ty, st);
        if (m.count(k)) PCHECK(c, m[k] == id, "tempdict", "the same literal has two ids"); else { for (auto &y : m) PCHECK(c, y.second != id, "tempdict", "two literals share id " + std::to_string(id)); m[k] = id; }
    }
    for (auto &x : m) { const char *a, *b; Type::ID ty; unsigned st; PCHECK(c, td.lookupById(x.second, a, b, ty, st), "tempdict", "id not found"); PCHECK(c, K(std::string(a, b), ty, st) == x.first, "tempdict", "id maps to another literal"); }
    const char *a, *b; Type::ID ty; unsigned st; PCHECK(c, !td.lookupById(m.size() + 5 + nn, a, b, ty, st), "tempdict", "unknown id found");
}
// asynchronous points of a plan run once, after everything they depend on, and before the plan itself
struct Sched { std::mutex m; std::vector<int> done; std::atomic<int> wrong; bool rootBefore; };
struct Point : public Scheduler::AsyncPoint { Sched *S; int id; std::set<int> deps; void run() { std::set<int> d; { std::lock_guard<std::mutex> g(S->m); d.insert(S->done.begin(), S->done.end()); } for (int x : deps) if (!d.count(x)) S->wrong++; for (volatile int i = 0; i < 200 * (id % 5); ++i); std::lock_guard<std::mutex> g(S->m); S->done.push_back(id); } };
struct Node : public Operator {
    Sched *S; std::vector<Node *> kids; Point *p; unsigned cls; double prio; bool root; int calls;
    Node() : Operator(1), p(0), cls(0), prio(0), root(false), calls(0) {}
    u64 first() { calls = 1; return 1; } u64 next() { return calls++ < 3; }
    void print(PlanPrinter &) {} void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &sc) { unsigned d = sc.getRegisteredPoints(); for (auto k : kids) k->getAsyncInputCandidates(sc); if (p) sc.registerAsyncPoint(*p, cls, prio, d); }
};
static void scheduler(Src &s, Case &c) {
    int n = 1 + s.below(9), th = s.flip() ? 0 : 2 + s.below(4); Sched S; S.wrong = 0; std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<Point>> pts; std::vector<int> par;
    for (int i = 0; i < n; ++i) { nodes.emplace_back(new Node()); nodes[i]->S = &S; if (i) { int q = s.below(i); nodes[q]->kids.push_back(nodes[i].get()); par.push_back(q); } else par.push_back(-1); if (s.chance(3, 4)) { pts.emplace_back(new Point()); pts.back()->S = &S; pts.back()->id = i; nodes[i]->p = pts.back().get(); nodes[i]->cls = s.below(2); nodes[i]->prio = s.below(10); } }
    for (int i = 1; i < n; ++i) if (nodes[i]->p) for (int a = par[i]; a >= 0; a = par[a]) if (nodes[a]->p) nodes[a]->p->deps.insert(i);
    c.describe("scheduler: " + std::to_string(n) + " operators, " + std::to_string(pts.size()) + " asynchronous points, " + std::to_string(th) + " threads"); c.nontrivial(pts.size() > 1 && th); c.label(th ? "threads" : "single");
    if (th) setenv("MAXTHREADS", std::to_string(th).c_str(), 1); else unsetenv("MAXTHREADS");
    { Scheduler sc; sc.execute(nodes[0].get()); }
    PCHECK(c, nodes[0]->calls == 4, "scheduler-root", "the plan was not run to its end");
    if (th) { PCHECK(c, S.done.size() == pts.size() && std::set<int>(S.done.begin(), S.done.end()).size() == pts.size(), "scheduler-points", std::to_string(S.done.size()) + " of " + std::to_string(pts.size()) + " points run"); PCHECK(c, S.wrong == 0, "scheduler-order", "a point ran before one it depends on"); }
}

int main(int argc, char **argv) {
    return Engine({
        Facet("scan", scan, 600000, 6000000), Facet("join", join, 400000, 4800000), Facet("outer", outer, 400000, 3600000), Facet("setops", setops, 600000, 6000000), Facet("loops", loops, 400000, 3600000),
        Facet("sorting", sorting, 300000, 3000000), Facet("domain", domain, 400000, 3600000), Facet("pools", pools, 200000, 1800000), Facet("tempdict", tempdict, 200000, 1800000), Facet("scheduler", scheduler, 30000, 240000),
    }).main(argc, argv);
}
