// Load a KB with a generated configuration and compare every access path with the model.
#include "kbgen.h"

static void intro(Case &c, const KBSpec &k, const std::set<T3> &t) { c.describe(k.str() + " breakpoint=" + std::to_string(g_breakpoint) + " triples=" + showAll(t)); }
static void labels(Case &c, const KBSpec &k) {
    c.label("nindices=" + std::to_string(k.nind)); if (k.aggr) c.label("aggr"); if (k.fixed) c.label("fixed strategy " + std::to_string(k.fstrat)); if (k.skip) c.label("skipTables"); if (k.flat) c.label("flatTree"); if (k.sample) c.label("sample");
}
struct Base { KBSpec k; std::set<T3> t; Model m; std::string dir; std::unique_ptr<OpenKB> o; };
static void make(Src &s, Case &c, Base &b, int maxN = 120, bool full = false) {
    b.k = genSpec(s, full); b.t = genTriples(s, maxN); debugTriples(b.t); fitSpec(b.k, b.t); g_breakpoint = s.pick(std::vector<int64_t>{64, 0, 1, 2, 4, 8, 16, 32, 128, 512});
    intro(c, b.k, b.t); labels(c, b.k); b.m.build(b.t);
    b.dir = loadIds(c, b.k, b.t, s); b.o.reset(new OpenKB(b.dir, b.k.partials));
}

static void lookups(Src &s, Case &c, Querier *q, const Model &m, int nprobe) {
    for (int idx = 0; idx < 6; ++idx) guard(c, std::string("scan ") + PNAME[idx], "scan", [&]() { PairItr *it = iter(q, idx, T3(), 0); checkRows(c, it, m.ord[idx], std::string("scan ") + PNAME[idx], "scan"); q->releaseItr(it); });
    for (int i = 0; i < nprobe; ++i) {
        int idx = s.below(6), nb = 1 + s.below(3); bool near = s.chance(1, 3);
        T3 r = near ? nearRow(s, m, idx) : m.ord[idx][s.below(m.ord[idx].size())];
        guard(c, what(idx, r, nb), "lookup", [&]() { PairItr *it = iter(q, idx, r, nb); checkRows(c, it, m.rows(idx, r, nb), what(idx, r, nb), "lookup"); q->releaseItr(it); });
        c.evals++;
    }
}
static void load(Src &s, Case &c) {
    Base b; make(s, c, b);
    PCHECK(c, b.o->kb->getSize() == (int64_t) b.t.size(), "size", "getSize()=" << b.o->kb->getSize() << " for " << b.t.size() << " triples");
    lookups(s, c, b.o->q.get(), b.m, 100);
    c.nontrivial(b.t.size() > 1);
}
// ---------------------------------------------------------------- the iterator protocol
static std::vector<T3> uniq1(const std::vector<T3> &r) { // first component and first value only
    std::vector<T3> o; for (auto &e : r) if (o.empty() || o.back()[0] != e[0] || o.back()[1] != e[1]) o.push_back(e); return o;
}
static void protocol(Src &s, Case &c, Querier *q, const Model &m, const KBSpec &spec, int runs, bool updated = false) {
    struct { const KBSpec &k; } b = {spec};
    for (int run = 0; run < runs; ++run) {
        int idx = s.below(6), nb = s.chance(1, 5) ? 0 : 1 + s.below(2); bool near = s.chance(1, 5);
        T3 r = near ? nearRow(s, m, idx) : m.ord[idx][s.below(m.ord[idx].size())];
        std::vector<T3> rows = m.rows(idx, r, nb); bool skip2 = nb < 2 && s.chance(1, 5);
        std::string w = what(idx, r, nb) + (skip2 ? " distinct" : ""), tr = w; std::vector<T3> all = rows; if (skip2) rows = uniq1(rows);
        guard(c, w, "iterator", [&]() {
            PairItr *it = iter(q, idx, r, nb);
            tr += std::string(" [") + typeid(*it).name() + "]"; if (skip2 && updated && it->getTypeItr() != COMPOSITESCAN_ITR && it->getTypeItr() != COMPOSITE_ITR) { q->releaseItr(it); return; } if (skip2) it->ignoreSecondColumn();
            // an aggregated table counts only below a bound first value, and after hasNext()
            if (s.chance(1, 6) && it->hasNext() && !(b.k.aggr && (idx == 2 || idx == 5) && nb < 2 && !skip2)) { int64_t n = it->getCardinality(); tr += " card"; const bool part = nb == 0 && skip2 && (b.k.skip || (b.k.nind < 6 && b.k.nind != 1) || b.k.nind == 1) && idx > 0; // the tables of this permutation are not all stored
                PCHECK(c, n == (int64_t) rows.size(), part ? "distinct-cardinality-partial-index" : updated && skip2 ? "updated-projected-cardinality" : "iterator-cardinality", tr << ": getCardinality() = " << n << " expected " << rows.size()); q->releaseItr(it); return; } // it may consume the iterator
            long cur = -1, mk = -1; int steps = 2 + s.below(14); bool three = s.chance(1, 6), canMove = nb > 0 && !skip2 && !three, mv = false;
            for (int k = 0; k < steps; ++k) {
                int op = s.below(10); if (updated) op = 0; // skipping over an updated database is only partly implemented (DESIGN.md)
                if (op < 4 || cur < 0) { // advance
                    int n = s.chance(1, 4) ? 1 + s.below(20) : 1; bool stop = false;
                    for (int j = 0; j < n; ++j) {
                        int rep = s.chance(1, 6) ? 2 : 1; bool h = false; for (int x = 0; x < rep; ++x) h = it->hasNext();
                        tr += " next"; size_t nx = cur + 1;
                        PCHECK(c, h == (nx < rows.size()), "iterator-next", tr << ": hasNext() = " << h << " at position " << nx << " of " << rows.size());
                        if (!h) { stop = true; break; }
                        cur++; mv = false;
                        if (three) { // the combined form
                            int64_t a = -1, b2 = -1, d = -1; bool more = it->next(a, b2, d); tr += "3"; T3 g{{(uint64_t) a, (uint64_t) b2, skip2 ? rows[cur][2] : (uint64_t) d}};
                            PCHECK(c, g == rows[cur], "iterator-next3", tr << ": next(v1,v2,v3) gives " << show(g) << " expected " << show(rows[cur]));
                            PCHECK(c, more == ((size_t) cur + 1 < rows.size()), "iterator-next3", tr << ": next(v1,v2,v3) returns " << more << " at position " << cur << " of " << rows.size());
                            continue;
                        }
                        it->next();
                        T3 g{{(uint64_t) it->getKey(), (uint64_t) it->getValue1(), skip2 ? rows[cur][2] : (uint64_t) it->getValue2()}};
                        PCHECK(c, g == rows[cur], "iterator-next", tr << ": row " << show(g) << " expected " << show(rows[cur]));
                        if (skip2 && s.flip()) { int64_t cnt = it->getCount(), e = 0; for (auto &a : all) if (a[0] == g[0] && a[1] == g[1]) e++; PCHECK(c, cnt == e, updated && it->getTypeItr() == COMPOSITE_ITR ? "updated-projected-count" : "iterator-count", tr << ": getCount() = " << cnt << " expected " << e << " for " << show(g)); }
                    }
                    if (stop) break;
                } else if (op < 8 && canMove && cur >= 0) { // move forward to the first row that is not smaller than the target
                    T3 t = rows[s.chance(1, 8) ? s.below(rows.size()) : cur + s.below(rows.size() - cur)];
                    if (nb == 1 && s.chance(1, 3)) t[2] = s.flip() ? 0 : t[2] + 1; else if (s.chance(1, 4)) { int z = nb == 1 && s.flip() ? 1 : 2; t[z] = s.flip() || !t[z] ? t[z] + 1 : t[z] - 1; }
                    if (nb == 2) t[1] = rows[cur][1];
                    it->moveto(t[1], t[2]); tr += " moveto(" + std::to_string(t[1]) + "," + std::to_string(t[2]) + ")";
                    size_t j = cur; while (j < rows.size() && std::make_pair(rows[j][1], rows[j][2]) < std::make_pair(t[1], t[2])) j++;
                    bool h = it->hasNext();
                    PCHECK(c, h == (j < rows.size()), "iterator-moveto", tr << ": hasNext() = " << h << " but " << (j < rows.size() ? "row " + show(rows[j]) + " follows" : "there is no such row"));
                    c.label("moveto");
                    if (!h) break;
                    it->next(); cur = j;
                    T3 g{{(uint64_t) it->getKey(), (uint64_t) it->getValue1(), (uint64_t) it->getValue2()}};
                    PCHECK(c, g == rows[cur], "iterator-moveto", tr << ": row " << show(g) << " expected " << show(rows[cur]));
                } else if (op == 8 && nb > 0 && !skip2 && cur >= 0) { it->mark(); tr += " mark"; mk = cur; }
                else if (op == 9 && mk >= 0) { it->reset(0); tr += " reset"; cur = mk; c.label("reset");
                    T3 g{{(uint64_t) it->getKey(), (uint64_t) it->getValue1(), (uint64_t) it->getValue2()}};
                    PCHECK(c, g == rows[cur], "iterator-reset", tr << ": row " << show(g) << " expected " << show(rows[cur])); }
                else if (op == 8 && nb == 0 && cur >= 0 && !three) { // jump to a key
                    uint64_t k = s.flip() ? rows[s.below(rows.size())][0] : m.someTerm(s) + s.below(3);
                    if (k <= rows[cur][0]) continue;
                    it->gotoKey(k); tr += " gotoKey(" + std::to_string(k) + ")"; c.label("gotoKey");
                    size_t j = cur; while (j < rows.size() && rows[j][0] < k) j++;
                    bool h = it->hasNext();
                    PCHECK(c, h == (j < rows.size()), "iterator-goto", tr << ": hasNext() = " << h << " but " << (j < rows.size() ? "row " + show(rows[j]) + " follows" : "there is no such row"));
                    if (!h) break;
                    it->next(); cur = j; T3 g{{(uint64_t) it->getKey(), (uint64_t) it->getValue1(), skip2 ? rows[j][2] : (uint64_t) it->getValue2()}};
                    PCHECK(c, g == rows[cur], "iterator-goto", tr << ": row " << show(g) << " expected " << show(rows[cur]));
                }
            }
            (void) mv;
            q->releaseItr(it);
        });
        c.evals++;
    }
}
static void termLists(Case &c, Querier *q, const Model &m, const KBSpec &spec) {
    struct { const KBSpec &k; } b = {spec};
    for (int idx = 0; idx < 6; ++idx) guard(c, std::string("terms of ") + PNAME[idx], "term-list", [&]() {
        PairItr *it = q->getTermList(idx); std::vector<uint64_t> e; std::vector<int64_t> n;
        for (auto &t : m.ord[idx]) if (e.empty() || e.back() != t[0]) { e.push_back(t[0]); n.push_back(1); } else n.back()++;
        size_t i = 0;
        while (it->hasNext()) { it->next(); uint64_t k = it->getKey();
            PCHECK(c, i < e.size() && k == e[i], "term-list", "term list " << PNAME[idx] << ": entry " << i << " is " << k << " expected " << (i < e.size() ? std::to_string(e[i]) : "the end"));
            if (i < e.size()) { int64_t cnt = it->getCount(); const bool re = idx != 0 && idx != 3 && (b.k.nind == 1 || (b.k.nind == 4 && (idx == 2 || idx == 5))); // no such index: the list is computed from SPO
                PCHECK(c, cnt == n[i], re ? "term-count-missing-index" : "term-list-count", "term list " << PNAME[idx] << ": getCount() of " << k << " is " << cnt << " expected " << n[i]); }
            i++; }
        PCHECK(c, i == e.size(), "term-list", "term list " << PNAME[idx] << " ends after " << i << " of " << e.size());
        q->releaseItr(it);
    });
}
static void iterators(Src &s, Case &c) {
    Base b; make(s, c, b, 100); protocol(s, c, b.o->q.get(), b.m, b.k, 60); termLists(c, b.o->q.get(), b.m, b.k);
    c.nontrivial(b.t.size() > 3);
}
// ---------------------------------------------------------------- counts and existence
static std::string pat(int64_t a, int64_t b, int64_t d) { std::ostringstream o; auto f = [&](int64_t x) { if (x < 0) o << "?" << (x < -1 ? std::to_string(-x) : ""); else o << x; }; o << "("; f(a); o << ","; f(b); o << ","; f(d); o << ")"; return o.str(); }
static T3 someRow(Src &s, const Model &m) { return s.chance(1, 4) ? nearRow(s, m, 0) : m.ord[0][s.below(m.ord[0].size())]; }
static void checkCards(Src &s, Case &c, Querier *q, const Model &m, int probes, bool updated = false) {
    guard(c, "getInputSize", "count", [&]() { PCHECK(c, q->getInputSize() == m.spo.size(), "input-size", "getInputSize() = " << q->getInputSize() << " expected " << m.spo.size()); });
    for (int i = 0; i < probes; ++i) {
        T3 r = someRow(s, m); int mask = s.below(8); int64_t a[3]; for (int k = 0; k < 3; ++k) a[k] = (mask >> k & 1) ? (int64_t) r[k] : -1;
        std::vector<T3> rows = m.match(a[0], a[1], a[2]); std::string w = pat(a[0], a[1], a[2]); int ub = (a[0] < 0) + (a[1] < 0) + (a[2] < 0); c.evals++;
        guard(c, "exists" + w, "exists", [&]() { bool e = q->exists(a[0], a[1], a[2]); PCHECK(c, e == !rows.empty(), "exists", "exists" << w << " = " << e << " with " << rows.size() << " matching triples"); });
        guard(c, "isEmpty" + w, "is-empty", [&]() { bool e = q->isEmpty(a[0], a[1], a[2]); PCHECK(c, e == rows.empty(), "is-empty", "isEmpty" << w << " = " << e << " with " << rows.size() << " matching triples"); });
        guard(c, "getCard" + w, "get-card", [&]() { int64_t n = q->getCard(a[0], a[1], a[2]); PCHECK(c, n == (int64_t) rows.size(), "get-card", "getCard" << w << " = " << n << " expected " << rows.size()); });
        if (ub < 3 && !rows.empty()) guard(c, "estCard" + w, "est-card", [&]() { int64_t n = q->estCard(a[0], a[1], a[2]); PCHECK(c, n > 0 || updated, "est-card-zero", "estCard" << w << " = " << n << " for a pattern with " << rows.size() << " triples"); });
        int pos = s.below(3);
        if (ub < 3 && a[pos] < 0) guard(c, "getCard" + w, "get-card-pos", [&]() {
            std::set<uint64_t> d; for (auto &t : rows) d.insert(t[pos]); int64_t n = q->getCard(a[0], a[1], a[2], pos);
            PCHECK(c, n == (int64_t) d.size(), "get-card-pos", "getCard" << w << " of position " << pos << " = " << n << " expected " << d.size() << " distinct values"); });
        int idx = s.below(6), nb = s.below(4); T3 pr = permute(r, idx); int64_t b[3]; bindArgs(idx, pr, nb, b); bool skip = nb > 0 && s.flip();
        std::string w2 = what(idx, pr, nb) + (skip ? " distinct" : "");
        guard(c, "getCardOnIndex " + w2, "card-on-index", [&]() {
            auto rw = m.rows(idx, pr, nb); std::set<std::pair<uint64_t, uint64_t>> d; for (auto &t : rw) d.insert(std::make_pair(t[0], t[1]));
            int64_t e = skip ? d.size() : rw.size(), n = q->getCardOnIndex(idx, b[0], b[1], b[2], skip);
            PCHECK(c, n == e, skip ? "card-on-index-distinct" : "card-on-index", "getCardOnIndex " << w2 << " = " << n << " expected " << e); });
        if (nb < 3 && nb > 0 && !m.rows(idx, pr, nb).empty()) guard(c, "estCardOnIndex " + w2, "est-card", [&]() { int64_t n = q->estCardOnIndex(idx, b[0], b[1], b[2]); PCHECK(c, n > 0 || updated, "est-card-zero", "estCardOnIndex " << w2 << " = " << n << " for a non-empty pattern"); });
    }
}
static void card(Src &s, Case &c) {
    Base b; make(s, c, b, 100);
    PCHECK(c, b.o->q->getNTerms() == 0 || b.o->q->getNTerms() == b.m.terms.size(), "n-terms", "getNTerms() = " << b.o->q->getNTerms() << " for " << b.m.terms.size() << " terms");
    checkCards(s, c, b.o->q.get(), b.m, 60);
    if (s.chance(1, 4)) { b.o->newQuerier(); checkCards(s, c, b.o->q.get(), b.m, 20); c.label("second querier"); }
    c.nontrivial(b.t.size() > 3);
}
// ---------------------------------------------------------------- the edge / group primitives
static void edges(Src &s, Case &c) {
    Base b; make(s, c, b, 60, true); Querier *q = b.o->q.get(); const Model &m = b.m;
    static const int ORD[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char *ON[6] = {"srd", "sdr", "rsd", "rds", "dsr", "drs"};
    for (int i = 0; i < 40; ++i) {
        T3 r = someRow(s, m); int mask = s.below(8); int64_t a[3]; for (int k = 0; k < 3; ++k) a[k] = (mask >> k & 1) ? (int64_t) r[k] : -1 - k;
        bool same = false;
        if (s.chance(1, 4)) { int x = s.below(3), y = (x + 1) % 3; if (a[x] < 0 && a[y] < 0) { a[x] = a[y] = -1 - std::min(x, y); same = true; if (a[3 - x - y] < 0) a[3 - x - y] = -9; } }
        std::vector<T3> rows; for (auto &t : m.match(a[0], a[1], a[2])) { bool ok = true; for (int x = 0; x < 3; ++x) for (int y = 0; y < x; ++y) if (a[x] < 0 && a[x] == a[y] && t[x] != t[y]) ok = false; if (ok) rows.push_back(t); }
        std::string w = pat(a[0], a[1], a[2]); if (same) c.label("repeated variable"); c.evals++;
        guard(c, "countEdges" + w, "count-edges", [&]() { uint64_t n = q->countEdges(a[0], a[1], a[2]); PCHECK(c, n == rows.size(), "count-edges", "countEdges" << w << " = " << n << " expected " << rows.size()); });
        int o = s.below(6); const int *P = ORD[o];
        std::sort(rows.begin(), rows.end(), [&](const T3 &x, const T3 &y) { return std::make_tuple(x[P[0]], x[P[1]], x[P[2]]) < std::make_tuple(y[P[0]], y[P[1]], y[P[2]]); });
        std::string e = std::string("edg_") + ON[o] + w;
        auto edg = [&]() -> EdgeItr * { switch (o) { case 0: return q->edg_srd(a[0], a[1], a[2]); case 1: return q->edg_sdr(a[0], a[1], a[2]); case 2: return q->edg_rsd(a[0], a[1], a[2]); case 3: return q->edg_rds(a[0], a[1], a[2]); case 4: return q->edg_dsr(a[0], a[1], a[2]); default: return q->edg_drs(a[0], a[1], a[2]); } };
        guard(c, e, "edges", [&]() {
            std::unique_ptr<EdgeItr> it(edg()); size_t k = 0;
            while (it->hasNext()) { it->next(); uint64_t v[3]; it->getTriple(v); T3 g{{v[0], v[1], v[2]}};
                PCHECK(c, k < rows.size() && g == rows[k], "edges", e << ": edge " << k << " is " << show(g) << " expected " << (k < rows.size() ? show(rows[k]) : "the end")); if (k >= rows.size()) break; k++; }
            PCHECK(c, k == rows.size(), "edges", e << " ends after " << k << " of " << rows.size() << " edges");
        });
        if (s.chance(1, 2)) { int p = s.below(rows.size() + 2); std::string w3 = std::string("pos_") + ON[o] + w + "[" + std::to_string(p) + "]"; uint64_t v[3] = {0, 0, 0}; bool thrown = false;
            try { switch (o) { case 0: q->pos_srd(a[0], a[1], a[2], p, v); break; case 1: q->pos_sdr(a[0], a[1], a[2], p, v); break; case 2: q->pos_rsd(a[0], a[1], a[2], p, v); break; case 3: q->pos_rds(a[0], a[1], a[2], p, v); break; case 4: q->pos_dsr(a[0], a[1], a[2], p, v); break; default: q->pos_drs(a[0], a[1], a[2], p, v); } } catch (int) { thrown = true; }
            if (p < (int) rows.size()) PCHECK(c, !thrown && (T3{{v[0], v[1], v[2]}}) == rows[p], "edge-at", w3 << (thrown ? " throws" : " is " + show(T3{{v[0], v[1], v[2]}})) << " expected " << show(rows[p]));
            else PCHECK(c, thrown, "edge-at", w3 << " does not fail although there are only " << rows.size() << " edges");
        }
        // groups: keys P[0] (and P[1]), in order, with their number of edges
        bool two = s.flip(); if (!two) { o = 2 * (o / 2); P = ORD[o]; }
        std::map<std::pair<uint64_t, uint64_t>, uint64_t> g; for (auto &t : rows) g[std::make_pair(t[P[0]], two ? t[P[1]] : 0)]++;
        std::string gn = std::string("grp_") + std::string(ON[o]).substr(0, two ? 2 : 1) + w;
        guard(c, gn, "groups", [&]() {
            KeyCardItr *it; int64_t S = a[0], R = a[1], D = a[2];
            if (two) switch (o) { case 0: it = q->grp_sr(S, R, D); break; case 1: it = q->grp_sd(S, R, D); break; case 2: it = q->grp_rs(S, R, D); break; case 3: it = q->grp_rd(S, R, D); break; case 4: it = q->grp_ds(S, R, D); break; default: it = q->grp_dr(S, R, D); }
            else it = o == 0 ? q->grp_s(S, R, D) : o == 2 ? q->grp_r(S, R, D) : q->grp_d(S, R, D);
            std::unique_ptr<KeyCardItr> h(it); auto x = g.begin(); size_t k = 0;
            while (it->hasNext()) { it->next(); uint64_t k1 = it->getKey1(), k2 = two ? it->getKey2() : 0, n = it->getCard(); std::ostringstream d; d << k1 << "," << k2 << " with " << n;
                PCHECK(c, x != g.end() && x->first == std::make_pair(k1, k2) && x->second == n, "groups", gn << ": group " << k << " is " << d.str() << " expected " << (x == g.end() ? std::string("the end") : std::to_string(x->first.first) + "," + std::to_string(x->first.second) + " with " + std::to_string(x->second)));
                if (x == g.end()) break; ++x; k++; }
            PCHECK(c, x == g.end(), "groups", gn << " ends after " << k << " of " << g.size() << " groups");
            uint64_t n;
            if (two) switch (o) { case 0: n = q->cnt_grp_sr(S, R, D); break; case 1: n = q->cnt_grp_sd(S, R, D); break; case 2: n = q->cnt_grp_rs(S, R, D); break; case 3: n = q->cnt_grp_rd(S, R, D); break; case 4: n = q->cnt_grp_ds(S, R, D); break; default: n = q->cnt_grp_dr(S, R, D); }
            else n = o == 0 ? q->cnt_grp_s(S, R, D) : o == 2 ? q->cnt_grp_r(S, R, D) : q->cnt_grp_d(S, R, D);
            PCHECK(c, n == g.size(), "group-count", "cnt_" << gn << " = " << n << " expected " << g.size());
        });
    }
    c.nontrivial(b.t.size() > 3);
}
// ---------------------------------------------------------------- textual databases: dictionary and updates
typedef std::array<std::string, 3> TT;
struct Terms { std::vector<std::string> ent, rel; };
static std::string genBody(Src &s, int maxLen) {
    std::string r; int n = s.chance(1, 30) ? (int) s.range(100, maxLen) : (int) s.skew(14); int kind = s.below(4);
    for (int i = 0; i < n; ++i) r += kind == 0 ? (char) s.range('a', 'c') : kind == 1 ? (char) s.range('!', 'Z') : kind == 2 ? (char) s.range(128, 255) : (char) s.range('a', 'z');
    for (auto &ch : r) if (ch == '<' || ch == '>' || ch == '"' || ch == '\\' || ch == ' ') ch = '_';
    return r;
}
static std::string genTerm(Src &s, int maxLen, int kind = -1) {
    static const char *pre[] = {"http://www.example.org/onto#", "http://a/", "urn:x:", ""};
    if (kind < 0) kind = s.below(5);
    std::string b = genBody(s, maxLen);
    if (kind <= 1) return std::string("<") + pre[s.below(4)] + b + ">";
    if (kind == 2) return "_:" + std::string("b") + std::to_string(s.below(50));
    std::string l = "\""; for (auto ch : b) { l += ch; if (s.chance(1, 6)) l += s.flip() ? " " : s.flip() ? "\\\"" : "\\n"; } l += "\"";
    if (s.chance(1, 4)) l += "@en"; else if (s.chance(1, 4)) l += "^^<http://t#i>";
    return l;
}
static Terms genTerms(Src &s, int n, int maxLen = 3000) {
    Terms t; std::set<std::string> e, r; int np = 1 + (int) s.below(6);
    for (int i = 0; i < n; ++i) e.insert(genTerm(s, maxLen)); for (int i = 0; i < np; ++i) r.insert(genTerm(s, 200, 0));
    t.ent.assign(e.begin(), e.end()); t.rel.assign(r.begin(), r.end()); if (s.flip()) for (auto &x : t.ent) if (x[0] == '<' && s.chance(1, 5)) t.rel.push_back(x);
    return t;
}
static TT genTT(Src &s, const Terms &t) {
    TT r; do r[0] = t.ent[s.below(t.ent.size())]; while (r[0][0] == '"' && s.chance(3, 4)); // literals as subjects are stored like any term
    r[1] = t.rel[s.below(t.rel.size())]; r[2] = t.ent[s.below(t.ent.size())]; return r;
}
static std::string show(const TT &t) { auto f = [](const std::string &x) { return x.size() > 40 ? x.substr(0, 30) + "..(" + std::to_string(x.size()) + ")" : x; }; return f(t[0]) + " " + f(t[1]) + " " + f(t[2]) + " ."; }
static std::string nt(const std::set<TT> &v, Src &s, bool dup = true) {
    std::vector<TT> x(v.begin(), v.end()); for (size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[s.below(i)]);
    if (dup && !x.empty()) for (int i = s.below(3); i > 0; --i) x.push_back(x[s.below(x.size())]);
    std::string o; for (auto &t : x) { o += t[0] + " " + t[1] + " " + t[2] + " .\n"; if (s.chance(1, 40)) o += s.flip() ? "# comment\n" : "\n"; } return o;
}
static std::string showTT(const std::set<TT> &v, size_t n = 25) { std::string o = "{"; size_t i = 0; for (auto &t : v) { if (i++ == n) { o += " ...(" + std::to_string(v.size()) + ")"; break; } o += " " + show(t); } return o + " }"; }
static std::string loadText(Case &c, const KBSpec &k, const std::set<TT> &triples, Src &s, const std::string &name = "kb") {
    std::string d = c.dir("in-" + name), kbd = c.scratch + "/" + name; writeFile(d + "/t.nt", nt(triples, s));
    ParamsLoad p; p.inputformat = "rdf"; p.inputCompressed = false; p.triplesInputDir = d; p.kbDir = kbd; p.tmpDir = k.sepTmp ? c.scratch + "/tmp-" + name : kbd; p.parallelThreads = k.threads; p.maxReadingThreads = k.readers;
    p.nindices = k.nind; p.aggrIndices = k.aggr; p.canSkipTables = k.skip; p.thresholdSkipTable = k.thr; p.enableFixedStrat = k.fixed; p.fixedStrat = k.fstrat; p.storePlainList = k.plain; p.sample = k.sample; p.sampleRate = k.srate;
    p.flatTree = k.flat; p.dictionaries = 1; p.dictMethod = DICT_HEURISTICS; p.storeDicts = true;
    Loader l; l.load(p); return kbd;
}
static bool numberOf(DictMgmt *d, const std::string &t, uint64_t &id) { nTerm v = ~0ull; bool r = d->getNumber(t.c_str(), t.size(), &v); id = v; return r; }
// the dictionary is a bijection between the given terms and their identifiers; fills ids
static void checkDict(Src &s, Case &c, DictMgmt *d, const std::set<std::string> &terms, std::map<std::string, uint64_t> &ids, const char *when, const std::set<std::string> &maybe = std::set<std::string>()) {
    std::map<uint64_t, std::string> back; std::unique_ptr<char[]> buf(new char[MAX_TERM_SIZE + 2]); ids.clear();
    auto shortT = [](const std::string &x) { return x.size() > 60 ? x.substr(0, 50) + "..(" + std::to_string(x.size()) + ")" : x; };
    for (auto &t : terms) guard(c, std::string(when) + ": term " + shortT(t), "dictionary", [&]() {
        uint64_t id; bool r = numberOf(d, t, id); c.evals++;
        PCHECK(c, r, "dict-lookup", when << ": the term " << shortT(t) << " is not in the dictionary"); if (!r) return;
        PCHECK(c, !back.count(id), "dict-injective", when << ": " << shortT(t) << " and " << shortT(back[id]) << " have the same identifier " << id);
        back[id] = t; ids[t] = id; int size = -1; std::string v;
        bool r1 = d->getText(id, buf.get(), size); PCHECK(c, r1 && std::string(buf.get(), std::max(size, 0)) == t, "dict-text", when << ": identifier " << id << " of " << shortT(t) << " reads back as " << (r1 ? shortT(std::string(buf.get(), std::max(size, 0))) : "nothing"));
        bool r2 = d->getText(id, buf.get()); PCHECK(c, r2 && std::string(buf.get()) == t, "dict-text", when << ": getText(char*) of " << shortT(t) << " gives " << (r2 ? shortT(buf.get()) : "nothing"));
        bool r3 = d->getText(id, v); PCHECK(c, r3 && v == t, "dict-text", when << ": getText(string) of " << shortT(t) << " gives " << (r3 ? shortT(v) : "nothing"));
    });
    for (int i = 0; i < 20; ++i) {
        std::string t = *std::next(terms.begin(), s.below(terms.size()));
        switch (s.below(5)) { case 0: t += "x"; break; case 1: t.resize(t.size() - 1); break; case 2: t[s.below(t.size())]++; break; case 3: t = genTerm(s, 300); break; default: t = t.substr(0, 1 + s.below(t.size())); }
        if (t.empty() || terms.count(t) || maybe.count(t)) continue;
        uint64_t id; bool r = numberOf(d, t, id); PCHECK(c, !r, "dict-absent", when << ": the absent term " << shortT(t) << " has identifier " << id);
    }
    for (int i = 0; i < 10; ++i) {
        uint64_t id = s.chance(1, 3) ? s.boundary({0, 255, 65535, 1ull << 32, 1ull << 39}, 1ull << 40) : (back.empty() ? 0 : back.rbegin()->first) + 1 + s.below(4) + maybe.size(); if (back.count(id)) continue; int size = 0;
        bool r = d->getText(id, buf.get(), size); PCHECK(c, !r || maybe.count(std::string(buf.get(), size)), "dict-absent", when << ": the unused identifier " << id << " has the text " << shortT(std::string(buf.get(), size)));
    }
}
static std::set<std::string> termsOf(const std::set<TT> &t) { std::set<std::string> r; for (auto &x : t) for (int k = 0; k < 3; ++k) r.insert(x[k]); return r; }
static bool toIds(const std::set<TT> &t, std::map<std::string, uint64_t> &ids, Model &m) {
    std::set<T3> r; for (auto &x : t) { T3 y; for (int k = 0; k < 3; ++k) { auto i = ids.find(x[k]); if (i == ids.end()) return false; y[k] = i->second; } r.insert(y); } m.build(r); return true;
}
static void dict(Src &s, Case &c) {
    KBSpec k = genSpec(s); k.flat = false; g_breakpoint = 64; int big = s.chance(1, 10);
    Terms T = genTerms(s, 1 + (int) s.skew(big ? 800 : 60), big ? 3000 : 600); std::set<TT> t; int n = 1 + (int) s.skew(big ? 1200 : 60); for (int i = 0; i < n; ++i) t.insert(genTT(s, T));
    c.describe(k.str() + " " + showTT(t)); labels(c, k); if (big) c.label("many terms");
    std::string dir = loadText(c, k, t, s); std::set<std::string> terms = termsOf(t); std::map<std::string, uint64_t> ids; Model m;
    for (int round = 0; round < 2; ++round) {
        OpenKB o(dir, k.partials); checkDict(s, c, o.kb->getDictMgmt(), terms, ids, round ? "reopened" : "loaded"); if (!toIds(t, ids, m)) break;
        PCHECK(c, o.kb->getNTerms() == (int64_t) terms.size(), "n-terms", "getNTerms() = " << o.kb->getNTerms() << " for " << terms.size() << " terms");
        uint64_t mx = 0; for (auto &i : ids) mx = std::max(mx, i.second); PCHECK(c, o.kb->getNextID() > mx, "next-id", "getNextID() = " << o.kb->getNextID() << " but " << mx << " is in use");
        if (round == 0) lookups(s, c, o.q.get(), m, 20);
    }
    c.nontrivial(terms.size() > 3);
}
static void update(Src &s, Case &c) {
    KBSpec k = genSpec(s); k.flat = false; k.partials = false; k.nind = 6; if (!s.chance(1, 3)) k.aggr = k.skip = false; g_breakpoint = s.pick(std::vector<int64_t>{64, 0, 4, 512});
    // wide: enough terms and rows for identifiers of two bytes, long tables and large groups
    Terms T = genTerms(s, 2 + (int) s.skew(30), 100); bool wide = s.chance(1, 8); if (wide) { int e = 260 + s.below(500); for (int i = 0; i < e; ++i) T.ent.push_back("<http://w/" + std::to_string(i) + ">"); c.label("wide"); }
    int hub = wide ? s.below(5) : 0; TT h = genTT(s, T); if (wide) { h[0] = T.ent[T.ent.size() - 1 - s.below(200)]; h[2] = T.ent[T.ent.size() - 1 - s.below(200)]; }
    auto gen = [&]() { TT x = genTT(s, T); if (hub && s.chance(3, 4)) { if (hub == 1) x[0] = h[0]; if (hub == 2) x[2] = h[2]; if (hub == 3) x[1] = h[1]; if (hub == 4) { x[1] = h[1]; x[2] = h[2]; } } return x; };
    std::set<TT> t; int n = 1 + (int) s.skew(wide ? 900 : 50); for (int i = 0; i < n; ++i) t.insert(gen());
    labels(c, k); c.describe(k.str() + " base " + showTT(t)); std::string dir = loadText(c, k, t, s);
    std::set<std::string> known = termsOf(t), ever = known; int steps = 1 + s.below(4); bool nontriv = false, dels = false;
    for (int st = 0; st < steps; ++st) {
        int op = s.chance(1, 6) && st ? 2 : s.below(2); std::string w;
        if (op == 2) { // fold all the updates into one
            w = "merge"; c.note("; merge"); guard(c, w, "update", [&]() { KBConfig cfg; KB kb(dir.c_str(), true, false, true, cfg); kb.mergeUpdates(); }); c.label("merge");
        } else {
            std::set<TT> u; int m = 1 + (int) s.skew(wide ? 600 : 20); if (s.chance(1, 4)) { Terms N = genTerms(s, 1 + s.below(6), 100); T.ent.insert(T.ent.end(), N.ent.begin(), N.ent.end()); T.rel.insert(T.rel.end(), N.rel.begin(), N.rel.end()); }
            if (op == 1 && s.chance(1, 8)) { u = t; c.label("delete all"); } else for (int i = 0; i < m; ++i) u.insert(!t.empty() && s.chance(op ? 4 : 1, 5) ? *std::next(t.begin(), s.below(t.size())) : gen());
            if (wide && op == 0 && s.chance(2, 3)) { // a dense block of one relation plus some unrelated rows: long groups on both sides
                std::vector<std::string> A, B; int na = 4 + s.below(20), nb = 4 + s.below(20); for (int i = 0; i < na; ++i) A.push_back(T.ent[s.below(T.ent.size())]); for (int i = 0; i < nb; ++i) B.push_back(T.ent[s.below(T.ent.size())]);
                std::string r = s.flip() ? h[1] : T.rel[s.below(T.rel.size())]; for (auto &x : A) for (auto &y : B) u.insert(TT{{x, r, y}}); if (u.size() > 700) u.erase(std::next(u.begin(), 700), u.end());
                for (int i = s.below(12); i > 0; --i) u.insert(TT{{T.ent[s.below(T.ent.size())], r, T.ent[s.below(T.ent.size())]}}); c.label("block");
            }
            w = (op ? "delete " : "add ") + showTT(u); c.note("; " + w); std::string f = c.dir("u" + std::to_string(st)); writeFile(f + "/u.nt", nt(u, s));
            guard(c, w, "update", [&]() { Updater up; up.creatediffupdate(op ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, dir, f); });
            if (op) { for (auto &x : u) if (t.erase(x)) nontriv = dels = true; } else { for (auto &x : u) if (t.insert(x).second) nontriv = true; }
            c.label(op ? "deletion" : "addition");
        }
        for (auto &x : termsOf(t)) ever.insert(x);
        if (st + 1 < steps && s.flip()) continue;
        guard(c, "after " + w, "update-open", [&]() {
            std::set<std::string> terms = termsOf(t); std::map<std::string, uint64_t> ids; Model m; OpenKB o(dir);
            if (terms.empty()) { PCHECK(c, o.q->isEmpty(-1, -1, -1) || o.q->getInputSize() == 0, "update-size", "the database is not empty after everything was deleted"); PairItr *it = o.q->getIterator(IDX_SPO, -1, -1, -1); checkRows(c, it, std::vector<T3>(), "scan of the emptied database", "update-scan"); return; }
            checkDict(s, c, o.kb->getDictMgmt(), terms, ids, "updated", ever); if (!toIds(t, ids, m)) return;
            lookups(s, c, o.q.get(), m, 25); checkCards(s, c, o.q.get(), m, 15, true);
            protocol(s, c, o.q.get(), m, k, 15, true); termLists(c, o.q.get(), m, k);
        });
    }
    if (dels) c.label("something deleted"); c.nontrivial(nontriv);
}
int main(int argc, char **argv) {
    return Engine({Facet("load", load, 1500, 20000), Facet("iter", iterators, 1200, 20000), Facet("card", card, 1200, 20000), Facet("edges", edges, 900, 12000), Facet("dict", dict, 900, 12000), Facet("update", update, 600, 12000)}).main(argc, argv);
}
