// SPARQL queries from text to answers (lexer, parser, semantic analysis, plan generation, code generation, operators, printer) against a
// naive evaluation of the SPARQL algebra; over an in-memory database with arbitrary cost estimates, and over a real database.
#include <cts/parser/SPARQLLexer.hpp>
#include <cts/parser/SPARQLParser.hpp>
#include <cts/semana/SemanticAnalysis.hpp>
#include <cts/plangen/PlanGen.hpp>
#include <cts/codegen/CodeGen.hpp>
#include <rts/runtime/Runtime.hpp>
#include <rts/runtime/QueryDict.hpp>
#include <rts/operator/Operator.hpp>
#include <rts/operator/ResultsPrinter.hpp>
#include <rts/operator/PlanPrinter.hpp>
#include <trident/utils/json.h>
#include <trident/kb/dictmgmt.h>
#include "memdb.h"
static std::string show(const Row &r) { std::string o; for (size_t j = 0; j < r.size(); ++j) { if (j) o += ","; o += r[j] == NUL ? "-" : std::to_string(r[j]); } return o; }
static std::string show(const Bag &b) { std::string o; int k = 0; for (auto &x : b) { if (++k > 40) { o += " ..."; break; } o += " (" + show(x.first) + ")x" + std::to_string(x.second); } return "{" + o + " }"; }

// ------------------------------------------------------------------ queries
static const int NV = 8; // ?v0 .. ?v7
struct Term { bool var; u64 id; };              // id: variable or dictionary id; dictionary ids beyond the dictionary are unknown terms
struct Pat { Term t[3]; };
struct Flt { int op; Term a, b; std::vector<Flt> k; std::vector<Term> list; std::string str; };
struct Grp; struct Query;
struct Values { std::vector<int> vars; std::vector<Row> rows; };
struct Grp { std::vector<Pat> pats; std::vector<std::vector<Grp>> unions; std::vector<Grp> opts, minuses; std::vector<Flt> flts; std::vector<Values> vals; std::vector<std::shared_ptr<Query>> subs; };
struct Query { Grp g; std::vector<int> proj; bool distinct, star; std::vector<std::pair<int, bool>> order; u64 limit, offset; Query() : distinct(false), star(false), limit(0), offset(0) {} };
enum { EQ, NE, AND, OR, NOT, BOUND, SAME, ISIRI, ISLIT, IN, NOTIN, NUM_OPS };

struct Dict { std::vector<std::string> names; std::vector<bool> iri; size_t known; // text without delimiters
    std::string text(u64 i) const { return iri[i] ? "<" + names[i] + ">" : "\"" + names[i] + "\""; } };

struct Txt {
    const Dict &D; Src &s; std::string o; Txt(const Dict &D, Src &s) : D(D), s(s) {}
    std::string t(const Term &x) { return x.var ? "?v" + std::to_string(x.id) : D.text(x.id); }
    std::string flt(const Flt &f) {
        switch (f.op) {
        case EQ: return t(f.a) + " = " + t(f.b); case NE: return t(f.a) + " != " + t(f.b);
        case AND: return "(" + flt(f.k[0]) + ") && (" + flt(f.k[1]) + ")"; case OR: return "(" + flt(f.k[0]) + ") || (" + flt(f.k[1]) + ")"; case NOT: return "!(" + flt(f.k[0]) + ")";
        case BOUND: return "bound(" + t(f.a) + ")"; case SAME: return "sameTerm(" + t(f.a) + ", " + t(f.b) + ")"; case ISIRI: return "isIRI(" + t(f.a) + ")"; case ISLIT: return "isLiteral(" + t(f.a) + ")";
        case IN: case NOTIN: { std::string r = f.op == IN ? "in(" + t(f.a) + ", " : t(f.a) + " NOT IN ("; for (size_t i = 0; i < f.list.size(); ++i) r += (i ? ", " : "") + t(f.list[i]); return r + ")"; }
        } return "";
    }
    void grp(const Grp &g, bool braces = true) {
        if (braces) o += "{ ";
        bool first = true;
        for (auto &p : g.pats) { if (!first) o += ". "; first = false; o += t(p.t[0]) + " " + t(p.t[1]) + " " + t(p.t[2]) + " "; }
        if (!first) o += ". ";
        for (auto &v : g.vals) { o += "VALUES "; bool one = v.vars.size() == 1; if (!one) o += "("; for (int x : v.vars) o += " ?v" + std::to_string(x); o += one ? " { " : ") { "; for (auto &r : v.rows) { if (!one) o += "("; for (u64 x : r) o += " " + (x == NUL ? std::string("UNDEF") : D.text(x)); o += one ? " " : ") "; } o += "} "; }
        for (auto &u : g.unions) { for (size_t i = 0; i < u.size(); ++i) { if (i) o += "UNION "; grp(u[i]); } }
        for (auto &q : g.subs) { o += "{ "; query(*q); o += "} "; }
        for (auto &x : g.opts) { o += "OPTIONAL "; grp(x); }
        for (auto &x : g.minuses) { o += "MINUS "; grp(x); }
        for (auto &f : g.flts) { o += "FILTER (" + flt(f) + ") "; }
        if (braces) o += "} ";
    }
    void query(const Query &q) {
        o += "SELECT "; if (q.distinct) o += "DISTINCT "; if (q.star) o += "* "; else for (int v : q.proj) o += "?v" + std::to_string(v) + " "; o += "WHERE "; grp(q.g);
        if (!q.order.empty()) { o += "ORDER BY "; for (auto &x : q.order) o += x.second ? "DESC(?v" + std::to_string(x.first) + ") " : "?v" + std::to_string(x.first) + " "; }
        if (q.limit) o += "LIMIT " + std::to_string(q.limit) + " "; if (q.offset) o += "OFFSET " + std::to_string(q.offset) + " ";
    }
};

// ------------------------------------------------------------------ reference evaluation: solutions are rows over all variables
typedef std::vector<Row> Sols;
struct Big {};
struct Ref {
    const Dict &D; const std::set<Tri> &t; size_t steps, maxSteps; Ref(const Dict &D, const std::set<Tri> &t) : D(D), t(t), steps(0), maxSteps(300000) {}
    void tick(size_t n = 1) { steps += n; if (steps > maxSteps) throw Big(); }
    static bool merge(const Row &a, const Row &b, Row &r) { r = a; for (int i = 0; i < NV; ++i) if (b[i] != NUL) { if (a[i] == NUL) r[i] = b[i]; else if (a[i] != b[i]) return false; } return true; }
    Sols join(const Sols &a, const Sols &b) { Sols r; Row m; for (auto &x : a) for (auto &y : b) { tick(); if (merge(x, y, m)) r.push_back(m); } return r; }
    u64 val(const Term &x, const Row &r) { return x.var ? r[x.id] : x.id; }
    int ev(const Flt &f, const Row &r) { // 1 true 0 false -1 error
        auto b3 = [](bool x) { return x ? 1 : 0; };
        switch (f.op) {
        case EQ: case NE: case SAME: { u64 a = val(f.a, r), b = val(f.b, r); if (a == NUL || b == NUL) return -1; return b3((a == b) == (f.op != NE)); }
        case AND: { int a = ev(f.k[0], r), b = ev(f.k[1], r); return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
        case OR: { int a = ev(f.k[0], r), b = ev(f.k[1], r); return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0; }
        case NOT: { int a = ev(f.k[0], r); return a < 0 ? -1 : 1 - a; }
        case BOUND: return b3(r[f.a.id] != NUL);
        case ISIRI: case ISLIT: { u64 a = val(f.a, r); return a == NUL ? -1 : b3(D.iri[a] == (f.op == ISIRI)); }
        case IN: case NOTIN: { u64 a = val(f.a, r); if (a == NUL) return -1; bool in = false; for (auto &x : f.list) if (val(x, r) == a) in = true; return b3(in == (f.op == IN)); }
        } return -1;
    }
    Sols pat(const Pat &p, const Sols &in) {
        Sols r; for (auto &x : in) for (auto &q : t) {
            tick(); Row m = x; bool ok = true;
            for (int i = 0; i < 3 && ok; ++i) { if (!p.t[i].var) ok = p.t[i].id == q.v[i]; else if (m[p.t[i].id] == NUL) m[p.t[i].id] = q.v[i]; else ok = m[p.t[i].id] == q.v[i]; }
            if (ok) r.push_back(m);
        } return r;
    }
    Sols grp(const Grp &g) {
        Sols r(1, Row(NV, NUL)); for (auto &p : g.pats) r = pat(p, r);
        for (auto &v : g.vals) { Sols b; for (auto &x : v.rows) { Row y(NV, NUL); for (size_t i = 0; i < v.vars.size(); ++i) y[v.vars[i]] = x[i]; b.push_back(y); } r = join(r, b); }
        for (auto &u : g.unions) { Sols b; for (auto &x : u) { Sols y = grp(x); b.insert(b.end(), y.begin(), y.end()); } r = join(r, b); }
        for (auto &q : g.subs) r = join(r, all(*q));
        for (auto &x : g.opts) { Sols b = grp(x), n; Row m; for (auto &y : r) { bool any = false; for (auto &z : b) { tick(); if (merge(y, z, m)) { n.push_back(m); any = true; } } if (!any) n.push_back(y); } r = n; }
        for (auto &x : g.minuses) { Sols b = grp(x), n; Row m; for (auto &y : r) { bool hit = false; for (auto &z : b) { tick(); bool share = false; for (int i = 0; i < NV; ++i) if (y[i] != NUL && z[i] != NUL) share = true; if (share && merge(y, z, m)) { hit = true; break; } } if (!hit) n.push_back(y); } r = n; }
        Sols o; for (auto &x : r) { bool ok = true; for (auto &f : g.flts) if (ev(f, x) != 1) { ok = false; break; } if (ok) o.push_back(x); }
        return o;
    }
    Sols all(const Query &q) { // projection and DISTINCT (no limits)
        Sols r; std::set<Row> seen; for (auto &x : grp(q.g)) { Row y(NV, NUL); for (int v : q.proj) y[v] = x[v]; if (q.distinct && !seen.insert(y).second) continue; r.push_back(y); } return r;
    }
};

// ------------------------------------------------------------------ generation
struct Gen {
    Src &s; Dict &D; const std::set<Tri> &t; std::vector<Tri> tv; int features; std::vector<int> pool; bool unknown;
    Gen(Src &s, Dict &D, const std::set<Tri> &t) : s(s), D(D), t(t), tv(t.begin(), t.end()), unknown(false) {}
    Term cst(int pos) { // mostly a term that occurs at that position
        if (s.chance(1, 40)) { unknown = true; return Term{false, D.known + s.below(D.names.size() - D.known)}; }
        if (!tv.empty() && !s.chance(1, 8)) return Term{false, tv[s.below(tv.size())].v[pos]}; return Term{false, s.below(D.known)};
    }
    Pat pat(const std::vector<int> &vars, int must) { // must: a variable that has to occur (-1: none)
        Pat p; for (int i = 0; i < 3; ++i) p.t[i] = !vars.empty() && s.chance(i == 1 ? 1 : 3, i == 1 ? 4 : 4) ? Term{true, (u64) vars[s.below(vars.size())]} : cst(i);
        if (must >= 0) { bool has = false; for (auto &x : p.t) if (x.var && (int) x.id == must) has = true; if (!has) p.t[s.chance(1, 5) ? 1 : s.flip() ? 0 : 2] = Term{true, (u64) must}; }
        return p;
    }
    static void vars(const Pat &p, std::set<int> &o) { for (auto &x : p.t) if (x.var) o.insert(x.id); }
    // variables that every solution binds / that some solution may bind
    static void bound(const Grp &g, std::set<int> &o) {
        for (auto &p : g.pats) vars(p, o); for (auto &v : g.vals) for (size_t i = 0; i < v.vars.size(); ++i) { bool u = false; for (auto &r : v.rows) if (r[i] == NUL) u = true; if (!u) o.insert(v.vars[i]); }
        for (auto &u : g.unions) { std::set<int> c; bool f = true; for (auto &x : u) { std::set<int> b, n; bound(x, b); if (f) c = b; else { for (int v : c) if (b.count(v)) n.insert(v); c = n; } f = false; } o.insert(c.begin(), c.end()); }
        for (auto &q : g.subs) { std::set<int> b; bound(q->g, b); for (int v : q->proj) if (b.count(v)) o.insert(v); }
    }
    static void may(const Grp &g, std::set<int> &o) { bound(g, o); for (auto &v : g.vals) o.insert(v.vars.begin(), v.vars.end()); for (auto &u : g.unions) for (auto &x : u) may(x, o); for (auto &x : g.opts) may(x, o); for (auto &q : g.subs) o.insert(q->proj.begin(), q->proj.end()); }
    std::vector<Pat> bgp(const std::vector<int> &vars_, int n, int must) {
        std::vector<Pat> r; std::set<int> have; for (int i = 0; i < n; ++i) { int m = i == 0 ? must : have.empty() || s.chance(1, 8) ? -1 : *std::next(have.begin(), s.below(have.size())); r.push_back(pat(vars_, m)); vars(r.back(), have); }
        return r;
    }
    Flt flt(const std::vector<int> &b, const std::vector<int> &opt, int depth) {
        Flt f; auto v = [&]() { return Term{true, (u64) b[s.below(b.size())]}; }; auto x = [&](int pos) { return s.flip() ? v() : cst(pos); };
        int k = s.below(depth > 0 ? 12 : 9);
        if (k >= 9) { f.op = k == 9 ? AND : k == 10 ? OR : NOT; f.k.push_back(flt(b, opt, depth - 1)); if (k != 11) f.k.push_back(flt(b, opt, depth - 1)); return f; }
        if (k == 0 && !opt.empty()) { f.op = BOUND; f.a = Term{true, (u64) opt[s.below(opt.size())]}; return f; }
        if (k <= 3) { f.op = s.flip() ? EQ : NE; f.a = v(); f.b = x(s.below(3)); if (s.chance(1, 4)) std::swap(f.a, f.b); return f; }
        if (k == 4) { f.op = SAME; f.a = v(); f.b = x(s.below(3)); return f; }
        if (k == 5) { f.op = s.flip() ? ISIRI : ISLIT; f.a = v(); return f; }
        f.op = k < 8 ? IN : NOTIN; f.a = v(); int n = 1 + s.below(3); for (int i = 0; i < n; ++i) f.list.push_back(cst(s.below(3))); return f;
    }
    void addFilters(Grp &g) {
        std::set<int> b, m; bound(g, b); may(g, m); std::vector<int> bv(b.begin(), b.end()), ov; for (int v : m) if (!b.count(v)) ov.push_back(v);
        if (!bv.empty()) { int n = s.chance(1, 2) ? 1 + s.below(2) : 0; for (int i = 0; i < n; ++i) g.flts.push_back(flt(bv, ov, 2)); }
    }
};

// ------------------------------------------------------------------ running
struct Cap { std::ostringstream o; std::streambuf *old; Cap() : old(std::cout.rdbuf(o.rdbuf())) {} ~Cap() { std::cout.rdbuf(old); } };
struct Out { bool ok, empty; Bag rows; std::vector<Row> seq; std::string err, text; u64 n; std::vector<std::string> lines; JSON json; std::vector<std::string> names; Out() : ok(false), empty(false), n(0) {} };
// mode 0: the output registers; 1: printed text; 2: JSON
static Out execute(DBLayer &db, const std::string &q, int mode, bool showPlan) {
    Out r; QueryDict qd(db.getNextId()); SPARQLLexer lx(q); SPARQLParser ps(lx);
    try { ps.parse(false, true); } catch (const SPARQLParser::ParserException &e) { r.err = "parse error: " + e.message; return r; }
    QueryGraph g(ps.getVarCount());
    try { SemanticAnalysis sa(db, qd); sa.transform(ps, g); } catch (const SemanticAnalysis::SemanticException &e) { r.err = "semantic error: " + e.message; return r; }
    if (g.knownEmpty()) { r.ok = r.empty = true; return r; }
    for (auto it = g.projectionBegin(); it != g.projectionEnd(); ++it) r.names.push_back(ps.getVariableName(*it));
    PlanGen pg; Plan *p = pg.translate(db, g, false); if (!p) { r.err = "no plan"; return r; }
    if (showPlan) { Cap c; p->print(0); fprintf(stderr, "%s\n", c.o.str().c_str()); }
    Runtime rt(db, NULL, &qd);
    if (mode == 0) {
        std::map<const QueryGraph::Node *, unsigned> regs; std::vector<Register *> out; CodeGen::prepareRuntime(rt, g, regs); std::unique_ptr<Operator> op(CodeGen::translateIntern(rt, g, p, out, regs));
        size_t k = 0; for (u64 n = op->first(); n; n = op->next()) { Row x; for (auto y : out) x.push_back(nul(y->value)); r.rows[x] += n; for (u64 i = 0; i < n && i < 100000; ++i) r.seq.push_back(x); if (++k > 400000) { r.err = "too many rows"; return r; } }
    } else {
        std::unique_ptr<Operator> op(CodeGen::translate(rt, g, p, mode == 2)); ResultsPrinter *rp = (ResultsPrinter *) op.get(); rp->setSilent(mode == 2); if (mode == 2) rp->setJSONOutput(&r.json, r.names);
        Cap c; op->first(); if (getenv("PLAN")) { std::ostringstream z; DebugPlanPrinter dp(z, rt, true); op->print(dp); fprintf(stderr, "%s\n", z.str().c_str()); } r.n = rp->getPrintedRows(); std::istringstream in(c.o.str()); std::string l; while (std::getline(in, l)) r.lines.push_back(l);
    }
    r.ok = true; return r;
}

// ------------------------------------------------------------------ the in-memory facet
static void world(Src &s, MemDB &db, Dict &D) {
    int ni = 3 + s.below(8), nl = s.below(4); for (int i = 0; i < ni; ++i) { D.names.push_back("http://e/" + std::string(1, 'a' + i)); D.iri.push_back(true); } for (int i = 0; i < nl; ++i) { D.names.push_back("lit" + std::to_string(i)); D.iri.push_back(false); }
    D.known = D.names.size(); for (int i = 0; i < 2; ++i) { D.names.push_back("http://x/" + std::to_string(i)); D.iri.push_back(true); }
    for (size_t i = 0; i < D.known; ++i) { db.names.push_back(D.names[i]); db.types.push_back(D.iri[i] ? Type::URI : Type::Literal); db.subs.push_back(0); }
    int n = s.below(s.chance(1, 6) ? 60 : 22); u64 dp = 1 + s.below(4), ds = 1 + s.below(ni); for (int i = 0; i < n; ++i) { Tri t; t.v[0] = s.below(ds); t.v[1] = s.below(std::min<u64>(dp, ni)); t.v[2] = s.chance(1, 4) ? s.below(D.known) : s.below(ds); db.t.insert(t); }
    db.s = s.flip() ? &s : 0; db.loose = false; db.costSeed = s.flip() ? 1 + s.below(1000000) : 0;
}
static Bag project(const Sols &a, const std::vector<int> &proj) { Bag b; for (auto &x : a) { Row r; for (int v : proj) r.push_back(x[v]); b[r]++; } return b; }
static u64 total(const Bag &b) { u64 n = 0; for (auto &x : b) n += x.second; return n; }

static Query gen(Src &s, Gen &G, int level) {
    Query q; std::vector<int> vs; int nv = 1 + s.below(4); for (int i = 0; i < nv; ++i) vs.push_back(i);
    q.g.pats = G.bgp(vs, 1 + s.below(4), vs[0]); std::set<int> b; Gen::bound(q.g, b); std::vector<int> bv(b.begin(), b.end());
    if (level >= 1 && s.chance(1, 3)) { // a union joined on one or more shared variables, or on none
        int nb = 2 + s.below(2); std::vector<Grp> u; int sh = bv[s.below(bv.size())]; bool shared = !s.chance(1, 10);
        for (int i = 0; i < nb; ++i) { Grp x; std::vector<int> uv; if (shared) uv.push_back(sh); uv.push_back(4); if (s.flip()) uv.push_back(5); x.pats = G.bgp(uv, 1 + s.below(2), shared ? sh : 4); if (s.chance(1, 3)) G.addFilters(x); u.push_back(x); }
        q.g.unions.push_back(u); if (s.chance(1, 4)) q.g.pats.clear();
    }
    if (level >= 1 && s.chance(1, 4)) { Values v; b.clear(); Gen::bound(q.g, b); std::set<int> pb; for (auto &p : q.g.pats) Gen::vars(p, pb); std::vector<int> c(b.begin(), b.end()); v.vars.push_back(!c.empty() && !s.chance(1, 8) ? c[s.below(c.size())] : 6); if (s.chance(1, 3)) { int w = s.flip() || c.empty() ? 6 : c[s.below(c.size())]; if (w != v.vars[0]) v.vars.push_back(w); } int n = 1 + s.below(4); for (int i = 0; i < n; ++i) { Row r; for (size_t j = 0; j < v.vars.size(); ++j) r.push_back(pb.count(v.vars[j]) ? G.cst(s.below(3)).id : s.below(G.D.known)); v.rows.push_back(r); } q.g.vals.push_back(v); }
    if (level >= 2 && s.chance(1, 4)) { // optional group sharing exactly one variable
        b.clear(); Gen::bound(q.g, b); std::vector<int> c(b.begin(), b.end()); if (!c.empty()) { int sh = c[s.below(c.size())]; Grp x; std::vector<int> ov; ov.push_back(sh); ov.push_back(7); x.pats = G.bgp(ov, 1 + s.below(2), sh); q.g.opts.push_back(x); } }
    if (level >= 2 && s.chance(1, 5)) { b.clear(); Gen::bound(q.g, b); std::vector<int> c(b.begin(), b.end()); if (!c.empty()) { Grp x; std::vector<int> mv; int sh = c[s.below(c.size())]; mv.push_back(sh); if (s.flip()) mv.push_back(c[s.below(c.size())]); if (s.flip()) mv.push_back(6); x.pats = G.bgp(mv, 1 + s.below(2), sh); q.g.minuses.push_back(x); } }
    if (level >= 3 && s.chance(1, 4)) { b.clear(); Gen::bound(q.g, b); std::vector<int> c(b.begin(), b.end()); auto sq = std::make_shared<Query>(); std::vector<int> sv; if (!c.empty()) sv.push_back(c[s.below(c.size())]); sv.push_back(6); sq->g.pats = G.bgp(sv, 1 + s.below(2), sv[0]); std::set<int> sb; Gen::bound(sq->g, sb); for (int v : sb) if (v == sv[0] || s.flip()) sq->proj.push_back(v); sq->distinct = s.flip(); q.g.subs.push_back(sq); }
    if (s.flip()) G.addFilters(q.g);
    std::set<int> m; Gen::may(q.g, m); std::vector<int> mv(m.begin(), m.end());
    if (mv.empty()) q.star = true; else if (s.chance(1, 6)) q.star = true; else { for (int v : mv) if (s.flip()) q.proj.push_back(v); if (q.proj.empty()) q.proj.push_back(mv[s.below(mv.size())]); if (s.chance(1, 4)) std::reverse(q.proj.begin(), q.proj.end()); }
    q.distinct = s.chance(1, 4);
    if (level >= 1 && s.chance(1, 5)) { std::vector<int> c = q.proj; if (!c.empty()) { q.order.push_back({c[s.below(c.size())], s.flip()}); if (s.chance(1, 3)) q.order.push_back({c[s.below(c.size())], s.flip()}); } }
    if (level >= 1 && s.chance(1, 5)) q.limit = 1 + s.below(6);
    if (level >= 1 && s.chance(1, 6)) q.offset = 1 + s.below(6);
    return q;
}
// layer, ids: another layer over the same triples and its identifiers of the terms (0: the model database itself)
static void ask(Src &s, Case &c, int level, MemDB &db, Dict &D, DBLayer *layer, const std::map<u64, u64> *ids) {
    Gen G(s, D, db.t); Query q = gen(s, G, level);
    for (auto &sq : q.g.subs) { // a DISTINCT subselect may be recomputed for every row of a nested loop join: only small products
        std::function<size_t(const Grp &)> size = [&](const Grp &g) { size_t r = g.pats.size(); for (auto &u : g.unions) for (auto &b : u) r += size(b); for (auto &o : g.opts) r += size(o); for (auto &x : g.subs) r += size(x->g); for (auto &x : g.minuses) r += size(x); r += g.vals.size(); return r; };
        double cost = 1; size_t n = size(q.g); for (size_t i = 0; i < n; ++i) cost *= db.t.size() + 1.0; if (cost > 1500) sq->distinct = false;
    }
    Txt tx(D, s); tx.query(q); std::string text = tx.o; int mode = s.below(3);
    Ref ref(D, db.t); Sols all; std::string dump; for (auto &x : db.t) dump += " " + std::to_string(x.v[0]) + "-" + std::to_string(x.v[1]) + "-" + std::to_string(x.v[2]); c.describe("mode " + std::to_string(mode) + " " + text + "\n  over" + dump);
    try { all = ref.all(q); if (all.size() > 20000) { c.label("skipped"); return; } } catch (Big) { c.label("skipped"); return; }
    Out o = execute(layer ? *layer : db, text, mode, getenv("PLAN") != 0); if (getenv("PLAN")) fprintf(stderr, "%s\n", o.text.c_str());
    c.nontrivial(!all.empty() && (q.g.pats.size() + q.g.unions.size() + q.g.opts.size() > 1 || !q.g.flts.empty()));
    PCHECK(c, o.ok, "query-rejected", o.err);
    std::vector<int> cols = q.proj; if (q.star) { cols.clear(); if (o.empty) { PCHECK(c, all.empty(), "known-empty", "reported as empty, expected " + std::to_string(all.size()) + " rows"); return; } for (auto &n : o.names) cols.push_back(atoi(n.c_str() + 1)); if (q.star) { Query q2 = q; q2.proj = cols; all = Ref(D, db.t).all(q2); } }
    Bag want = project(all, cols);
    if (o.empty) { PCHECK(c, want.empty(), "known-empty", "reported as empty, expected " + show(want)); c.label("known empty"); return; }
    if (mode == 0) { Bag got; for (auto &x : o.rows) { Row r = x.first; if (ids) for (auto &v : r) if (ids->count(v)) v = ids->at(v); got[r] += q.distinct ? 1 : x.second; } PCHECK(c, got == want, "answers", "expected " + show(want) + "\n     got " + show(got)); }
    else {
        std::map<std::string, u64> wt, gt; auto cell = [&](u64 v) { return v == NUL ? std::string("NULL") : D.text(v); };
        for (auto &x : want) { std::string l; for (u64 v : x.first) l += cell(v) + " "; wt[l] += x.second; }
        u64 ng = 0; std::vector<std::string> rows;
        if (mode == 1) for (auto l : o.lines) { for (auto &ch : l) if (ch == '\t') ch = ' '; while (!l.empty() && l.back() == ' ') l.pop_back(); if (l == "<empty result>") continue; rows.push_back(l.empty() && cols.empty() ? "" : l + " "); }
        else { for (JSON row : o.json.getListChildren()) { std::string l; for (int v : cols) { std::string k = "v" + std::to_string(v); if (!row.containsChild(k)) { l += "? "; continue; } JSON kv = row.getChild(k); std::string va = kv.get("value"); l += (kv.get("type") == "uri" ? "<" + va + ">" : va) + " "; } rows.push_back(l); } }
        for (auto &l : rows) { gt[l]++; ng++; }
        std::string sw, sg; for (auto &x : wt) sw += "\n      " + x.first + "x" + std::to_string(x.second); for (auto &x : gt) sg += "\n      " + x.first + "x" + std::to_string(x.second);
        u64 tot = total(want), n = tot > q.offset ? tot - q.offset : 0; if (q.limit) n = std::min(n, q.limit);
        PCHECK(c, ng == n, "rows", "expected " + std::to_string(n) + " rows of" + sw + "\n     got " + std::to_string(ng) + sg);
        PCHECK(c, o.n == n, "row-count", "reports " + std::to_string(o.n) + " rows instead of " + std::to_string(n));
        if (mode == 1 && !q.order.empty() && !q.star && !cols.empty()) { // the rows are a window of the ordered solutions
            typedef std::vector<std::string> Key; auto less = [&](const Key &a, const Key &b) { for (size_t i = 0; i < q.order.size(); ++i) if (a[i] != b[i]) return (a[i] < b[i]) != q.order[i].second; return false; };
            std::vector<size_t> at; for (auto &o2 : q.order) at.push_back(std::find(cols.begin(), cols.end(), o2.first) - cols.begin());
            auto norm = [](const std::string &t) { return t == "NULL" ? std::string("0") : (t[0] == '<' ? "1" : "2") + t.substr(1, t.size() - 2); };
            std::vector<Key> wk, gk; for (auto &x : want) { Key k; for (size_t i : at) k.push_back(norm(cell(x.first[i]))); for (u64 i = 0; i < x.second; ++i) wk.push_back(k); }
            std::stable_sort(wk.begin(), wk.end(), less);
            for (auto &l : o.lines) { if (l == "<empty result>") continue; Key cs, k; std::string cur; for (char ch : l) { if (ch == '\t' || ch == ' ') { cs.push_back(cur); cur.clear(); } else cur += ch; } cs.push_back(cur); bool okRow = true; for (size_t i : at) { if (i >= cs.size()) okRow = false; else k.push_back(norm(cs[i])); } PCHECK(c, okRow, "answers", "short row " + l); gk.push_back(k); }
            for (size_t i = 0; i < gk.size(); ++i) { if (gk[i] != wk[q.offset + i]) { std::string m; for (auto &l : o.lines) m += "\n      " + l; PFAIL(c, "order", "row " + std::to_string(i) + " of" + m + "\n      has the sort key " + gk[i][0] + " instead of " + wk[q.offset + i][0]); } }
            if (gk.size() > 1) c.label("ordered");
        }
        for (auto &x : gt) PCHECK(c, wt.count(x.first) && wt[x.first] >= x.second, "answers", "expected " + sw + "\n     got" + sg);
    }
}
static void answers(Src &s, Case &c, int level) { MemDB db; Dict D; world(s, db, D); ask(s, c, level, db, D, 0, 0); }
// GROUP BY with COUNT, and HAVING on the count
static void aggregates(Src &s, Case &c) {
    MemDB db; Dict D; world(s, db, D); Gen G(s, D, db.t); Query q = gen(s, G, s.below(3)); q.distinct = q.star = false; q.order.clear(); q.limit = q.offset = 0;
    std::set<int> b; Gen::bound(q.g, b); std::vector<int> bv(b.begin(), b.end()); if (bv.empty()) { c.label("skipped"); return; } std::set<int> m; Gen::may(q.g, m); std::vector<int> mv(m.begin(), m.end());
    std::vector<int> keys; int nk = 1 + s.below(2); for (int i = 0; i < nk; ++i) { int v = bv[s.below(bv.size())]; if (std::find(keys.begin(), keys.end(), v) == keys.end()) keys.push_back(v); }
    struct Ag { int kind, var; }; std::vector<Ag> ags; int na = 1 + s.below(2); for (int i = 0; i < na; ++i) { Ag a; a.kind = s.below(2); a.var = mv[s.below(mv.size())]; ags.push_back(a); }
    Txt tx(D, s); tx.o = "SELECT "; for (int k : keys) tx.o += "?v" + std::to_string(k) + " ";
    for (size_t i = 0; i < ags.size(); ++i) tx.o += "(COUNT(" + (ags[i].kind == 2 ? std::string("*") : (ags[i].kind == 1 ? "DISTINCT " : "") + ("?v" + std::to_string(ags[i].var))) + ") AS ?c" + std::to_string(i) + ") ";
    tx.o += "WHERE "; tx.grp(q.g); tx.o += "GROUP BY "; for (int k : keys) tx.o += "?v" + std::to_string(k) + " ";
    std::string dump; for (auto &x : db.t) dump += " " + std::to_string(x.v[0]) + "-" + std::to_string(x.v[1]) + "-" + std::to_string(x.v[2]); c.describe(tx.o + "\n  over" + dump);
    Sols all; Ref ref(D, db.t); try { all = ref.grp(q.g); if (all.size() > 20000) { c.label("skipped"); return; } } catch (Big) { c.label("skipped"); return; }
    std::map<Row, std::vector<std::pair<u64, std::set<u64>>>> groups;
    for (auto &x : all) { Row k; for (int v : keys) k.push_back(x[v]); auto &g = groups[k]; g.resize(ags.size()); for (size_t i = 0; i < ags.size(); ++i) { if (ags[i].kind == 2 || x[ags[i].var] != NUL) g[i].first++; if (ags[i].kind == 1 && x[ags[i].var] != NUL) g[i].second.insert(x[ags[i].var]); } }
    std::map<std::string, int> want, got; for (auto &g : groups) { std::string l; for (u64 v : g.first) l += D.text(v) + " "; for (size_t i = 0; i < ags.size(); ++i) l += std::to_string(ags[i].kind == 1 ? g.second[i].second.size() : g.second[i].first) + " "; want[l]++; }
    Out o = execute(db, tx.o, 1, getenv("PLAN") != 0); c.nontrivial(groups.size() > 1 && all.size() > groups.size()); PCHECK(c, o.ok, "query-rejected", o.err);
    if (!o.empty) for (auto l : o.lines) { for (auto &ch : l) if (ch == '\t') ch = ' '; while (!l.empty() && l.back() == ' ') l.pop_back(); if (l == "<empty result>") continue; got[l + " "]++; }
    std::string sw, sg; for (auto &x : want) sw += "\n      " + x.first + "x" + std::to_string(x.second); for (auto &x : got) sg += "\n      " + x.first + "x" + std::to_string(x.second);
    PCHECK(c, want == got, "aggregates", "expected" + sw + "\n     got" + sg);
}
static void basic(Src &s, Case &c) { answers(s, c, 0); }
static void unions(Src &s, Case &c) { answers(s, c, 1); }
static void optionals(Src &s, Case &c) { answers(s, c, 2); }
static void nested(Src &s, Case &c) { answers(s, c, 3); }

#ifndef SPARQL_NO_MAIN
int main(int argc, char **argv) {
    return Engine({Facet("basic", basic, 100000, 3000000), Facet("unions", unions, 100000, 3000000), Facet("optionals", optionals, 100000, 3000000), Facet("nested", nested, 100000, 3000000), Facet("aggregates", aggregates, 60000, 3000000)}).main(argc, argv);
}
#endif
