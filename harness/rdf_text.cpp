// Text front ends of the RDF engine against generated documents: Turtle parser, SPARQL lexer, SPARQL parser.
#include <cts/parser/TurtleParser.hpp>
#include <cts/parser/SPARQLLexer.hpp>
#include "pbt.h"
using namespace pbt;

// ------------------------------------------------------------------ Turtle
static const std::string RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#", XSD = "http://www.w3.org/2001/XMLSchema#";
struct Obj { std::string v, sub; int type; };
struct Tr { std::string s, p; Obj o; };
static std::string utf8(uint32_t c) {
    std::string r;
    if (c < 0x80) r += (char) c;
    else if (c < 0x800) { r += (char) (0xC0 | c >> 6); r += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char) (0xE0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
    else { r += (char) (0xF0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
    return r;
}
struct Doc {
    Src &s; std::string text; bool lastOpen; int line; std::map<std::string, std::string> prefixes; std::string base; std::vector<Tr> out; int fresh, depth; bool big;
    int nested, colls, escapes, longs, pads, ndir;
    Doc(Src &s) : s(s), lastOpen(false), line(1), fresh(0), depth(0), big(false), nested(0), colls(0), escapes(0), longs(0), pads(0), ndir(0) {}
    // token separation: "open" tokens (names, numbers) end at a separator character only
    void space(bool need) {
        int k = s.below(8);
        if (need && k < 3) k = 3;
        if (k < 3) return;
        if (k < 5) text += ' '; else if (k == 5) text += s.flip() ? "\n" : "\t"; else if (k == 6) text += "\r\n  ";
        else {
            text += " #";
            int n = s.chance(1, 12) ? s.range(980, 1060) : s.below(6);
            if (n > 100) pads++;
            for (int i = 0; i < n; ++i) text += "x .;\"<[@"[s.below(n > 100 ? 1 : 8)];
            text += s.flip() ? "\n" : "\r\n";
        }
    }
    void tok(const std::string &t, bool open) {
        static const std::string seps = "[](),;.";
        space((lastOpen && (seps.find(t[0]) == std::string::npos || (t[0] == '.' && t.size() > 1))) || (t[0] == '"' && !text.empty() && text.back() == '"'));
        text += t; lastOpen = open;
    }
    // no white space allowed between parts of one term
    void glue(const std::string &t, bool open) { text += t; lastOpen = open; }
    std::string name(bool any) {
        static const char *a = "abzAZ_", *b = "ab0Z9_-z";
        if (any && s.chance(1, 12)) { static const std::vector<std::string> kw = {"a", "true", "false", "base", "prefix", "_"}; return s.pick(kw); }
        std::string r(1, a[s.below(6)]); int n = s.below(5);
        for (int i = 0; i < n; ++i) r += b[s.below(8)];
        return r;
    }
    // characters of a URI or string: appends source text, returns the value
    std::string body(bool uri, bool lng, int n, std::string &src) {
        std::string val;
        for (int i = 0; i < n; ++i) {
            int k = s.below(16);
            if (k < 9) { char ch = uri ? "abz/#?=.-_9(,;:"[s.below(15)] : "ab Z9.;,<>#@'[]^:_"[s.below(18)]; src += ch; val += ch; }
            else if (k == 9) { src += "\\\\"; val += '\\'; escapes++; }
            else if (k == 10) { uint32_t c = 0x20 + s.below(s.flip() ? 0x60 : 0xD000); char b[12]; snprintf(b, 12, s.flip() ? "\\u%04X" : "\\u%04x", c); src += b; val += utf8(c); escapes++; }
            else if (k == 11) { uint32_t c = s.flip() ? 0x10000 + s.below(0x100000) : 0x20 + s.below(0xD000); char b[16]; snprintf(b, 16, "\\U%08X", c); src += b; val += utf8(c); escapes++; }
            else if (k == 12) { std::string u = utf8(0xA1 + s.below(0x2000)); src += u; val += u; }
            else if (k == 13) { if (uri) { src += "\\>"; val += '>'; } else { src += "\\\""; val += '"'; } escapes++; }
            else if (k == 14 && !uri) { int e = s.below(3); src += "\\"; src += "tnr"[e]; val += "\t\n\r"[e]; escapes++; }
            else if (k == 15 && lng) {
                int e = s.below(3);
                if (e == 0) { src += '\n'; val += '\n'; } else if (e == 1) { src += "\"x"; val += "\"x"; } else { src += "\"\"\\\""; val += "\"\"\""; }
            }
            else { src += 'q'; val += 'q'; }
        }
        return val;
    }
    std::string uri() {
        bool rel = s.chance(1, 5); std::string src, v;
        if (rel) { src = v = "r"; } else { src = v = s.flip() ? "http://" : "ftp://"; }
        v += body(true, false, s.below(7), src);
        if (rel && v.find("://") != std::string::npos) { src = v = "rel"; }
        tok("<" + src + ">", false);
        if (rel && !base.empty()) v = base + v;
        return v;
    }
    std::string qname() {
        std::vector<std::string> ps; for (auto &p : prefixes) ps.push_back(p.first);
        std::string p = s.pick(ps), l = s.chance(1, 8) ? "" : name(true);
        tok(p.empty() ? ":" : p + ":", false); if (!l.empty()) glue(l, true); else lastOpen = true;
        return prefixes[p] + l;
    }
    std::string iri() { if (prefixes.empty() || s.chance(1, 3)) return uri(); return qname(); }
    std::string blank() { return "_:#" + std::to_string(fresh++); }
    std::string labelled() { std::string n = s.chance(1, 30) ? "_" + std::to_string(s.below(3)) : s.flip() ? std::string(1, "abc"[s.below(3)]) : name(true); tok("_:", false); glue(n, true); return "_:" + n; }
    std::string brackets() {
        nested++; std::string b = blank(); tok("[", false); depth++;
        if (s.chance(3, 4)) preds(b);
        depth--; tok("]", false); return b;
    }
    std::string collection() {
        colls++; tok("(", false); depth++; int n = s.below(4); std::vector<Obj> es; std::vector<std::string> ns;
        for (int i = 0; i < n; ++i) es.push_back(object());
        depth--; tok(")", false);
        if (!n) return RDFNS + "nil";
        for (int i = 0; i < n; ++i) ns.push_back(blank());
        ns.push_back(RDFNS + "nil");
        for (int i = 0; i < n; ++i) { out.push_back(Tr{ns[i], RDFNS + "first", es[i]}); out.push_back(Tr{ns[i], RDFNS + "rest", Obj{ns[i + 1], "", Type::URI}}); }
        return ns[0];
    }
    Obj object() {
        int k = s.below(depth > 3 ? 8 : 12);
        if (k < 2) return Obj{iri(), "", Type::URI};
        if (k == 2) return Obj{labelled(), "", Type::URI};
        if (k == 3) { bool b = s.flip(); tok(b ? "true" : "false", true); return Obj{b ? "true" : "false", "", Type::Boolean}; }
        if (k == 4) return number();
        if (k >= 10) return Obj{collection(), "", Type::URI};
        if (k >= 8) return Obj{brackets(), "", Type::URI};
        bool lng = s.chance(1, 3); std::string src, v = body(false, lng, s.below(lng ? 12 : 6), src);
        if (lng) longs++;
        tok(lng ? "\"\"\"" + src + "\"\"\"" : "\"" + src + "\"", false);
        int t = s.below(6);
        if (t == 0) { static const std::vector<std::string> l = {"en", "de", "en-us", "nl-x9"}; std::string g = s.pick(l); glue("@", false); glue(g, true); return Obj{v, g, Type::CustomLanguage}; }
        if (t <= 2) {
            glue("^^", false);
            std::string ty; bool std_ = s.flip();
            if (std_) { static const std::vector<std::string> l = {"string", "integer", "decimal", "double", "boolean"}; ty = XSD + s.pick(l);
                std::string viaPrefix; for (auto &p : prefixes) if (p.second == XSD) viaPrefix = p.first;
                bool have = false; for (auto &p : prefixes) if (p.second == XSD) have = true;
                if (have && s.flip()) { glue(viaPrefix + ":" + ty.substr(XSD.size()), true); } else glue("<" + ty + ">", false); }
            else if (!prefixes.empty() && s.flip()) { std::vector<std::string> ps; for (auto &p : prefixes) ps.push_back(p.first); std::string p = s.pick(ps), l = name(true); glue(p + ":" + l, true); ty = prefixes[p] + l; }
            else { ty = "http://t/" + name(true); glue("<" + ty + ">", false); }
            if (ty == XSD + "string") return Obj{v, "", Type::String};
            if (ty == XSD + "integer") return Obj{v, "", Type::Integer};
            if (ty == XSD + "decimal") return Obj{v, "", Type::Decimal};
            if (ty == XSD + "double") return Obj{v, "", Type::Double};
            if (ty == XSD + "boolean") return Obj{v, "", Type::Boolean};
            return Obj{v, ty, Type::CustomType};
        }
        return Obj{v, "", Type::Literal};
    }
    std::string digits() { std::string r; int n = 1 + s.below(4); for (int i = 0; i < n; ++i) r += (char) ('0' + s.below(10)); return r; }
    Obj number() {
        static const std::vector<std::string> sg = {"", "", "-", "+"}; std::string n = s.pick(sg); int ty = s.below(4); int t;
        if (ty < 2) { n += digits(); t = Type::Integer; }
        else if (ty == 2) { if (s.flip()) n += digits(); n += "." + digits(); t = Type::Decimal; }
        else { if (s.flip()) n += digits() + "." + digits(); else if (s.flip()) n += "." + digits(); else n += digits(); n += s.flip() ? "e" : "E"; static const std::vector<std::string> es = {"", "-", "+"}; n += s.pick(es); n += digits(); t = Type::Double; }
        tok(n, true); return Obj{n, "", t};
    }
    void preds(const std::string &subj) {
        int n = 1 + (s.chance(1, 3) ? s.below(3) : 0);
        for (int i = 0; i < n; ++i) {
            std::string p;
            if (s.chance(1, 4)) { tok("a", true); p = RDFNS + "type"; } else p = iri();
            int m = 1 + (s.chance(1, 3) ? s.below(3) : 0);
            for (int j = 0; j < m; ++j) { Obj o = object(); out.push_back(Tr{subj, p, o}); if (j + 1 < m) tok(",", false); }
            if (i + 1 < n) tok(";", false);
        }
        if (s.chance(1, 6) && n > 1) tok(";", false);
    }
    void statement() {
        int k = s.below(10);
        if (k == 0) {
            tok("@", false); glue("prefix", true); std::string p = s.chance(1, 3) ? "" : s.chance(1, 8) ? "a" : name(false); if (p == "_") p = "p"; // "_" is the blank node prefix
            if (p.empty()) space(true); else text += " ";
            if (p == "true" || p == "false") p = "p";
            glue(p + ":", false); std::string src, v;
            if (s.chance(1, 4)) src = v = XSD; else { src = v = "http://"; v += body(true, false, s.below(5), src); }
            tok("<" + src + ">", false); prefixes[p] = v; tok(".", false); ndir++;
        } else if (k == 1) {
            std::string src = "http://b", v = src; v += body(true, false, s.below(5), src);
            tok("@", false); glue("base", true); tok("<" + src + ">", false); tok(".", false); base = v; ndir++;
        } else {
            std::string sub; int q = s.below(8);
            if (q < 4) sub = iri(); else if (q == 4) sub = labelled(); else if (q == 5) { sub = brackets(); } else if (q == 6) sub = collection(); else sub = iri();
            preds(sub); tok(".", false);
        }
    }
};
static std::string q(const std::string &x) { std::string r; for (unsigned char ch : x) { if (ch < 32 || ch > 126) { char b[6]; snprintf(b, 6, "\\x%02x", ch); r += b; } else r += ch; } return r; }
// multiset of triples with blank nodes replaced by refined colours
static std::multiset<std::string> canon(const std::vector<Tr> &ts, bool keepUser) {
    std::map<std::string, uint64_t> col;
    auto isB = [&](const std::string &x) { return x.compare(0, 2, "_:") == 0; };
    for (auto &t : ts) { if (isB(t.s)) col[t.s] = 1; if (t.o.type == Type::URI && isB(t.o.v)) col[t.o.v] = 1; }
    if (keepUser) for (auto &k : col) if (k.first[2] != '#' && k.first[2] != '_') k.second = hashStr(k.first);
    auto cs = [&](const std::string &x) { return isB(x) ? "_:" + std::to_string(col[x]) : x; };
    auto line = [&](const Tr &t) { return cs(t.s) + " | " + t.p + " | " + (t.o.type == Type::URI ? cs(t.o.v) : t.o.v) + " | " + std::to_string(t.o.type) + " | " + t.o.sub; };
    for (size_t r = 0; r < col.size() && r < 40; ++r) {
        std::map<std::string, std::multiset<uint64_t>> nb;
        for (auto &t : ts) { uint64_t h = hashStr(line(t)); if (isB(t.s)) nb[t.s].insert(mix(h ^ 1)); if (t.o.type == Type::URI && isB(t.o.v)) nb[t.o.v].insert(mix(h ^ 2)); }
        std::map<std::string, uint64_t> nc; for (auto &k : col) { uint64_t h = k.second; for (uint64_t x : nb[k.first]) h = mix(h ^ x) + 7; nc[k.first] = h; }
        col = nc;
    }
    std::multiset<std::string> r; for (auto &t : ts) r.insert(line(t));
    return r;
}
static size_t blanks(const std::vector<Tr> &ts) { std::set<std::string> b; for (auto &t : ts) { if (t.s.compare(0, 2, "_:") == 0) b.insert(t.s); if (t.o.type == Type::URI && t.o.v.compare(0, 2, "_:") == 0) b.insert(t.o.v); } return b.size(); }
static std::vector<Tr> runTurtle(const std::string &text, std::string &err, size_t cap) {
    std::istringstream in(text); TurtleParser p(in); std::vector<Tr> r; std::string s, pr, o, sub; Type::ID t;
    try { while (p.parse(s, pr, o, t, sub)) { r.push_back(Tr{s, pr, Obj{o, sub, (int) t}}); if (r.size() > cap) { err = "too many triples"; return r; } } }
    catch (const TurtleParser::Exception &e) { err = e.message.empty() ? "?" : e.message; }
    return r;
}
static std::string showT(const Tr &t) { return q(t.s) + " | " + q(t.p) + " | " + q(t.o.v) + " | " + std::to_string(t.o.type) + " | " + q(t.o.sub); }
static void turtle(Src &s, Case &c) {
    Doc d(s); int n = 1 + s.below(s.chance(1, 6) ? 30 : 8);
    for (int i = 0; i < n; ++i) d.statement();
    d.space(false);
    c.describe("turtle: " + q(d.text.substr(0, 3000)));
    c.nontrivial(d.out.size() >= 3 && (d.nested || d.colls || d.escapes || d.longs || d.ndir));
    if (d.colls) c.label("collection"); if (d.nested) c.label("bracket"); if (d.longs) c.label("long string"); if (d.text.size() > 1024) c.label("spans read buffer"); if (d.ndir) c.label("directive");
    std::string err; std::vector<Tr> got = runTurtle(d.text, err, d.out.size() + 10);
    PCHECK(c, err.empty(), "turtle-rejected", "valid document rejected: " + q(err));
    if (err.size()) return;
    // a user label that looks like a generated one makes the two indistinguishable
    bool clash = false; for (auto &t : d.out) for (const std::string *x : {&t.s, &t.o.v}) if (x->size() > 3 && x->compare(0, 3, "_:_") == 0 && isdigit((*x)[3])) clash = true;
    bool gen = d.nested || d.colls;
    auto a = canon(d.out, true), b = canon(got, true);
    if (clash) { c.label("label like a generated one"); a = canon(d.out, false); b = canon(got, false); }
    if (a != b || blanks(d.out) != blanks(got)) {
        std::string m = "expected " + std::to_string(d.out.size()) + " triples, " + std::to_string(blanks(d.out)) + " blank nodes, got " + std::to_string(got.size()) + ", " + std::to_string(blanks(got)) + "\n";
        for (size_t i = 0; i < got.size() && i < 16; ++i) m += "  got " + showT(got[i]) + "\n";
        for (size_t i = 0; i < d.out.size() && i < 16; ++i) m += "  exp " + showT(d.out[i]) + "\n";
        PFAIL(c, clash && gen ? "turtle-generated-label-clash" : "turtle-triples", m);
    }
}
// a valid document with one violation must be rejected; arbitrary damage must never crash or run away
static void turtleBad(Src &s, Case &c) {
    Doc d(s); int n = 1 + s.below(4); for (int i = 0; i < n; ++i) d.statement();
    std::string t = d.text; int k = s.below(8); bool must = true;
    if (k == 0) t = t.substr(0, t.size() - 1);                               // last '.' missing
    else if (k == 1) t += " <http://s> <http://p> \"abc";                    // unterminated string
    else if (k == 2) t += " <http://s> <http://p> nosuchprefix:x .";
    else if (k == 3) t += s.flip() ? " <http://s> <http://p> \"\\q\" ." : " <http://s> <http://p> \"\\u12G4\" .";
    else if (k == 4) t += s.flip() ? " <http://s> <http://p> ( <http://o> ." : " <http://s> <http://p> [ <http://q> <http://o> .";
    else if (k == 5) t += s.flip() ? " <http://s> \"p\" <http://o> ." : " \"s\" <http://p> <http://o> .";
    else if (k == 6) t += s.flip() ? " <http://s> <http://p> 12x ." : " <http://s> <http://p> <http://o> <http://x> .";
    else {
        must = false; int m = 1 + s.below(6);
        for (int i = 0; i < m && !t.empty(); ++i) {
            size_t p = s.below(t.size()); int w = s.below(4);
            if (w == 0) t.erase(p, 1 + s.below(4)); else if (w == 1) t.insert(p, 1, "[]().;,:@^\"<>\\#_a1\n\xff"[s.below(20)]); else if (w == 2) t[p] = (char) s.below(256); else t = t.substr(0, p);
        }
    }
    c.describe("turtle(kind " + std::to_string(k) + "): " + q(t.substr(0, 3000)));
    c.nontrivial(); c.label(must ? "one violation" : "random damage");
    std::string err; runTurtle(t, err, t.size() * 2 + 10);
    PCHECK(c, !must || !err.empty(), "turtle-accepted", "malformed document accepted");
    PCHECK(c, err != "too many triples", "turtle-runaway", "more triples than characters");
}

// ------------------------------------------------------------------ SPARQL lexer
typedef SPARQLLexer L;
struct Tk { L::Token t; std::string text, val; };
static Tk genTok(Src &s) {
    static const std::vector<Tk> fixed = { {L::Colon, ":", ""}, {L::Semicolon, ";", ""}, {L::Comma, ",", ""}, {L::Dot, ".", ""}, {L::Underscore, "_", ""}, {L::LCurly, "{", ""}, {L::RCurly, "}", ""}, {L::LParen, "(", ""},
        {L::RParen, ")", ""}, {L::LBracket, "[", ""}, {L::RBracket, "]", ""}, {L::Equal, "=", ""}, {L::NotEqual, "!=", ""}, {L::Less, "<", ""}, {L::LessOrEqual, "<=", ""}, {L::Greater, ">", ""}, {L::GreaterOrEqual, ">=", ""},
        {L::At, "@", ""}, {L::Type, "^^", ""}, {L::Not, "!", ""}, {L::Or, "||", ""}, {L::And, "&&", ""}, {L::Plus, "+", ""}, {L::Minus, "-", ""}, {L::Mul, "*", ""}, {L::Div, "/", ""} };
    int k = s.below(16); auto alnum = [&](int n, const char *set, int m) { std::string r; for (int i = 0; i < n; ++i) r += set[s.below(m)]; return r; };
    if (k < 7) return s.pick(fixed);
    if (k == 7) { static const std::vector<std::string> w = {"[]", "[ ]", "[\n\t]", "[  \r\f ]"}; return Tk{L::Anon, s.pick(w), ""}; }
    if (k == 8 || k == 9) { std::string v = alnum(1 + s.below(6), "abZ09_x", 7); return Tk{L::Variable, (s.flip() ? "?" : "$") + v, v}; }
    if (k == 10) { std::string v = alnum(1 + s.below(9), "0123456789", 10); return Tk{L::Integer, v, v}; }
    if (k == 11) { std::string v = alnum(1 + s.below(4), "0123456789", 10) + "." + alnum(1 + s.below(4), "0123456789", 10); return Tk{L::Decimal, v, v}; }
    if (k == 12) { std::string v = alnum(1, "abZxK", 5) + alnum(s.below(6), "abZ09-_x.", 9); if (v.back() == '.') v += "e"; return Tk{L::Identifier, v, v}; }
    bool iri = k == 13; char d = iri ? '>' : s.flip() ? '"' : '\''; std::string src, v; int n = s.below(8);
    for (int i = 0; i < n; ++i) {
        int e = s.below(8);
        if (e == 0) { char ch = iri ? ">\\<\"{"[s.below(5)] : "\"'\\x"[s.below(4)]; src += '\\'; src += ch; v += ch; }
        else if (e == 1) { std::string u = utf8(0xA1 + s.below(0x3000)); src += u; v += u; }
        else { char ch = iri ? "abZ09:/#?=.-_'&;,$@!()[]%+*~"[s.below(28)] : "ab Z09:/#?<>{}|^\n\t.&"[s.below(20)]; src += ch; v += ch; }
    }
    if (!iri && s.chance(1, 4)) { char o = d == '"' ? '\'' : '"'; src += o; v += o; }
    if (iri && !src.empty() && src[0] == '=') { src = "a" + src; v = "a" + v; }
    return Tk{iri ? L::IRI : L::String, (iri ? std::string("<") : std::string(1, d)) + src + d, v};
}
static bool canTouch(const Tk &a, const Tk &b) { // may b follow a without white space?
    auto wordy = [](char ch) { return isalnum((unsigned char) ch) || ch == '_' || ch == '.' || ch == '-'; };
    if ((a.t == L::Identifier || a.t == L::Variable || a.t == L::Integer || a.t == L::Decimal) && wordy(b.text[0])) return false;
    if (a.t == L::Not || a.t == L::Greater) return b.text[0] != '=';
    if (a.t == L::Less || a.t == L::LessOrEqual) return false;
    if (a.t == L::LBracket) return b.t != L::RBracket;
    return true;
}
static void lexer(Src &s, Case &c) {
    int n = 1 + s.below(24); std::vector<Tk> ts; std::string text; int touching = 0;
    static const std::vector<std::string> ws = {" ", "\n", "\t", "\r", "\f", "  \r\n", " # c <x> \"\n", "#\r", " #?x ' . { \n\t"};
    for (int i = 0; i < n; ++i) {
        Tk t = genTok(s);
        bool need = false; if (i) { need = !canTouch(ts.back(), t); if (ts.back().t == L::LBracket && t.t == L::RBracket) { i--; continue; } }
        if (need || s.chance(1, 3) || (i == 0 && s.flip())) { std::string w = s.pick(ws); if (i && w[0] == '#' && false) w = " "; if (ts.size() && (ts.back().t == L::Less || ts.back().t == L::LessOrEqual)) w = " "; text += w; if (s.chance(1, 3)) text += s.pick(ws); }
        else if (i) touching++;
        text += t.text; ts.push_back(t);
    }
    if (s.chance(1, 3)) text += s.pick(ws); else if (s.chance(1, 5)) text += "# trailing";
    c.describe("lexer input: " + q(text)); c.nontrivial(n >= 5 && touching > 0); c.label("tokens", n); c.label("touching", touching);
    SPARQLLexer lx(text);
    for (int i = 0; i <= n; ++i) {
        L::Token want = i < n ? ts[i].t : L::Eof;
        if (s.chance(1, 5)) { L::Token other = i + 1 < n ? ts[i + 1].t : L::Error; PCHECK(c, lx.hasNext(want), "lexer-peek", "token " + std::to_string(i) + " not seen by hasNext"); if (other != want) PCHECK(c, !lx.hasNext(other), "lexer-peek", "hasNext accepts the wrong token"); }
        L::Token got = lx.getNext();
        PCHECK(c, got == want, "lexer-token", "token " + std::to_string(i) + " is " + std::to_string(got) + " expected " + std::to_string(want) + (i < n ? " (" + q(ts[i].text) + ")" : " (end)"));
        if (i < n && s.chance(1, 5)) { lx.unget(got); PCHECK(c, lx.getNext() == want, "lexer-unget", "unget returned another token"); }
        if (i >= n) break;
        const Tk &t = ts[i];
        if (t.t == L::IRI) PCHECK(c, lx.getIRIValue() == t.val, "lexer-value", "IRI " + q(t.text) + " -> " + q(lx.getIRIValue()));
        if (t.t == L::String) PCHECK(c, lx.getLiteralValue() == t.val, "lexer-value", "literal " + q(t.text) + " -> " + q(lx.getLiteralValue()));
        if (t.t == L::Variable || t.t == L::Integer || t.t == L::Decimal || t.t == L::Identifier) PCHECK(c, lx.getTokenValue() == t.val, "lexer-value", q(t.text) + " -> " + q(lx.getTokenValue()));
        if (t.t == L::Identifier) {
            std::string k = t.text; for (auto &ch : k) if (s.flip()) ch = isupper((unsigned char) ch) ? tolower(ch) : toupper(ch);
            PCHECK(c, lx.isKeyword(k.c_str()), "lexer-keyword", "isKeyword(" + k + ") false for " + t.text);
            PCHECK(c, !lx.isKeyword((k + "x").c_str()) && !lx.isKeyword(k.substr(0, k.size() - 1).c_str()), "lexer-keyword", "isKeyword matches a different length than " + t.text);
        }
        if (s.chance(1, 8)) { std::string rest(lx.getReader(), (std::string::const_iterator) lx.getReader() + 0); (void) rest; }
    }
}
static void lexerBad(Src &s, Case &c) {
    std::string t; int n = s.below(40);
    for (int i = 0; i < n; ++i) { if (s.chance(1, 3)) t += genTok(s).text; else t += (char) (s.flip() ? "<>=!&|^[]\\\"'#?$.:_-09aZ \n"[s.below(25)] : s.below(256)); }
    c.describe("lexer soup: " + q(t)); c.nontrivial(n >= 4);
    SPARQLLexer lx(t); size_t k = 0;
    while (true) { L::Token x = lx.getNext(); if (x == L::Eof || x == L::Error) break; lx.getTokenValue(); lx.getIRIValue(); lx.getLiteralValue(); lx.isKeyword("select"); PCHECK(c, ++k <= t.size() + 1, "lexer-runaway", "more tokens than characters"); if (k > t.size() + 1) break; }
}

int main(int argc, char **argv) {
    return Engine({
        Facet("turtle", turtle, 40000, 2000000), Facet("turtlebad", turtleBad, 60000, 1000000), Facet("lexer", lexer, 150000, 2000000), Facet("lexbad", lexerBad, 100000, 1000000),
    }).main(argc, argv);
}
