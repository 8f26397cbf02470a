// SNAP containers against the standard library, and graphs through files
#include "snapgen.h"
#include "priorityqueue.h"
#include <list>
#include <deque>

template<class T> struct El;
template<> struct El<TInt> { static TInt mk(int v) { return TInt(v); } static int un(const TInt &v) { return v; } static const char *name() { return "TInt"; } };
template<> struct El<TStr> { static TStr mk(int v) { char b[16]; sprintf(b, "%03d", v); return TStr(b); } static int un(const TStr &v) { return atoi(v.CStr()); } static const char *name() { return "TStr"; } };

template<class T> static TVec<T> mkv(const std::vector<int> &m) { TVec<T> v; for (int x : m) v.Add(El<T>::mk(x)); return v; }
template<class T> static std::vector<int> unv(const TVec<T> &v) { std::vector<int> r; for (int i = 0; i < v.Len(); ++i) r.push_back(El<T>::un(v[i])); return r; }
static std::vector<int> uniq(std::vector<int> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

template<class T> static void vecRun(Src &s, Case &c) {
    typedef TVec<T> V; V v; std::vector<int> m; int dom = 1 + s.below(s.flip() ? 6 : 200); int nops = 1 + s.below(60); std::string log = std::string(El<T>::name()) + ":"; bool big = false;
    auto val = [&]() { return (int) s.below(dom); };
    for (int op = 0; op < nops; ++op) {
        int k = s.below(30); size_t n = m.size(); std::string o;
        switch (k) {
        case 0: case 1: case 2: { int x = val(); o = "Add " + std::to_string(x); int at = v.Add(El<T>::mk(x)); m.push_back(x); PCHECK(c, at == (int) n, "vec-add", log << o << ": position " << at); break; }
        case 3: { std::vector<int> w; int z = s.below(40); for (int i = 0; i < z; ++i) w.push_back(val()); o = "AddV" + std::to_string(z); v.AddV(mkv<T>(w)); m.insert(m.end(), w.begin(), w.end()); break; }
        case 4: { if (!std::is_sorted(m.begin(), m.end())) break; int x = val(); o = "AddSorted " + std::to_string(x); int at = v.AddSorted(El<T>::mk(x)); auto it = m.insert(std::upper_bound(m.begin(), m.end(), x), x); (void) it; PCHECK(c, at >= 0 && at < v.Len() && El<T>::un(v[at]) == x, "vec-addsorted", log << o << ": position " << at); break; }
        case 5: { if (!std::is_sorted(m.begin(), m.end())) break; int x = val(); o = "AddMerged " + std::to_string(x); bool in = std::binary_search(m.begin(), m.end(), x); int at = v.AddMerged(El<T>::mk(x)); if (!in) m.insert(std::lower_bound(m.begin(), m.end(), x), x); PCHECK(c, (at == -1) == in, "vec-addmerged", log << o << ": " << at); break; }
        case 6: { int x = val(); o = "AddUnique " + std::to_string(x); bool in = std::find(m.begin(), m.end(), x) != m.end(); int at = v.AddUnique(El<T>::mk(x)); if (!in) m.push_back(x); PCHECK(c, in ? at == -1 : at == (int) n, "vec-addunique", log << o << ": " << at); break; }
        case 7: { int at = s.below(n + 1), x = val(); o = "Ins " + std::to_string(at); v.Ins(at, El<T>::mk(x)); m.insert(m.begin() + at, x); break; }
        case 8: { if (!n) break; int at = s.below(n); o = "Del " + std::to_string(at); v.Del(at); m.erase(m.begin() + at); break; }
        case 9: { if (!n) break; int a = s.below(n), b = a + s.below(n - a); o = "Del " + std::to_string(a) + "-" + std::to_string(b); v.Del(a, b); m.erase(m.begin() + a, m.begin() + b + 1); break; }
        case 10: { int x = val(); o = "DelIfIn " + std::to_string(x); auto it = std::find(m.begin(), m.end(), x); bool in = it != m.end(); if (in) m.erase(it); PCHECK(c, v.DelIfIn(El<T>::mk(x)) == in, "vec-delifin", log << o); break; }
        case 11: { int x = val(); o = "DelAll " + std::to_string(x); v.DelAll(El<T>::mk(x)); m.erase(std::remove(m.begin(), m.end(), x), m.end()); break; }
        case 12: { bool asc = s.flip(); o = asc ? "Sort" : "SortDesc"; v.Sort(asc); std::sort(m.begin(), m.end()); if (!asc) std::reverse(m.begin(), m.end()); PCHECK(c, v.IsSorted(asc), "vec-issorted", log << o); break; }
        case 13: { o = "Reverse"; v.Reverse(); std::reverse(m.begin(), m.end()); break; }
        case 14: { o = "Merge"; v.Merge(); m = uniq(m); break; }
        case 15: case 16: case 17: { std::vector<int> w; int z = s.below(20); for (int i = 0; i < z; ++i) w.push_back(val()); w = uniq(w); v.Merge(); m = uniq(m); std::vector<int> r; V x = mkv<T>(w), d; o = k == 15 ? "Intrs" : k == 16 ? "Union" : "Diff";
            if (k == 15) std::set_intersection(m.begin(), m.end(), w.begin(), w.end(), std::back_inserter(r)); else if (k == 16) std::set_union(m.begin(), m.end(), w.begin(), w.end(), std::back_inserter(r)); else std::set_difference(m.begin(), m.end(), w.begin(), w.end(), std::back_inserter(r));
            if (k == 15) { PCHECK(c, v.IntrsLen(x) == (int) r.size(), "vec-intrslen", log << o); v.Intrs(x, d); } else if (k == 16) { PCHECK(c, v.UnionLen(x) == (int) r.size(), "vec-unionlen", log << o); v.Union(x, d); } else v.Diff(x, d);
            PCHECK(c, unv(d) == r, "vec-setops", log << o << " of " << show(m) << " and " << show(w) << " gives " << show(unv(d))); if (s.flip()) { if (k == 15) v.Intrs(x); else if (k == 16) v.Union(x); else v.Diff(x); m = r; } break; }
        case 18: { int x = val(); int cnt = std::count(m.begin(), m.end(), x); PCHECK(c, v.Count(El<T>::mk(x)) == cnt, "vec-count", log << " Count " << x); int f = v.SearchForw(El<T>::mk(x)), b = v.SearchBack(El<T>::mk(x)); int ef = std::find(m.begin(), m.end(), x) - m.begin(); if (ef == (int) n) ef = -1; int eb = -1; for (size_t i = 0; i < n; ++i) if (m[i] == x) eb = i;
            PCHECK(c, f == ef && b == eb && v.IsIn(El<T>::mk(x)) == (ef >= 0), "vec-search", log << " Search " << x << ": " << f << "," << b); break; }
        case 19: { if (!std::is_sorted(m.begin(), m.end())) break; int x = val(), ins = -1, ins2 = -1; int at = v.SearchBin(El<T>::mk(x)), at2 = v.SearchBin(El<T>::mk(x), ins), at3 = v.SearchBinLeft(El<T>::mk(x), ins2); bool in = std::binary_search(m.begin(), m.end(), x);
            PCHECK(c, in ? at >= 0 && m[at] == x : at == -1, "vec-searchbin", log << " SearchBin " << x << " in " << show(m) << ": " << at); PCHECK(c, in ? at2 >= 0 && m[at2] == x : at2 == -1, "vec-searchbin", log << " SearchBin " << x << ": " << at2);
            if (!in) PCHECK(c, ins == std::lower_bound(m.begin(), m.end(), x) - m.begin(), "vec-searchbin-ins", log << " SearchBin " << x << " in " << show(m) << ": insert at " << ins);
            int l = std::lower_bound(m.begin(), m.end(), x) - m.begin(); PCHECK(c, in ? at3 >= 0 && at3 < n && m[at3] == x : at3 == -1 && ins2 == l - 1, "vec-searchbinleft", log << " SearchBinLeft " << x << " in " << show(m) << ": " << at3); break; }
        case 20: { if (!n) break; int a = s.below(n), b = a + s.below(n - a); V d; v.GetSubValV(a, b, d); PCHECK(c, unv(d) == std::vector<int>(m.begin() + a, m.begin() + b + 1), "vec-sub", log << " GetSubValV " << a << "," << b); break; }
        case 21: { int z = s.below(n + 1); o = "Trunc " + std::to_string(z); v.Trunc(z); m.resize(z); break; }
        case 22: { o = "Pack"; v.Pack(); break; }
        case 23: { V w(v); o = "copy"; v = w; PCHECK(c, w == v, "vec-copy", log << o); V x; x.Swap(w); v.MoveFrom(x); PCHECK(c, x.Len() == 0, "vec-move", log << o); break; }
        case 24: { if (!n) break; int x = v.GetMxValN(); PCHECK(c, m[x] == *std::max_element(m.begin(), m.end()), "vec-max", log << " GetMxValN " << x); break; }
        case 25: { if (n > 8) break; o = s.flip() ? "NextPerm" : "PrevPerm"; bool r = o == "NextPerm" ? v.NextPerm() : v.PrevPerm(); std::vector<int> w = m; bool e = o == "NextPerm" ? std::next_permutation(w.begin(), w.end()) : std::prev_permutation(w.begin(), w.end()); PCHECK(c, r == e, "vec-perm", log << o << " of " << show(m) << ": " << r); if (e) m = w; else { m = unv(v); std::vector<int> a = m, b = w; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PCHECK(c, a == b, "vec-perm", log << o); } break; }
        case 26: { std::vector<int> w; int z = s.below(3); for (int i = 0; i < z; ++i) w.push_back(val()); if (w.empty()) break; int at = v.SearchVForw(mkv<T>(w)); auto it = std::search(m.begin(), m.end(), w.begin(), w.end()); int e = it == m.end() ? -1 : it - m.begin(); PCHECK(c, at == e, "vec-searchv", log << " SearchVForw " << show(w) << " in " << show(m) << ": " << at); break; }
        case 27: { if (s.chance(1, 3)) { o = "Clr"; v.Clr(s.flip()); m.clear(); } break; }
        case 28: { TMOut out; v.Save(out); PSIn in = out.GetSIn(); V w(*in); PCHECK(c, w == v, "vec-save", log << " Save/Load"); v.Clr(); v = w; break; }
        case 29: { std::vector<int> w = m; if (n && s.flip()) w[s.below(n)] = val(); if (n && s.chance(1, 3)) w.pop_back(); V x = mkv<T>(w); PCHECK(c, (v == x) == (m == w), "vec-eq", log << " =="); PCHECK(c, m.size() == w.size() ? (v < x) == (m < w) : (v < x) != (x < v), "vec-less", log << " < of " << show(m) << " and " << show(w)); break; }
        }
        if (!o.empty()) log += " " + o + ";"; c.describe(log); if (m.size() > 20) big = true;
        PCHECK(c, v.Len() == (int) m.size() && unv(v) == m, "vec-contents", log << " leaves " << show(unv(v)) << " instead of " << show(m));
    }
    c.nontrivial(big || m.size() > 8);
}
static void vec(Src &s, Case &c) { if (s.chance(1, 3)) vecRun<TStr>(s, c); else vecRun<TInt>(s, c); }

static TStr kstr(int v) { char b[16]; sprintf(b, "k%d", v); return TStr(b); }
template<class K> struct Mk;
template<> struct Mk<TInt> { static TInt mk(int v) { return TInt(v - 5); } };
template<> struct Mk<TStr> { static TStr mk(int v) { return kstr(v); } };
template<> struct Mk<TIntPr> { static TIntPr mk(int v) { return TIntPr(v / 3, v % 3 - 1); } };
template<class K> static void hashRun(Src &s, Case &c) {
    THash<K, TInt> h; std::map<int, int> m; std::map<int, int> ids; int dom = 1 + s.below(s.flip() ? 12 : 400), nops = 1 + s.below(120); std::string log; size_t mx = 0; bool dels = false;
    if (s.chance(1, 3)) h.Gen(s.below(30));
    THashSet<K> t; std::set<int> tm;
    for (int op = 0; op < nops; ++op) {
        int k = s.below(16), x = s.below(dom), y = s.below(1000); K key = Mk<K>::mk(x); bool in = m.count(x); std::string o;
        switch (k) {
        case 0: case 1: case 2: case 3: o = "AddDat " + std::to_string(x); h.AddDat(key, y); m[x] = y; break;
        case 4: o = "AddKey " + std::to_string(x); { int id = h.AddKey(key); PCHECK(c, h.GetKey(id) == key, "hash-addkey", log << o); h[id] = y; m[x] = y; } break;
        case 5: case 6: o = "DelIfKey " + std::to_string(x); PCHECK(c, h.DelIfKey(key) == in, "hash-delif", log << o); m.erase(x); dels |= in; break;
        case 7: if (in) { o = "DelKeyId " + std::to_string(x); h.DelKeyId(h.GetKeyId(key)); m.erase(x); dels = true; } break;
        case 8: PCHECK(c, h.IsKey(key) == in, "hash-iskey", log << " IsKey " << x); if (in) PCHECK(c, h.GetDat(key) == m[x] && h.GetKey(h.GetKeyId(key)) == key, "hash-get", log << " GetDat " << x); else PCHECK(c, h.GetKeyId(key) == -1, "hash-get", log << " GetKeyId " << x); { TInt d; PCHECK(c, h.IsKeyGetDat(key, d) == in && (!in || d == m[x]), "hash-get", log << " IsKeyGetDat"); } break;
        case 9: if (s.chance(1, 4)) { o = "Defrag"; h.Defrag(); PCHECK(c, h.IsKeyIdEqKeyN(), "hash-defrag", log << o); } break;
        case 10: if (s.chance(1, 4)) { bool bk = s.flip(), asc = s.flip(); o = "Sort"; if (!h.IsKeyIdEqKeyN()) h.Defrag(); h.Sort(bk, asc); for (int i = 1; i < h.Len(); ++i) { bool le = bk ? (asc ? !(h.GetKey(i) < h.GetKey(i - 1)) : !(h.GetKey(i - 1) < h.GetKey(i))) : (asc ? !(h[i] < h[i - 1]) : !(h[i - 1] < h[i])); PCHECK(c, le, "hash-sort", log << o); } } break;
        case 11: if (s.chance(1, 5)) { TMOut out; h.Save(out); PSIn sin = out.GetSIn(); THash<K, TInt> g(*sin); PCHECK(c, g == h, "hash-save", log << " Save/Load"); h = g; o = "Save/Load"; } break;
        case 12: if (s.chance(1, 8)) { o = "Clr"; h.Clr(s.flip()); m.clear(); } break;
        case 13: { o = "set+ " + std::to_string(x); t.AddKey(key); tm.insert(x); break; }
        case 14: { o = "set- " + std::to_string(x); PCHECK(c, t.DelIfKey(key) == (tm.count(x) > 0), "hashset-del", log << o); tm.erase(x); break; }
        case 15: { THash<K, TInt> g(h); PCHECK(c, g == h && g.Len() == h.Len(), "hash-copy", log << " copy"); if (s.flip()) { g.AddDat(key, y + 1000); PCHECK(c, !(g == h), "hash-eq", log << " == after a change"); } break; }
        }
        if (!o.empty()) { log += " " + o + ";"; c.describe(log); } mx = std::max(mx, m.size());
        PCHECK(c, h.Len() == (int) m.size() && h.Empty() == m.empty(), "hash-len", log << " has " << h.Len() << " keys instead of " << m.size());
        if (op % 8 == 7 || op == nops - 1) {
            for (int v = 0; v < dom; ++v) { K kk = Mk<K>::mk(v); PCHECK(c, h.IsKey(kk) == (m.count(v) > 0), "hash-iskey", log << " IsKey " << v); if (m.count(v)) PCHECK(c, h.GetDat(kk) == m[v], "hash-get", log << " GetDat " << v << " is " << h.GetDat(kk)); PCHECK(c, t.IsKey(kk) == (tm.count(v) > 0), "hashset-iskey", log << " set IsKey " << v); }
            int n = 0; for (typename THash<K, TInt>::TIter i = h.BegI(); i < h.EndI(); i++) { n++; PCHECK(c, n <= (int) m.size() && h.IsKey(i.GetKey()) && h.GetDat(i.GetKey()) == i.GetDat(), "hash-iter", log << " iterator"); } PCHECK(c, n == (int) m.size(), "hash-iter", log << " iterator visits " << n << " of " << m.size());
            n = 0; for (int i = h.FFirstKeyId(); h.FNextKeyId(i);) { n++; PCHECK(c, h.IsKeyId(i), "hash-iter", log << " FNextKeyId"); } PCHECK(c, n == (int) m.size(), "hash-iter", log << " FNextKeyId visits " << n << " of " << m.size());
            n = 0; for (typename THashSet<K>::TIter i = t.BegI(); i < t.EndI(); i++) { n++; PCHECK(c, t.IsKey(i.GetKey()), "hashset-iter", log << " set iterator"); } PCHECK(c, n == (int) tm.size() && t.Len() == n, "hashset-iter", log << " set iterator visits " << n << " of " << tm.size());
            TVec<K> kv; h.GetKeyV(kv); PCHECK(c, kv.Len() == (int) m.size(), "hash-keyv", log); TIntV dv; h.GetDatV(dv); long sum = 0, es = 0; for (int i = 0; i < dv.Len(); ++i) sum += dv[i]; for (auto &e : m) es += e.second; PCHECK(c, sum == es && dv.Len() == (int) m.size(), "hash-datv", log);
        }
    }
    c.nontrivial(mx > 8 && dels);
}
static void hash(Src &s, Case &c) { switch (s.below(3)) { case 0: hashRun<TInt>(s, c); break; case 1: hashRun<TStr>(s, c); break; default: hashRun<TIntPr>(s, c); } }

static void queues(Src &s, Case &c) {
    int kind = s.below(5), nops = 1 + s.below(100), dom = 1 + s.below(30); std::string log; size_t mx = 0;
    const char *nm[] = {"stack", "queue", "list", "priority queue", "matrix"}; log = std::string(nm[kind]) + ":"; c.label(nm[kind]);
    auto note = [&](const std::string &o) { log += " " + o + ";"; c.describe(log); };
    if (kind == 0) { TSStack<TInt> q; std::vector<int> m; for (int i = 0; i < nops; ++i) { int x = s.below(dom); if (s.chance(3, 5) || m.empty()) { note("push"); q.Push(x); m.push_back(x); } else { note("pop"); PCHECK(c, q.Top() == m.back(), "stack-top", log); q.Pop(); m.pop_back(); } PCHECK(c, q.Len() == (int) m.size() && q.Empty() == m.empty(), "stack-len", log); for (size_t j = 0; j < m.size(); ++j) PCHECK(c, q[j] == m[m.size() - 1 - j], "stack-at", log); PCHECK(c, q.IsIn(x) == (std::find(m.begin(), m.end(), x) != m.end()), "stack-isin", log); mx = std::max(mx, m.size()); } }
    else if (kind == 1) { int ml = 1 + s.below(10), cap = s.chance(1, 3) ? 1 + (int) s.below(12) : -1; TQQueue<TInt> q(ml, cap); std::deque<int> m; log += " MxLast " + std::to_string(ml) + " MxLen " + std::to_string(cap); for (int i = 0; i < nops; ++i) { int x = s.below(dom); if (s.chance(3, 5) || m.empty()) { note("push"); q.Push(x); if (cap != -1 && (int) m.size() == cap) m.pop_front(); m.push_back(x); } else { note("pop"); PCHECK(c, q.Top() == m.front(), "queue-top", log); q.Pop(); m.pop_front(); } PCHECK(c, q.Len() == (int) m.size() && q.Empty() == m.empty(), "queue-len", log); for (size_t j = 0; j < m.size(); ++j) PCHECK(c, q[j] == m[j], "queue-at", log); if (s.chance(1, 8)) { TMOut o; q.Save(o); PSIn in = o.GetSIn(); TQQueue<TInt> r(*in); q = r; note("save/load"); } mx = std::max(mx, m.size()); } }
    else if (kind == 2) { TLst<TInt> q; std::vector<int> m; for (int i = 0; i < nops; ++i) { int x = s.below(dom), k = s.below(9); bool sorted = std::is_sorted(m.begin(), m.end());
            switch (k) { case 0: case 1: note("AddFront"); q.AddFront(x); m.insert(m.begin(), x); break; case 2: case 3: note("AddBack"); q.AddBack(x); m.push_back(x); break; case 4: case 5: if (sorted) { note("AddBackSorted"); q.AddBackSorted(x); m.insert(std::lower_bound(m.begin(), m.end(), x), x); } break;
                case 6: { note("Del " + std::to_string(x)); q.Del(x); if (std::find(m.begin(), m.end(), x) != m.end()) m.erase(std::find(m.begin(), m.end(), x)); break; } case 7: if (!m.empty()) { if (s.flip()) { note("DelFirst"); q.DelFirst(); m.erase(m.begin()); } else { note("DelLast"); q.DelLast(); m.pop_back(); } } break;
                case 8: { TLst<TInt>::PLstNd f = q.SearchForw(x), b = q.SearchBack(x); bool in = std::find(m.begin(), m.end(), x) != m.end(); PCHECK(c, (f != NULL) == in && (b != NULL) == in, "list-search", log << " search " << x); if (in && s.flip()) { if (s.flip()) { note("PutFront"); q.PutFront(f); m.erase(std::find(m.begin(), m.end(), x)); m.insert(m.begin(), x); } else { note("Ins"); size_t at = std::find(m.begin(), m.end(), x) - m.begin(); q.Ins(f, 77); m.insert(m.begin() + at + 1, 77); } } break; } }
            std::vector<int> g, r; for (TLst<TInt>::PLstNd p = q.First(); p != NULL && g.size() < m.size() + 3; p = p->Next()) g.push_back(p->GetVal()); for (TLst<TInt>::PLstNd p = q.Last(); p != NULL && r.size() < m.size() + 3; p = p->Prev()) r.push_back(p->GetVal()); std::reverse(r.begin(), r.end());
            PCHECK(c, g == m && r == m && q.Len() == (int) m.size(), "list-contents", log << " leaves " << show(g) << " backwards " << show(r) << " instead of " << show(m)); mx = std::max(mx, m.size()); } }
    else if (kind == 3) { TMaxPriorityQueue<TInt> q; std::map<int, float> m; for (int i = 0; i < nops; ++i) { int x = s.below(dom); float p = (int) s.below(50) - 10; if (s.chance(2, 5) || m.empty()) { if (!m.count(x)) { note("Insert " + std::to_string(x)); q.Insert(x, p); m[x] = p; } else { note("SetPriority " + std::to_string(x)); q.SetPriority(x, p); m[x] = p; } } else if (s.flip()) { float b = -1e9; for (auto &e : m) b = std::max(b, e.second); PCHECK(c, q.GetMaxPriority() == b, "pq-max", log << " maximum " << q.GetMaxPriority() << " instead of " << b); note("PopMax"); int v = q.PopMax(); PCHECK(c, m.count(v) && m[v] == b, "pq-pop", log << " popped " << v); m.erase(v); } else { PCHECK(c, q.GetPriority(x) == (m.count(x) ? m[x] : 0.0f) || !m.count(x), "pq-get", log << " priority of " << x); } PCHECK(c, q.Size() == (int) m.size(), "pq-size", log); mx = std::max(mx, m.size()); } }
    else { int X = 1 + s.below(6), Y = 1 + s.below(6); TIntVV q(X, Y); std::vector<std::vector<int>> m(X, std::vector<int>(Y, 0)); q.PutAll(0); for (int i = 0; i < nops; ++i) { int x = s.below(X), y = s.below(Y), x2 = s.below(X), y2 = s.below(Y), v = s.below(100); switch (s.below(8)) { case 0: case 1: case 2: note("At"); q.At(x, y) = v; m[x][y] = v; break; case 3: note("PutX"); q.PutX(x, v); for (auto &e : m[x]) e = v; break; case 4: note("PutY"); q.PutY(y, v); for (auto &r : m) r[y] = v; break; case 5: note("SwapX"); q.SwapX(x, x2); std::swap(m[x], m[x2]); break; case 6: note("SwapY"); q.SwapY(y, y2); for (auto &r : m) std::swap(r[y], r[y2]); break;
                case 7: { TIntV r, l; q.GetRow(x, r); q.GetCol(y, l); for (int j = 0; j < Y; ++j) PCHECK(c, r[j] == m[x][j], "matrix-row", log); for (int j = 0; j < X; ++j) PCHECK(c, l[j] == m[j][y], "matrix-col", log); TMOut o; q.Save(o); PSIn in = o.GetSIn(); TIntVV w(*in); PCHECK(c, w == q, "matrix-save", log); break; } }
            for (int a = 0; a < X; ++a) for (int b = 0; b < Y; ++b) PCHECK(c, q(a, b) == m[a][b], "matrix-contents", log); mx = std::max(mx, (size_t) 9); } }
    c.nontrivial(mx > 5);
}

static std::string rs(Src &s, int mx) { std::string r; int n = s.below(mx + 1); for (int i = 0; i < n; ++i) r += "ab,Ab \t;0x"[s.below(10)]; return r; }
static std::string ss(const TStr &t) { return std::string(t.CStr()); }
static void str(Src &s, Case &c) {
    std::string a = rs(s, 14), b = rs(s, 3), d = rs(s, 3); TStr A(a.c_str()), B(b.c_str()), D(d.c_str()); char ch = "ab, 0"[s.below(5)]; c.describe("\"" + a + "\" \"" + b + "\" \"" + d + "\" '" + ch + "'"); c.nontrivial(a.size() > 4 && a.find(b) != std::string::npos);
    PCHECK(c, A.Len() == (int) a.size() && ss(A) == a && A.Empty() == a.empty(), "str-value", ss(A)); PCHECK(c, (A == B) == (a == b) && (A < B) == (a < b), "str-cmp", "comparison"); PCHECK(c, ss(A + B) == a + b, "str-cat", ss(A + B)); { TStr x(A); x += B; PCHECK(c, ss(x) == a + b && ss(A) == a, "str-cat", ss(x)); }
    PCHECK(c, A.GetPrimHashCd() == TStr((a).c_str()).GetPrimHashCd() && A.GetSecHashCd() == TStr(a.c_str()).GetSecHashCd(), "str-hash", "hash codes differ");
    std::string lo = a, up = a; for (auto &x : lo) x = tolower(x); for (auto &x : up) x = toupper(x); PCHECK(c, ss(A.GetLc()) == lo && ss(A.GetUc()) == up && ss(A) == a, "str-case", ss(A.GetLc()) + " " + ss(A.GetUc())); PCHECK(c, A.EqI(TStr(up.c_str())), "str-eqi", up);
    { size_t x = a.find_first_not_of(" \t"), y = a.find_last_not_of(" \t"); std::string t = x == std::string::npos ? "" : a.substr(x, y - x + 1); PCHECK(c, ss(A.GetTrunc()) == t, "str-trunc", "'" + ss(A.GetTrunc()) + "'"); }
    { size_t p = a.find(ch), q = a.rfind(ch); PCHECK(c, A.SearchCh(ch) == (p == std::string::npos ? -1 : (int) p) && A.SearchChBack(ch) == (q == std::string::npos ? -1 : (int) q) && A.CountCh(ch) == std::count(a.begin(), a.end(), ch), "str-searchch", "SearchCh");
      if (p != std::string::npos) { PCHECK(c, ss(A.LeftOf(ch)) == a.substr(0, p) && ss(A.RightOf(ch)) == a.substr(p + 1) && ss(A.LeftOfLast(ch)) == a.substr(0, q) && ss(A.RightOfLast(ch)) == a.substr(q + 1), "str-leftof", ss(A.LeftOf(ch)) + "|" + ss(A.RightOf(ch))); TStr l, r; A.SplitOnCh(l, ch, r); PCHECK(c, ss(l) == a.substr(0, p) && ss(r) == a.substr(p + 1), "str-splitch", ss(l) + "|" + ss(r)); A.SplitOnLastCh(l, ch, r); PCHECK(c, ss(l) == a.substr(0, q) && ss(r) == a.substr(q + 1), "str-splitlastch", ss(l) + "|" + ss(r)); } }
    { TStrV v; bool skip = s.flip(); A.SplitOnAllCh(ch, v, skip); std::vector<std::string> e; std::string cur; for (char x : a + ch) { if (x == ch) { if (!skip || !cur.empty()) e.push_back(cur); cur.clear(); } else cur += x; } std::string g, w; for (int i = 0; i < v.Len(); ++i) g += "[" + ss(v[i]) + "]"; for (auto &x : e) w += "[" + x + "]"; PCHECK(c, g == w, "str-splitall", (skip ? "skip " : "") + g + " instead of " + w); }
    { TStrV v; A.SplitOnWs(v); std::istringstream in(a); std::string x, w, g; while (in >> x) w += "[" + x + "]"; for (int i = 0; i < v.Len(); ++i) g += "[" + ss(v[i]) + "]"; PCHECK(c, g == w, "str-splitws", g + " instead of " + w); }
    if (!b.empty()) { size_t p = a.find(b); PCHECK(c, A.SearchStr(B) == (p == std::string::npos ? -1 : (int) p) && A.IsStrIn(B) == (p != std::string::npos), "str-searchstr", std::to_string(A.SearchStr(B)));
        PCHECK(c, A.IsPrefix(B) == (a.compare(0, b.size(), b) == 0 && a.size() >= b.size()), "str-prefix", "IsPrefix"); PCHECK(c, A.IsSuffix(B) == (a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "str-suffix", "IsSuffix");
        { TStr x(A); std::string e = a; int n = 0; for (size_t q = e.find(b); q != std::string::npos; q = e.find(b, q + d.size())) { e.replace(q, b.size(), d); n++; } int g = x.ChangeStrAll(B, D); PCHECK(c, ss(x) == e && g == n, "str-changeall", ss(x) + " (" + std::to_string(g) + ") instead of " + e); }
        { TStr x(A); std::string e = a; if (p != std::string::npos) e.replace(p, b.size(), d); x.ChangeStr(B, D); PCHECK(c, ss(x) == e, "str-change", ss(x) + " instead of " + e); } { TStr x(A); std::string e = a; if (p != std::string::npos) e.erase(p, b.size()); PCHECK(c, x.DelStr(B) == (p != std::string::npos) && ss(x) == e, "str-delstr", ss(x)); } }
    if (!a.empty()) { int x = s.below(a.size()), y = x + s.below(a.size() - x); PCHECK(c, ss(A.GetSubStr(x, y)) == a.substr(x, y - x + 1) && ss(A.Mid(x, y - x + 1)) == a.substr(x, y - x + 1), "str-sub", ss(A.GetSubStr(x, y))); { TStr z(A); z.DelSubStr(x, y); std::string e = a; e.erase(x, y - x + 1); PCHECK(c, ss(z) == e, "str-delsub", ss(z)); } { TStr z(A); z.InsStr(x, B); std::string e = a; e.insert(x, b); PCHECK(c, ss(z) == e, "str-ins", ss(z)); } { TStr z(A); z.PutCh(x, 'Z'); std::string e = a; e[x] = 'Z'; PCHECK(c, ss(z) == e && ss(A) == a, "str-putch", ss(z)); } { TStr z(A); z.ChangeChAll(ch, '#'); std::string e = a; for (auto &q : e) if (q == ch) q = '#'; PCHECK(c, ss(z) == e && ss(A) == a, "str-changech", ss(z)); } }
    { std::string e(a.rbegin(), a.rend()); PCHECK(c, ss(A.Reverse()) == e, "str-reverse", ss(A.Reverse())); } { TStr z(A); z.DelChAll(ch); std::string e = a; e.erase(std::remove(e.begin(), e.end(), ch), e.end()); PCHECK(c, ss(z) == e, "str-delch", ss(z)); } { TStr z(A); PCHECK(c, ss(z.GetHex().GetFromHex()) == a, "str-hex", ss(z.GetHex())); } { TMOut o; A.Save(o); PSIn in = o.GetSIn(); TStr z(*in); PCHECK(c, z == A, "str-save", ss(z)); }
    { long long v = (long long) s.boundary({127, 255, 32767, 65535, INT_MAX}, INT_MAX); if (s.flip()) v = -v; if (s.flip()) v = (int) v; std::string t = std::to_string(v); int iv = 0; bool ok = v >= INT_MIN + 1ll && v <= INT_MAX; TStr T(t.c_str()); PCHECK(c, T.IsInt(iv) == ok || v == INT_MIN, "str-isint", t + ": IsInt " + std::to_string(T.IsInt(iv))); if (ok && T.IsInt(iv)) PCHECK(c, iv == v, "str-int", t + " read as " + std::to_string(iv)); int64 lv; if (T.IsInt64(lv)) PCHECK(c, lv == v, "str-int64", t + " read as " + std::to_string(lv)); if (ok) PCHECK(c, ss(TInt::GetStr((int) v)) == t, "str-fmtint", ss(TInt::GetStr((int) v))); }
    { TStrPool sp; std::vector<uint> offs; std::vector<std::string> st; int n = s.below(12); for (int i = 0; i < n; ++i) { std::string x = rs(s, 6); offs.push_back(sp.AddStr(TStr(x.c_str()))); st.push_back(x); } for (int i = 0; i < n; ++i) PCHECK(c, ss(sp.GetStr(offs[i])) == st[i], "strpool", ss(sp.GetStr(offs[i])) + " instead of " + st[i]); }
    { TStrHash<TInt> sh; std::map<std::string, int> m; int n = s.below(20); for (int i = 0; i < n; ++i) { std::string x = rs(s, 2); sh.AddDat(TStr(x.c_str()), i); m[x] = i; } PCHECK(c, sh.Len() == (int) m.size(), "strhash", "size"); for (auto &e : m) PCHECK(c, sh.IsKey(TStr(e.first.c_str())) && sh.GetDat(TStr(e.first.c_str())) == e.second, "strhash", e.first); }
}

// ------------------------------------------------------------------ graphs through files
template<class G> struct Ops;
struct Shape { std::vector<int> nodes; std::vector<std::pair<int, int>> edges; };
static Shape shape(Src &s, bool multi, bool gaps) { Shape r; int n = s.below(9); std::set<int> u; while ((int) u.size() < n) u.insert(gaps ? s.below(60) : (int) u.size()); r.nodes.assign(u.begin(), u.end()); std::set<std::pair<int, int>> seen; int m = n ? s.below(18) : 0; for (int i = 0; i < m; ++i) { std::pair<int, int> e(r.nodes[s.below(n)], r.nodes[s.below(n)]); if (multi || seen.insert(e).second) r.edges.push_back(e); } return r; }
template<class PG> static PG build(const Shape &h) { PG g = PG::TObj::New(); for (int n : h.nodes) g->AddNode(n); for (auto &e : h.edges) g->AddEdge(e.first, e.second); return g; }
template<class PG> static std::pair<std::vector<int>, std::vector<std::pair<int, int>>> content(const PG &g, bool dir) { std::vector<int> n; std::vector<std::pair<int, int>> e; for (typename PG::TObj::TNodeI i = g->BegNI(); i < g->EndNI(); i++) n.push_back(i.GetId()); for (typename PG::TObj::TEdgeI i = g->BegEI(); i < g->EndEI(); i++) { std::pair<int, int> p(i.GetSrcNId(), i.GetDstNId()); if (!dir && p.first > p.second) std::swap(p.first, p.second); e.push_back(p); } std::sort(n.begin(), n.end()); std::sort(e.begin(), e.end()); return std::make_pair(n, e); }
static std::string show2(const std::pair<std::vector<int>, std::vector<std::pair<int, int>>> &x) { std::string r = "nodes " + show(x.first) + " edges"; for (auto &e : x.second) r += " " + std::to_string(e.first) + "-" + std::to_string(e.second); return r; }
template<class PG> static void ioRun(Src &s, Case &c, bool dir, bool multi, const char *nm) {
    Shape h = shape(s, multi, s.flip()); PG g = build<PG>(h); int del = h.nodes.size() > 2 && s.chance(1, 3) ? h.nodes[s.below(h.nodes.size())] : -1; if (del >= 0) g->DelNode(del); auto want = content(g, dir); c.describe(std::string(nm) + " " + show2(want)); c.nontrivial(want.second.size() > 3); c.label(nm);
    { TMOut o; g->Save(o); PSIn in = o.GetSIn(); PG k = PG::TObj::Load(*in); auto got = content(k, dir); PCHECK(c, got == want, "graph-save", nm << " loaded as " << show2(got)); PCHECK(c, k->IsOk(false), "graph-isok", nm << " is not consistent after loading"); int id = k->AddNode(); PCHECK(c, std::find(want.first.begin(), want.first.end(), id) == want.first.end(), "graph-newid", nm << " reuses node id " << id << " after loading"); k->AddEdge(id, id); PCHECK(c, k->GetEdges() == (int) want.second.size() + 1, "graph-newedge", nm << " edges after loading and adding one"); }
    { PG k = PG::TObj::New(); *k = *g; auto got = content(k, dir); PCHECK(c, got == want, "graph-assign", nm << " assigned as " << show2(got)); }
    std::string f = c.dir("io") + "/g.txt"; 
    { TSnap::SaveEdgeList(g, TStr(f.c_str()), TStr("test graph")); PG k = TSnap::LoadEdgeList<PG>(TStr(f.c_str())); auto e = want; std::set<int> inc; for (auto &x : e.second) { inc.insert(x.first); inc.insert(x.second); } e.first.assign(inc.begin(), inc.end()); auto got = content(k, dir); PCHECK(c, got == e, "edgelist", nm << " read back as " << show2(got)); PG k2 = TSnap::LoadEdgeList<PG>(TStr(f.c_str()), 0, 1, '\t'); PCHECK(c, content(k2, dir) == e, "edgelist-sep", nm << " read back with a separator as " << show2(content(k2, dir)));
      PG k3 = TSnap::LoadEdgeList<PG>(TStr(f.c_str()), 1, 0); auto e3 = e; for (auto &x : e3.second) { if (dir) std::swap(x.first, x.second); } std::sort(e3.second.begin(), e3.second.end()); PCHECK(c, content(k3, dir) == e3, "edgelist-cols", nm << " read back with swapped columns as " << show2(content(k3, dir)));
      TStrHash<TInt> map; PG k4 = TSnap::LoadEdgeListStr<PG>(TStr(f.c_str()), 0, 1, map); std::vector<std::pair<int, int>> back; for (auto &x : content(k4, true).second) { int a = atoi(map.GetKey(x.first)), b = atoi(map.GetKey(x.second)); if (!dir && a > b) std::swap(a, b); back.push_back(std::make_pair(a, b)); } std::sort(back.begin(), back.end()); PCHECK(c, back == e.second && k4->GetNodes() == (int) e.first.size(), "edgelist-str", nm << " read back with string ids"); }
    if (!want.first.empty()) { // adjacency lists: every node on a line with its out-neighbours
        std::map<int, std::vector<int>> adj; for (int n : want.first) adj[n]; for (auto &e : want.second) adj[e.first].push_back(e.second); FILE *o = fopen(f.c_str(), "w"); fprintf(o, "# comment\n"); for (auto &a : adj) { fprintf(o, "%d", a.first); for (int b : a.second) fprintf(o, "%c%d", s.flip() ? '\t' : ' ', b); fprintf(o, "\n"); } fclose(o);
        PG k = TSnap::LoadConnList<PG>(TStr(f.c_str())); PCHECK(c, content(k, dir) == want, "connlist", nm << " adjacency lists read as " << show2(content(k, dir))); }
}
template<class PG> static void pajek(Src &s, Case &c, bool dir, const char *nm) { Shape h = shape(s, false, s.flip()); PG g = build<PG>(h); auto want = content(g, dir); if (want.first.empty()) return; std::string f = c.dir("io") + "/g.paj"; TSnap::SavePajek(g, TStr(f.c_str())); PG k = TSnap::LoadPajek<PG>(TStr(f.c_str())); auto got = content(k, dir); PCHECK(c, got.first.size() == want.first.size() && got.second.size() == want.second.size(), "pajek", nm << " " << show2(want) << " read back from Pajek as " << show2(got)); std::vector<int> a, b; for (typename PG::TObj::TNodeI i = g->BegNI(); i < g->EndNI(); i++) a.push_back(i.GetOutDeg() * 100 + i.GetInDeg()); for (typename PG::TObj::TNodeI i = k->BegNI(); i < k->EndNI(); i++) b.push_back(i.GetOutDeg() * 100 + i.GetInDeg()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PCHECK(c, a == b, "pajek-degrees", nm << " " << show2(want) << " degrees differ after Pajek"); }
static void io(Src &s, Case &c) { int k = s.below(4); if (k == 0) ioRun<PUNGraph>(s, c, false, false, "TUNGraph"); else if (k == 1) ioRun<PNGraph>(s, c, true, false, "TNGraph"); else if (k == 2) ioRun<PNEGraph>(s, c, true, true, "TNEGraph"); else ioRun<PNEANet>(s, c, true, true, "TNEANet"); if (s.chance(1, 3)) { if (s.flip()) pajek<PNGraph>(s, c, true, "TNGraph"); else pajek<PUNGraph>(s, c, false, "TUNGraph"); } }

int main(int argc, char **argv) {
    return Engine({Facet("vec", Prop(static_cast<void (*)(Src &, Case &)>(vec)), 40000, 800000), Facet("hash", Prop(static_cast<void (*)(Src &, Case &)>(hash)), 40000, 800000), Facet("queues", Prop(static_cast<void (*)(Src &, Case &)>(queues)), 40000, 800000), Facet("str", Prop(static_cast<void (*)(Src &, Case &)>(str)), 60000, 1200000), Facet("io", Prop(static_cast<void (*)(Src &, Case &)>(io)), 20000, 300000)}).main(argc, argv);
}
