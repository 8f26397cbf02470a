// Small property-based testing engine.
//
// A case is a pure function of a sequence of bounded choices ("choice stream").
// Random choices are drawn from a generator seeded by (seed, facet, case index) and
// recorded; a failing recording is shrunk by deleting / zeroing / lowering choices and
// re-running the property in a forked child, so crashes, sanitizer reports and hangs
// shrink exactly like failed assertions.  The shrunk recording is the replay file.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

extern "C" __attribute__((weak)) const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:detect_odr_violation=0:"
           "allocator_may_return_null=1:max_allocation_size_mb=8000:malloc_context_size=12:"
           "handle_abort=1:handle_sigfpe=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000:"
           "intercept_tls_get_addr=0:alloc_dealloc_mismatch=0";
}
extern "C" __attribute__((weak)) const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ULL; }
    return mix(h);
}

struct Failure { std::string key, msg; };
struct Discard {};

// ------------------------------------------------------------------ choice source
struct Src {
    bool replay; std::vector<uint64_t> in; size_t pos; std::vector<uint64_t> rec; uint64_t st;
    static Src random(uint64_t seed) { Src s; s.replay = false; s.pos = 0; s.st = seed; return s; }
    static Src from(const std::vector<uint64_t> &v) { Src s; s.replay = true; s.in = v; s.pos = 0; s.st = 0; return s; }
    uint64_t raw(uint64_t n) { // in [0,n); n==0 means the full 64-bit range
        uint64_t v;
        if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; }
        else { st += 0x9E3779B97F4A7C15ULL; v = mix(st); if (n) v = (uint64_t) (((__uint128_t) v * n) >> 64); }
        if (n) v %= n;
        if (rec.size() > 4000000) throw Discard();
        rec.push_back(v);
        return v;
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : raw(n); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
    bool chance(int num, int den) { return (int) below(den) >= den - num; } // 0 -> false
    bool flip() { return below(2) == 1; }
    double unit() { return below(1000001) / 1000000.0; }
    // small values most of the time, but the whole range is reachable
    uint64_t skew(uint64_t n) {
        if (n <= 1) return 0;
        int bits = 0; while (bits < 63 && ((uint64_t) 1 << bits) < n) bits++;
        uint64_t b = below(bits + 1);
        uint64_t lim = b >= 63 ? n : std::min(n, (uint64_t) 1 << b);
        return below(lim);
    }
    // a value close to an interesting boundary, or skewed
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    uint64_t boundary(const std::vector<uint64_t> &bs, uint64_t max) {
        if (chance(1, 2)) {
            uint64_t b = bs[below(bs.size())];
            int64_t d = range(-2, 2);
            uint64_t v = (d < 0 && b < (uint64_t) -d) ? 0 : b + d;
            if (v <= max) return v;
        }
        return skew(max == UINT64_MAX ? max : max + 1);
    }
};

// ------------------------------------------------------------------ per-case record
struct Case {
    bool nontriv; std::map<std::string, uint64_t> labels; std::string desc; uint64_t evals; uint64_t excluded;
    std::string scratch; bool made; int ndirs; uint64_t sig; bool hasSig; bool verbose;
    std::set<std::string> known; std::map<std::string, std::string> knownSeen;
    Case() : nontriv(false), evals(1), excluded(0), made(false), ndirs(0), sig(0), hasSig(false), verbose(false) {}
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void label(const std::string &s, uint64_t n = 1) { labels[s] += n; }
    void describe(const std::string &s) { desc = s; if (verbose) fprintf(stderr, "%s\n", s.c_str()); }
    void note(const std::string &s) { if (desc.size() < 6000) desc += s; if (verbose) fprintf(stderr, "%s", s.c_str()); }
    // report a violation; if its key is a listed known finding, remember it and go on
    bool fail(const std::string &key, const std::string &msg) {
        if (known.count(key)) { knownSeen[key] = msg; return true; }
        throw Failure{key, msg};
    }
    std::string dir(const std::string &name) {
        std::string d = scratch + "/" + name;
        mkdir(scratch.c_str(), 0755); mkdir(d.c_str(), 0755);
        return d;
    }
};

inline void rmtree(const std::string &p) {
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        DIR *d = opendir(p.c_str());
        if (d) {
            std::vector<std::string> kids;
            while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") kids.push_back(n); }
            closedir(d);
            for (size_t i = 0; i < kids.size(); ++i) rmtree(p + "/" + kids[i]);
        }
        rmdir(p.c_str());
    } else unlink(p.c_str());
}

typedef std::function<void(Src &, Case &)> Prop;
struct Facet {
    std::string name; Prop fn; uint64_t quick, thorough; double hang; // hang: seconds before a case counts as hanging
    Facet(const std::string &n, Prop f, uint64_t q, uint64_t t, double h = 120) : name(n), fn(f), quick(q), thorough(t), hang(h) {}
};

struct Slot { volatile uint64_t idx; volatile double start; volatile int running; volatile uint64_t done; char pad[64]; };
inline double now() { struct timeval t; gettimeofday(&t, NULL); return t.tv_sec + t.tv_usec * 1e-6; }

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i]; char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline std::string clip(const std::string &s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

struct Outcome { int kind; std::string key, msg; std::vector<uint64_t> rec; std::string desc; Outcome() : kind(0) {} }; // 0 ok 1 fail 2 crash 3 hang 4 discard

struct Stats {
    uint64_t evals, cases, nontriv, discards, excluded; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct; std::map<std::string, std::string> knownSeen;
    Stats() : evals(0), cases(0), nontriv(0), discards(0), excluded(0) {}
    void add(const Case &c, uint64_t h) {
        cases++; evals += c.evals; excluded += c.excluded;
        for (std::map<std::string, uint64_t>::const_iterator i = c.labels.begin(); i != c.labels.end(); ++i) labels[i->first] += i->second;
        for (std::map<std::string, std::string>::const_iterator i = c.knownSeen.begin(); i != c.knownSeen.end(); ++i) knownSeen[i->first] = i->second;
        if (c.nontriv) {
            nontriv++;
            if (distinct.insert(h).second && samples.size() < 3 && !c.desc.empty()) samples.push_back(clip(c.desc, 700));
        }
    }
};

class Engine {
    std::vector<Facet> facets; std::string base; std::set<std::string> known;
    std::string scratchFor(const std::string &w) { return base + "/" + w; }

    void quiet(const std::string &errfile) {
        int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); }
        if (!errfile.empty()) { int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); close(e); } }
    }
    static std::string readHead(const std::string &f, size_t n) {
        std::ifstream i(f.c_str()); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error:");
        if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
        if (p == std::string::npos) p = s.size() > n ? s.size() - n : 0; 
        return s.substr(p, n);
    }
    // run one case in this process
    void runCase(const Facet &f, Src &s, Case &c) { f.fn(s, c); }

    Outcome child(const Facet &f, const std::vector<uint64_t> &ch, double limit, bool verbose = false) {
        Outcome o; std::string sd = scratchFor("shrink"); rmtree(sd); mkdir(sd.c_str(), 0755);
        std::string res = base + "/res", err = base + "/err"; unlink(res.c_str());
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            if (!verbose) quiet(err);
            Src s = Src::from(ch); Case c; c.scratch = sd; c.known = known; c.verbose = verbose;
            int kind = 0; std::string key, msg;
            try { runCase(f, s, c); } catch (Failure &x) { kind = 1; key = x.key; msg = x.msg; } catch (Discard &) { kind = 4; }
            catch (std::exception &x) { kind = 1; key = "exception"; msg = std::string("unexpected exception: ") + x.what(); }
            catch (int x) { kind = 1; key = "exception"; msg = "unexpected exception: int " + std::to_string(x); }
            catch (...) { kind = 1; key = "exception"; msg = "unexpected exception"; }
            std::ofstream r(res.c_str()); r << kind << "\n" << key << "\n" << msg.size() << "\n" << msg << "\n" << c.desc.size() << "\n" << c.desc << "\n";
            r << s.rec.size(); for (size_t i = 0; i < s.rec.size(); ++i) r << " " << s.rec[i]; r << "\nEND\n"; r.close();
            _exit(0);
        }
        double t0 = now(); int st = 0; bool dead = false;
        useconds_t nap = 200;
        while (now() - t0 < limit) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) { dead = true; break; }
            usleep(nap); if (nap < 5000) nap *= 2;
        }
        if (!dead) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); o.kind = 3; o.key = "hang"; o.msg = "the case does not finish within " + std::to_string((int) limit) + " s"; o.rec = ch; rmtree(sd); return o; }
        std::ifstream r(res.c_str()); size_t n; std::string line;
        bool ok = false;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (r >> o.kind)) {
            std::getline(r, line); std::getline(r, o.key);
            r >> n; r.get(); o.msg.resize(n); if (n) r.read(&o.msg[0], n);
            r >> n; r.get(); o.desc.resize(n); if (n) r.read(&o.desc[0], n);
            r >> n; o.rec.resize(n); for (size_t i = 0; i < n; ++i) r >> o.rec[i];
            r >> line; ok = line == "END";
        }
        if (!ok) {
            o.kind = 2; o.rec = ch; o.key = "crash";
            o.msg = (WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process ended with status " + std::to_string(WEXITSTATUS(st)));
            if (!verbose) o.msg += ": " + readHead(err, 1500);
        }
        rmtree(sd);
        return o;
    }
    static bool bad(const Outcome &o) { return o.kind >= 1 && o.kind <= 3; }

    Outcome shrink(const Facet &f, Outcome best, double budget, double limit) {
        double end = now() + budget; int tries = 0;
        std::vector<uint64_t> cur = best.rec;
        auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
            if (now() > end) return false;
            tries++;
            Outcome o = child(f, c, limit);
            if (bad(o) && o.kind == best.kind && o.key == best.key) {
                if (o.kind == 1 && (o.rec.size() < c.size())) { best = o; cur = o.rec; }
                else { best = o; best.rec = c; cur = c; }
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && now() < end) {
            progress = false;
            for (size_t len = cur.size() / 2; len >= 1 && now() < end; len /= 2) {
                for (size_t i = 0; i + len <= cur.size() && now() < end;) {
                    std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true; else i += std::max<size_t>(1, len);
                }
            }
            for (size_t len = std::min<size_t>(cur.size(), 16); len >= 1 && now() < end; len /= 2)
                for (size_t i = 0; i + len <= cur.size() && now() < end; i += len) {
                    bool z = true; for (size_t k = i; k < i + len; ++k) if (cur[k]) z = false;
                    if (z) continue;
                    std::vector<uint64_t> c(cur); for (size_t k = i; k < i + len; ++k) c[k] = 0;
                    if (attempt(c)) progress = true;
                }
            for (size_t i = 0; i < cur.size() && now() < end; ++i) {
                uint64_t lo = 0, hi = cur[i];
                while (hi > lo + 1 && i < cur.size() && now() < end) {
                    uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> c(cur); c[i] = mid;
                    if (attempt(c)) { progress = true; hi = i < cur.size() ? cur[i] : 0; } else lo = mid;
                }
                if (i < cur.size() && cur[i] > 0) { std::vector<uint64_t> c(cur); c[i]--; if (attempt(c)) progress = true; }
            }
        }
        fprintf(stderr, "[pbt] shrunk to %zu choices in %d runs\n", best.rec.size(), tries);
        return best;
    }

    static void writeReplay(const std::string &file, const Facet &f, const std::string &binary, const Outcome &o) {
        std::ofstream r(file.c_str());
        r << "# harness " << binary << "\nfacet " << f.name << "\nchoices " << o.rec.size();
        for (size_t i = 0; i < o.rec.size(); ++i) r << " " << o.rec[i];
        r << "\n# key: " << o.key << "\n";
        std::istringstream m(o.msg + "\n--- case ---\n" + o.desc); std::string l;
        while (std::getline(m, l)) r << "# " << l << "\n";
    }

public:
    Engine(const std::vector<Facet> &f) : facets(f) {}

    int main(int argc, char **argv) {
        uint64_t seed = 1, cases = 0; int workers = 1; double budget = 1e9, shrinkB = 60; std::string facet, out, replay, replayOut, tier = "quick", only; uint64_t first = 0; double mult = 1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
            else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
            else if (a == "--mult") mult = atof(nx().c_str());
            else if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
            else if (a == "--workers") workers = atoi(nx().c_str());
            else if (a == "--time") budget = atof(nx().c_str());
            else if (a == "--shrink") shrinkB = atof(nx().c_str());
            else if (a == "--facet") facet = nx();
            else if (a == "--tier") tier = nx();
            else if (a == "--out") out = nx();
            else if (a == "--replay-out") replayOut = nx();
            else if (a == "--replay") replay = nx();
            else if (a == "--known") { std::istringstream k(nx()); std::string x; while (std::getline(k, x, ',')) if (!x.empty()) known.insert(x); }
            else if (a == "--list") { for (size_t k = 0; k < facets.size(); ++k) printf("%s %llu %llu\n", facets[k].name.c_str(), (unsigned long long) facets[k].quick, (unsigned long long) facets[k].thorough); return 0; }
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
        }
        std::string root = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
        std::string tmpl = root + "/vpbt.XXXXXX"; std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
        if (!mkdtemp(&tb[0])) { perror("mkdtemp"); return 2; }
        base = &tb[0];
        int rc = 2;
        if (!replay.empty()) rc = doReplay(replay);
        else {
            const Facet *f = NULL; for (size_t k = 0; k < facets.size(); ++k) if (facets[k].name == facet) f = &facets[k];
            if (!f) fprintf(stderr, "no facet %s\n", facet.c_str());
            else { if (!cases) cases = std::max<uint64_t>(1, (uint64_t) ((tier == "thorough" ? f->thorough : f->quick) * mult)); rc = doRun(*f, seed, cases, first, workers, budget, shrinkB, out, replayOut, argv[0]); }
        }
        rmtree(base);
        return rc;
    }

    int doReplay(const std::string &file) {
        std::ifstream i(file.c_str()); std::string l, fn; std::vector<uint64_t> ch;
        while (std::getline(i, l)) {
            if (l.empty() || l[0] == '#') continue;
            std::istringstream s(l); std::string k; s >> k;
            if (k == "facet") s >> fn;
            else if (k == "choices") { size_t n; s >> n; ch.resize(n); for (size_t j = 0; j < n; ++j) s >> ch[j]; }
        }
        for (size_t k = 0; k < facets.size(); ++k) if (facets[k].name == fn) {
            Outcome o = child(facets[k], ch, facets[k].hang, true);
            const char *names[] = {"held", "FAILED", "CRASHED", "HUNG", "discarded"};
            printf("replay %s: %s %s\n%s\n", fn.c_str(), names[o.kind], o.key.c_str(), o.msg.c_str());
            if (!o.desc.empty()) printf("--- case ---\n%s\n", o.desc.c_str());
            return bad(o) ? 1 : 0;
        }
        fprintf(stderr, "replay file names no known facet\n"); return 2;
    }

    int doRun(const Facet &f, uint64_t seed, uint64_t cases, uint64_t first, int workers, double budget, double shrinkB,
              const std::string &out, const std::string &replayOut, const std::string &binary) {
        double t0 = now();
        if ((uint64_t) workers > cases) workers = (int) cases;
        Slot *slots = (Slot *) mmap(NULL, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *) slots, 0, sizeof(Slot) * workers);
        std::vector<pid_t> pids(workers); std::vector<bool> alive(workers, true);
        fflush(stdout); fflush(stderr);
        auto caseSeed = [&](uint64_t idx) { return mix(mix(seed) ^ hashStr(f.name) ^ mix(idx * 0x2545F4914F6CDD1DULL + 7)); };
        for (int w = 0; w < workers; ++w) {
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                quiet(base + "/err" + std::to_string(w));
                Stats st; std::string sd = scratchFor("w" + std::to_string(w));
                bool stop = false; std::string failure;
                for (uint64_t k = w; k < cases && !stop; k += workers) {
                    if (now() - t0 > budget) break;
                    uint64_t idx = first + k;
                    slots[w].idx = idx; slots[w].start = now(); slots[w].running = 1;
                    Src s = Src::random(caseSeed(idx)); Case c; c.scratch = sd; c.known = known;
                    try {
                        runCase(f, s, c);
                        uint64_t h = 1; if (c.hasSig) h = c.sig; else for (size_t i = 0; i < s.rec.size(); ++i) h = mix(h ^ s.rec[i]);
                        st.add(c, h);
                    } catch (Discard &) { st.discards++; }
                    catch (...) { stop = true; }
                    slots[w].running = 0; slots[w].done = slots[w].done + 1;
                    rmtree(sd);
                }
                std::ofstream r((base + "/stat" + std::to_string(w)).c_str());
                r << (stop ? 1 : 0) << "\n" << st.cases << " " << st.evals << " " << st.nontriv << " " << st.discards << " " << st.excluded << "\n";
                r << st.labels.size() << "\n"; for (auto &x : st.labels) r << x.second << " " << x.first << "\n";
                r << st.samples.size() << "\n"; for (auto &x : st.samples) r << x.size() << "\n" << x << "\n";
                r << st.knownSeen.size() << "\n"; for (auto &x : st.knownSeen) { std::string m = clip(x.second, 400); std::replace(m.begin(), m.end(), '\n', ' '); r << x.first << "\n" << m << "\n"; }
                r << st.distinct.size() << "\n"; for (uint64_t h : st.distinct) r << h << "\n";
                r << "END\n"; r.close();
                _exit(stop ? 3 : 0);
            }
            pids[w] = p;
        }
        int64_t failIdx = -1; int nAlive = workers; bool hung = false;
        while (nAlive > 0) {
            bool change = false;
            for (int w = 0; w < workers; ++w) if (alive[w]) {
                int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    alive[w] = false; nAlive--; change = true;
                    bool okExit = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                    if (!okExit && (failIdx < 0 || (int64_t) slots[w].idx < failIdx)) { failIdx = slots[w].idx; hung = false; }
                } else if (slots[w].running && now() - slots[w].start > f.hang) {
                    kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; nAlive--; change = true;
                    if (failIdx < 0) { failIdx = slots[w].idx; hung = true; }
                }
            }
            if (failIdx >= 0) { // stop the others
                for (int w = 0; w < workers; ++w) if (alive[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); alive[w] = false; nAlive--; }
            }
            if (!change) usleep(2000);
        }
        // merge
        Stats tot; std::vector<std::string> samples; uint64_t lostCases = 0;
        for (int w = 0; w < workers; ++w) {
            std::ifstream r((base + "/stat" + std::to_string(w)).c_str()); int stop; uint64_t a, b, c, d, e; size_t n; std::string l;
            if (!(r >> stop >> a >> b >> c >> d >> e)) { lostCases += slots[w].done; continue; }
            tot.cases += a; tot.evals += b; tot.nontriv += c; tot.discards += d; tot.excluded += e;
            r >> n; std::getline(r, l); for (size_t i = 0; i < n; ++i) { std::getline(r, l); std::istringstream s(l); uint64_t v; s >> v; s.get(); std::string k; std::getline(s, k); tot.labels[k] += v; }
            r >> n; std::getline(r, l); for (size_t i = 0; i < n; ++i) { size_t m; r >> m; r.get(); std::string x(m, ' '); if (m) r.read(&x[0], m); r.get(); if (samples.size() < 4) samples.push_back(x); }
            r >> n; std::getline(r, l); for (size_t i = 0; i < n; ++i) { std::string k, m; std::getline(r, k); std::getline(r, m); tot.knownSeen[k] = m; }
            r >> n; for (size_t i = 0; i < n; ++i) { uint64_t h; r >> h; tot.distinct.insert(h); }
        }
        tot.cases += lostCases; tot.evals += lostCases;
        Outcome o; int confirmed = 0, attempts = 0; bool violation = false;
        if (failIdx >= 0) {
            Src s = Src::random(caseSeed(failIdx));
            // regenerate the choices of the failing case in a child: run it with a random source there
            o = regenerate(f, caseSeed(failIdx), f.hang);
            if (!bad(o)) { // not reproduced at once (schedule dependent?): try again
                for (int i = 0; i < 9 && !bad(o); ++i) { o = regenerate(f, caseSeed(failIdx), f.hang); attempts++; }
            }
            if (bad(o)) {
                Outcome orig = o;
                Outcome sh = (o.kind == 3) ? o : shrink(f, o, shrinkB, std::min(f.hang, 60.0));
                auto confirm = [&](const Outcome &x) { int n = 0; for (int i = 0; i < 3; ++i) { Outcome y = child(f, x.rec, f.hang); if (bad(y)) n++; } return n; };
                if (sh.kind != 3) { confirmed = confirm(sh); if (confirmed < 3) { int c2 = confirm(orig); if (c2 > confirmed) { confirmed = c2; sh = orig; } } }
                else { confirmed = confirm(sh); }
                o = sh; violation = confirmed >= 3;
                if (!violation && sh.kind != 3) { // a schedule-dependent failure: needs three independent reproductions in twenty
                    int n = 0; for (int i = 0; i < 20 && n < 3; ++i) if (bad(child(f, orig.rec, f.hang))) n++;
                    if (n >= 3) { violation = true; confirmed = n; o = orig; }
                }
                if (violation && !replayOut.empty()) writeReplay(replayOut, f, binary, o);
            }
            if (!violation) fprintf(stderr, "[pbt] facet %s case %lld failed once but did not reproduce (%s)\n", f.name.c_str(), (long long) failIdx, clip(o.msg, 300).c_str());
        }
        if (!out.empty()) {
            std::ofstream j(out.c_str());
            j << "{\"facet\":" << jstr(f.name) << ",\"seed\":" << seed << ",\"planned\":" << cases << ",\"cases\":" << tot.cases << ",\"evaluations\":" << tot.evals << ",\"nontrivial\":" << tot.nontriv
              << ",\"distinct_nontrivial\":" << tot.distinct.size() << ",\"discards\":" << tot.discards << ",\"excluded\":" << tot.excluded << ",\"labels\":{";
            bool c = false; for (auto &x : tot.labels) { j << (c ? "," : "") << jstr(x.first) << ":" << x.second; c = true; }
            j << "},\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << jstr(samples[i]);
            j << "],\"known\":{"; c = false; for (auto &x : tot.knownSeen) { j << (c ? "," : "") << jstr(x.first) << ":" << jstr(x.second); c = true; }
            j << "},\"violation\":" << (violation ? "true" : "false") << ",\"unconfirmed\":" << (failIdx >= 0 && !violation ? "true" : "false") << ",\"confirmed\":" << confirmed << ",\"key\":" << jstr(o.key) << ",\"msg\":" << jstr(clip(o.msg, 1500))
              << ",\"case\":" << jstr(clip(o.desc, 1500)) << ",\"failing_case_index\":" << failIdx << ",\"wall_s\":" << (now() - t0) << "}\n";
        }
        munmap(slots, sizeof(Slot) * workers);
        return violation ? 1 : 0;
    }

    // Runs a case from its seed in a child. If it fails by assertion we get the exact recording back; if it
    // crashes or hangs the recording is streamed through a shared page-backed file.
    Outcome regenerate(const Facet &f, uint64_t sd, double limit) {
        // First find out how many choices the case draws; a crash loses them, so draw generously instead:
        // the generator is a counter-based stream, hence replaying "raw" values needs the bounds. Use a live log.
        std::string logf = base + "/choices"; unlink(logf.c_str());
        std::string sdir = scratchFor("regen"); rmtree(sdir); mkdir(sdir.c_str(), 0755);
        std::string res = base + "/res", err = base + "/err"; unlink(res.c_str());
        size_t cap = (size_t) 1 << 25; // 32 MB => 4M choices
        int fd = open(logf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(fd, cap)) {}
        uint64_t *log = (uint64_t *) mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0); quiet(err);
            struct LogSrc {}; Src s = Src::random(sd); Case c; c.scratch = sdir; c.known = known;
            s.rec.reserve(cap / 8 - 1); // never reallocated: the parent reads it from the log below
            int kind = 0; std::string key, msg;
            liveRec() = &s.rec; liveLog() = log;
            struct sigaction sa; (void) sa;
            atexitDump();
            try { runCase(f, s, c); } catch (Failure &x) { kind = 1; key = x.key; msg = x.msg; } catch (Discard &) { kind = 4; }
            catch (std::exception &x) { kind = 1; key = "exception"; msg = std::string("unexpected exception: ") + x.what(); }
            catch (int x) { kind = 1; key = "exception"; msg = "unexpected exception: int " + std::to_string(x); }
            catch (...) { kind = 1; key = "exception"; msg = "unexpected exception"; }
            dumpLive();
            std::ofstream r(res.c_str()); r << kind << "\n" << key << "\n" << msg.size() << "\n" << msg << "\n" << c.desc.size() << "\n" << c.desc << "\nEND\n"; r.close();
            _exit(0);
        }
        double t0 = now(); int st = 0; bool dead = false; Outcome o;
        while (now() - t0 < limit) { if (waitpid(p, &st, WNOHANG) == p) { dead = true; break; } usleep(2000); }
        if (!dead) { kill(p, SIGALRM); usleep(300000); kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); o.kind = 3; o.key = "hang"; o.msg = "the case does not finish within " + std::to_string((int) limit) + " s"; }
        else {
            std::ifstream r(res.c_str()); size_t n; std::string line; bool ok = false;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (r >> o.kind)) {
                std::getline(r, line); std::getline(r, o.key); r >> n; r.get(); o.msg.resize(n); if (n) r.read(&o.msg[0], n);
                r >> n; r.get(); o.desc.resize(n); if (n) r.read(&o.desc[0], n); r >> line; ok = line == "END";
            }
            if (!ok) { o.kind = 2; o.key = "crash"; o.msg = (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "ended with status " + std::to_string(WEXITSTATUS(st))) + ": " + readHead(err, 1500); }
        }
        uint64_t n = std::min<uint64_t>(log[0], cap / 8 - 1); o.rec.assign(log + 1, log + 1 + n);
        munmap(log, cap); unlink(logf.c_str()); rmtree(sdir);
        return o;
    }
    static std::vector<uint64_t> *&liveRec() { static std::vector<uint64_t> *p = NULL; return p; }
    static uint64_t *&liveLog() { static uint64_t *p = NULL; return p; }
    static void dumpLive() { if (liveRec() && liveLog()) { uint64_t n = std::min<uint64_t>(liveRec()->size(), ((size_t) 1 << 25) / 8 - 1); for (uint64_t i = 0; i < n; ++i) liveLog()[1 + i] = (*liveRec())[i]; liveLog()[0] = n; } }
    static void onSig(int s) { dumpLive(); _exit(128 + s); }
    static void atexitDump();
};
} // namespace pbt

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace pbt {
inline void Engine::atexitDump() {
    signal(SIGALRM, onSig); atexit(dumpLive);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dumpLive);
    else { signal(SIGSEGV, onSig); signal(SIGABRT, onSig); signal(SIGFPE, onSig); signal(SIGBUS, onSig); signal(SIGILL, onSig); }
}
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// CHECK(case, condition, "key", stream expression)
#define PCHECK(c, cond, key, expr) do { if (!(cond)) { std::ostringstream pbt_os; pbt_os << expr; (c).fail(key, pbt_os.str()); } } while (0)
#define PFAIL(c, key, expr) do { std::ostringstream pbt_os; pbt_os << expr; (c).fail(key, pbt_os.str()); } while (0)
#endif
