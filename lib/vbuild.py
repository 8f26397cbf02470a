"""Content-hash incremental builder for the harnesses.

Everything is compiled from /repo's current working tree into /verif/_build.  An
object is reused only if the command line and the *contents* of every file the
compiler read are unchanged (mtimes are never trusted).
"""
import hashlib, json, os, subprocess, sys, glob, re, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

class BuildError(Exception):
    pass

_hash = {}
_lock = threading.Lock()

def fhash(p):
    with _lock:
        if p in _hash:
            return _hash[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash[p] = h
    return h

DEFS = ["-DNDEBUG", "-DSPARQL=1", "-DML=1", "-DANALYTICS=1", "-DSERVER=1"]
# -fsigned-char, -std=c++11 as in the project's CMakeLists.txt
BASE = ["-std=c++11", "-fsigned-char", "-fpermissive", "-w", "-O1", "-g1", "-fno-omit-frame-pointer"] + DEFS
SAN = ["-fsanitize=address"]
KOG = ["-include", "kognac_prelude.h", "-I" + VERIF + "/kognac/include"]
TINC = ["-I" + REPO + "/include", "-I" + REPO + "/rdf3x/include", "-I" + REPO + "/rapidjson/include"]
SINC = ["-I" + REPO + "/snap", "-I" + REPO + "/snap/snap-core", "-I" + REPO + "/snap/glib-core"]

def rel(p):
    return re.sub(r"[^A-Za-z0-9_.-]", "_", p.replace(REPO + "/", "").replace(VERIF + "/", "v_"))

def compile_one(src, flags, variant):
    d = os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, rel(src) + ".o")
    meta = obj + ".json"
    cmd = ["g++"] + flags + ["-c", src, "-o", obj]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(fhash(p) == h for p, h in m["deps"].items()):
                return obj
        except (ValueError, KeyError, OSError):
            pass
    dep = obj + ".d"
    for f in (meta,):
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines() if "error" in l][:6]
        raise BuildError("cannot compile %s:\n%s" % (src, "\n".join(lines) or r.stdout[-1500:]))
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    deps = [os.path.abspath(x) for x in deps]
    deps = [x for x in deps if x.startswith(REPO) or x.startswith(VERIF)]
    tmp = meta + ".tmp%d" % threading.get_ident()
    json.dump({"key": key, "deps": {x: fhash(x) for x in deps}}, open(tmp, "w"))
    os.rename(tmp, meta)
    return obj

def compile_all(jobs):
    """jobs: list of (src, flags, variant) -> list of objects"""
    objs, errs = [], []
    # biggest sources first
    order = sorted(range(len(jobs)), key=lambda i: -_weight(jobs[i][0]))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(i, ex.submit(compile_one, *jobs[i])) for i in order]
        for i, f in futs:
            try:
                res[i] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    return res

def _weight(p):
    try:
        w = os.path.getsize(p)
    except OSError:
        w = 0
    if "snap_tu" in p:
        w += 10**6
        if "base" in p or "table" in p or "gstat" in p or "timenet" in p or "mmnet" in p:
            w += 10**6
    return w

def archive(name, objs, variant):
    lib = os.path.join(OUT, variant, "lib%s.a" % name)
    stamp = lib + ".key"
    key = hashlib.sha256("\n".join(o + fhash_obj(o) for o in objs).encode()).hexdigest()
    if os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == key:
        return lib
    if os.path.exists(lib):
        os.unlink(lib)
    subprocess.run(["ar", "rcsT" if False else "rcs", lib] + objs, check=True)
    open(stamp, "w").write(key)
    return lib

def fhash_obj(o):
    with open(o, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()

# ---------------------------------------------------------------- source groups
EXCLUDE = re.compile(r"/(java|mining)/|/main[^/]*\.cpp$|/src/client/|/src/python/")

def sources(*dirs):
    out = []
    for d in dirs:
        out += glob.glob(os.path.join(REPO, d, "**", "*.cpp"), recursive=True)
    return sorted(x for x in set(out) if not EXCLUDE.search(x))

def snap_tus(variant):
    """Snap.cpp is a unity build: one small TU per included .cpp, so that it compiles in parallel."""
    top = os.path.join(REPO, "snap/snap-core/Snap.cpp")
    d = os.path.join(OUT, "snap_tu")
    os.makedirs(d, exist_ok=True)
    heads, cpps = [], []
    for line in open(top, errors="replace"):
        m = re.match(r'\s*#\s*include\s+"([^"]+)"', line)
        if m:
            (cpps if m.group(1).endswith(".cpp") else heads).append(m.group(1))
    out = []
    # util.cpp uses operators that only base.cpp's dt.cpp declares: keep them together
    glued = [c for c in cpps if c in ("base.cpp", "util.cpp")]
    units = ([glued] if glued else []) + [[c] for c in cpps if c not in glued]
    for cs in units:
        p = os.path.join(d, "snap_tu_" + cs[0])
        body = "".join('#include "%s"\n' % h for h in heads + cs)
        if not os.path.exists(p) or open(p).read() != body:
            open(p, "w").write(body)
        out.append(p)
    return out

GROUPS = {
    "kognac": lambda: [VERIF + "/kognac/src/kognac.cpp"],
    "core": lambda: sources("src/trident/binarytables", "src/trident/files", "src/trident/iterators", "src/trident/kb",
                            "src/trident/model", "src/trident/tree", "src/trident/utils", "src/trident/sparql",
                            "src/trident/tests", "src/trident/server"),
    "ml": lambda: sources("src/trident/ml"),
    "rdf3x": lambda: sources("rdf3x/src"),
    "layer": lambda: sources("src/layers"),
    "analytics": lambda: sources("src/snap"),
    "snap": None,
}

def group_jobs(g, variant, san):
    if g == "snap":
        flags = BASE + san + ["-fopenmp"] + SINC
        return [(p, flags, variant) for p in snap_tus(variant)]
    flags = BASE + san + KOG + TINC + SINC
    return [(p, flags, variant) for p in GROUPS[g]()]

LINK = ["-llz4", "-lz", "-lcurl", "-ltbb", "-lpthread", "-lrt"]

def build_harness(name, groups, san=None, variant=None, extra=None, snap=False, link=None):
    """Builds /verif/harness/<name>.cpp against the groups; returns the binary's path."""
    san = SAN if san is None else san
    variant = variant or ("asan" if san == SAN else "v" + hashlib.sha256(" ".join(san).encode()).hexdigest()[:6])
    jobs, owner = [], []
    for g in groups:
        for j in group_jobs(g, variant, san):
            jobs.append(j); owner.append(g)
    omp = ["-fopenmp"] if "snap" in groups else []
    onlysnap = set(groups) == {"snap"}
    hflags = BASE + san + omp + (["-I" + VERIF + "/lib"] + SINC if onlysnap else KOG + TINC + SINC + ["-I" + VERIF + "/lib"]) + (extra or [])
    jobs.append((VERIF + "/harness/" + name + ".cpp", hflags, variant)); owner.append("main")
    objs = compile_all(jobs)
    libs = []
    for g in groups:
        libs.append(archive(g, [o for o, w in zip(objs, owner) if w == g], variant))
    main = objs[-1]
    binp = os.path.join(OUT, variant, name)
    key = hashlib.sha256("\n".join(fhash_obj(x) for x in [main] + libs).encode() + " ".join(link or LINK).encode()).hexdigest()
    stamp = binp + ".key"
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key:
        return binp
    cmd = ["g++"] + san + omp + ["-o", binp, main, "-Wl,--start-group"] + libs + ["-Wl,--end-group"] + (link or LINK)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines() if "undefined" in l or "error" in l][:15]
        raise BuildError("cannot link %s:\n%s" % (name, "\n".join(lines) or r.stdout[-1500:]))
    open(stamp, "w").write(key)
    return binp
