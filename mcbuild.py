"""Builds the explorers from /repo's current working tree.

The tracked sources are copied to build/src-<hash> (their generated header and index are produced there by the
repository's own codegen.py), compiled with the repository's own Release flags ("rel") or with the sanitizers and
live assertions ("asan"), and linked with the explorers of mc/.  Nothing is ever written into /repo.  Objects are
cached by the hash of everything that went into them, so a changed source file is always rebuilt."""
import concurrent.futures, hashlib, os, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
CC, CXX = "gcc", "g++"
REL = "-O3 -DNDEBUG -O2 -g1 -ffast-math -fno-finite-math-only -fPIC -w".split()
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=float-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -fPIC -w -fno-builtin-floor -fno-builtin-ceil -fno-builtin-round -fno-builtin-trunc -fno-builtin-rint -fno-builtin-nearbyint".split()  # or gcc folds (int)floor(x) before the cast is checked
SCHED = "-O0 -g1 -fsanitize=thread -DNDEBUG -fPIC -w".split()  # only for its instrumentation calls: mc/sched.cc defines them
WORK = REL + ["-fsanitize-coverage=trace-pc"]  # counts basic blocks: mc/alloc.cc defines the callback
LIB = {"rel": REL, "asan": ASAN, "sched": SCHED, "work": WORK}
MC = {"rel": "-O2 -g1 -w".split(), "asan": "-O1 -g1 -w -DEXACT -fsanitize=address".split(), "sched": "-O1 -g1 -w -fno-builtin-malloc -fno-builtin-free".split()}
MC["work"] = MC["rel"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def repo_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"], stdout=subprocess.PIPE, check=True).stdout
    return sorted(f for f in out.decode().split("\0") if f and os.path.isfile(os.path.join(REPO, f)))


def read(p):
    with open(p, "rb") as f:
        return f.read()


def snapshot():
    """A copy of the working tree with the generated files; returns (dir, hash)."""
    h = hashlib.sha256()
    files = repo_files()
    for f in files:
        h.update(f.encode() + b"\0" + read(os.path.join(REPO, f)) + b"\0")
    key = h.hexdigest()[:16]
    d = os.path.join(BUILD, "src-" + key)
    if not os.path.exists(os.path.join(d, ".ok")):
        shutil.rmtree(d, ignore_errors=True)
        for f in files:
            t = os.path.join(d, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), t)
        sh([PY, "codegen.py"], cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        open(os.path.join(d, ".ok"), "w").close()
        for o in os.listdir(BUILD):  # older snapshots
            if o.startswith("src-") and o != os.path.basename(d):
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    return d, key


def compile_all(jobs):
    """jobs: (source, object, command prefix, dependency text).  Skips objects whose recorded key is current."""
    def one(j):
        src, obj, cmd, dep = j
        key = hashlib.sha256(read(src) + dep + " ".join(cmd).encode()).hexdigest()
        kf = obj + ".key"
        if os.path.exists(obj) and os.path.exists(kf) and open(kf).read() == key:
            return
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        sh(cmd + ["-c", src, "-o", obj])
        with open(kf, "w") as f:
            f.write(key)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def lib_objects(variant, snap, extra=()):
    d = snap
    srcs = []
    for sub in ("indicators", "utils"):
        srcs += [os.path.join(d, sub, f) for f in sorted(os.listdir(os.path.join(d, sub))) if f.endswith((".c", ".cc", ".cpp"))]
    srcs.append(os.path.join(d, "indicators_index.c"))
    heads = [os.path.join(r, f) for sub in ("indicators", "utils") for r, _, fs in os.walk(os.path.join(d, sub)) for f in fs if not f.endswith((".c", ".cc", ".cpp"))]
    dep = b"".join(read(h) for h in sorted(heads)) + read(os.path.join(d, "indicators.h"))
    inc = ["-I", d, "-iquote", os.path.join(d, "indicators"), "-iquote", os.path.join(d, "utils")]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(BUILD, "obj-" + variant, os.path.relpath(s, d).replace("/", "_") + ".o")
        c = s.endswith(".c")
        fl = [CC, "-std=c99"] if c else [CXX, "-std=c++17"]
        jobs.append((s, o, fl + ["-I."] + LIB[variant] + list(extra), dep))
        objs.append(o)
    cwd_inc(jobs, inc)
    compile_all(jobs)
    return objs


def cwd_inc(jobs, inc):
    # include paths are not part of the cache key (the snapshot directory's name changes with every edit)
    for i, (s, o, cmd, dep) in enumerate(jobs):
        jobs[i] = (s, o, Cmd(cmd, inc), dep)


class Cmd(list):
    """A command whose include paths are passed to the compiler but left out of the key."""
    def __init__(self, base, inc):
        super().__init__(base)
        self.inc = inc

    def __add__(self, other):
        return list(self) + list(self.inc) + list(other)


def mc_objects(variant, snap, names):
    mcd = os.path.join(VERIF, "mc")
    dep = b"".join(read(os.path.join(mcd, f)) for f in sorted(os.listdir(mcd)) if f.endswith((".hh", ".h"))) + read(os.path.join(snap, "indicators.h"))
    jobs, objs = [], []
    for n in names:
        o = os.path.join(BUILD, "mc-" + variant, n + ".o")
        jobs.append((os.path.join(mcd, n), o, Cmd([CXX, "-std=c++17"] + MC[variant], ["-I", snap, "-I", mcd]), dep))
        objs.append(o)
    compile_all(jobs)
    return objs


def link(variant, objs, out, extra=()):
    san = {"rel": [], "asan": ["-fsanitize=address,undefined"], "sched": [], "work": []}[variant]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    sh([CXX] + san + objs + ["-o", out, "-lm", "-lpthread"] + list(extra))
    return out


def explorer(variant, main="explore.cc"):
    """Builds mc/<main> with the models against the current tree; returns (binary, snapshot dir)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        objs = lib_objects(variant, snap) + mc_objects(variant, snap, ["defs.cc", "alloc.cc", "models1.cc", "models2.cc", main])
        return link(variant, objs, os.path.join(BUILD, "bin", "%s-%s" % (main.split(".")[0], variant))), snap


WRAP = "malloc calloc realloc free memcpy memmove memset rand srand random drand48 pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once".split()


def sched():
    """The schedule explorer: the library as a shared object whose memory accesses call into mc/sched.cc."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        lib = lib_objects("sched", snap)
        toy = os.path.join(BUILD, "obj-sched", "mc_toy.o")
        mcd = os.path.join(VERIF, "mc")
        compile_all([(os.path.join(mcd, "toy.cc"), toy, [CXX, "-std=c++17"] + SCHED, b"")])
        so = os.path.join(BUILD, "bin", "libti-sched.so")
        os.makedirs(os.path.dirname(so), exist_ok=True)
        sh([CXX, "-shared", "-nodefaultlibs", "-Wl,-z,now", "-Wl,--allow-shlib-undefined"] + ["-Wl,--wrap=" + w for w in WRAP] + lib + [toy] + ["-o", so])
        objs = mc_objects("sched", snap, ["defs.cc", "models1.cc", "models2.cc", "sched.cc"])
        allocdef = os.path.join(BUILD, "mc-sched", "nalloc.o")
        with open(os.path.join(BUILD, "mc-sched", "nalloc.cc"), "w") as f:
            f.write('#include "%s/alloc.hh"\nAllocCtl g_alloc;\nlong g_work;\n' % mcd)
        compile_all([(os.path.join(BUILD, "mc-sched", "nalloc.cc"), allocdef, [CXX, "-std=c++17", "-O1"], b"")])
        out = os.path.join(BUILD, "bin", "sched")
        sh([CXX, "-rdynamic"] + objs + [allocdef, so, "-Wl,-rpath," + os.path.dirname(so), "-o", out, "-lm", "-lpthread"])
        return out, snap


REG_PY = r"""
import yaml, json, sys, runpy
sys.path.insert(0, '.')
from version import version
json.dump([version, yaml.safe_load(open('indicators.yaml', encoding='utf8'))], sys.stdout)
"""


def declared(snap):
    """(version, {name: (full, type, inputs, options, outputs, features)}) read from the yaml, independently of codegen."""
    import json
    ver, d = json.loads(subprocess.run([PY, "-B", "-c", REG_PY], cwd=snap, stdout=subprocess.PIPE, check=True, text=True).stdout)
    return ver, {str(k): v for k, v in d.items()}


TYPES = {"overlay": 1, "indicator": 2, "math": 3, "simple": 4, "comparative": 5}


def catalog_diffs(decl):
    """How the declarations differ from the published catalog (mc/catalog.json); indicators may be added."""
    import json
    r = []
    for n, (full, typ, i, o, out, feat) in json.load(open(os.path.join(VERIF, "mc", "catalog.json"))).items():
        if n not in decl:
            r.append("%s is no longer offered" % n)
            continue
        d = decl[n]
        for what, a, b in (("full name", full, d[0]), ("type", typ, d[1]), ("inputs", i, d[2]), ("options", o, d[3]), ("outputs", out, d[4])):
            if a != b:
                r.append("%s: its %s changed from %s to %s" % (n, what, a, b))
        for f in feat:
            if f not in d[5]:
                r.append("%s: no longer offers its %s entry" % (n, f))
    return r


def regsyms(ver, decl, diffs=()):
    q = lambda s: '"%s"' % str(s).replace("\\", "\\\\").replace('"', '\\"')
    names = sorted(decl, key=lambda s: s.encode())
    src, rows = [], []
    for n in names:
        full, typ, i, o, out, feat, _ = decl[n]
        fs = ["start", ""] + (["ref"] if "ref" in feat else []) + (["stream_new", "stream_run", "stream_free"] if "stream" in feat else [])
        for f in fs:
            src.append("extern char mc_%s_%s[] __asm__(\"ti_%s%s\");" % (n, f, n, f and "_" + f))
        g = lambda f: "mc_%s_%s" % (n, f) if f in fs else "0"
        ls = lambda l: "{" + ", ".join(list(map(q, l)) + ["0"]) + "}"
        rows.append("{%s, %s, %d, %d, %d, %d, %s, %s, %s, %s}" % (q(n), q(full), TYPES[typ], len(i), len(o), len(out), ls(i), ls(o), ls(out), ", ".join(g(f) for f in ["start", "", "ref", "stream_new", "stream_run", "stream_free"])))
    return "\n".join(src) + """
#include "indicators.h"
const int reg_macro = TI_INDICATOR_COUNT;
struct RegRow { const char *name, *full; int type, ni, no, nout; const char *in[11], *opt[11], *out[11]; const void *start, *plain, *ref, *snew, *srun, *sfree; };
const struct RegRow reg_rows[] = {
%s
};
const int reg_count = %d; const char* reg_version = %s;
const char* const reg_diffs[] = {%s};
""" % (",\n".join(rows), len(rows), q(ver), ", ".join(list(map(q, diffs)) + ["0"]))


def registry():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        objs = lib_objects("rel", snap)
        b = os.path.join(BUILD, "bin")
        os.makedirs(b, exist_ok=True)
        with open(os.path.join(b, "regsyms.c"), "w") as f:
            ver, decl = declared(snap)
            f.write(regsyms(ver, decl, catalog_diffs(decl)))
        sh([CC, "-w", "-I", snap, "-c", os.path.join(b, "regsyms.c"), "-o", os.path.join(b, "regsyms.o")])
        out = os.path.join(b, "registry")
        sh([CXX, "-std=c++17", "-O2", "-w", "-I", snap, os.path.join(VERIF, "mc", "registry.cc"), os.path.join(b, "regsyms.o")] + objs + ["-o", out, "-lm"])
        return out, snap


def generate():
    """The registry judge as an object; returns (object, snapshot dir)."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        o = os.path.join(BUILD, "bin", "registry.o")
        sh([CXX, "-std=c++17", "-O1", "-w", "-I", snap, "-c", os.path.join(VERIF, "mc", "registry.cc"), "-o", o])
        return o, snap


def binding():
    """A copy of the Python package beside a freshly built library; returns (package dir, declaration file)."""
    import json
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        objs = lib_objects("rel", snap)
        d = os.path.join(BUILD, "py")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(snap, "bindings", "python", "tindicators"), os.path.join(d, "tindicators"))
        sh([CXX, "-shared"] + objs + ["-o", os.path.join(d, "tindicators", "libindicators.so"), "-lm"])
        with open(os.path.join(d, "decl.json"), "w") as f:
            json.dump(declared(snap), f)
        return d, os.path.join(d, "decl.json")


def lean():
    """The C# source that the working tree's generator writes from its own Python package and library; returns (package dir, declaration file, dir of the source)."""
    d, decl = binding()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        w = os.path.join(BUILD, "lean")
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(os.path.join(snap, "bindings", "lean"), w)
        open(os.path.join(d, "tindicators", "indicators.dll"), "w").close()
        r = subprocess.run([PY, "-B", os.path.join(w, "generate-bindings.py")], cwd=w, env=dict(os.environ, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        with open(os.path.join(w, "status"), "w") as f:  # a generator that fails is a finding, not a failed build
            f.write("%d\n%s" % (r.returncode, r.stdout[-1500:]))
        return d, decl, w


def contain(out_name="contain"):
    """The container explorer, compiled against the working tree's utils/ with live assertions and sanitizers."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        snap, key = snapshot()
        out = os.path.join(BUILD, "bin", out_name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        b = os.path.join(BUILD, "bin", "buffer.o")
        fl = "-O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS".split()
        sh([CC, "-std=c99"] + fl + ["-I", snap, "-c", os.path.join(snap, "utils", "buffer.c"), "-o", b])
        sh([CXX, "-std=c++17"] + fl + ["-I", snap, os.path.join(VERIF, "mc", "contain.cc"), b, "-o", out])
        return out, snap


if __name__ == "__main__":
    if sys.argv[1] in ("contain", "registry", "binding"):
        print(globals()[sys.argv[1]]()[0])
        sys.exit()
    if sys.argv[1] == "sched":
        print(sched()[0])
        sys.exit()
    print(explorer(sys.argv[1], *sys.argv[2:])[0])
