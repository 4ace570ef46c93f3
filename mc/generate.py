"""Generator explorer: every sequence of edits to the indicator list up to a depth, with the generator run after any
subset of the edits; after every run the produced header, table, scaffolds and documentation are judged against the list.
generate.py SNAPSHOT REGISTRY.o SCRATCH OUTDIR tier | generate.py SNAPSHOT REGISTRY.o SCRATCH --replay FILE
Everything happens in scratch copies below SCRATCH; git is confined to a repository inside each of them."""
import hashlib, io, itertools, json, os, re, shutil, subprocess, sys, time
import contextlib, runpy
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import mcbuild
import yaml

SNAP, REGO, SCRATCH = [os.path.abspath(x) for x in sys.argv[1:4]]
NAMES = ["ab", "a", "b1"]
SPEC = {  # full name, type, inputs, options, outputs, source
    "ab": ("Alpha Beta", "overlay", ["high", "low"], ["period"], ["ab"], "Somebody, somewhere"),
    "a": ("Alpha", "math", ["series"], [], ["a_lo", "a_hi"], "-"),
    "b1": ("Beta's One", "indicator", ["close", "volume"], ["short_period", "long_period", "gain"], ["b1"], "A: b (c)"),
}
FEATS = [[], ["ref"], ["stream"], ["ref", "stream"]]


TYPES = ["simple", "overlay", "math", "indicator", "comparative"]
SERIES = ["close", "open", "high", "low", "volume", "s1", "s2", "s3", "s4"]


def entry(n, feats):
    f, t, i, o, u, s = SPEC.get(n) or ("Full " + n, "simple", ["series"], [], [n], "-")
    return [f, t, list(i), list(o), list(u), list(feats)[::-1 if n == "a" else 1], s]  # both orders of the features


def shaped(n, k):
    """Entries of every type, number of series, options and outputs, features in every order; shape number k."""
    i, o, u = 1 + k % 9, k // 2 % 10, 1 + k // 3 % 9
    return ["Full %s" % n, TYPES[k % 5], SERIES[:i], ["o%d" % q for q in range(o)], [n] + ["%s_%d" % (n, q) for q in range(1, u)], (FEATS + [["stream", "ref"]])[k * 3 % 5], "-" if k % 2 else "Somebody; %d" % k]


def plain(n, lang):
    body = "int ti_%s_start(TI_REAL const *options) { return 0; }\n\n\nint ti_%s(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {\n    /* hand-written */\n    outputs[0][0] = 42;\n    return TI_OKAY;\n}\n" % (n, n)
    head = "/* by hand */\n\n#include \"../indicators.h\"\n" + ("#include \"../utils/minmax.h\"\n" if lang == "c" else "#include <new>\n") + "\n"
    return head + body


class Found(Exception):
    pass


def h(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()


def first(kind, key):
    """True for the first worker that gets to this artefact (a failing one is reported by that worker)."""
    try:
        os.close(os.open(os.path.join(SCRATCH, "seen", kind + key), os.O_CREAT | os.O_EXCL))
        return True
    except FileExistsError:
        return False


class Gen:
    def __init__(self, ident):
        self.dir = os.path.join(SCRATCH, "w%d" % ident)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "indicators"))
        for f in ("codegen.py", "docsgen.py", "version.py"):
            if os.path.exists(os.path.join(SNAP, f)):
                shutil.copy(os.path.join(SNAP, f), self.dir)
        shutil.copytree(os.path.join(SNAP, "utils"), os.path.join(self.dir, "utils"))
        self.env = dict(GIT_DIR=os.path.join(self.dir, ".git"), GIT_WORK_TREE=self.dir, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
        subprocess.run(["git", "init", "-q", self.dir], env=dict(os.environ, **self.env), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.runs = self.states = self.compiles = self.trans = self.docs = 0
        self.tables, self.bodies, self.docseen, self.seen = set(), set(), set(), {}

    def python(self, script, *argv):
        """Runs a repository script in a forked interpreter, confined to the scratch copy."""
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.dup2(w, 2)
                os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                os.environ.update(self.env)
                os.chdir(self.dir)
                sys.argv = [script] + list(argv)
                sys.path.insert(0, self.dir)
                sys.modules.pop("version", None)
                runpy.run_path(os.path.join(self.dir, script), run_name="__main__")
                os._exit(0)
            except SystemExit as e:
                os._exit(e.code if isinstance(e.code, int) else 0 if e.code is None else 1)
            except BaseException as e:
                os.write(2, ("EXC %s: %s" % (type(e).__name__, e)).encode())
                os._exit(1)
        os.close(w)
        d = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            d += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        return st, d.decode(errors="replace")

    def put(self, decl, files):
        d = os.path.join(self.dir, "indicators")
        have = set(os.listdir(d))
        for f in have - set(files):
            os.unlink(os.path.join(d, f))
        for f, t in files.items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        with open(os.path.join(self.dir, "indicators.yaml"), "w") as fh:
            yaml.safe_dump(dict(decl), fh, sort_keys=False, default_flow_style=None)
        if any(f.endswith(".c") for f in files):
            for i in (os.path.join(self.dir, ".git", "index"),):
                if os.path.exists(i):
                    os.unlink(i)
            subprocess.run(["git", "add", "-f", "indicators"], cwd=self.dir, env=dict(os.environ, **self.env), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def get(self):
        d = os.path.join(self.dir, "indicators")
        return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}

    def run(self, decl, files, ctx):
        self.put(decl, files)
        self.runs += 1
        st, err = self.python("codegen.py")
        if st:
            raise Found("%s: the generator fails: %s" % (ctx, err.strip()[-300:]))
        new = self.get()
        gen = lambda: tuple(re.sub(r"(TI_BUILD )\d+", r"\1 0", open(os.path.join(self.dir, f)).read()) for f in ("indicators.h", "indicators_index.c"))
        g1 = gen()
        self.judge(decl, files, new, ctx)
        key = h([decl, sorted(new.items())])
        if key not in self.seen:  # running it again changes nothing
            self.seen[key] = 1
            self.states += 1
            self.runs += 1
            st, err = self.python("codegen.py")
            if st:
                raise Found("%s: a second run of the generator fails: %s" % (ctx, err.strip()[-300:]))
            if self.get() != new:
                raise Found("%s: a second run of the generator changes the sources again" % ctx)
            if gen() != g1:
                raise Found("%s: a second run of the generator produces another header or table" % ctx)
            self.doc(decl, new, ctx)
        return new

    def judge(self, decl, old, new, ctx):
        names = [n for n, _ in decl]
        for n, e in decl:
            fs = [f for f in new if f in (n + ".c", n + ".cc")]
            if len(fs) != 1:
                raise Found("%s: indicator %s has the files %s" % (ctx, n, fs))
            t = new[fs[0]]
            feats = e[5]
            want = ["_start", ""] + (["_ref"] if "ref" in feats else []) + (["_stream_new", "_stream_run", "_stream_free"] if "stream" in feats else [])
            defs = re.findall(r"\b(?:int|void)\s+(ti_\w+)\s*\([^;{]*\)\s*(?:try\s*)?\{", t)
            if sorted(defs) != sorted("ti_" + n + w for w in want):
                raise Found("%s: the source of %s defines %s, its declaration needs %s" % (ctx, n, sorted(defs), sorted("ti_" + n + w for w in want)))
            was = [f for f in old if f in (n + ".c", n + ".cc")]
            if was:
                a, b = old[was[0]].split("\n"), iter(t.split("\n"))
                if not all(x in b for x in a):
                    raise Found("%s: text of the source of %s was lost" % (ctx, n))
                had = re.findall(r"\b(?:int|void)\s+(ti_\w+)\s*\([^;{]*\)\s*(?:try\s*)?\{", old[was[0]])
                if sorted(had) == sorted(defs) and (was[0] != fs[0] or t != old[was[0]]):
                    raise Found("%s: the complete source of %s was changed" % (ctx, n))
            k = h([n, e, t])
            if k not in self.bodies and first("b", k):  # the scaffold compiles once its placeholders are filled in
                self.bodies.add(k)
                src = re.sub(r'#error "return how[^\n]*', "return 0;", t)
                src = re.sub(r"#error[^\n]*", "", src)
                p = os.path.join(self.dir, "indicators", "fill_%s.%s" % (n, fs[0].split(".")[1]))
                with open(p, "w") as f:
                    f.write(src)
                self.compiles += 1
                cc = [mcbuild.CXX, "-std=c++17"] if p.endswith(".cc") else [mcbuild.CC, "-std=c99"]
                r = subprocess.run(cc + ["-w", "-fsyntax-only", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                os.unlink(p)
                if r.returncode:
                    raise Found("%s: the scaffold of %s does not compile: %s" % (ctx, n, r.stdout.strip()[:400]))
        extra = [f for f in new if f.rsplit(".", 1)[0] not in names]
        if extra:
            raise Found("%s: stray files %s" % (ctx, extra))
        self.table(decl, ctx)

    def table(self, decl, ctx, depth="2"):
        k = h([decl] + [re.sub(r"(TI_BUILD )\d+", r"\1 0", open(os.path.join(self.dir, f)).read()) for f in ("indicators.h", "indicators_index.c")])
        if k in self.tables or not first("t", k):
            return
        self.tables.add(k)
        self.compiles += 1
        d = os.path.join(self.dir, "t")
        os.makedirs(d, exist_ok=True)
        sys.path.insert(0, self.dir)
        ver = re.search(r"version\s*=\s*'([^']*)'", open(os.path.join(self.dir, "version.py")).read()).group(1)
        with open(os.path.join(d, "regsyms.c"), "w") as f:
            f.write(mcbuild.regsyms(ver, dict((n, e) for n, e in decl)))
        P = "int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs"
        with open(os.path.join(d, "stubs.c"), "w") as f:  # definitions must agree with the header's declarations
            f.write('#include "indicators.h"\n')
            for n, e in decl:
                f.write("int ti_%s_start(TI_REAL const *options) { return 0; } int ti_%s(%s) { return 0; }\n" % (n, n, P))
                if "ref" in e[5]:
                    f.write("int ti_%s_ref(%s) { return 0; }\n" % (n, P))
                if "stream" in e[5]:
                    f.write("int ti_%s_stream_new(TI_REAL const *options, ti_stream **stream) { *stream = calloc(1, sizeof(ti_stream)); (*stream)->index = TI_INDICATOR_%s_INDEX; return 0; } int ti_%s_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) { return 0; } void ti_%s_stream_free(ti_stream *stream) { free(stream); }\n" % (n, n.upper(), n, n))
            f.write("int gen_indices(void) { int bad = 0;\n%s return bad; }\n" % "".join("bad |= strcmp(ti_indicators[TI_INDICATOR_%s_INDEX].name, \"%s\");\n" % (n.upper(), n) for n, _ in decl))
            f.write("__attribute__((constructor)) static void gen_check(void) { if (gen_indices()) _Exit(9); }\n")
        objs = []
        for s in (os.path.join(self.dir, "indicators_index.c"), os.path.join(d, "regsyms.c"), os.path.join(d, "stubs.c")):
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = subprocess.run([mcbuild.CC, "-w", "-I", self.dir, "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Found("%s: the generated header or table does not compile: %s" % (ctx, r.stdout.strip()[:400]))
            objs.append(o)
        x = os.path.join(d, "reg")
        r = subprocess.run([mcbuild.CXX] + objs + [REGO, "-o", x, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Found("%s: the generated table does not link: %s" % (ctx, r.stdout.strip()[:400]))
        r = subprocess.run([x, d, "quick"], env=dict(os.environ, REG_DEPTH=depth), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 9:
            raise Found("%s: an index constant does not name its indicator's entry" % ctx)
        if r.returncode:
            raise Found("%s: %s" % (ctx, re.sub(r"FOUND \S+ ", "", r.stdout).strip().split("\n")[0]))

    def doc(self, decl, files, ctx):
        k = h([decl, sorted(files)])
        if k in self.docseen or not first("d", k):
            return
        self.docseen.add(k)
        self.docs += 1
        out = os.path.join(self.dir, "doc.md")
        if os.path.exists(out):
            os.unlink(out)
        st, err = self.python("docsgen.py", "doc.md")
        if st or not os.path.exists(out):
            raise Found("%s: the documentation generator fails: %s" % (ctx, err.strip()[-300:]))
        judge_doc(open(out, encoding="utf8").read(), decl, files, ctx)

    # ---- the exploration ------------------------------------------------------------------------------
    def explore(self, decl, files, dirty, depth, ctx, fewer):
        key = ("n", h([decl, sorted(files.items()), dirty]), depth, fewer)
        if key in self.seen:
            return
        self.seen[key] = 1
        if dirty:
            self.trans += 1
            new = self.run(decl, files, ctx + " | generate")
            if depth:
                self.explore(decl, new, False, depth, ctx + " | generate", fewer)
        if not depth:
            return
        edits = []
        have = dict(decl)
        feats = [FEATS[0], FEATS[3]] if fewer == 2 or fewer == 1 and depth == 1 else FEATS
        for n in NAMES:
            if n not in have:
                for f in feats:
                    for pos in (0, len(decl)) if decl else (0,):
                        d2 = list(decl)
                        d2.insert(pos, (n, entry(n, f)))
                        edits.append((d2, "add %s %s %s" % (n, f, "first" if pos == 0 else "last")))
            else:
                for f in FEATS:
                    if set(have[n][5]) < set(f) and (fewer < 2 or f in feats):
                        edits.append(([(m, entry(m, f) if m == n else e) for m, e in decl], "give %s %s" % (n, f)))
        for d2, what in edits:
            self.trans += 1
            self.explore(d2, files, True, depth - 1, ctx + (" | " if ctx else "") + what, fewer)


def judge_doc(text, decl, files, ctx):
    m = re.search(r"\*\*(\d+) indicators\*\*", text)
    if not m or int(m.group(1)) != len(decl):
        raise Found("%s: the documentation counts %s indicators of %d" % (ctx, m and m.group(1), len(decl)))
    secs = re.split(r"^#### ", text, flags=re.M)[1:]
    if len(secs) != len(decl):
        raise Found("%s: the documentation has %d sections for %d indicators" % (ctx, len(secs), len(decl)))
    by = {}
    for s in secs:
        m = re.search(r"ti\.(\w+)\(([^)]*)\)\s*->\s*NamedTuple\(\s*\.\.\.,?([^)]*)\)", s)
        if not m:
            raise Found("%s: a documentation section has no signature: %s" % (ctx, s[:80]))
        if m.group(1) in by:
            raise Found("%s: the documentation describes %s twice" % (ctx, m.group(1)))
        lst = lambda x: [re.split(r"[:=]", y)[0].strip() for y in x.split(",") if y.strip()]
        by[m.group(1)] = (s.split("\n")[0].strip(), lst(m.group(2)), lst(m.group(3)), s)
    for n, e in decl:
        n = str(n)
        if n not in by:
            raise Found("%s: the documentation lacks %s" % (ctx, n))
        full, args, outs, s = by[n]
        if full != e[0]:
            raise Found("%s: the documentation titles %s \"%s\"" % (ctx, n, full))
        if args != list(map(str, e[2] + e[3])):
            raise Found("%s: the documented arguments of %s are %s, declared are %s" % (ctx, n, args, e[2] + e[3]))
        if outs != list(map(str, e[4])):
            raise Found("%s: the documented outputs of %s are %s, declared are %s" % (ctx, n, outs, e[4]))
        f = [x for x in files if x in (n + ".c", n + ".cc")][0]
        if "/indicators/%s)" % f not in s:
            raise Found("%s: the documentation of %s does not link its source %s" % (ctx, n, f))


def initial():
    yield "nothing yet", [], {}
    for lang in ("cc", "c"):
        for n in ("ab", "a") if lang == "cc" else ("ab",):
            yield "hand-written %s.%s" % (n, lang), [(n, entry(n, []))], {n + "." + lang: plain(n, lang)}


def roots(depth):
    """The first edit is fixed per job."""
    for what, decl, files in initial():
        have = dict(decl)
        for n in NAMES:
            if n not in have:
                for f in FEATS:
                    for pos in (0, 1) if decl else (0,):
                        d2 = list(decl)
                        d2.insert(pos, (n, entry(n, f)))
                        yield "%s | add %s %s %s" % (what, n, f, "first" if pos == 0 else "last"), d2, files, True
            else:
                for f in FEATS[1:]:
                    yield "%s | give %s %s" % (what, n, f), [(m, entry(m, f) if m == n else e) for m, e in decl], files, True


def sizes(lo, hi):
    """Tables of every size: names in shuffled declaration order, every lookup decided."""
    for k in range(lo, hi):
        pool = sorted(["x%d" % i for i in range(k // 2)] + ["x" + "y" * i for i in range(k - k // 2)])
        for perm in (pool, pool[::-1], pool[1::2] + pool[::2]):
            yield "a list of %d indicators" % k, [(n, entry(n, FEATS[(i * 7 + k) % 4])) for i, n in enumerate(perm)]
        yield "a list of %d shaped indicators" % k, [(n, shaped(n, 37 * k + i)) for i, n in enumerate(pool)]


def work(job):
    kind, idx, thorough = job
    g = Gen(os.getpid())
    msg = ""
    try:
        if kind == "root":
            ctx, decl, files, dirty = list(roots(3))[idx]
            small = all(len(e[5]) != 1 for _, e in decl)
            if thorough:
                g.explore(decl, files, dirty, 2, ctx, 1)
                if small:
                    g.explore(decl, files, dirty, 3, ctx, 2)
            else:
                g.explore(decl, files, dirty, 1, ctx, 0)
                if small:
                    g.explore(decl, files, dirty, 2, ctx, 2)
        elif kind == "real":
            decl = list(mcbuild.declared(SNAP)[1].items())
            files = {f: "" for f in os.listdir(os.path.join(SNAP, "indicators"))}
            shutil.rmtree(os.path.join(g.dir, "indicators"))
            shutil.copytree(os.path.join(SNAP, "indicators"), os.path.join(g.dir, "indicators"))
            shutil.copy(os.path.join(SNAP, "indicators.yaml"), g.dir)
            old = g.get()
            g.runs += 1
            st, err = g.python("codegen.py")
            if st:
                raise Found("the repository's list: the generator fails: " + err[-300:])
            if g.get() != old:
                raise Found("the repository's list: the generator changes finished sources")
            g.doc(decl, files, "the repository's list")
        else:
            for ctx, decl in list(sizes(idx, idx + 1)):
                g.put(decl, {})
                g.runs += 1
                st, err = g.python("codegen.py")
                if st:
                    raise Found("%s: the generator fails: %s" % (ctx, err.strip()[-300:]))
                g.table(decl, ctx, "2")
                g.states += 1
    except Found as e:
        msg = str(e)
    finally:
        shutil.rmtree(g.dir, ignore_errors=True)
    return kind, idx, msg, g.runs, g.states, g.trans, g.compiles, g.docs, len(g.tables)


def main():
    t0 = time.time()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(os.path.join(SCRATCH, "seen"))
    if sys.argv[4] == "--replay":
        _, kind, idx, tier = open(sys.argv[5]).readline().split()
        msg = work((kind, int(idx), tier == "True"))[2]
        print("violated: " + msg if msg else "holds")
        return 1 if msg else 0
    out, thorough = sys.argv[4], sys.argv[5] == "thorough"
    jobs = [("real", 0, thorough)] + [("root", i, thorough) for i in range(len(list(roots(3))))] + [("size", k, thorough) for k in range(1, 49 if thorough else 25)]
    with mp.Pool(8) as p:
        res = p.map(work, jobs, chunksize=1)
    n = 0
    once = set()
    for (kind, idx, msg, *_), job in zip(res, jobs):
        if msg:
            sig = re.sub(r"^.*generate: ", "", msg)[:80]
            if sig in once and n >= 3:
                continue
            once.add(sig)
            f = os.path.join(out, "v%04d.case" % n)
            n += 1
            with open(f, "w") as fh:
                fh.write("generate %s %d %s\n%s\n" % (kind, idx, thorough, msg))
            print("FOUND %s %s" % (f, msg.replace("\n", " ")))
    s = lambda i: sum(r[i] for r in res)
    json.dump(dict(generator_runs=s(3), states=s(4), transitions=s(5), compilations=s(6), documents=s(7), tables=s(8), seconds=round(time.time() - t0, 1)), open(os.path.join(out, "stats.json"), "w"))
    return 1 if n else 0


if __name__ == "__main__":
    sys.exit(main())
