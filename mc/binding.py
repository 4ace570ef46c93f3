"""Python-binding explorer: every call shape of every indicator, through the binding and directly through the C entry
points, on the working tree's library.  binding.py PKGDIR DECL.json OUTDIR tier | binding.py PKGDIR DECL.json --replay FILE
A call shape: option vector x input length x positional/keyword split x order of the keywords x container type x padding."""
import ctypes, itertools, json, math, os, sys, gc, time
import multiprocessing as mp

PKG, DECL = sys.argv[1], sys.argv[2]
sys.path.insert(0, PKG)
sys.dont_write_bytecode = True
import numpy as np
import pandas as pd

REAL = ["threshold", "gamma", "critical_period", "fastlimit", "slowlimit", "lambda", "alpha", "beta", "power", "v", "exponent", "N", "stddev", "multiple", "acceleration factor step", "acceleration factor maximum", "cycpart", "coef", "max_cycle_considered"]
WIDE = ["threshold", "stddev", "multiple", "coef"]  # any magnitude is accepted


class Found(Exception):
    pass


def clean(s):
    return s.replace(" ", "_").replace("%", "")


class Direct:
    """The C entry points, called without the binding."""
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.P = ctypes.POINTER(ctypes.c_double)

    def start(self, name, opt):
        f = getattr(self.lib, "ti_%s_start" % name)
        f.restype = ctypes.c_int
        return f((ctypes.c_double * max(1, len(opt)))(*opt))

    def call(self, name, n, ins, opt, nout):
        st = self.start(name, opt)
        ln = max(0, n - st) if 0 <= st < 1 << 20 else 0
        o = (ctypes.c_double * max(1, len(opt)))(*opt)
        bufs = [np.array(a, dtype="f8") for a in ins]
        outs = [np.zeros(max(1, ln)) for _ in range(nout)]
        arr = lambda l: (self.P * len(l))(*[x.ctypes.data_as(self.P) for x in l])
        rc = getattr(self.lib, "ti_" + name)(ctypes.c_int(n), arr(bufs), o, arr(outs))
        return rc, st, [x[:ln] for x in outs]


def series(k, n, form):
    """Input k: values that tell every input and position apart; highs above lows."""
    base = [100 + 3 * math.sin(i * 1.7 + 0.3) + 0.1 * i for i in range(n)]
    return [round((base[i] + (k - 1) * 0.37 + (((i * 7 + k * 3) % 5) * 0.11)) * 64) / 64 for i in range(n)]


def ohlc(names, n):
    r, s = [], 0
    for k, nm in enumerate(names):
        b = series(0, n, None)
        if nm == "high":
            r.append([x + 2 + (i % 3) * .25 for i, x in enumerate(b)])
        elif nm == "low":
            r.append([x - 2 - (i % 4) * .5 for i, x in enumerate(b)])
        elif nm == "open":
            r.append([x - .5 for x in b])
        elif nm == "close":
            r.append([x + .25 * (i % 2) for i, x in enumerate(b)])
        elif nm == "volume":
            r.append([float(1000 + 37 * (i * i % 11)) for i in range(n)])
        else:
            r.append([x + 5 * s for x in series(s + 1, n, None)])
            s += 1
    return r


CONT = {
    "list": lambda a: list(a), "tuple": lambda a: tuple(a), "ndarray": lambda a: np.array(a, dtype="f8"),
    "strided": lambda a: np.array([x for v in a for x in (v, -1e9)], dtype="f8")[::2],
    "reversed view": lambda a: np.array(a[::-1], dtype="f8")[::-1],
    "column": lambda a: np.array([[v, -7.0] for v in a], dtype="f8").reshape(-1, 2)[:, 0],
    "Series": lambda a: pd.Series(a, index=range(10, 10 + len(a)), dtype="f8"),
    "shuffled Series": lambda a: pd.Series(a, index=list(range(len(a)))[::-1], dtype="f8"),
    "readonly": lambda a: _ro(np.array(a, dtype="f8")), "float32": lambda a: np.array(a, dtype="f4"), "ints": lambda a: np.array(a, dtype="i8"), "big endian": lambda a: np.array(a, dtype=">f8"), "objects": lambda a: np.array(a, dtype=object), "small ints": lambda a: np.array(a, dtype="i2"), "iterator of a Series": lambda a: pd.Series(a, dtype="f8").rolling(1).mean(),
}


def _ro(x):
    x.flags.writeable = False
    return x


def options_of(names, thorough):
    vals = []
    for nm in names:
        if nm in WIDE:
            v = [2, 0.5, -1, 1e20, 1e-7, 0]
        elif nm in REAL:
            v = [0.5, 2, 0.1, 1, -1]
        else:
            v = [2, 3, 5.0, 1, 4, 0, -1, 2.5] + ([7, 9, 13, 21] if len(names) == 1 else [])
        vals.append(v)
    if not vals:
        return [[]]
    if len(vals) <= 2:
        return [list(x) for x in itertools.product(*vals)]
    r = [list(x) for x in itertools.product(*[v[:3] for v in vals])] if len(vals) <= 5 else [[1, 2, 3, 4, 1, 2, 3, 4], [2, 3, 4, 5, 1, 1, 1, 1], [10, 15, 20, 30, 10, 10, 10, 15]][:]
    base = r[0] if len(vals) <= 5 else [1, 2, 3, 4, 1, 2, 3, 4]
    for i, v in enumerate(vals):
        for x in v[3:]:
            r.append(base[:i] + [x] + base[i + 1:])
    return r


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


class Explorer:
    def __init__(self, thorough):
        import tindicators
        self.T = tindicators
        self.ti = tindicators.ti
        self.so = os.path.join(os.path.dirname(tindicators.__file__), "libindicators.so")
        self.d = Direct(self.so)
        self.version, self.decl = json.load(open(DECL))
        self.thorough = thorough
        self.calls = self.shapes = self.rejected = 0
        self.keep, self.handle = [], {}

    def one(self, name, rawin, opt, n, split, cont, pad, style="float", order=None):
        full, typ, ins, ons, outs, feat, _ = self.decl[name]
        self.shapes += 1
        if cont in ("ints", "small ints"):
            rawin = [[float(round(x)) for x in a] for a in rawin]
        rc, st, want = self.d.call(name, n, rawin, opt, len(outs))
        args = [CONT[cont](a) for a in rawin]
        before = [np.array(a, dtype="f8", copy=True) for a in args]
        o = [{"float": x, "np": np.float64(x), "int": int(x) if float(x) == int(x) else x}[style] for x in opt]
        allv = args + o
        names = [clean(x) for x in list(ins) + list(ons)]
        if len(set(names)) < len(names):
            split = len(names)
        kw = dict(zip(names[split:], allv[split:]))
        if not pad or split % 2:
            kw["pad"] = pad
        if order:
            kw = {k: kw[k] for k in sorted(kw, key=lambda k: order[list(kw).index(k)])}
        where = "%s(%s) on %d bars, %d positional, %s, pad=%s, %s options" % (name, ", ".join("%g" % x for x in opt), n, split, cont, pad, style) + (", keywords in the order " + ", ".join(kw) if order else "")
        self.calls += 1
        try:
            h = self.handle.setdefault(name, getattr(self.ti, name))  # every other call goes through one kept handle
            got = (h if self.calls % 2 else getattr(self.ti, name))(*allv[:split], **kw)
        except self.T.InvalidOption:
            self.rejected += 1
            if rc == 1:
                return
            raise Found(where + ": raises InvalidOption, the library accepts the options")
        except self.T.OutOfMemory:
            if rc == 2:
                return
            raise Found(where + ": raises OutOfMemory")
        except Exception as e:
            raise Found(where + ": raises %s: %s" % (type(e).__name__, e))
        if rc:
            raise Found(where + ": returns a result, the library rejects the call with %d" % rc)
        res = [got] if len(outs) == 1 else list(got)
        if len(outs) > 1 and tuple(got._fields) != tuple(clean(x) for x in outs):
            raise Found(where + ": result fields are %s" % (got._fields,))
        if len(res) != len(outs):
            raise Found(where + ": %d results" % len(res))
        for k, (g, w) in enumerate(zip(res, want)):
            if pad:
                w = np.concatenate([np.full(n - len(w), np.nan), w])
            if not isinstance(g, np.ndarray) or not same(g, w):
                raise Found(where + ": output %s is %s, the library computes %s" % (outs[k], np.array2string(np.asarray(g), threshold=12), np.array2string(w, threshold=12)))
            if len(self.keep) < 400:
                self.keep.append((where, g, np.array(w, copy=True)))
        for k, (a, b) in enumerate(zip(args, before)):
            if not same(np.array(a, dtype="f8"), b):
                raise Found(where + ": input %s was modified" % ins[k])

    def check_kept(self):
        gc.collect()
        for where, g, w in self.keep:
            if not same(g, w):
                raise Found(where + ": the returned array changed during later calls")
        self.keep = []

    def indicator(self, name):
        full, typ, ins, ons, outs, feat, _ = self.decl[name]
        info = getattr(self.ti, name).info
        exp = dict(name=name, full_name=full, type=typ, inputs=tuple(map(clean, ins)), options=tuple(map(clean, ons)), outputs=tuple(map(clean, outs)))
        for k, v in exp.items():
            if getattr(info, k) != v:
                raise Found("%s.info.%s is %r, expected %r" % (name, k, getattr(info, k), v))
        if full not in repr(getattr(self.ti, name)):
            raise Found("repr of %s does not show its name" % name)
        na = len(ins) + len(ons)
        opts = options_of(ons, self.thorough)
        good = distinct = None
        for opt in opts:
            st = self.d.start(name, opt)
            lens = [0, 1, 8] if not 0 <= st < 500 else sorted({0, 1, max(0, st - 1), st, st + 1, st + 6})
            for n in lens:
                raw = ohlc(ins, n)
                for pad in (True, False):
                    self.one(name, raw, opt, n, na, "list", pad)
                    if pad and n == lens[-1]:
                        self.one(name, raw, opt, n, len(ins), "ndarray", pad)
            if good is None and 0 <= st < 500 and self.d.call(name, st + 6, ohlc(ins, st + 6), opt, len(outs))[0] == 0:
                good = (opt, st)
            if distinct is None and 0 <= st < 500 and len(set(opt)) == len(opt) and self.d.call(name, st + 6, ohlc(ins, st + 6), opt, len(outs))[0] == 0:
                distinct = (opt, st)
            self.check_kept()
        if good is None:
            raise Found("%s: no explored option vector is accepted" % name)
        opt, st = good
        for n in ((st, st + 6) if not self.thorough else range(st + 9)):
            raw = ohlc(ins, n)
            for split in range(na + 1):
                for cont in CONT:
                    for pad in (True, False):
                        for style in (("float", "int") if cont == "ndarray" else ("np",)):
                            self.one(name, raw, opt, n, split, cont, pad, style)
        opt, st = distinct or good
        raw = ohlc(ins, st + 6)
        for split in range(na):  # keywords in every order, or rotated and reversed where there are too many
            k = na - split + (split % 2)
            for order in itertools.permutations(range(k)) if k <= 4 else [o[i:] + o[:i] for o in (tuple(range(k)), tuple(range(k))[::-1]) for i in range(k)]:
                self.one(name, raw, opt, st + 6, split, "ndarray", True, "float", order)
        self.check_kept()
        # the caller's array and the one returned are changed between calls: every call sees what is there now
        live = [np.array(a) for a in ohlc(ins, st + 9)]
        for turn in range(6):
            rc, _, want = self.d.call(name, st + 9, live, opt, len(outs))
            got = getattr(self.ti, name)(*(live + list(opt)), pad=False)
            self.calls += 1
            self.shapes += 1
            res = [got] if len(outs) == 1 else list(got)
            for o, g, w in zip(outs, res, want):
                if not same(np.array(g), w):
                    raise Found("%s(%s) on %d bars, after %d changes in place of its arguments and results: output %s is %s, the library computes %s" % (name, ", ".join("%g" % x for x in opt), st + 9, turn, o, np.array2string(np.asarray(g), threshold=12), np.array2string(w, threshold=12)))
                if g.flags.writeable:
                    g[:] = -12345.0
            live[turn % len(live)][(turn * 5) % (st + 9)] *= 1.015625
        # long series
        for n in (3000, 70000):
            if n > 5000 and name in ("hf", "edcf", "hfsma", "hfema", "hurst", "swma", "rmf") and not self.thorough:
                continue
            self.one(name, ohlc(ins, n), opt, n, na, "ndarray", True)
            self.one(name, ohlc(ins, n), opt, n, 0, "list", False)
        # series of different lengths never yield a result
        for n in range(len(ins)):
            for m in (-st - 6, -2, -1, 1, 2):
                for split in (na, 0):
                    for cont in ("ndarray", "list", "Series"):
                        raw = [CONT[cont]((a + a)[:len(a) + (m if i == n else 0)]) for i, a in enumerate(ohlc(ins, st + 6))] + list(opt)
                        names = [clean(x) for x in list(ins) + list(ons)]
                        if len(ins) == 1 or not split and len(set(names)) < na:
                            continue
                        self.shapes += 1
                        self.calls += 1
                        try:
                            getattr(self.ti, name)(*raw[:split], **dict(zip(names[split:], raw[split:])))
                        except Exception:
                            continue
                        raise Found("%s on %s of %d bars each except %s of %d, %s: returns a result" % (name, cont, st + 6, ins[n], st + 6 + m, "positional" if split else "by keyword"))
        # too few arguments never yield a result
        for k in range(na):
            try:
                getattr(self.ti, name)(*(ohlc(ins, 5) + list(opt))[:k])
            except Exception:
                self.calls += 1
                continue
            raise Found("%s called with %d of %d arguments returns a result" % (name, k, na))

    def globals(self):
        names = sorted(self.decl)
        if list(self.ti.available_indicators) != names:
            raise Found("available_indicators differs from the declared indicators")
        if self.ti.version != self.version:
            raise Found("version is %r, not %r" % (self.ti.version, self.version))
        if str(len(names)) not in repr(self.ti) or any(x not in repr(self.ti) for x in names):
            raise Found("repr lacks indicators")
        al = "abcdefghijklmnopqrstuvwxyz0123456789_"
        seen = set()
        for n in names:
            for i in range(len(n) + 1):
                seen.update(n[:i] + c + n[i:] for c in al)
                if i < len(n):
                    seen.add(n[:i] + n[i + 1:])
                    seen.update(n[:i] + c + n[i + 1:] for c in al)
            seen.add(n.upper())
        for q in sorted(seen | {""}):
            if q.startswith("_"):
                continue
            self.calls += 1
            try:
                x = getattr(self.ti, q)
            except self.T.NoSuchIndicator:
                if q in self.decl:
                    raise Found("ti.%s raises NoSuchIndicator" % q)
                continue
            if q not in self.decl or x.info.name != q:
                raise Found("ti.%s resolves to %s" % (q, x.info.name))


def work(job):
    name, thorough = job
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        e, msg = None, ""
        try:
            e = Explorer(thorough)
            e.indicator(name) if name else e.globals()
        except Found as x:
            msg = str(x)
        except BaseException as x:
            msg = "%s: the binding fails: %s: %s" % (name or "import", type(x).__name__, x)
        os.write(w, json.dumps([msg[:2000], e.calls if e else 0, e.shapes if e else 0, e.rejected if e else 0]).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st or not data:
        return name, "%s: the process ended with status 0x%x inside the binding" % (name or "globals", st), 0, 0, 0
    return (name,) + tuple(json.loads(data))


def main():
    t0 = time.time()
    decl = json.load(open(DECL))[1]
    if sys.argv[3] == "--replay":
        name = open(sys.argv[4]).readline().split()[1:]
        _, msg, *_ = work((name[0] if name else "", False))
        print("violated: " + msg if msg else "holds")
        return 1 if msg else 0
    out, thorough = sys.argv[3], sys.argv[4] == "thorough"
    with mp.Pool(8) as p:
        res = p.map(work, [("", thorough)] + [(n, thorough) for n in sorted(decl)], chunksize=1)
    n = 0
    for name, msg, *_ in res:
        if msg:
            f = os.path.join(out, "v%04d.case" % n)
            n += 1
            with open(f, "w") as h:
                h.write("binding %s\n%s\n" % (name, msg))
            print("FOUND %s %s" % (f, msg.replace("\n", " ")))
    json.dump(dict(indicators=len(decl), calls=sum(r[2] for r in res), shapes=sum(r[3] for r in res), rejected=sum(r[4] for r in res), seconds=round(time.time() - t0, 1)), open(os.path.join(out, "stats.json"), "w"))
    return 1 if n else 0


sys.exit(main())
