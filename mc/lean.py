"""C#-binding explorer: runs the real generator on the working tree, translates the C# it writes (csharp.py), and feeds
every class, over stand-ins for the Lean base classes and the marshaller, every bounded word of bars; native calls go to
the freshly built library.  lean.py PKGDIR DECL.json GENDIR OUTDIR tier | lean.py PKGDIR DECL.json GENDIR --replay FILE"""
import ctypes, itertools, json, math, os, re, struct, subprocess, sys, shutil, time
import multiprocessing as mp
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import csharp
from csharp import Arr, CompileError, CsException, Dec, POISON, Unsupported, UsesUnset, conv, to_decimal
from decimal import Decimal

PKG, DECL, GEN = sys.argv[1:4]
SO = os.path.join(PKG, "tindicators", "libindicators.so")
VERSION, decl = json.load(open(DECL))
UNSET = struct.pack("<Q", 0x7FF4DEAD5A5AC3C3)
GUARD = b"\xa5" * 32


class Found(Exception):
    pass


class IntPtr:
    def __init__(self, a=0):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, IntPtr) and self.a == o.a

    __hash__ = None


IntPtr.F_Zero = IntPtr(0)
IntPtr.F_Size = 8


class Heap:
    def __init__(self):
        self.b, self.allocs = {}, 0

    def alloc(self, n):
        n = conv("int", n)
        if n < 0:
            raise Found("allocates %d bytes" % n)
        buf = ctypes.create_string_buffer(n + 64)
        ctypes.memmove(buf, GUARD + (UNSET * (n // 8 + 1))[:n] + GUARD, n + 64)
        a = ctypes.addressof(buf) + 32
        self.b[a] = (buf, n)
        self.allocs += 1
        return IntPtr(a)

    def free(self, p):
        if p.a == 0:
            return
        if p.a not in self.b:
            raise Found("frees native memory that it does not own (or twice)")
        self.check(p.a)
        del self.b[p.a]

    def check(self, a):
        buf, n = self.b[a]
        if buf.raw[:32] != GUARD or buf.raw[32 + n:] != GUARD:
            raise Found("native memory is written outside a block of %d bytes" % n)

    def block(self, p, what):
        if not isinstance(p, IntPtr) or p.a not in self.b:
            raise Found("%s is not a block of native memory" % what)
        return self.b[p.a]


H = Heap()


class Marshal:
    @staticmethod
    def F_AllocHGlobal(n):
        return H.alloc(n)

    @staticmethod
    def F_FreeHGlobal(p):
        H.free(conv("IntPtr", p))

    @staticmethod
    def F_Copy(a, b, c, n):
        if isinstance(a, Arr) and isinstance(c, IntPtr):
            i = conv("int", b)
            n = conv("int", n)
            if i < 0 or n < 0 or i + n > len(a.a):
                raise CsException("ArgumentOutOfRangeException")
            buf, sz = H.block(c, "the target of a copy")
            if 8 * n > sz:
                raise Found("copies %d values into %d bytes of native memory" % (n, sz))
            ctypes.memmove(c.a, b"".join(UNSET if x is POISON else struct.pack("<d", x) for x in a.a[i:i + n]), 8 * n)
        elif isinstance(a, IntPtr) and isinstance(b, Arr):
            i = conv("int", c)
            n = conv("int", n)
            if i < 0 or n < 0 or i + n > len(b.a):
                raise CsException("ArgumentOutOfRangeException")
            buf, sz = H.block(a, "the source of a copy")
            if 8 * n > sz:
                raise Found("copies %d values out of %d bytes of native memory" % (n, sz))
            raw = ctypes.string_at(a.a, 8 * n)
            for k in range(n):
                w = raw[8 * k:8 * k + 8]
                b.a[i + k] = POISON if w == UNSET else struct.unpack("<d", w)[0]
        else:
            raise CompileError("no such Marshal.Copy")


    F_SizeOf = staticmethod(lambda t: {"double": 8, "long": 8, "int": 4, "IntPtr": 8}[t])


class Math:
    F_Max = staticmethod(lambda a, b: b if csharp.RT["lt"](a, b) else a)
    F_Min = staticmethod(lambda a, b: a if csharp.RT["lt"](a, b) else b)
    F_Floor = staticmethod(lambda a: csharp.cast("decimal", math.floor(a.v)) if isinstance(a, Dec) else a if a is POISON or not math.isfinite(a) else float(math.floor(a)))
    F_Ceiling = staticmethod(lambda a: csharp.cast("decimal", math.ceil(a.v)) if isinstance(a, Dec) else a if a is POISON or not math.isfinite(a) else float(math.ceil(a)))
    F_Abs = staticmethod(lambda a: csharp.RT["neg"](a) if csharp.RT["lt"](a, 0) else a)


class Data:
    def __init__(self, time, value):
        self.F_Time = self.F_EndTime = time
        self.F_Value = self.F_Price = value


class IndicatorDataPoint(Data):
    pass


class TradeBar(Data):
    def __init__(self, time, o, h, l, c, v):
        Data.__init__(self, time, c)
        self.F_Open, self.F_High, self.F_Low, self.F_Close, self.F_Volume = o, h, l, c, v


class IndicatorBase:
    def __init__(self, name):
        self.F_Name = conv("string", name)
        self.F_Samples = 0
        self.F_Current = IndicatorDataPoint(-1, to_decimal(0))
        self.last = -1

    def F_Update(self, *a):
        x = a[0] if len(a) == 1 else IndicatorDataPoint(a[0], conv("decimal", a[1]))
        if x.F_Time < self.last:
            raise CsException("this is a forward only indicator")
        self.last = x.F_Time
        self.F_Samples += 1
        v = conv("decimal", self.compute(x))
        self.F_Current = IndicatorDataPoint(x.F_Time, v)
        return self.F_IsReady

    def compute(self, x):
        return self.F_ComputeNextValue(x)

    def F_Reset(self):
        self.F_Samples = 0


class Identity(IndicatorBase):
    F_IsReady = property(lambda s: s.F_Samples > 0)

    def compute(self, x):
        return x.F_Value


class Window:
    def __init__(self, n):
        if n < 1:
            raise CsException("ArgumentException: window of %d" % n)
        self.n, self.a = n, []

    def add(self, x):
        self.a = [x] + self.a[:self.n - 1]

    F_Count = property(lambda s: len(s.a))
    F_Size = property(lambda s: s.n)
    F_IsReady = property(lambda s: len(s.a) == s.n)

    def __getitem__(self, i):
        if not 0 <= i < len(self.a):
            raise CsException("ArgumentOutOfRangeException")
        return self.a[i]

    def __iter__(self):
        return iter(list(self.a))


class WindowIndicator(IndicatorBase):
    def __init__(self, name, period):
        IndicatorBase.__init__(self, name)
        self.F_Period = conv("int", period)
        self.window = Window(self.F_Period)

    F_IsReady = property(lambda s: s.window.F_IsReady)

    def compute(self, x):
        self.window.add(x)
        return self.F_ComputeNextValue(self.window, x)


STUBS = dict(IntPtr=IntPtr, Marshal=Marshal, Math=Math, IndicatorDataPoint=IndicatorDataPoint, TradeBar=TradeBar, IndicatorBase=IndicatorBase, Identity=Identity, WindowIndicator=WindowIndicator,
             IReadOnlyWindow=Window, Exception=CsException, ArgumentException=CsException, InvalidOperationException=CsException, OutOfMemoryException=CsException)


class Ref:
    def __init__(self, get, put):
        self.get, self.put = get, put


ticks = [0]


def tick():
    ticks[0] += 1
    if ticks[0] > 200000:
        raise Found("a loop does not end")


lib = ctypes.CDLL(SO)
INFO = {}  # what each native entry point takes, and how much it reads and writes
NATIVE = dict(live=0, news=0, frees=0, inject=None, calls=0)
PROTO = {"start": ("int", ["double[]"]), "": ("int", ["int", "IntPtr[]", "double[]", "IntPtr[]"]), "stream_new": ("int", ["double[]", "ref"]), "stream_run": ("int", ["IntPtr", "int", "IntPtr[]", "IntPtr[]"]), "stream_free": ("void", ["IntPtr"])}
for n, d in decl.items():
    for f, p in PROTO.items():
        if f.startswith("stream") and "stream" not in d[5]:
            continue
        INFO["ti_%s%s" % (n, f and "_" + f)] = (n, f) + p
INFO["ti_stream_get_progress"] = (None, "get_progress", "int", ["IntPtr"])
INFO["ti_stream_run"] = (None, "stream_run") + PROTO["stream_run"]
INFO["ti_stream_free"] = (None, "stream_free") + PROTO["stream_free"]
STATES = {}  # native streams alive -> indicator
P8 = ctypes.POINTER(ctypes.c_double)


def native(entry):
    f = getattr(lib, entry)
    f.restype = None if INFO[entry][2] == "void" else ctypes.c_int
    return f


def ptrs(arr, what, k, need, reading):
    if arr is None or len(arr.a) < k:
        raise Found("passes %d %s arrays where %d are needed" % (0 if arr is None else len(arr.a), what, k))
    for p in arr.a[:k]:
        buf, sz = H.block(p, "an %s array" % what)
        if sz < need * 8:
            raise Found("passes an %s array of %d bytes where %d values are %s" % (what, sz, need, "read" if reading else "written"))
        if reading and UNSET in [buf.raw[32 + 8 * i:40 + 8 * i] for i in range(need)]:
            raise Found("passes an %s array that has not been filled" % what)
    return (ctypes.c_void_p * k)(*[p.a for p in arr.a[:k]])


def extern(c, name, ret, params, entry):
    if entry not in INFO:
        raise CompileError("%s imports %s, which the library does not have" % (c.name, entry))
    ind, fn, pret, pp = INFO[entry]
    kinds = ["ref" if r in ("ref", "out") else t for t, n, r, d in params]
    if kinds != pp or ret != pret:
        raise CompileError("%s imports %s as %s(%s)" % (c.name, entry, ret, ", ".join(kinds)))
    f = native(entry)

    def call(*a):
        if len(a) != len(pp):
            raise CompileError("%s called with %d arguments" % (name, len(a)))
        for t, x in zip(pp, a):
            if t == "ref":
                if not isinstance(x, Ref):
                    raise CompileError("%s needs a reference" % name)
            else:
                conv(t, x)
        NATIVE["calls"] += 1
        if fn in ("start", "", "stream_new"):
            o = a[{"start": 0, "": 2, "stream_new": 0}[fn]]
            if o is None or len(o.a) < len(decl[ind][3]):
                raise Found("passes %d options to %s" % (0 if o is None else len(o.a), entry))
            oc = (ctypes.c_double * max(1, len(o.a)))(*o.a)
        if fn == "start":
            return f(oc)
        if fn == "stream_new":
            if NATIVE["inject"] == "new":
                return 2
            st = ctypes.c_void_p(0)
            rc = f(oc, ctypes.byref(st))
            if rc == 0:
                STATES[st.value] = ind
                NATIVE["news"] += 1
                a[1].put(IntPtr(st.value))
            return rc
        if fn in ("stream_free", "get_progress", "stream_run"):
            s = a[0].a
            if s == 0 and fn == "stream_free":
                f(ctypes.c_void_p(0))
                return None
            if s not in STATES:
                raise Found("%s is given something that is not a live stream" % entry)
            if ind is not None and STATES[s] != ind:
                raise Found("%s is given a stream of %s" % (entry, STATES[s]))
            if fn == "stream_free":
                del STATES[s]
                NATIVE["frees"] += 1
                f(ctypes.c_void_p(s))
                return None
            if fn == "get_progress":
                return f(ctypes.c_void_p(s))
            d = decl[STATES[s]]
            pr = lib.ti_stream_get_progress(ctypes.c_void_p(s))
            n = a[1]
            due = max(0, pr + n) - max(0, pr)
            ip, op = ptrs(a[2], "input", len(d[2]), n, True), ptrs(a[3], "output", len(d[4]), due, False)
            if NATIVE["inject"] == "run":
                return 2
            return f(ctypes.c_void_p(s), ctypes.c_int(n), ip, op)
        d = decl[ind]
        n = a[0]
        start = native("ti_%s_start" % ind)(oc)
        due = max(0, n - start)
        ip, op = ptrs(a[1], "input", len(d[2]), n, True), ptrs(a[3], "output", len(d[4]), due, False)
        if NATIVE["inject"] == "run":
            return 2
        return f(ctypes.c_int(n), ip, oc, op)
    return call


# ---- expected behaviour -------------------------------------------------------------------------------------------
def clean(s):
    return s.replace(" ", "_").replace("%", "")


def offered(n):
    ins = decl[n][2]
    return not ("series" in ins and len(ins) > 1)


def classname(n):
    return re.sub("[^0-9a-zA-Z]", "", decl[n][0])


ALPH = [[(10.5, 12, 9.25, 11, 100), (11, 15.5, 10, 14.25, 250), (14, 14.5, 8, 8.5, 80)], [(10, 10, 10, 10, 0), (10, 10.25, 9.5, 9.75, 7), (103, 104, 10, 40.5, 1e6)]]
SER = [[11, 14.25, 8.5], [0.5, -0.75, 0.25], [1, 1, 7.5]]


def dec15(x):
    if x != x or math.isinf(x) or abs(x) >= 7.9e28:
        return None
    return to_decimal(x).v


def optvecs(n, thorough):
    names = decl[n][3]
    REAL = {"threshold", "gamma", "critical_period", "fastlimit", "slowlimit", "lambda", "alpha", "beta", "power", "v", "exponent", "N", "stddev", "multiple", "acceleration factor step", "acceleration factor maximum", "cycpart", "coef", "max_cycle_considered"}
    cand = [[0.5, 2.0, 0.25] if x in REAL else [2.0, 3.0, 4.0, 1.0, 7.0, 13.0] if len(names) == 1 else [2.0, 3.0, 4.0, 1.0] for x in names]
    out = []
    pool = itertools.product(*cand) if len(cand) <= 4 else [tuple(float(x) for x in v[:len(cand)]) for v in ((1, 2, 3, 4, 1, 2, 1, 2, 1), (2, 3, 4, 5, 2, 1, 2, 1, 2), (2, 1, 3, 2, 1, 2, 3, 1, 2))]
    bad = None
    for v in pool:
        v = list(v)
        o = (ctypes.c_double * max(1, len(v)))(*v)
        st = native("ti_%s_start" % n)(o)
        z = (ctypes.c_void_p * 10)(*[ctypes.addressof(o)] * 10)
        rc = native("ti_" + n)(ctypes.c_int(0), z, o, z)
        if rc == 0 and 0 <= st <= 40:
            out.append((len(set(v)) < len(v), st, v))
        elif rc == 1 and bad is None:
            bad = v
    out.sort(key=lambda x: (x[0], x[1], x[2]))
    if bad is None and names:
        bad = [-1.0] * len(names)
    if bad is not None:
        o = (ctypes.c_double * len(bad))(*bad)
        z = (ctypes.c_void_p * 10)(*[ctypes.addressof(o)] * 10)
        if native("ti_" + n)(ctypes.c_int(0), z, o, z) != 1:
            bad = None
    return [(v, st) for _, st, v in out[:6 if thorough else 3]], bad


def bars(n, alph, word, k0):
    ins = decl[n][2]
    r = []
    for t, k in enumerate(word):
        if "series" in ins:
            r.append((SER[alph][k],))
        else:
            b = dict(zip(("open", "high", "low", "close", "volume"), ALPH[alph][k]))
            r.append(tuple(b[x] for x in ins))
    return r


def data(n, alph, k, t):
    D = lambda x: Dec(Decimal(repr(float(x))))
    if "series" in decl[n][2]:
        return IndicatorDataPoint(t, D(SER[alph][k]))
    return TradeBar(t, *map(D, ALPH[alph][k]))


class Native:
    """The native functions, called directly."""
    def __init__(self, n, opt):
        self.n, self.o = n, (ctypes.c_double * max(1, len(opt)))(*opt)
        self.nout = len(decl[n][4])

    def arrays(self, cols):
        return (P8 * len(cols))(*[ctypes.cast(c, P8) for c in cols])

    def batch(self, rows):
        m = len(rows)
        st = native("ti_%s_start" % self.n)(self.o)
        ln = max(0, m - st)
        ins = [(ctypes.c_double * max(1, m))(*[r[k] for r in rows]) for k in range(len(decl[self.n][2]))]
        outs = [(ctypes.c_double * max(1, ln))() for _ in range(self.nout)]
        rc = native("ti_" + self.n)(ctypes.c_int(m), self.arrays(ins), self.o, self.arrays(outs))
        return rc, st, [list(x)[:ln] for x in outs]

    def stream(self):
        s = ctypes.c_void_p(0)
        rc = native("ti_%s_stream_new" % self.n)(self.o, ctypes.byref(s))
        if rc:
            raise Found("the library refuses the stream")
        return s

    def feed(self, s, row):
        ins = [(ctypes.c_double * 1)(x) for x in row]
        outs = [(ctypes.c_double * 1)() for _ in range(self.nout)]
        native("ti_%s_stream_run" % self.n)(s, ctypes.c_int(1), self.arrays(ins), self.arrays(outs))
        return lib.ti_stream_get_progress(s), [x[0] for x in outs]


ST = dict(states=0, transitions=0, words=0, values=0, undecided=0, classes=0, rejected=0, injected=0, allocations=0)


def close(a, b):
    return a == b or abs(a - b) <= abs(b) * Decimal("2e-14") + Decimal("1e-26")


def settle(where):
    for a in list(H.b):
        H.check(a)


def observe(where, obj, n, exp, t, streaming):
    outs = decl[n][4]
    for k, x in enumerate(outs):
        o = getattr(obj, "F_" + clean(x).upper(), None)
        if o is None:
            raise Found("%s: there is no member %s" % (where, clean(x).upper()))
        got = o.F_Current
        if exp[k] is None:
            ST["undecided"] += 1
            continue
        ST["values"] += 1
        if not close(got.F_Value.v, exp[k]):
            raise Found("%s: %s is %s, the library computes %s" % (where, clean(x).upper(), got.F_Value.v, exp[k]))
        if got.F_Time != t:
            raise Found("%s: %s carries another bar's time" % (where, clean(x).upper()))
    if exp[0] is not None and not close(obj.F_Current.F_Value.v, exp[0]):
        raise Found("%s: the indicator's own value is %s, its first output %s" % (where, obj.F_Current.F_Value.v, exp[0]))


class Live:
    """One object beside the native call or stream that it has to agree with."""
    def __init__(self, X, kind, n, opt, wsize, alph):
        self.X, self.kind, self.n, self.opt, self.wsize, self.alph = X, kind, n, opt, wsize, alph
        self.where = "%s.%s(%s%s)" % (kind, X.__name__, ", ".join("%g" % x for x in opt), ", windowsize=%d" % wsize if wsize is not None else "")
        self.nat, self.ref, self.word, self.rows, self.over = Native(n, opt), None, [], [], False
        self.obj = X.__new__(X)
        self.obj.__init__(*([float(x) for x in opt] + ([wsize] if wsize is not None else [])))
        self.st = native("ti_%s_start" % n)(self.nat.o)
        if kind == "Streaming":
            self.ref = self.nat.stream()

    def at(self):
        return "%s after bars %s" % (self.where, "".join("ABC"[x] for x in self.word))

    def step(self, k, inject=None):
        """Feeds one bar; False if this object can not go on (a value that a decimal cannot hold, or an injected failure)."""
        n, obj, t = self.n, self.obj, len(self.word)
        self.word.append(k)
        self.rows += bars(n, self.alph, (k,), 0)
        ST["transitions"] += 1
        ticks[0] = 0
        if self.kind == "Streaming":
            pr, vals = self.nat.feed(self.ref, self.rows[t])
            ready = pr > 0
            exp = [dec15(x) for x in vals] if ready else None
        else:
            win = self.rows[max(0, t + 1 - max(self.wsize or 0, self.st + 1)):]
            ready = len(win) > self.st
            rc, _, vals = self.nat.batch(win)
            exp = [dec15(x[-1]) for x in vals] if ready else None
        bar = data(n, self.alph, k, t)
        if inject and (ready or self.kind == "Streaming"):
            NATIVE["inject"] = inject
            try:
                obj.F_Update(bar)
            except CsException:
                ST["injected"] += 1
                H.b.clear()
                return False
            finally:
                NATIVE["inject"] = None
            raise Found("%s: the native call ran out of memory and no exception tells it" % self.at())
        try:
            r = obj.F_Update(bar)
        except csharp.OverflowException:
            if ready and None in exp:
                ST["undecided"] += 1
                H.b.clear()
                return False
            raise Found("%s: the conversion to decimal overflows" % self.at())
        except CsException as e:
            raise Found("%s: throws %s %s" % (self.at(), type(e).__name__, e))
        except (UsesUnset, CompileError, Found) as e:
            raise Found("%s: %s" % (self.at(), e))
        for a in H.b:
            H.check(a)
        if H.b:
            raise Found("%s: %d blocks of native memory stay allocated" % (self.at(), len(H.b)))
        if bool(obj.F_IsReady) != ready or bool(r) != ready:
            raise Found("%s: IsReady is %s" % (self.at(), obj.F_IsReady))
        if ready:
            observe(self.at(), obj, n, exp, t, self.kind == "Streaming")
        return True

    def close(self):
        """The finaliser, and the reference goes too."""
        if self.ref:
            native("ti_%s_stream_free" % self.n)(self.ref)
            self.ref = None
        before = len(STATES)
        try:
            fin = getattr(self.obj, "finalize_", None)
            if fin:
                fin()
        except (UsesUnset, CompileError, CsException, Found) as e:
            raise Found("%s, when it is finalised: %s" % (self.at(), e))
        if self.kind == "Streaming" and len(STATES) != before - 1:
            raise Found("%s: the native stream is not freed with the object" % self.at())


def fresh():
    H.__init__()
    STATES.clear()
    NATIVE.update(inject=None)
    ticks[0] = 0


def birth(X, kind, n, opt, wsize, alph):
    try:
        return Live(X, kind, n, opt, wsize, alph)
    except (UsesUnset, CompileError, CsException, Found) as e:
        raise Found("%s.%s(%s), when it is constructed: %s %s" % (kind, X.__name__, ", ".join("%g" % x for x in opt), type(e).__name__, e))


def life(X, kind, n, opt, wsize, alph, word, inject=None):
    """One object, from construction to finalisation, fed one word of bars."""
    fresh()
    ST["words"] += 1
    if inject == "new":
        NATIVE["inject"] = "new"
        obj = X.__new__(X)
        try:
            obj.__init__(*[float(x) for x in opt])
        except CsException:
            ST["injected"] += 1
            NATIVE["inject"] = None
            fin = getattr(obj, "finalize_", None)
            if fin:  # an object whose constructor has thrown is finalised all the same
                try:
                    fin()
                except (CsException, Found) as e:
                    raise Found("%s.%s(%s), finalised after its constructor has thrown: %s" % (kind, X.__name__, ", ".join("%g" % x for x in opt), e))
            return
        raise Found("%s.%s(%s): the object exists although the native stream could not be created" % (kind, X.__name__, ", ".join("%g" % x for x in opt)))
    o = birth(X, kind, n, opt, wsize, alph)
    for t, k in enumerate(word):
        if not o.step(k, inject if t == len(word) - 1 else None):
            break
    o.close()
    ST["allocations"] += H.allocs


def merges(a, b):
    if not a or not b:
        yield (0,) * a + (1,) * b
        return
    for m in merges(a - 1, b):
        yield (0,) + m
    for m in merges(a, b - 1):
        yield (1,) + m


def together(A, B, n, la, lb):
    """Two objects; their bars come in every order, and either one is finalised first."""
    words = [[(i * i + 1) % 3 for i in range(la)], [(2 * i * i + i) % 3 for i in range(lb)]]
    for m in merges(4, 4):
        fresh()
        ST["words"] += 1
        ab = [birth(*A), birth(*B)]
        on = [True, True]
        pos = [max(0, la - 4), max(0, lb - 4)]
        for i in (0, 1):  # through most of the warm-up one after the other
            for k in words[i][:pos[i]]:
                on[i] = on[i] and ab[i].step(k)
        for i in m:
            if on[i] and pos[i] < len(words[i]):
                on[i] = ab[i].step(words[i][pos[i]])
                pos[i] += 1
        ST["states"] += 1
        for o in (ab if m[-1] else ab[::-1]):
            o.close()
        ST["allocations"] += H.allocs


def generate():
    src = sys.argv[3]
    code, log = open(os.path.join(src, "status")).read().split("\n", 1)
    if code != "0":
        raise Found("the generator ends with status %s: %s" % (code, log[-800:]))
    if not os.path.exists(os.path.join(src, "tindicators.cs")):
        raise Found("the generator writes no tindicators.cs")
    return open(os.path.join(src, "tindicators.cs"), encoding="utf8").read()


def classes():
    text = generate()
    try:
        return csharp.translate(text, STUBS, extern, Ref, tick)
    except CompileError as e:
        raise Found("the generated C# is refused: %s" % e)


def structure(X, C):
    """The classes offered are exactly the declared ones."""
    want = {}
    for n in decl:
        if not offered(n):
            continue
        for kind in ["Default"] + (["Streaming"] if "stream" in decl[n][5] else []):
            key = (kind, classname(n))
            if key in want:
                raise Found("%s and %s have one class name" % (want[key], n))
            want[key] = n
    have = {k[-2:] for k in X if k[-2] in ("Default", "Streaming")}
    for k, n in want.items():
        if k not in have:
            raise Found("%s.%s, for %s, is missing" % (k + (n,)))
    for k in have:
        if k not in want:
            raise Found("%s.%s is no declared indicator" % k)
    return want


def explore(n, kinds, X, C, thorough):
    d = decl[n]
    opts, bad = optvecs(n, thorough)
    if not opts:
        raise Found("%s: no explored option vector is accepted" % n)
    for kind in kinds:
        key = next(k for k in X if k[-2:] == (kind, classname(n)))
        cls = X[key]
        ST["classes"] += 1
        ps = [(t, p) for t, p, r, dd in (C[key].ctors[0][0] if C[key].ctors else [])]
        wantp = [("double", clean(x)) for x in d[3]] + ([("int", "windowsize")] if kind == "Default" else [])
        if [t for t, p in ps] != [t for t, p in wantp] or [p for t, p in ps][:len(d[3])] != [p for t, p in wantp][:len(d[3])]:
            raise Found("%s.%s is constructed from (%s)" % (kind, cls.__name__, ", ".join(" ".join(x) for x in ps)))
        if d[3] and bad is not None:
            obj = cls.__new__(cls)
            try:
                obj.__init__(*bad)
                for t in range(3):
                    obj.F_Update(data(n, 0, t % 3, t))
                    if obj.F_IsReady:
                        break
                else:
                    raise CsException()
                raise Found("%s.%s(%s): invalid options yield a value" % (kind, cls.__name__, ", ".join("%g" % x for x in bad)))
            except CsException:
                ST["rejected"] += 1
            except (UsesUnset, CompileError) as e:
                raise Found("%s.%s(%s): %s" % (kind, cls.__name__, ", ".join("%g" % x for x in bad), e))
            finally:
                H.b.clear()
            fin = getattr(obj, "finalize_", None)
            if fin:
                fin()
        for oi, (opt, st) in enumerate(opts):
            extra = 4 if thorough else 3
            L = max(1, min(st + extra, 9 if thorough else 7)) if st + 2 <= 9 else None
            for alph in range(len(SER) if "series" in d[2] else len(ALPH)):
                A = 3
                wsizes = [None] if kind == "Streaming" else sorted({0, 1, st, st + 1, st + 3}) if oi == 0 and alph == 0 else [0]
                for ws in wsizes:
                    if L is None:  # a long warm-up: all words on top of a fixed beginning
                        head = [(i * i + i // 3) % 3 for i in range(st - 1)]
                        tails = itertools.product(range(A), repeat=3)
                    else:
                        head = []
                        while A ** L > (20000 if thorough else 800) and A > 2:
                            A -= 1
                        l = L
                        while A ** l > (20000 if thorough else 800):
                            l -= 1
                        head = [(i * i) % 3 for i in range(L - l)]
                        tails = itertools.product(range(A), repeat=l)
                    seen = set()
                    for tail in tails:
                        w = tuple(head) + tail
                        for j in range(1, len(w) + 1):
                            seen.add(w[:j])
                        life(cls, kind, n, opt, ws, alph, w)
                    ST["states"] += len(seen)
        opt, st = opts[0]
        ws = None if kind == "Streaming" else 0
        for j in range(1, 4):
            life(cls, kind, n, opt, ws, 0, tuple((i * i) % 3 for i in range(st + j)), "run")
        if kind == "Streaming":
            life(cls, kind, n, opt, ws, 0, (0,), "new")
        two = [(opts[0], opts[0], ws)] + ([(opts[0], opts[1], ws), (opts[1], opts[0], ws)] if len(opts) > 1 else []) + ([(opts[0], opts[0], opts[0][1] + 3)] if ws == 0 else [])
        for (o1, s1), (o2, s2), w2 in two:
            together((cls, kind, n, o1, ws, 0), (cls, kind, n, o2, w2, 0), n, s1 + 3, max(s2, w2 or 0) + 2)


def work(job):
    name, thorough = job
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        msg, code = "", 0
        try:
            X, C = classes()
            want = structure(X, C)
            if name:
                explore(name, [k[0] for k, n in want.items() if n == name], X, C, thorough)
        except Found as x:
            msg = str(x)
        except Unsupported as x:
            msg, code = "unsupported: %s" % x, 1
        except BaseException as x:
            import traceback
            msg, code = "internal: %s" % traceback.format_exc(), 1
        os.write(w, json.dumps([msg[:3000], code, ST]).encode())
        os._exit(0)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st or not b:
        return name, "%s: the process ended with status 0x%x inside the binding" % (name or "structure", st), 0, {}
    return (name,) + tuple(json.loads(b))


def main():
    t0 = time.time()
    names = [n for n in sorted(decl) if offered(n)]
    if sys.argv[4] == "--replay":
        name = open(sys.argv[5]).readline().split()[1:]
        _, msg, code, _ = work((name[0] if name else "", False))
        print("violated: " + msg if msg else "holds")
        return 2 if code else 1 if msg else 0
    out, thorough = sys.argv[4], sys.argv[5] == "thorough"
    first = work(("", thorough))
    res = [first]
    if not first[1]:
        with mp.Pool(8) as p:
            res += p.map(work, [(n, thorough) for n in names], chunksize=1)
    n = 0
    for name, msg, code, _ in res:
        if code:
            print("no answer: %s: %s" % (name, msg), file=sys.stderr)
            return 2
        if msg:
            f = os.path.join(out, "v%04d.case" % n)
            n += 1
            with open(f, "w") as h:
                h.write("lean %s\n%s\n" % (name, msg))
            print("FOUND %s %s" % (f, msg.replace("\n", " ")))
    tot = {k: sum(r[3].get(k, 0) for r in res) for k in ST}
    tot.update(indicators=len(names), seconds=round(time.time() - t0, 1))
    json.dump(tot, open(os.path.join(out, "stats.json"), "w"))
    return 1 if n else 0


sys.exit(main())
