"""A small C# front end: translates the subset of C# that generated bindings are made of into Python classes, with the
typing rules that matter for them (no implicit double/decimal conversion, names resolved inside out, one meaning per name
in a scope).  CompileError: a C# compiler would refuse the text.  Unsupported: this front end does not know the construct."""
import math, re
from decimal import Decimal, Context, ROUND_HALF_EVEN

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>[$@]{0,2}"(?:[^"\\]|\\.)*")|(?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?[mMdDfFlLuU]?)|(?P<id>@?[A-Za-z_]\w*)|(?P<op>=>|\?\?|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\+\+|--|[-+*/%<>=!?:;,.(){}\[\]~&|^])', re.S)
MODS = {"public", "private", "protected", "internal", "static", "override", "virtual", "extern", "readonly", "sealed", "abstract", "const", "unsafe", "partial", "new"}
PRIM = {"double", "decimal", "int", "bool", "string", "void", "long", "float", "object", "var"}
KEYWORDS = set("abstract as base bool break byte case catch char checked class const continue decimal default delegate do double else enum event explicit extern false finally fixed float for foreach goto if implicit in int interface internal is lock long namespace new null object operator out override params private protected public readonly ref return sbyte sealed short sizeof stackalloc static string struct switch this throw true try typeof uint ulong unchecked unsafe ushort using virtual void volatile while".split())


class CompileError(Exception):
    pass


class Unsupported(Exception):
    pass


class Poison:  # a double read from memory that nothing has set
    pass


POISON = Poison()
D15 = Context(prec=15, rounding=ROUND_HALF_EVEN)
LIM = Decimal("79228162514264337593543950335")


class Dec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class CsException(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)


class OverflowException(CsException):
    pass


class UsesUnset(Exception):
    pass


def to_decimal(x):
    if x is POISON:
        raise UsesUnset("a value is taken from memory that nothing has set")
    if isinstance(x, Dec):
        return x
    if isinstance(x, bool):
        raise CompileError("bool as decimal")
    if isinstance(x, int):
        return Dec(Decimal(x))
    if x != x or math.isinf(x) or abs(x) > 7.9228162514264e28:
        raise OverflowException("value was either too large or too small for a Decimal")
    return Dec(D15.create_decimal(Decimal(x)).quantize(Decimal(1).scaleb(-28), context=Context(prec=60)) if x else Decimal(0))


def cast(t, x):
    if t == "decimal":
        return to_decimal(x)
    if t in ("double", "float"):
        return x if x is POISON else float(x.v) if isinstance(x, Dec) else float(x)
    if t in ("int", "long"):
        if x is POISON:
            raise UsesUnset("a value is taken from memory that nothing has set")
        return int(x.v if isinstance(x, Dec) else x)
    return x


def conv(t, x):
    """Implicit conversion."""
    if t == "double":
        if isinstance(x, Dec):
            raise CompileError("cannot implicitly convert decimal to double")
        if isinstance(x, bool) or not (isinstance(x, (int, float)) or x is POISON):
            raise CompileError("cannot convert %s to double" % type(x).__name__)
        return x if x is POISON else float(x)
    if t == "decimal":
        if isinstance(x, float) or x is POISON:
            raise CompileError("cannot implicitly convert double to decimal")
        if isinstance(x, bool) or not isinstance(x, (int, Dec)):
            raise CompileError("cannot convert %s to decimal" % type(x).__name__)
        return to_decimal(x)
    if t == "int":
        if isinstance(x, bool) or not isinstance(x, int):
            raise CompileError("cannot implicitly convert to int")
        return x
    if t == "bool" and not isinstance(x, bool):
        raise CompileError("cannot convert to bool")
    if t == "string" and not (x is None or isinstance(x, str)):
        raise CompileError("cannot convert to string")
    if t == "IntPtr" and type(x).__name__ != "IntPtr":
        raise CompileError("cannot convert to IntPtr")
    if t.endswith("[]") and x is not None and (not isinstance(x, Arr) or x.t != t[:-2]):
        raise CompileError("cannot convert to %s" % t)
    return x


class Arr:
    def __init__(self, t, items):
        self.t, self.a = t, items

    def idx(self, i):
        if not 0 <= i < len(self.a):
            raise CsException("IndexOutOfRangeException")
        return i

    def __getitem__(self, i):
        return self.a[self.idx(i)]

    def __setitem__(self, i, v):
        self.a[self.idx(i)] = conv(self.t, v)

    def __iter__(self):
        return iter(list(self.a))

    F_Length = property(lambda s: len(s.a))

    def F_CopyTo(self, o, at):
        copy(self, 0, o, at, len(self.a))

    def F_Clone(self):
        return Arr(self.t, list(self.a))


def copy(a, i, b, j, n):
    if a.t != b.t or min(i, j, n) < 0 or i + n > len(a.a) or j + n > len(b.a):
        raise CsException("ArgumentException")
    b.a[j:j + n] = a.a[i:i + n]


class Array:
    @staticmethod
    def F_Copy(*a):
        if len(a) == 3:
            a = (a[0], 0, a[1], 0, a[2])
        copy(*a)

    @staticmethod
    def F_Clear(a, *r):
        i, n = r or (0, len(a.a))
        copy(Arr(a.t, [zero(a.t, STUBNS)] * n), 0, a, i, n)

    @staticmethod
    def F_Reverse(a, *r):
        i, n = r or (0, len(a.a))
        if i < 0 or n < 0 or i + n > len(a.a):
            raise CsException("ArgumentException")
        a.a[i:i + n] = a.a[i:i + n][::-1]


class GC:
    F_SuppressFinalize = F_KeepAlive = staticmethod(lambda x: None)


STUBNS = {}


def arr_of(l):
    t = "IntPtr" if l and type(l[0]).__name__ == "IntPtr" else "decimal" if any(isinstance(x, Dec) for x in l) else "double" if any(isinstance(x, float) or x is POISON for x in l) else "string" if l and isinstance(l[0], str) else "bool" if l and isinstance(l[0], bool) else "int"
    return Arr(t, [conv(t, x) for x in l])


def zero(t, ns=None):
    return {"double": 0.0, "int": 0, "long": 0, "bool": False, "decimal": Dec(Decimal(0))}.get(t) if t != "IntPtr" else ns["IntPtr"](0)


def num(op):
    def f(a, b):
        if isinstance(a, str) or isinstance(b, str):
            if op == "+":
                return str(a) + str(b)
            raise CompileError("operator on strings")
        if isinstance(a, Dec) or isinstance(b, Dec):
            if isinstance(a, float) or isinstance(b, float) or a is POISON or b is POISON:
                raise CompileError("operator between double and decimal")
            a, b = to_decimal(a).v, to_decimal(b).v
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
            return r if isinstance(r, bool) else Dec(r)
        if a is POISON or b is POISON:
            if op in "+-*/%":
                return POISON
            raise UsesUnset("a decision is taken on memory that nothing has set")
        if op in ("/", "%") and isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise CsException("DivideByZeroException")
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == "/" else a - b * q
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b if b else float("nan") if not a else math.copysign(float("inf"), a), "%": lambda: math.fmod(a, b), "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
    return f


OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "<": "lt", ">": "gt", "<=": "le", ">=": "ge"}
RT = {v: num(k) for k, v in OPS.items()}


def eq(a, b):
    if isinstance(a, Dec) or isinstance(b, Dec):
        return to_decimal(a).v == to_decimal(b).v
    if a is POISON or b is POISON:
        raise UsesUnset("a decision is taken on memory that nothing has set")
    return a == b


def neg(a):
    return Dec(-a.v) if isinstance(a, Dec) else a if a is POISON else -a


def cond(x):
    if not isinstance(x, bool):
        raise CompileError("condition is not a bool")
    return x


RT.update(ArrOf=arr_of, eq=eq, neg=neg, conv=conv, cast=cast, cond=cond, Arr=Arr, zero=zero, CompileError=CompileError)


class Parser:
    def __init__(self, text, stubs):
        self.t, pos = [], 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise CompileError("unexpected character %r" % text[pos])
            pos = m.end()
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(m.lastgroup)))
        self.t.append(("eof", ""))
        self.p, self.stubs = 0, stubs
        self.bare = self.bare_rhs = False
        self.uid = 0

    # tokens
    def peek(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][0]

    def next(self):
        self.p += 1
        return self.t[self.p - 1][1]

    def acc(self, s):
        if self.peek() == s and self.kind() != "str":
            self.p += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise CompileError("expected %r, found %r near %r" % (s, self.peek(), " ".join(x[1] for x in self.t[max(0, self.p - 8):self.p + 3])))

    def ident(self):
        if self.kind() != "id":
            raise CompileError("expected a name, found %r near %r" % (self.peek(), " ".join(x[1] for x in self.t[max(0, self.p - 8):self.p + 3])))
        s = self.next()
        if s in KEYWORDS:
            raise CompileError("%s is a keyword, not a name" % s)
        return s.lstrip("@")

    def type(self):
        if self.kind() != "id" or (self.peek() in KEYWORDS and self.peek() not in PRIM):
            raise CompileError("expected a type, found %r" % self.peek())
        s = self.next()
        while self.peek() == "." and self.kind(1) == "id":
            self.next()
            s += "." + self.next()
        if self.peek() == "<":
            save = self.p
            self.next()
            a = [self.type()]
            while self.acc(","):
                a.append(self.type())
            if not self.acc(">"):
                self.p = save
                raise CompileError("generic type")
            s += "<" + ",".join(a) + ">"
        while self.peek() == "[" and self.peek(1) == "]":
            self.p += 2
            s += "[]"
        return s

    # declarations
    def unit(self):
        root = {}
        while self.kind() != "eof":
            if self.acc("using"):
                while not self.acc(";"):
                    self.next()
            else:
                self.member_of_ns(root, ())
        return root

    def member_of_ns(self, ns, path):
        if self.acc("namespace"):
            names = [self.ident()]
            while self.acc("."):
                names.append(self.ident())
            self.exp("{")
            inner = ns
            for n in names:
                inner = inner.setdefault(n, {})
                if not isinstance(inner, dict):
                    raise CompileError("%s is both a class and a namespace" % n)
            while not self.acc("}"):
                self.member_of_ns(inner, path + tuple(names))
            return
        while self.peek() in MODS:
            self.next()
        if not self.acc("class"):
            raise CompileError("expected a class, found %r" % self.peek())
        c = self.cls(path)
        if c.name in ns:
            raise CompileError("%s is declared twice in %s" % (c.name, ".".join(path)))
        ns[c.name] = c

    def cls(self, path):
        c = Cls(self.ident(), path)
        if self.acc(":"):
            c.base = self.type()
            while self.acc(","):
                self.type()
        self.exp("{")
        while not self.acc("}"):
            self.member(c)
        return c

    def put(self, c, n, v):
        if n in c.m:
            raise CompileError("%s already has a member %s" % (c.name, n))
        if n == c.name:
            raise CompileError("member %s has the name of its class" % n)
        c.m[n] = v

    def params(self):
        r = []
        self.exp("(")
        while not self.acc(")"):
            if r:
                self.exp(",")
            ref = ""
            while self.peek() in ("ref", "out", "this", "params", "in"):
                ref = self.next()
            t = self.type()
            n = self.ident()
            d = None
            if self.acc("="):
                a = self.p
                self.ternary(Scope(None, None))
                d = (a, self.p)
            if n in [x[1] for x in r]:
                raise CompileError("two parameters named %s" % n)
            r.append((t, n, ref, d))
        return r

    def skip_block(self):
        a = self.p
        self.exp("{")
        d = 1
        while d:
            if self.kind() == "eof":
                raise CompileError("unbalanced braces")
            s, k = self.peek(), self.kind()
            self.p += 1
            d += (s == "{" and k == "op") - (s == "}" and k == "op")
        return a

    def member(self, c):
        attr = None
        while self.peek() == "[":
            self.next()
            an = self.next()
            args = []
            if self.acc("("):
                while not self.acc(")"):
                    args.append(self.next())
            self.exp("]")
            if an == "DllImport":
                attr = args
        mods = set()
        while self.peek() in MODS:
            mods.add(self.next())
        if self.peek() == "class":
            self.next()
            k = self.cls(c.path + (c.name,))
            self.put(c, k.name, ("class", k))
            return
        if self.acc("~"):
            n = self.ident()
            if n != c.name:
                raise CompileError("the finaliser of %s is named %s" % (c.name, n))
            self.exp("(")
            self.exp(")")
            self.put(c, "~", ("method", "void", [], self.body(), mods))
            return
        if self.peek(1) == "(" and self.kind() == "id":
            n = self.ident()
            if n != c.name:
                raise CompileError("method %s must have a return type" % n)
            ps = self.params()
            base = None
            if self.acc(":"):
                base = (self.next(), self.p)
                self.exp("(")
                d = 1
                while d:
                    s, k = self.peek(), self.kind()
                    self.p += 1
                    d += (s == "(" and k == "op") - (s == ")" and k == "op")
            c.ctors.append((ps, base, self.body()))
            return
        t = self.type()
        n = self.ident()
        if self.peek() == "(":
            ps = self.params()
            if "extern" in mods:
                self.exp(";")
                if not attr:
                    raise CompileError("extern %s without DllImport" % n)
                a = "".join(attr)
                m = re.search(r'EntryPoint="([^"]*)"', a)
                if "static" not in mods:
                    raise CompileError("extern %s is not static" % n)
                self.put(c, n, ("extern", t, ps, m.group(1) if m else n))
            else:
                self.put(c, n, ("method", t, ps, self.body(), mods))
            return
        if self.peek() == "{":
            self.next()
            get = None
            auto = False
            while not self.acc("}"):
                while self.peek() in MODS:
                    self.next()
                w = self.ident()
                if self.peek() == ";":
                    self.next()
                    auto = True
                elif w == "get":
                    get = self.body()
                else:
                    raise Unsupported("property accessor " + w)
            self.put(c, n, ("field", t, None, mods) if auto and get is None else ("prop", t, get, mods))
            if auto and self.acc("="):
                a = self.p
                while not self.acc(";"):
                    self.next()
                c.m[n] = ("field", t, a, mods)
            return
        if self.peek() == "=>":
            self.put(c, n, ("prop", t, self.body(), mods))
            return
        while True:
            init = None
            if self.acc("="):
                init = self.p
                d = 0
                while d or self.peek() not in (",", ";"):
                    s, k = self.peek(), self.kind()
                    if k == "eof":
                        raise CompileError("unexpected end")
                    self.p += 1
                    d += (s in "([{" and k == "op") - (s in ")]}" and k == "op")
            self.put(c, n, ("field", t, init, mods))
            if self.acc(";"):
                return
            self.exp(",")
            n = self.ident()

    def body(self):
        """Position of a method body: ('{', p) or ('=>', p)."""
        if self.peek() == "=>":
            self.next()
            a = self.p
            while not self.acc(";"):
                self.next()
            return ("=>", a)
        return ("{", self.skip_block())

    # expressions: every method returns Python source
    def expr(self, sc):
        return self.assign(sc)

    def assign(self, sc):
        a = self.p
        l = self.ternary(sc)
        op = self.peek()
        if op in ("=", "+=", "-=", "*=", "/=", "%=") and not (op == "=" and self.bare_rhs):
            raise Unsupported("an assignment inside an expression")
        return l

    def initial(self, sc, t):
        """The right side of a declaration."""
        if t.endswith("[]") and self.acc("{"):
            return "Arr(%r, [conv(%r, x_) for x_ in [%s]])" % (t[:-2], t[:-2], self.args(sc, "}"))
        return self.expr(sc)

    def ternary(self, sc):
        c = self.binary(sc, 0)
        if self.acc("?"):
            a = self.expr(sc)
            self.exp(":")
            b = self.expr(sc)
            return "(%s if cond(%s) else %s)" % (a, c, b)
        return c

    LEVELS = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]

    def binary(self, sc, l):
        if l == len(self.LEVELS):
            return self.unary(sc)
        a = self.binary(sc, l + 1)
        while self.kind() == "op" and self.peek() in self.LEVELS[l]:
            o = self.next()
            b = self.binary(sc, l + 1)
            if o in ("||", "&&"):
                a = "(cond(%s) %s cond(%s))" % (a, "or" if o == "||" else "and", b)
            elif o == "==":
                a = "eq(%s, %s)" % (a, b)
            elif o == "!=":
                a = "(not eq(%s, %s))" % (a, b)
            else:
                a = "%s(%s, %s)" % (OPS[o], a, b)
        return a

    def unary(self, sc):
        if self.kind() == "op":
            if self.acc("!"):
                return "(not cond(%s))" % self.unary(sc)
            if self.acc("-"):
                return "neg(%s)" % self.unary(sc)
            if self.acc("+"):
                return self.unary(sc)
            if self.peek() in ("++", "--"):
                o = self.next()
                n = self.unary(sc)
                if not re.fullmatch(r"L_\w+", n):
                    raise Unsupported("increment of something other than a local")
                return "(%s := %s(%s, 1))" % (n, "add" if o == "++" else "sub", n)
            if self.peek() == "(" and self.peek(1) in PRIM and self.peek(2) == ")":
                self.next()
                t = self.next()
                self.next()
                return "cast(%r, %s)" % (t, self.unary(sc))
        return self.postfix(sc)

    def args(self, sc, close=")"):
        r = []
        while not self.acc(close):
            if r:
                self.exp(",")
            if self.peek() in ("ref", "out"):
                self.next()
                n = self.expr(sc)
                self.uid += 1
                r.append("Ref(lambda: %s, lambda v_: %s)" % (n, self.store_expr(n)))
                continue
            if self.kind() == "id" and self.peek(1) == ":" and self.peek(2) != ":":
                nm = self.ident()
                self.exp(":")
                r.append("L_%s=%s" % (nm, self.expr(sc)))
                continue
            r.append(self.expr(sc))
        return ", ".join(r)

    def store_expr(self, n):
        m = re.fullmatch(r"(.*)\.F_(\w+)", n)
        if m:
            return "setattr(%s, 'F_%s', v_)" % m.groups()
        raise Unsupported("a reference to something other than a field")

    def postfix(self, sc):
        e = self.primary(sc)
        while self.kind() == "op":
            if self.peek() == "." and self.kind(1) == "id":
                self.next()
                e = "%s.F_%s" % (e, self.ident())
            elif self.peek() == "(":
                self.next()
                e = "%s(%s)" % (e, self.args(sc))
            elif self.peek() == "<" and self.kind(1) == "id" and self.peek(2) == ">" and self.peek(3) == "(":  # a generic method
                self.next()
                t = self.next()
                self.p += 2
                r = self.args(sc)
                e = "%s(%r%s)" % (e, t, r and ", " + r)
            elif self.peek() == "[":
                self.next()
                e = "%s[%s]" % (e, self.expr(sc))
                self.exp("]")
            elif self.peek() in ("++", "--"):
                o = self.next()
                if not re.fullmatch(r"L_\w+", e):
                    if self.peek() in (";", ")") and self.bare:
                        self.p -= 1
                        break
                    raise Unsupported("increment of something other than a local")
                f, g = ("add", "sub") if o == "++" else ("sub", "add")
                e = "%s((%s := %s(%s, 1)), 1)" % (g, e, f, e)
            else:
                break
        return e

    def primary(self, sc):
        k, s = self.kind(), self.peek()
        if k == "num":
            self.next()
            m = re.fullmatch(r"([\d.eE+-]+)([a-zA-Z]?)", s)
            v, suf = m.groups()
            if suf in "mM" and suf:
                return "cast('decimal', %s)" % repr(float(v))
            return repr(float(v)) if suf in "dDfF" and suf or re.search(r"[.eE]", v) else v
        if k == "str":
            self.next()
            return repr(s.lstrip("$@")[1:-1])
        if s == "(":
            self.next()
            e = self.expr(sc)
            self.exp(")")
            return "(%s)" % e
        if s == "new":
            self.next()
            if self.peek() == "[" and self.peek(1) == "]":
                self.p += 2
                self.exp("{")
                return "ArrOf([%s])" % self.args(sc, "}")
            save = self.p
            t = self.next()
            while self.peek() == "." and self.kind(1) == "id":
                self.next()
                t += "." + self.next()
            if self.peek() == "<":
                self.p = save
                t = self.type()
            if self.acc("["):
                if self.acc("]"):
                    self.exp("{")
                    return "Arr(%r, [conv(%r, x_) for x_ in [%s]])" % (t, t, self.args(sc, "}"))
                n = self.expr(sc)
                self.exp("]")
                if self.acc("{"):
                    return "Arr(%r, [conv(%r, x_) for x_ in [%s]])" % (t, t, self.args(sc, "}"))
                return "NewArr(%r, %s)" % (t, n)
            self.exp("(")
            return "%s(%s)" % (sc.typename(t), self.args(sc))
        if k == "id":
            if s == "sizeof":
                self.next()
                self.exp("(")
                t = self.type()
                self.exp(")")
                return {"double": "8", "int": "4", "long": "8", "float": "4"}[t]
            if s in ("true", "false", "null"):
                self.next()
                return {"true": "True", "false": "False", "null": "None"}[s]
            if s == "this":
                self.next()
                return "self"
            if s in ("typeof", "nameof"):
                self.next()
                self.exp("(")
                t = self.type()
                self.exp(")")
                return repr(t.split(".")[-1])
            if s == "default":
                self.next()
                if self.acc("("):
                    t = self.type()
                    self.exp(")")
                    return "zero(%r)" % t
                raise Unsupported("default")
            if s in ("base", "delegate", "checked", "unchecked", "stackalloc"):
                raise Unsupported(s)
            if s in PRIM and self.peek(1) == ".":
                self.next()
                return "T_%s" % s
            return sc.name(self.ident())
        raise CompileError("unexpected %r near %r" % (s, " ".join(x[1] for x in self.t[max(0, self.p - 8):self.p + 3])))

    # statements: lists of Python lines
    def stmt(self, sc, ret):
        s = self.peek()
        if s == "{" and self.kind() == "op":
            self.next()
            r, inner = [], Scope(sc.cls, sc)
            while not self.acc("}"):
                r += self.stmt(inner, ret)
            return r or ["pass"]
        if self.acc(";"):
            return ["pass"]
        ind = lambda l: ["    " + x for x in l]
        if self.kind() == "id":
            if s == "const":
                self.next()
                s = self.peek()
            if s == "if":
                self.next()
                self.exp("(")
                c = self.expr(sc)
                self.exp(")")
                r = ["if cond(%s):" % c] + ind(self.stmt(Scope(sc.cls, sc), ret))
                if self.acc("else"):
                    r += ["else:"] + ind(self.stmt(Scope(sc.cls, sc), ret))
                return r
            if s == "foreach":
                self.next()
                self.exp("(")
                self.type()
                inner = Scope(sc.cls, sc)
                n = self.ident()
                self.exp("in")
                e = self.expr(sc)
                inner.declare(n, None)
                self.exp(")")
                return ["for L_%s in %s:" % (n, e)] + ind(self.stmt(inner, ret))
            if s == "while":
                self.next()
                self.exp("(")
                c = self.expr(sc)
                self.exp(")")
                return ["while cond(%s):" % c, "    tick()"] + ind(self.stmt(Scope(sc.cls, sc), ret))
            if s == "for":
                self.next()
                self.exp("(")
                inner = Scope(sc.cls, sc)
                init = [] if self.acc(";") else self.stmt(inner, ret)
                c = "True" if self.peek() == ";" else self.expr(inner)
                self.exp(";")
                it = []
                while not self.acc(")"):
                    if it:
                        self.exp(",")
                    it += self.simple(inner)
                self.uid += 1
                f = "first_%d" % self.uid
                return init + ["%s = True" % f, "while True:", "    tick()", "    if not %s:" % f] + ind(ind(it or ["pass"])) + ["    %s = False" % f, "    if not cond(%s): break" % c] + ind(self.stmt(Scope(sc.cls, inner), ret))
            if s == "return":
                self.next()
                if self.acc(";"):
                    return ["return None"]
                e = self.expr(sc)
                self.exp(";")
                return ["return conv(%r, %s)" % (ret, e)]
            if s == "throw":
                self.next()
                if self.acc(";"):
                    return ["raise"]
                e = self.expr(sc)
                self.exp(";")
                return ["raise %s" % e]
            if s in ("break", "continue"):
                self.next()
                self.exp(";")
                return [s]
            if s == "switch":
                self.next()
                self.exp("(")
                e = self.expr(sc)
                self.exp(")")
                self.exp("{")
                self.uid += 1
                v = "sw_%d" % self.uid
                r, kw = ["%s = %s" % (v, e), "while True:"], "if"
                dflt = None
                while not self.acc("}"):
                    conds = []
                    isd = False
                    while self.peek() in ("case", "default"):
                        if self.next() == "default":
                            isd = True
                        else:
                            conds.append("eq(%s, %s)" % (v, self.expr(sc)))
                        self.exp(":")
                    b = []
                    inner = Scope(sc.cls, sc)
                    while self.peek() not in ("case", "default", "}"):
                        b += self.stmt(inner, ret)
                    if isd:
                        dflt = b
                    if conds:
                        r += ["    %s %s:" % (kw, " or ".join(conds))] + ind(ind(b or ["pass"]))
                        kw = "elif"
                if dflt is not None:
                    r += (["    else:"] + ind(ind(dflt or ["pass"]))) if kw == "elif" else ind(dflt or ["pass"])
                return r + ["    break"]
            if s == "try":
                self.next()
                r = ["try:"] + ind(self.stmt(sc, ret))
                while self.acc("catch"):
                    inner = Scope(sc.cls, sc)
                    t, n = "CsException", "_e"
                    if self.acc("("):
                        t = sc.typename(self.type())
                        if self.peek() != ")":
                            n = self.ident()
                            inner.declare(n, None)
                        self.exp(")")
                    r += ["except %s as L_%s:" % (t, n)] + ind(self.stmt(inner, ret))
                if self.acc("finally"):
                    r += ["finally:"] + ind(self.stmt(sc, ret))
                return r
            if s == "do":
                self.next()
                self.uid += 1
                f = "first_%d" % self.uid
                b = self.stmt(Scope(sc.cls, sc), ret)
                self.exp("while")
                self.exp("(")
                c = self.expr(sc)
                self.exp(")")
                self.exp(";")
                return ["%s = True" % f, "while True:", "    tick()", "    if not %s and not cond(%s): break" % (f, c), "    %s = False" % f] + ind(b)
            if s == "lock" and self.peek(1) == "(":
                self.next()
                self.exp("(")
                e = self.expr(sc)
                self.exp(")")
                return [e] + self.stmt(sc, ret)
            if s in ("unchecked", "checked") and self.peek(1) == "{":
                self.next()
                return self.stmt(sc, ret)
            if s in ("lock", "using", "fixed", "goto", "unchecked", "checked", "yield", "unsafe"):
                raise Unsupported(s)
            # local declaration?
            save = self.p
            try:
                t = self.type()
                ok = self.kind() == "id" and self.peek(1) in ("=", ";", ",")
            except CompileError:
                ok = False
            if ok:
                r = []
                while True:
                    n = self.ident()
                    if self.acc("="):
                        e = self.initial(sc, t)
                        sc.declare(n, t)
                        r.append("L_%s = %s" % (n, e if t == "var" else "conv(%r, %s)" % (t, e)))
                    else:
                        sc.declare(n, t)
                        r.append("L_%s = zero(%r)" % (n, t))
                    if self.acc(";"):
                        return r
                    self.exp(",")
            self.p = save
        r = self.simple(sc)
        self.exp(";")
        return r

    def simple(self, sc):
        """Assignment, increment or call."""
        a = self.p
        pre = None
        if self.kind() == "op" and self.peek() in ("++", "--"):
            pre = self.next()
        self.bare = True
        try:
            l = self.postfix(sc) if pre else self.ternary(sc)
        finally:
            self.bare = False
        if pre or self.kind() == "op" and self.peek() in ("++", "--"):
            pre = pre or self.next()
            if not re.search(r"(^L_\w+|\.F_\w+|\])$", l):
                raise CompileError("%s cannot be assigned to" % l)
            return ["%s = %s(%s, 1)" % (l, "add" if pre == "++" else "sub", l)]
        if self.peek() in ("=", "+=", "-=", "*=", "/=", "%="):
            o = self.next()
            if not re.search(r"(^L_\w+|\.F_\w+|\])$", l):
                raise CompileError("%s cannot be assigned to" % l)
            self.bare_rhs = o == "="
            try:
                e = self.expr(sc)
            finally:
                self.bare_rhs = False
            if o == "=" and self.peek() == "=":  # a = b = c
                if not re.search(r"(^L_\w+|\.F_\w+|\])$", e):
                    raise CompileError("%s cannot be assigned to" % e)
                self.next()
                v = self.expr(sc)
                self.uid += 1
                x = "chain_%d" % self.uid
                f = lambda l: "%s = %s" % (l, "conv(%r, %s)" % (sc.typeof(l), x) if sc.typeof(l) not in (None, "var") else x)
                return ["%s = %s" % (x, v), f(e), f(l)]
            if o != "=":
                e = "%s(%s, %s)" % (OPS[o[0]], l, e)
            t = sc.typeof(l)
            return ["%s = %s" % (l, "conv(%r, %s)" % (t, e) if t and t != "var" else e)]
        if not l.endswith(")"):
            raise CompileError("only a call, an assignment or an increment can be a statement, not %s" % l)
        return [l]


class Cls:
    def __init__(self, name, path):
        self.name, self.path, self.base, self.m, self.ctors = name, path, None, {}, []


class Scope:
    def __init__(self, cls, up):
        self.cls, self.up, self.v = cls, up, {}

    def declare(self, n, t):
        s = self
        while s:
            if n in s.v:
                raise CompileError("local %s is declared twice" % n)
            s = s.up
        self.v[n] = t

    def local(self, n):
        s = self
        while s:
            if n in s.v:
                return True, s.v[n]
            s = s.up
        return False, None

    def name(self, n):
        if self.local(n)[0]:
            return "L_" + n
        if self.cls is not None:
            m = self.cls.find(n)
            if m == "self":
                return "self.F_" + n
            return self.typename(n)
        raise CompileError("the name %s does not exist" % n)

    def typename(self, t):
        return self.cls.resolve(t)

    def typeof(self, l):
        m = re.fullmatch(r"L_(\w+)", l)
        if m:
            return self.local(m.group(1))[1]
        m = re.fullmatch(r"self\.F_(\w+)", l)
        if m and m.group(1) in self.cls.c.m and self.cls.c.m[m.group(1)][0] == "field":
            return self.cls.c.m[m.group(1)][1]
        return None


class Context_:
    """Name lookup inside one class: members, then types from the inside out, then what the using lines offer."""
    def __init__(self, c, root, stubs, base):
        self.c, self.root, self.stubs, self.base = c, root, stubs, base

    def find(self, n):
        if n in self.c.m and self.c.m[n][0] != "class":
            return "self"
        if self.base is not None and hasattr(self.base, "F_" + n):
            return "self"
        return None

    def lookup(self, t):
        head, *rest = t.split("<")[0].split(".")
        for k in range(len(self.c.path) + 1, -1, -1):
            ns = self.root
            path = (self.c.path + (self.c.name,))[:k]
            for x in path:
                ns = ns.get(x) if isinstance(ns, dict) else ns.m.get(x, (None, None))[1] if isinstance(ns, Cls) else None
                if ns is None:
                    break
            if ns is None:
                continue
            v = ns.get(head) if isinstance(ns, dict) else (ns.m[head][1] if head in ns.m and ns.m[head][0] == "class" else None) if isinstance(ns, Cls) else None
            if v is not None:
                for r in rest:
                    if isinstance(v, dict) and r in v:
                        v = v[r]
                    elif isinstance(v, Cls) and r in v.m and v.m[r][0] == "class":
                        v = v.m[r][1]
                    else:
                        raise CompileError("%s has no %s" % (head, r))
                return v
        if rest and head in ("System", "QuantConnect"):
            head = rest[-1]
        if head in self.stubs:
            return head
        raise CompileError("the name %s does not exist" % t)

    def resolve(self, t):
        v = self.lookup(t)
        return "S_" + v if isinstance(v, str) else "C_" + "_".join(v.path + (v.name,)) if isinstance(v, Cls) else "?"


def translate(text, stubs, extern, ref, tick):
    """Returns ({namespace path + (name,): python class}, {same: Cls})."""
    stubs = dict(dict(Array=Array, GC=GC), **stubs)
    STUBNS.update(stubs)
    ps = Parser(text, stubs)
    root = ps.unit()
    classes = []

    def walk(ns):
        for v in ns.values():
            if isinstance(v, dict):
                walk(v)
            else:
                add(v)

    def add(c):
        classes.append(c)
        for n, m in c.m.items():
            if m[0] == "class":
                add(m[1])
    walk(root)
    env = dict(RT, Ref=ref, tick=tick)
    for n, s in stubs.items():
        env["S_" + n] = s
        env["T_" + n] = s
    env["zero"] = lambda t: zero(t, stubs)
    env["NewArr"] = lambda t, n: Arr(t, [zero(t, stubs) for _ in range(conv("int", n))])
    done, result = {}, {}

    def make(c):
        key = c.path + (c.name,)
        if key in done:
            return done[key]
        pre = Context_(c, root, stubs, None)
        base = object
        if c.base:
            b = pre.lookup(c.base)
            base = make(b) if isinstance(b, Cls) else stubs[b]
        ctx = Context_(c, root, stubs, base)
        for x in c.m.values():  # types used in declarations have to exist
            for t in ([x[1]] if x[0] in ("field", "prop", "method", "extern") else []) + ([p[0] for p in x[2]] if x[0] in ("method", "extern") else []):
                for w in re.findall(r"[A-Za-z_][\w.]*", t):
                    if w not in PRIM:
                        ctx.lookup(w)
        src = []

        def method(pyname, params, emit, ret):
            sc = Scope(ctx, None)
            names = []
            for t, n, r, d in params:
                sc.declare(n, t)
                if d:
                    ps.p = d[0]
                    names.append("L_%s=%s" % (n, ps.ternary(Scope(ctx, None))))
                else:
                    names.append("L_" + n)
            src.append("    def %s(%s):" % (pyname, ", ".join(["self"] + names)))
            for t, n, r, d in params:
                if not r and (t in PRIM or t.endswith("[]") or t == "IntPtr") and t != "object":
                    src.append("        L_%s = conv(%r, L_%s)" % (n, t, n))
            src.extend("        " + x for x in emit(sc))
            if ret not in ("void", None):
                src.append("        raise CompileError('not all code paths return a value')")

        def run_body(b, ret):
            def f(sc):
                k, p = b
                ps.p = p
                if k == "=>":
                    e = ps.expr(sc)
                    return ["return conv(%r, %s)" % (ret, e)] if ret != "void" else [e]
                return ps.stmt(sc, ret)
            return f
        fields = [(n, m) for n, m in c.m.items() if m[0] == "field" and not m[3] & {"static", "const"}]
        statics = [(n, m) for n, m in c.m.items() if m[0] == "field" and m[3] & {"static", "const"}]

        def init(sc):
            r = []
            for n, m in fields:
                if m[2] is None:
                    r.append("self.F_%s = zero(%r)" % (n, m[1]))
                else:
                    ps.p = m[2]
                    r.append("self.F_%s = conv(%r, %s)" % (n, m[1], ps.initial(Scope(ctx, None), m[1])))
            return r or ["pass"]
        method("init_fields", [], init, None)

        def sinit(n, m):
            def f(sc):
                if m[2] is None:
                    return ["return zero(%r)" % m[1]]
                ps.p = m[2]
                return ["return conv(%r, %s)" % (m[1], ps.initial(Scope(ctx, None), m[1]))]
            return f
        for n, m in statics:
            method("sinit_" + n, [], sinit(n, m), None)
        if len(c.ctors) > 1:
            raise Unsupported("several constructors")
        if c.ctors:
            params, basecall, body = c.ctors[0]

            def ctor(sc):
                r = ["self.init_fields()"]
                if basecall:
                    if basecall[0] != "base":
                        raise Unsupported("constructor chaining")
                    ps.p = basecall[1]
                    ps.exp("(")
                    r.append("S_base.__init__(self, %s)" % ps.args(sc))
                elif base is not object:
                    r.append("S_base.__init__(self)")
                return r + ["self.constructed = True"] + run_body(body, "void")(sc)
            method("__init__", params, ctor, None)
        else:
            src.append("    def __init__(self, *a):\n        self.init_fields()\n        super().__init__(*a)")
        for n, m in c.m.items():
            if m[0] == "method":
                method("F_" + n if n != "~" else "finalize_", m[2], run_body(m[3], m[1]), m[1])
                if "static" in m[4]:
                    src.append("    S_static_%s = F_%s" % (n, n))
            elif m[0] == "prop":
                src.append("    @property")
                method("F_" + n, [], run_body(m[2], m[1]), m[1])
        e = dict(env, S_base=base, Meta=Meta)
        for k in classes:
            e["C_" + "_".join(k.path + (k.name,))] = Later(lambda k=k: make(k))
        code = "class X(S_base, metaclass=Meta):\n" + "\n".join(src)
        exec(compile(code, c.name, "exec"), e)
        X = e["X"]
        X.__name__ = c.name
        X.source_ = code
        for n, m in c.m.items():
            if m[0] == "extern":
                setattr(X, "F_" + n, staticmethod(extern(c, n, m[1], m[2], m[3])))
            if m[0] == "method" and "static" in m[4]:
                setattr(X, "static_" + n, lambda *a, X=X, n=n: getattr(X, "F_" + n)(X, *a))
            if m[0] == "class":
                setattr(X, "F_" + n, make(m[1]))
        for n, m in statics:
            setattr(X, "F_" + n, StaticField(lambda X=X, n=n: getattr(X, "sinit_" + n)(X)))
        done[key] = X
        return X
    for c in classes:
        result[c.path + (c.name,)] = make(c)
    return result, {c.path + (c.name,): c for c in classes}


class StaticField:
    """One cell for the class and all of its objects, set when it is first needed."""
    def __init__(self, init):
        self.init, self.v = init, None

    def __get__(self, obj, cls=None):
        if self.init:
            f, self.init = self.init, None
            self.v = f()
        return self.v

    def __set__(self, obj, v):
        self.init, self.v = None, v


class Meta(type):
    def __setattr__(cls, n, v):
        d = next((k.__dict__[n] for k in cls.__mro__ if n in k.__dict__), None)
        if isinstance(d, StaticField) and not isinstance(v, StaticField):
            d.__set__(None, v)
        else:
            type.__setattr__(cls, n, v)


class Later:
    """A class of the text, usable before it is translated; member access reaches its static methods."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f()(*a, **k)

    def __getattr__(self, n):
        c = self.f()
        if n.startswith("F_"):
            s = getattr(c, "static_" + n[2:], None)
            if s:
                return s
            return getattr(c, n)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n.startswith("F_"):
            setattr(self.f(), n, v)
        else:
            object.__setattr__(self, n, v)
