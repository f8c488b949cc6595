"""Value terms: integer linear forms over atoms, bit-provenance, pointers, products.

An *atom* is an immutable symbolic quantity (a parameter, a memory load, a fresh
source byte, a loop counter, ...) with an integer range.  Every integer value is
a linear form over atoms, read modulo 2^width.  Derived atoms (fields of bits,
quotients, ...) carry linear definitions which the polyhedral domain uses.
"""


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "kind", "args", "imprecise", "defs", "bits", "width", "obj")
    count = 0

    def __init__(self, name, lo, hi, kind="sym", args=(), width=64, imprecise=False):
        Atom.count += 1
        self.id = Atom.count
        self.name = name
        self.lo, self.hi = lo, hi
        self.kind = kind
        self.args = args
        self.imprecise = imprecise
        self.defs = []
        self.bits = None
        self.width = width
        self.obj = None

    def __repr__(self):
        return self.name

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t          # tuple of (Atom, coef) sorted by id, coefs nonzero
        self.c = c
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((tuple((a.id, k) for a, k in self.t), self.c))
        return h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def const(self):
        return not self.t

    def atoms(self):
        return [a for a, _ in self.t]

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.t, self.c + k * o.c)
        if not self.t and k == 1:
            return Lin(o.t, self.c + o.c)
        d = {}
        for a, c in self.t:
            d[a] = c
        for a, c in o.t:
            d[a] = d.get(a, 0) + k * c
        return mk(d, self.c + k * o.c)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        return self.add(o)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self.add(o, -1)

    def __neg__(self):
        return self.scale(-1)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(tuple((a, c * k) for a, c in self.t), self.c * k)

    def subst(self, m):
        """m: {Atom: Lin}"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin((), self.c)
        for a, c in self.t:
            if a in m:
                r = r.add(m[a], c)
            else:
                r = r.add(Lin(((a, c),), 0))
        return r

    def __repr__(self):
        s = []
        for a, c in self.t:
            if c == 1:
                s.append("+%s" % a)
            elif c == -1:
                s.append("-%s" % a)
            else:
                s.append("%+d*%s" % (c, a))
        if self.c or not s:
            s.append("%+d" % self.c)
        r = "".join(s)
        return r[1:] if r.startswith("+") else r


def mk(d, c):
    return Lin(tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)), c)


def num(n):
    return Lin((), n)


def var(a):
    return Lin(((a, 1),), 0)


ZERO = num(0)


def wrap_signed(v, w):
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v


def modnorm(l, w):
    """Canonical representative of l modulo 2^w."""
    half = 1 << (w - 1)
    ok = -half <= l.c < half
    if ok:
        for _, k in l.t:
            if not (-half <= k < half):
                ok = False
                break
    if ok:
        return l
    return mk({a: wrap_signed(k, w) for a, k in l.t}, wrap_signed(l.c, w))


# ---------------------------------------------------------------- values

class IV:
    """Integer value: lin modulo 2^w."""
    __slots__ = ("w", "l")

    def __init__(self, w, l):
        self.w = w
        self.l = modnorm(l, w)

    def __eq__(self, o):
        return isinstance(o, IV) and self.w == o.w and self.l == o.l

    def __hash__(self):
        return hash((self.w, self.l))

    def __repr__(self):
        return "i%d(%r)" % (self.w, self.l)

    @property
    def const(self):
        return not self.l.t

    @property
    def u(self):
        return self.l.c & ((1 << self.w) - 1)

    @property
    def s(self):
        return wrap_signed(self.l.c, self.w)


def ival(w, n):
    return IV(w, num(n))


class Cond:
    """Boolean value as a lazily decided comparison (i1)."""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.op, self.a, self.b) == (o.op, o.a, o.b)

    def __hash__(self):
        return hash((self.op, self.a, self.b))

    def __repr__(self):
        return "(%r %s %r)" % (self.a, self.op, self.b)


class PV:
    """Pointer value: object + byte offset; obj None means null/integer address."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = modnorm(off, 64)

    def __eq__(self, o):
        return isinstance(o, PV) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        if self.obj is None:
            return "null" if self.off == ZERO else "ptr(%r)" % self.off
        return "&%s[%r]" % (self.obj.name, self.off)


NULL = PV(None, ZERO)


class FV:
    """Function value."""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FV) and self.fn is o.fn

    def __hash__(self):
        return hash(id(self.fn))

    def __repr__(self):
        return "&fn:%s" % self.fn.name


class AggV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, AggV) and self.e == o.e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.e))


class UndefV:
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, UndefV)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "undef"


UNDEF = UndefV()


class FP:
    """Floating value as coefficient times a product of factors (exactness aside)."""
    __slots__ = ("k", "f")

    def __init__(self, k, f=()):
        self.k = k
        self.f = tuple(sorted(f, key=lambda x: repr(x[0])))   # ((factor, exponent), ...)

    def mul(self, o, e=1):
        d = dict(self.f)
        for x, n in o.f:
            d[x] = d.get(x, 0) + e * n
        k = self.k * o.k if e == 1 else (self.k / o.k if o.k else float("nan"))
        return FP(k, [(x, n) for x, n in d.items() if n])

    def __eq__(self, o):
        return isinstance(o, FP) and self.k == o.k and self.f == o.f

    def __hash__(self):
        return hash((self.k, self.f))

    def __repr__(self):
        return "fp(%s%s)" % (self.k, "".join("*%r^%d" % x for x in self.f))


class Obj:
    """A memory object."""
    count = 0
    __slots__ = ("id", "name", "kind", "size", "nonnull", "nullatom", "origin", "addr", "attrs", "site")

    def __init__(self, name, kind, size=None, nonnull=True, origin=None, site=None):
        Obj.count += 1
        self.id = Obj.count
        self.name = name
        self.kind = kind      # param, deref, stack, heap, global, string, ext
        self.size = size      # Lin or None
        self.nonnull = nonnull
        self.nullatom = None
        self.origin = origin
        self.addr = None
        self.attrs = {}
        self.site = site

    def __repr__(self):
        return "<%s>" % self.name

    @property
    def fresh(self):
        """distinct from everything that existed before (not reachable from params)."""
        return self.kind in ("stack", "heap", "global", "string", "func")
