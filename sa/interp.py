"""Path-partitioned abstract interpretation of the IR.

Domains: linear forms over symbolic atoms + integer polyhedra (poly.Cons) for
integers, bit provenance for bit operations, object/offset pairs for pointers,
products of factors for doubles, finite flags (typestates) as partition keys.
Loops are decided by fixpoint: header states are partitioned by their discrete
part, counters are replaced by a symbolic iteration number, and the remaining
constraints are widened (a constraint survives only if every back edge re-establishes
it).  Loops whose trip count is fixed by constants are unfolded exactly.
Calls to repository functions are analysed in context (inlined); recursion and
externals are replaced by contracts supplied by the rule being checked.
"""
import time
from . import ir
from .terms import (Atom, Lin, num, var, mk, ZERO, modnorm, IV, ival, Cond, PV, NULL, FV,
                    AggV, UNDEF, FP, Obj)
from .poly import Cons, tighten


from math import gcd


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("cons", "ne", "mem", "ev", "flags", "ghost")

    def __init__(self):
        self.cons = Cons()
        self.ne = ()
        self.mem = {}
        self.ev = None
        self.flags = {}
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.cons = self.cons
        s.ne = self.ne
        s.mem = dict(self.mem)
        s.ev = self.ev
        s.flags = dict(self.flags)
        s.ghost = dict(self.ghost)
        return s

    def event(self, kind, **kw):
        self.ev = (self.ev, (kind, kw))

    def events(self, kind=None):
        r = []
        e = self.ev
        while e is not None:
            if kind is None or e[1][0] == kind:
                r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    # -- constraints
    def assume(self, lins):
        """returns a refined copy or None when infeasible."""
        lins = [l for l in lins if not (not l.t and l.c >= 0)]
        for l in lins:
            if not l.t and l.c < 0:
                return None
        if not lins:
            return self
        if not self.cons.feasible_with(lins):
            return None
        s = self.copy()
        s.cons = self.cons.add(lins)
        return s._fix_ne(lins)

    def _fix_ne(self, lins):
        if not self.ne:
            return self
        touched = set()
        for l in lins:
            touched.update(l.atoms())
        done = set()
        while True:
            extra = []
            keep = []
            for n in self.ne:
                lo, hi = self.cons.bounds(n)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    if len(self.ne) < 24:       # kept: a later join may lose the sign
                        keep.append(n)
                    continue
                if touched and not any(a in touched for a in n.atoms()) and len(n.t) == 1 \
                        and lo != 0 and hi != 0:
                    keep.append(n)
                    continue
                if n in done:
                    keep.append(n)
                    continue
                p, m = self.cons.entails(n), self.cons.entails(-n)
                if p and m:
                    return None
                if p:
                    extra.append(n + (-1))
                elif m:
                    extra.append((-n) + (-1))
                if p or m:
                    done.add(n)
                    if len(n.t) == 1:
                        keep.append(n)
                else:
                    keep.append(n)
            self.ne = tuple(keep)
            if not extra:
                return self
            if not self.cons.feasible_with(extra):
                return None
            self.cons = self.cons.add(extra)
            touched = set()
            for l in extra:
                touched.update(l.atoms())

    def assume_ne(self, l):
        if not l.t:
            return self if l.c != 0 else None
        s = self.copy()
        s.ne = self.ne + (l,)
        return s._fix_ne([l])

    def entails(self, l):
        return self.cons.entails(l)

    def eq(self, a, b):
        return self.cons.entails_eq(a - b)


class Loop:
    __slots__ = ("header", "blocks", "latches", "id")


class Edge:
    __slots__ = ("block", "pred", "env", "st")

    def __init__(self, block, pred, env, st):
        self.block, self.pred, self.env, self.st = block, pred, env, st


class Frame:
    __slots__ = ("fn", "args", "loops", "inst")


class LoopRecord:
    def __init__(self, fn, header, mode):
        self.fn, self.header, self.mode = fn, header, mode
        self.parts = 0
        self.notes = []


class Engine:
    chain_limit = 12           # different values of one variable a loop keeps apart before it generalises them
    const_limit = 28           # further ones if they are constants

    def __init__(self, module, hooks=None, max_steps=400000, deadline=None):
        self.m = module
        self.hooks = dict(hooks or {})
        self.cache = {}
        self.objs = {}
        self.globs = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = deadline
        self.subs = 0              # depth of loops being explored
        self.salvage = []          # obligations of completely explored first iterations, should the analysis not end
        self.journal = []          # obligations recorded by rules
        self.terminals = []        # states that end the program (noreturn)
        self.stack = []
        self.inlined = set()
        self.unknown_calls = set()
        self.loops_seen = []
        self._loopinfo = {}
        self.on_access = None      # f(eng, st, kind, obj, off, size(Lin), inst)
        self.incomplete = set()    # reasons why not every state was explored
        self.on_null = None        # f(eng, st, obj, inst)
        self.on_uninit = None
        self.on_free = None
        self.on_newkey = None      # f(eng, obj): a keyed object was created
        self.on_printf = None
        self.on_draw = None
        self.rec_inline = 0
        self.on_divzero = None
        self.on_store = None       # f(eng, st, obj, off, size, value, inst)
        self.icall = None          # f(eng, st, calleevalue, args, inst) -> [(st, ret)]
        self.rec = None            # f(eng, st, fn, args, inst) -> [(st, ret)] or None
        self.external = None       # f(eng, st, name, args, inst) -> list or None
        self.loop_hook = None      # f(eng, rec, kind, edge)
        self.ghost_cells = True
        self.fcmp_fork = True
        self.opaque_bits = True
        self.notes = []
        self.max_unroll = 600
        self.merge_paths = False       # merge paths that agree in what is still needed (see merge)
        self._liveness = {}
        self.exit_limit = 200
        self.unroll_const = 0          # iterations to try one by one while the loop condition is about constants
        self.unroll_outer = 0          # iterations of an outer loop to try one by one when a rule bounds them
        self.build = {"ld": self.ld_atom, "shr": self.shr, "field": self.field,
                      "op": self.opaque, "wrap": self.wrapatom, "alias": self.alias,
                      "div": self.divatom, "sum": self.sumatom, "rec": self.rec_atom,
                      "fill": self.fill_atom, "strlen": self.strlen_atom,
                      "user": self.user_atom, "trunc": self.truncatom}

    # ------------------------------------------------------------ atoms
    def atom(self, name, lo, hi, **kw):
        return Atom(name, lo, hi, **kw)

    def fresh(self, name, w, signed=False, imprecise=False):
        if signed:
            a = Atom(name, -(1 << (w - 1)), (1 << (w - 1)) - 1, width=w, imprecise=imprecise)
        else:
            a = Atom(name, 0, (1 << w) - 1, width=w, imprecise=imprecise)
        return a

    def keyed(self, kind, args, lo, hi, name=None, width=64, defs=None, bits=None, imprecise=None):
        key = (kind, args)
        a = self.cache.get(key)
        if a is None:
            if imprecise is None:
                imprecise = any(self.imprecise(x) for x in args)
            a = Atom(name or "%s%r" % (kind, args), lo, hi, kind, args, width, imprecise)
            if len(a.name) > 70:
                a.name = "%s...#%d" % (a.name[:40], a.id)
            self.cache[key] = a
            if defs:
                a.defs = defs(a)
            if bits:
                a.bits = bits
        return a

    def doubtful(self, st):
        """the path was taken because of a value nothing is known of"""
        return any(self.imprecise(c) for c in st.cons.cs) or any(self.imprecise(n) for n in st.ne)

    def imprecise(self, x):
        if isinstance(x, Atom):
            return x.imprecise
        if isinstance(x, Lin):
            return any(a.imprecise for a, _ in x.t)
        if isinstance(x, IV):
            return self.imprecise(x.l)
        if isinstance(x, PV):
            return self.imprecise(x.off) or (x.obj is not None and bool(x.obj.attrs.get("imprecise")))
        if isinstance(x, FP):
            return any(self.imprecise(f) for f, _ in x.f)
        if isinstance(x, Cond):
            return self.imprecise(x.a) or self.imprecise(x.b)
        if isinstance(x, tuple):
            return any(self.imprecise(y) for y in x)
        if isinstance(x, Obj):
            return bool(x.attrs.get("imprecise"))
        if x is UNDEF:
            return True
        return False

    def ld_atom(self, obj, off, size):
        hi = (1 << (8 * size)) - 1
        f = obj.attrs.get("hi")
        if f is not None and not off.t and off.c in f:
            hi = f[off.c]
        return var(self.keyed("ld", (obj, off, size), 0, hi, "%s[%r:%d]" % (obj.name, off, size), 8 * size))

    def user_atom(self, tag, args, lo, hi, width):
        return var(self.keyed("user", (tag, args, lo, hi, width), lo, hi, "%s(%s)" % (tag, ",".join(map(repr, args))), width))

    def rec_atom(self, rid, off, size):
        return var(self.keyed("rec", (rid, off, size), 0, (1 << (8 * size)) - 1,
                              "havoc%d[%r:%d]" % (rid, off, size), 8 * size, imprecise=True))

    def fill_atom(self, tag, off, size):
        return var(self.keyed("fill", (tag, off, size), 0, (1 << (8 * size)) - 1,
                              "%s[%r:%d]" % (getattr(tag, "name", tag), off, size), 8 * size))

    def strlen_atom(self, obj, off, ver):
        return var(self.keyed("strlen", (obj, off, ver), 0, 1 << 40, "strlen(%s+%r)" % (obj.name, off)))

    def alias(self, l):
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0:
            return l
        return var(self.keyed("alias", (l,), None, None, "(%r)" % l,
                              defs=lambda a: [var(a) - l, l - var(a)]))

    def truncatom(self, l, w):
        return var(self.keyed("trunc", (l, w), 0, (1 << w) - 1, "(%r mod 2^%d)" % (l, w), w))

    def wrapatom(self, l, w, signed):
        lo = -(1 << (w - 1)) if signed else 0
        hi = lo + (1 << w) - 1
        q = self.keyed("wrapq", (l, w, signed), None, None, "wrapq(%r)" % l)

        def defs(a):
            d = l - var(a) - var(q).scale(1 << w)
            return [d, -d]
        return var(self.keyed("wrap", (l, w, signed), lo, hi, "wrap%d(%r)" % (w, l), w, defs=defs))

    def divatom(self, l, c):
        """floor(l / c) for l >= 0"""
        return var(self.keyed("div", (l, c), 0, None, "(%r/%d)" % (l, c),
                              defs=lambda a: [l - var(a).scale(c), var(a).scale(c) + (c - 1) - l]))

    def shr(self, a, i):
        if isinstance(a, Lin):
            a = self.alias(a).t[0][0] if a.t else a
            if isinstance(a, Lin):
                return num(a.c >> i)
        if i == 0:
            return var(a)
        hi = None if a.hi is None else a.hi >> i
        if hi == 0:
            return ZERO
        av = var(a)
        w = 64 if hi is None else max(1, hi.bit_length())
        return var(self.keyed("shr", (a, i), 0, hi, "(%s>>%d)" % (a, i), w,
                              defs=lambda s: [av - var(s).scale(1 << i), var(s).scale(1 << i) + ((1 << i) - 1) - av],
                              bits=[(a, i + j) for j in range(w)]))

    def field(self, a, i, n):
        if isinstance(a, Lin):
            if not a.t:
                return num((a.c >> i) & ((1 << n) - 1))
            a = self.alias(a).t[0][0]
        if a.hi is not None and a.lo is not None and a.lo >= 0 and a.hi >> i < (1 << n):
            return self.shr(a, i)
        s = self.shr(a, i)
        s2 = self.shr(a, i + n)

        def defs(f):
            d = s - s2.scale(1 << n) - var(f)
            return [d, -d]
        return var(self.keyed("field", (a, i, n), 0, (1 << n) - 1, "%s{%d+%d}" % (a, i, n), n,
                              defs=defs, bits=[(a, i + j) for j in range(n)]))

    def opaque(self, op, a, b, w):
        if op in ("add", "mul", "and", "or", "xor") and repr(b) < repr(a):
            a, b = b, a
        return var(self.keyed("op", (op, a, b, w), 0, (1 << w) - 1, "(%r %s %r)" % (a, op, b), w))

    def sumatom(self, kat, d, upto):
        """sum of d[kat := j] for 0 <= j < upto  (d: Lin mentioning the atom kat)"""
        if not isinstance(upto, Lin):
            upto = var(upto)
        # normalise: upto = kat + c  -> S(kat) plus explicit terms
        return var(self.keyed("sum", (kat, d, upto), None, None, "sum[%s<%r](%r)" % (kat, upto, d)))

    # ------------------------------------------------------------ renaming
    def rn(self, v, sub, memo):
        if isinstance(v, Lin):
            if not v.t:
                return v
            r = None
            d = {}
            c = v.c
            changed = False
            for a, k in v.t:
                l = self.rn_atom(a, sub, memo)
                if len(l.t) == 1 and l.c == 0 and l.t[0][0] is a and l.t[0][1] == 1:
                    d[a] = d.get(a, 0) + k
                else:
                    changed = True
                    c += k * l.c
                    for b, n in l.t:
                        d[b] = d.get(b, 0) + k * n
            return mk(d, c) if changed else v
        if isinstance(v, IV):
            l = self.rn(v.l, sub, memo)
            return v if l is v.l else IV(v.w, l)
        if isinstance(v, PV):
            if v.obj is None:
                return v
            o = self.rn_obj(v.obj, sub, memo)
            l = self.rn(v.off, sub, memo)
            return v if (o is v.obj and l is v.off) else PV(o, l)
        if isinstance(v, Cond):
            return Cond(v.op, self.rn(v.a, sub, memo), self.rn(v.b, sub, memo))
        if isinstance(v, AggV):
            return AggV([self.rn(x, sub, memo) for x in v.e])
        if isinstance(v, FP):
            return FP(v.k, [(self.rn(f, sub, memo), n) for f, n in v.f])
        if isinstance(v, Atom):
            return self.rn_atom(v, sub, memo)
        if isinstance(v, Obj):
            return self.rn_obj(v, sub, memo)
        if isinstance(v, tuple):
            return tuple(self.rn(x, sub, memo) for x in v)
        return v

    def rn_atom(self, a, sub, memo):
        if a in sub:
            return sub[a]
        if a in memo:
            return memo[a]
        r = var(a)
        if a.kind == "sum":
            kat, d, upto = a.args
            if kat in sub:
                shift = sub[kat] - var(kat)
                if not shift.t:
                    # S(k + c) in terms of S(k)
                    r = var(a)
                    n = shift.c
                    memo2 = {}
                    while n < 0:
                        r = r - self.rn(d, {kat: upto + n}, memo2)
                        memo2 = {}
                        n += 1
                    j = 0
                    while n > 0:
                        r = r + self.rn(d, {kat: upto + j}, {})
                        j += 1
                        n -= 1
                    # args other than kat may need renaming too: not supported (loop invariant)
        elif a.args:
            new = tuple(self.rn(x, sub, memo) if isinstance(x, (Lin, IV, PV, Atom, Obj, FP, tuple)) else x
                        for x in a.args)
            same = all(x is y or x == y or (isinstance(y, Atom) and isinstance(x, Lin) and x == var(y))
                       for x, y in zip(new, a.args))
            if not same:
                b = self.build.get(a.kind)
                if b is None:
                    raise Unsupported("rename " + a.kind)
                new = tuple(x.t[0][0] if isinstance(y, Atom) and isinstance(x, Lin) and
                            len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else x
                            for x, y in zip(new, a.args))
                r = b(*new)
                if not isinstance(r, Lin):
                    r = var(r)
        memo[a] = r
        return r

    def rn_obj(self, o, sub, memo):
        if o in sub:
            return sub[o]
        k = o.attrs.get("key")
        if not k:
            return o
        if o in memo:
            return memo[o]
        new = tuple(self.rn(x, sub, memo) if isinstance(x, (Lin, Obj)) else x for x in k[1:])
        if all(x is y or x == y for x, y in zip(new, k[1:])):
            r = o
        else:
            r = self.keyobj(k[0], *new)
        memo[o] = r
        return r

    def atoms_of(self, v, out):
        if isinstance(v, Lin):
            for a, _ in v.t:
                if a not in out:
                    out.add(a)
                    for x in a.args:
                        self.atoms_of(x, out)
                    for d in a.defs:
                        for b, _ in d.t:
                            if b not in out:
                                self.atoms_of(var(b), out)
        elif isinstance(v, Atom):
            self.atoms_of(var(v), out)
        elif isinstance(v, IV):
            self.atoms_of(v.l, out)
        elif isinstance(v, PV):
            self.atoms_of(v.off, out)
            if v.obj is not None:
                self.atoms_of(v.obj, out)
        elif isinstance(v, Obj):
            k = v.attrs.get("key")
            if k:
                for x in k[1:]:
                    self.atoms_of(x, out)
            if v.nullatom is not None:
                out.add(v.nullatom)
        elif isinstance(v, Cond):
            self.atoms_of(v.a, out)
            self.atoms_of(v.b, out)
        elif isinstance(v, AggV):
            for x in v.e:
                self.atoms_of(x, out)
        elif isinstance(v, FP):
            for f, _ in v.f:
                self.atoms_of(f, out)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.atoms_of(x, out)
        return out

    def _objs_of(self, o, out):
        if o not in out:
            out.add(o)
            for x in o.attrs.get("key", ())[1:]:
                if isinstance(x, Obj):
                    self._objs_of(x, out)
        return out

    # ------------------------------------------------------------ objects
    def keyobj(self, kind, *key):
        k = (kind,) + key
        o = self.objs.get(k)
        if o is None:
            if kind == "deref":
                parent, off = key
                o = Obj("*(%s+%r)" % (parent.name, off) if off != ZERO else "*%s" % parent.name,
                        "deref", None, False, origin=k)
                if parent.attrs.get("imprecise") or self.imprecise(off):
                    o.attrs["imprecise"] = True
            elif kind == "elem":
                stack, idx = key[0], key[1]
                o = Obj("%s<%r>" % (stack.name, idx), "deref", None, True, origin=k)
            else:
                o = Obj("%s(%s)" % (kind, ",".join(getattr(x, "name", None) or repr(x) for x in key)),
                        "deref", None, True, origin=k)
            o.attrs["key"] = k
            self.objs[k] = o
            if self.on_newkey:
                self.on_newkey(self, o)
        return o

    def newobj(self, name, kind, size=None, nonnull=True, site=None, **attrs):
        o = Obj(name, kind, size, nonnull, site=site)
        o.attrs.update(attrs)
        return o

    def param(self, name, size=None, nonnull=True, **attrs):
        return self.newobj(name, "param", size, nonnull, **attrs)

    def string(self, name, maxlen=1 << 30, nonnull=True):
        o = self.newobj(name, "param", None, nonnull)
        a = Atom("len(%s)" % name, 0, maxlen)
        o.attrs["strlen"] = var(a)
        o.size = var(a) + 1
        return o

    def fields(self, st, name, prefix, nfields, sep, maxlen=1 << 30):
        """string prefix + f0 sep f1 sep ... with fields of any length that contain no sep:
        (st, object, [(start, length)])"""
        o = self.newobj(name, "param", None, True)
        pos = num(len(prefix))
        out, marks = [], []
        for k in range(nfields):
            l = var(Atom("len(%s.%d)" % (name, k), 0, maxlen))
            out.append((pos, l))
            pos = pos + l
            if k + 1 < nfields:
                marks.append((pos, ord(sep)))
                pos = pos + 1
        o.attrs["strlen"] = pos
        o.attrs["marks"] = marks
        o.attrs["special"] = (ord(sep),)
        o.attrs["prefix"] = prefix
        o.size = pos + 1
        st = st.copy()
        st.flags[("str", (o.id, ZERO))] = (("pre", prefix),)
        return st, o, out

    def gobj(self, g):
        o = self.globs.get(g.name)
        if o is None:
            o = Obj("@" + g.name, "global", num(g.size) if g.init is not None or g.size else None, True, origin=g)
            self.globs[g.name] = o
        return o

    def nullatom(self, o):
        if o.nullatom is None:
            o.nullatom = Atom("isnull(%s)" % o.name, 0, 1, "null", ())
        return o.nullatom

    def require_nonnull(self, st, pv, inst):
        """dereference: returns refined state or None"""
        if pv.obj is None:
            if self.on_null:
                self.on_null(self, st, pv, inst, True)
            return None
        o = pv.obj
        if o.nonnull:
            return st
        a = self.nullatom(o)
        l = -var(a)
        if st.entails(l):
            return st
        if self.on_null:
            self.on_null(self, st, pv, inst, False)
        return st.assume([l])

    # ------------------------------------------------------------ constants
    def const(self, c):
        t = type(c)
        if t is ir.Const:
            return ival(c.width, c.value)
        if t is ir.Null:
            return NULL
        if t is ir.Global:
            return PV(self.gobj(c), ZERO)
        if t is ir.Fn:
            return FV(c)
        if t is ir.Undef:
            return UNDEF
        if t is ir.ConstFP:
            return FP(c.value)
        if t is ir.Agg:
            return AggV([self.const(x) for x in c.elems])
        if t is ir.Zero:
            return self.zero(c.ty)
        if t is ir.Bytes:
            return AggV([ival(8, b) for b in c.data])
        if t is ir.CExpr:
            if c.op == "gep":
                base = self.const(c.ops[0])
                ty = c.gepty
                off = 0
                for k, i in enumerate(c.ops[1:]):
                    n = i.value
                    if n >= 1 << (i.width - 1):
                        n -= 1 << i.width
                    if k == 0:
                        off += n * ty.size
                    elif ty.kind == "struct":
                        off += ty.offsets[n]
                        ty = ty.fields[n]
                    else:
                        ty = ty.elem
                        off += n * ty.size
                return PV(base.obj, base.off + off)
            if c.op in ("bitcast", "ptrtoint", "inttoptr"):
                v = self.const(c.ops[0])
                if c.op == "inttoptr" and isinstance(v, IV):
                    return PV(None, v.l)
                if c.op == "ptrtoint":
                    return self.ptrint(v)
                return v
        raise Unsupported("const %r" % c)

    def zero(self, ty):
        if ty.kind == "int":
            return ival(ty.width, 0)
        if ty.kind == "ptr":
            return NULL
        if ty.kind in ("double", "float"):
            return FP(0.0)
        if ty.kind == "struct":
            return AggV([self.zero(f) for f in ty.fields])
        if ty.kind == "array":
            return AggV([self.zero(ty.elem) for _ in range(ty.count)])
        return UNDEF

    def ptrint(self, v):
        if isinstance(v, PV):
            if v.obj is None:
                return IV(64, v.off)
            if v.obj.addr is None:
                v.obj.addr = Atom("addr(%s)" % v.obj.name, 4096, 1 << 47)
            return IV(64, var(v.obj.addr) + v.off)
        if isinstance(v, FV):
            return IV(64, var(self.keyed("fnaddr", (v.fn.name,), 4096, 1 << 47, "addr(%s)" % v.fn.name)))
        return IV(64, var(self.fresh("undef", 64, imprecise=True)))

    def initload(self, init, ty0, off, ty):
        """load type ty at constant byte offset off from constant initialiser init of type ty0"""
        while True:
            if off == 0 and ty0.kind == ty.kind and ty0.size == ty.size and ty0.kind in ("int", "ptr", "double"):
                return self.const(init) if not isinstance(init, ir.Zero) else self.zero(ty)
            if isinstance(init, ir.Zero):
                return self.zero(ty)
            if isinstance(init, ir.Undef):
                return self.zero(ty)
            if ty0.kind == "array":
                es = ty0.elem.size
                i = off // es
                if i >= ty0.count or off < 0:
                    return None
                if isinstance(init, ir.Bytes):
                    if ty.kind == "int":
                        b = init.data[off:off + ty.size]
                        b += b"\0" * (ty.size - len(b))
                        return ival(ty.width, int.from_bytes(b, "little"))
                    return None
                if off % es == 0 and ty.size > es or (off % es) + ty.size > es:
                    if ty.kind == "int":
                        v = 0
                        for j in range(ty.size):
                            b = self.initload(init, ty0, off + j, _I8)
                            if not isinstance(b, IV):
                                return None
                            v |= b.u << (8 * j)
                        return ival(ty.width, v)
                    return None
                init, ty0, off = init.elems[i], ty0.elem, off % es
                continue
            if ty0.kind == "struct":
                for i in range(len(ty0.fields) - 1, -1, -1):
                    if off >= ty0.offsets[i]:
                        break
                else:
                    return None
                if off - ty0.offsets[i] + ty.size > ty0.fields[i].size:
                    if ty.kind == "int":
                        v = 0
                        for j in range(ty.size):
                            b = self.initload(init, ty0, off + j, _I8)
                            v |= (b.u if isinstance(b, IV) else 0) << (8 * j)
                        return ival(ty.width, v)
                    return None
                init, off, ty0 = init.elems[i], off - ty0.offsets[i], ty0.fields[i]
                continue
            if ty0.kind == "int" and ty.kind == "int" and off + ty.size <= ty0.size:
                v = self.const(init)
                return ival(ty.width, v.u >> (8 * off))
            return None

    # ------------------------------------------------------------ integers
    def canon(self, st, iv, signed=False):
        """[(state, Lin)] with Lin exactly the (un)signed value."""
        w = iv.w
        lo_r = -(1 << (w - 1)) if signed else 0
        hi_r = lo_r + (1 << w) - 1
        l = iv.l
        M = 1 << w
        if not l.t:
            return [(st, num(iv.s if signed else iv.u))]
        lo, hi = st.cons.bounds(l)
        if lo is not None and hi is not None:
            q0, q1 = (lo - lo_r) // M, (hi - lo_r) // M
            if q0 == q1:
                return [(st, l + (-q0 * M))]
        else:
            q0, q1 = None, None
        if st.entails(l - lo_r) and st.entails(num(hi_r) - l):
            return [(st, l)]
        if q0 is not None and q1 - q0 <= 2:
            out = []
            for q in sorted(range(q0, q1 + 1), key=abs):
                v = l + (-q * M)
                s = st.assume([v - lo_r, num(hi_r) - v])
                if s is not None:
                    out.append((s, v))
            return out
        # two wrap values around zero without interval information
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 and not signed:
            a = l.t[0][0]
            if a.lo is not None and a.lo >= 0:
                return [(st, self.field(a, 0, w))]
        return [(st, self.wrapatom(l, w, signed))]

    def iv(self, v, w):
        if isinstance(v, IV):
            return v
        if isinstance(v, PV) or isinstance(v, FV):
            return self.ptrint(v)
        if isinstance(v, UNDEF.__class__):
            return IV(w, var(self.fresh("undef", w, imprecise=True)))
        if isinstance(v, Cond):
            raise Unsupported("cond as int")
        raise Unsupported("int of %r" % (v,))

    def nbits(self, st, a):
        b = st.cons.box([a])[a]
        if b[0] is None or b[0] < 0 or b[1] is None:
            return None
        return b[1].bit_length()

    def bits(self, st, iv):
        w = iv.w
        if iv.const:
            u = iv.u
            return [(u >> i) & 1 for i in range(w)]
        l = iv.l
        out = [0] * w
        used = [False] * w
        c = l.c % (1 << w)
        if any(k <= 0 or k & (k - 1) for _, k in l.t):
            return None
        for i in range(w):
            if (c >> i) & 1:
                out[i] = 1
                used[i] = True
        for a, k in l.t:
            p = k.bit_length() - 1
            n = self.nbits(st, a)
            if n is None:
                if a.hi is None:
                    return None
                n = 64
            lo, hi = st.cons.box([a])[a]
            for i in range(n):
                if p + i >= w:
                    break
                if used[p + i]:
                    return None
                used[p + i] = True
                if a.bits is not None:
                    out[p + i] = a.bits[i] if i < len(a.bits) else 0
                else:
                    out[p + i] = (a, i)
            # known leading one
            if lo is not None and n > 0 and lo >= (1 << (n - 1)) and p + n - 1 < w:
                out[p + n - 1] = 1
                # and every bit of the prefix that lo and hi share
                if hi is not None and hi < (1 << n) and a.bits is None:
                    i = n - 2
                    while i >= 0 and (lo >> i) == (hi >> i):
                        if p + i < w:
                            out[p + i] = (lo >> i) & 1
                        i -= 1
        return out

    def from_bits(self, bits):
        w = len(bits)
        d = num(0)
        i = 0
        while i < w:
            b = bits[i]
            if b == 0:
                i += 1
            elif b == 1:
                d = d + (1 << i)
                i += 1
            else:
                a, p = b
                n = 1
                while i + n < w and isinstance(bits[i + n], tuple) and bits[i + n][0] is a \
                        and bits[i + n][1] == p + n:
                    n += 1
                d = d.add(self.field(a, p, n), 1 << i)
                i += n
        return IV(w, d)

    def bits_or_alias(self, st, iv):
        """[(st, bits)]"""
        b = self.bits(st, iv)
        if b is not None:
            return [(st, b)]
        out = []
        for s, l in self.canon(st, iv):
            v = IV(iv.w, l)
            b = self.bits(s, v)
            if b is None:
                z = self.alias(l)
                if z.t and z.t[0][0].lo is None:
                    pass
                a = z.t[0][0]
                if a.kind == "alias" and a.hi is None:
                    a.lo, a.hi = 0, (1 << iv.w) - 1
                b = self.bits(s, IV(iv.w, z))
                if b is None:
                    b = [None] * iv.w
            out.append((s, b))
        return out

    def binop(self, st, op, a, b, w):
        """[(st, IV)]"""
        if op == "add":
            return [(st, IV(w, a.l + b.l))]
        if op == "sub":
            return [(st, IV(w, a.l - b.l))]
        if op == "mul":
            if b.const:
                return [(st, IV(w, a.l.scale(b.s)))]
            if a.const:
                return [(st, IV(w, b.l.scale(a.s)))]
            for x, y in ((a, b), (b, a)):
                lo, hi = st.cons.bounds(x.l)
                if lo is not None and lo == hi:
                    return [(st, IV(w, y.l.scale(lo)))]
            out = []
            for s, x in self.canon(st, a):
                for s2, y in self.canon(s, b):
                    out.append((s2, IV(w, self.opaque("mul", x, y, w))))
            return out
        if op == "shl":
            if b.const:
                if b.u >= w:
                    return [(st, ival(w, 0))]
                return [(st, IV(w, a.l.scale(1 << b.u)))]
            return self._opq(st, op, a, b, w)
        if op in ("and", "or", "xor"):
            if a.const and not b.const:
                a, b = b, a
            if b.const:
                u = b.u
                if op == "and":
                    if u == 0:
                        return [(st, ival(w, 0))]
                    if u == (1 << w) - 1:
                        return [(st, a)]
                elif u == 0:
                    return [(st, a)]
                if op == "xor" and u == (1 << w) - 1:
                    return [(st, IV(w, (-a.l) + (-1)))]
            if a == b:
                return [(st, ival(w, 0) if op == "xor" else a)]
            out = []
            for s, x in self.bits_or_alias(st, a):
                for s2, y in self.bits_or_alias(s, b):
                    r = []
                    for p, q in zip(x, y):
                        r.append(_bitop(op, p, q))
                    if all(z is not None for z in r):
                        out.append((s2, self.from_bits(r)))
                    else:
                        for s3, p in self.canon(s2, a):
                            for s4, q in self.canon(s3, b):
                                z = self.opaque(op, p, q, w)
                                at = z.t[0][0]
                                # keep known zero top bits
                                n = w
                                while n > 0 and r[n - 1] == 0:
                                    n -= 1
                                if at.hi > (1 << n) - 1:
                                    at.hi = (1 << n) - 1
                                if at.bits is None and any(t is not None for t in r):
                                    at.bits = [t if t is not None else (at, i) for i, t in enumerate(r)]
                                if not at.defs:
                                    if op == "or":
                                        at.defs = [z - p, z - q]
                                    elif op == "and":
                                        at.defs = [p - z, q - z]
                                out.append((s4, IV(w, z)))
            return out
        if op in ("lshr", "ashr"):
            if b.const:
                k = b.u
                if k >= w:
                    return [(st, ival(w, 0))]
                if op == "ashr":
                    out = []
                    for s, l in self.canon(st, a, True):
                        if s.entails(l):
                            out += self._lshr(s, IV(w, l), k)
                        else:
                            s1 = s.assume([l])
                            if s1 is not None:
                                out += self._lshr(s1, IV(w, l), k)
                            s2 = s.assume([(-l) + (-1)])
                            if s2 is not None:
                                # floor division of a negative number
                                z = self.keyed("op", ("ashr", l, k, w), None, None, "(%r >>s %d)" % (l, k), w,
                                               defs=lambda q: [l - var(q).scale(1 << k),
                                                               var(q).scale(1 << k) + ((1 << k) - 1) - l])
                                out.append((s2, IV(w, var(z))))
                    return out
                return self._lshr(st, a, k)
            return self._opq(st, op, a, b, w)
        if op in ("udiv", "urem"):
            out = []
            for s, y in self.canon(st, b):
                if not y.t and y.c > 0:
                    c = y.c
                    if c & (c - 1) == 0:
                        k = c.bit_length() - 1
                        if op == "udiv":
                            out += self._lshr(s, a, k)
                        else:
                            out += self.binop(s, "and", a, ival(w, c - 1), w)
                        continue
                    for s2, x in self.canon(s, a):
                        lo, hi = s2.cons.bounds(x)
                        if hi is not None and hi < c:
                            out.append((s2, IV(w, x if op == "urem" else ZERO)))
                            continue
                        q = self.divatom(x, c)
                        out.append((s2, IV(w, q if op == "udiv" else x - q.scale(c))))
                    continue
                if not s.entails(y + (-1)):
                    if self.on_divzero:
                        self.on_divzero(self, s, y)
                    s = s.assume([y + (-1)])
                    if s is None:
                        continue
                for s2, x in self.canon(s, a):
                    if s2.entails(y - x + (-1)):
                        out.append((s2, IV(w, x if op == "urem" else ZERO)))
                        continue
                    z = self.opaque(op, x, y, w)
                    if op == "urem":
                        s3 = s2.assume([y - z + (-1), x - z])
                    else:
                        s3 = s2.assume([x - z])
                    if s3 is not None:
                        out.append((s3, IV(w, z)))
            return out
        if op in ("sdiv", "srem"):
            out = []
            for s, x in self.canon(st, a, True):
                for s2, y in self.canon(s, b, True):
                    if s2.entails(x) and s2.entails(y + (-1)):
                        out += self.binop(s2, "udiv" if op == "sdiv" else "urem", IV(w, x), IV(w, y), w)
                    else:
                        z = self.fresh("%s(%r,%r)" % (op, x, y), w, True)
                        out.append((s2, IV(w, var(z))))
            return out
        raise Unsupported(op)

    def _lshr(self, st, a, k):
        out = []
        w = a.w
        if k and a.l.t and a.l.c % (1 << k) == 0 and all(c % (1 << k) == 0 for _, c in a.l.t):
            cs = self.canon(st, a)
            if all(l.c % (1 << k) == 0 and all(c % (1 << k) == 0 for _, c in l.t) for _, l in cs):
                return [(s, IV(w, num(l.c >> k) + sum((var(x).scale(c >> k) for x, c in l.t), ZERO))) for s, l in cs]
        for s, b in self.bits_or_alias(st, a):
            r = b[k:] + [0] * k
            if all(z is not None for z in r):
                out.append((s, self.from_bits(r)))
            else:
                for s2, l in self.canon(s, a):
                    q = self.divatom(l, 1 << k)
                    out.append((s2, IV(w, q)))
        return out

    def _opq(self, st, op, a, b, w):
        out = []
        for s, x in self.canon(st, a):
            for s2, y in self.canon(s, b):
                lo, hi = s2.cons.bounds(y)
                if lo is not None and lo == hi:
                    out += self.binop(s2, op, IV(w, x), ival(w, lo), w)
                else:
                    out.append((s2, IV(w, self.opaque(op, x, y, w))))
        return out

    # ------------------------------------------------------------ conditions
    def assume_cond(self, st, c, truth):
        """list of states refining st with c == truth"""
        if isinstance(c, IV):
            if c.const:
                return [st] if (c.u & 1) == (1 if truth else 0) else []
            return self._icmp(st, "eq", c, ival(c.w, 1 if truth else 0))
        if isinstance(c, Cond):
            op = c.op
            if op == "not":
                return self.assume_cond(st, c.a, not truth)
            if op in ("and", "or"):
                if (op == "and") == truth:
                    out = []
                    for s in self.assume_cond(st, c.a, truth):
                        out += self.assume_cond(s, c.b, truth)
                    return out
                out = self.assume_cond(st, c.a, truth)
                for s in self.assume_cond(st, c.a, not truth):
                    out = out + self.assume_cond(s, c.b, truth)
                return out
            if op == "unknown":
                return [st.copy()]
            if not truth:
                op = _NEG[op]
            return self._icmp(st, op, c.a, c.b)
        if c is UNDEF:
            return [st.copy()]
        raise Unsupported("cond %r" % (c,))

    def _icmp(self, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            return [st.copy()]
        if isinstance(a, (PV, FV)) or isinstance(b, (PV, FV)):
            return self._pcmp(st, op, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(b, IV) and b.const and op in ("eq", "ne"):
                return self.assume_cond(st, a, bool(b.u) == (op == "eq"))
            raise Unsupported("cmp cond")
        w = a.w
        if a.const and b.const:
            x, y = (a.s, b.s) if op[0] == "s" else (a.u, b.u)
            return [st] if _CMP[op](x, y) else []
        if op in ("eq", "ne"):
            d = modnorm(a.l - b.l, w)
            if not d.t:
                return [st] if ((d.c == 0) == (op == "eq")) else []
            lo, hi = st.cons.bounds(d)
            M = 1 << w
            if lo is not None and hi is not None:
                ms = list(range(-((-lo) // M), hi // M + 1)) if (hi - lo) < 4 * M else None
                if ms is not None:
                    if not ms:
                        return [st] if op == "ne" else []
                    if len(ms) == 1:
                        e = d + (-ms[0] * M)
                        if op == "eq":
                            s = st.assume([e, -e])
                            return [s] if s is not None else []
                        s = st.assume_ne(e)
                        return [s] if s is not None else []
            out = []
            for s, x in self.canon(st, a):
                for s2, y in self.canon(s, b):
                    e = x - y
                    s3 = s2.assume([e, -e]) if op == "eq" else s2.assume_ne(e)
                    if s3 is not None:
                        out.append(s3)
            return out
        signed = op[0] == "s"
        if op in ("ugt", "sgt", "uge", "sge"):
            a, b = b, a
            op = {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle"}[op]
        strict = op in ("ult", "slt")
        out = []
        for s, x in self.canon(st, a, signed):
            for s2, y in self.canon(s, b, signed):
                s3 = s2.assume([y - x + (-1 if strict else 0)])
                if s3 is not None:
                    out.append(s3)
        return out

    def _pcmp(self, st, op, a, b):
        if isinstance(a, IV) and a.const and a.u == 0:
            a = NULL
        if isinstance(b, IV) and b.const and b.u == 0:
            b = NULL
        if isinstance(a, FV) or isinstance(b, FV):
            if isinstance(a, FV) and isinstance(b, FV):
                r = a.fn is b.fn
            elif isinstance(a, PV) and a.obj is None or isinstance(b, PV) and b.obj is None:
                r = False
            else:
                # unknown function pointer against a known function
                p = a if isinstance(a, PV) else b
                f = b if isinstance(b, FV) else a
                at = self.keyed("isfn", (p.obj, f.fn.name), 0, 1, "(%r == %s)" % (p, f.fn.name))
                s = st.assume([var(at) + (-1)] if op == "eq" else [-var(at)])
                return [s] if s is not None else []
            if op not in ("eq", "ne"):
                return [st.copy()]
            return [st] if r == (op == "eq") else []
        if isinstance(a, IV) or isinstance(b, IV):
            return [st.copy()]
        if a.obj is None and b.obj is None:
            return self._icmp(st, op, IV(64, a.off), IV(64, b.off))
        if a.obj is None or b.obj is None:
            p = b if a.obj is None else a
            n = a if a.obj is None else b
            if op not in ("eq", "ne"):
                return [st.copy()]
            if n.off != ZERO:
                return [st] if op == "ne" else []
            o = p.obj
            if o.nonnull:
                return [st] if op == "ne" else []
            at = self.nullatom(o)
            s = st.assume([var(at) + (-1)] if op == "eq" else [-var(at)])
            if s is None:
                return []
            if op == "eq" and p.off != ZERO:
                # null base plus offset equals null only for offset zero
                s2 = s.assume([p.off, -p.off])
                return [s2] if s2 is not None else []
            return [s]
        if a.obj is b.obj:
            d = a.off - b.off
            if op in ("eq", "ne"):
                if not d.t:
                    return [st] if ((d.c == 0) == (op == "eq")) else []
                s = st.assume([d, -d]) if op == "eq" else st.assume_ne(d)
                return [s] if s is not None else []
            x, y = a.off, b.off
            if op in ("ugt", "sgt", "uge", "sge"):
                x, y = y, x
                op = {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle"}[op]
            s = st.assume([y - x + (-1 if op in ("ult", "slt") else 0)])
            return [s] if s is not None else []
        if op in ("eq", "ne"):
            if a.obj.kind == "deref" and b.obj.kind == "deref" and \
                    (a.obj.attrs.get("mayalias") or b.obj.attrs.get("mayalias")):
                x, y = sorted((a.obj, b.obj), key=lambda o: o.id)
                at = self.keyed("same", (x, y, a.off - b.off if x is a.obj else b.off - a.off), 0, 1,
                                "(%s is %s)" % (x.name, y.name))
                s = st.assume([var(at) + (-1)] if op == "eq" else [-var(at)])
                return [s] if s is not None else []
            return [st] if op == "ne" else []
        return [st.copy()]

    def decide(self, st, c):
        """True/False/None"""
        t = self.assume_cond(st, c, True)
        f = self.assume_cond(st, c, False)
        if t and not f:
            return True
        if f and not t:
            return False
        return None

    # ------------------------------------------------------------ memory
    def canonobj(self, o):
        return o.attrs.get("canon", o)

    def overlap(self, st, d, size, rsize):
        """relation of [d, d+size) to [0, rsize): eq/in/disjoint/part/unknown; sizes Lin or int"""
        if isinstance(size, int):
            size = num(size)
        if isinstance(rsize, int):
            rsize = num(rsize)
        if st.entails(d - rsize) or st.entails(-(d + size)):
            return "disjoint"
        if st.entails(d) and st.entails(rsize - d - size):
            return "in"
        if not d.t and not size.t and not rsize.t:
            return "part"
        return "unknown"

    def load(self, st, pv, ty, inst=None):
        """[(st, value)]"""
        if ty.kind == "struct" or ty.kind == "array":
            acc = [(st, [])]
            n = len(ty.fields) if ty.kind == "struct" else ty.count
            for i in range(n):
                f = ty.fields[i] if ty.kind == "struct" else ty.elem
                o = ty.offsets[i] if ty.kind == "struct" else i * ty.elem.size
                nxt = []
                for s, vs in acc:
                    for s2, v in self.load(s, PV(pv.obj, pv.off + o), f, inst):
                        nxt.append((s2, vs + [v]))
                acc = nxt
            return [(s, AggV(v)) for s, v in acc]
        if not isinstance(pv, PV):
            return [(st, self.unknown(ty, "load"))]
        st = self.require_nonnull(st, pv, inst)
        if st is None:
            return []
        if self.on_access:
            self.on_access(self, st, "load", pv.obj, pv.off, num(ty.size), inst)
        o = self.canonobj(pv.obj)
        return self._load(st, o, st.mem.get(o, ()), pv.off, ty, inst)

    def unknown(self, ty, name="unknown"):
        if ty.kind == "int":
            return IV(ty.width, var(self.fresh(name, ty.width, imprecise=True)))
        if ty.kind == "ptr":
            return PV(self.newobj(name, "deref", None, False, imprecise=True), ZERO)
        if ty.kind in ("double", "float"):
            return FP(1.0, [(self.fresh(name, 64, imprecise=True), 1)])
        return UNDEF

    def _fork3(self, st, d, size, rsize):
        """inside / below / above"""
        out = []
        if d.t and not size.t and not rsize.t:
            # cells of an array: equal or apart
            g = 0
            for _, k in d.t:
                g = gcd(g, k)
            r = d.c % g
            if r >= rsize.c and r + size.c <= g:
                return [("disjoint", st)]
            if r == 0 and 0 < size.c <= rsize.c <= g:
                s = st.assume([d, -d])
                if s is not None:
                    out.append(("in", s))
                s = st.assume_ne(d)
                if s is not None:
                    out.append(("disjoint", s))
                return out
        s = st.assume([d, rsize - d - size])
        if s is not None:
            out.append(("in", s))
        s = st.assume([-(d + size)])
        if s is not None:
            out.append(("disjoint", s))
        s = st.assume([d - rsize])
        if s is not None:
            out.append(("disjoint", s))
        return out

    def _load(self, st, obj, recs, off, ty, inst):
        size = ty.size
        sz = num(size)
        i = len(recs) - 1
        while i >= 0:
            r = recs[i]
            k = r[0]
            if k == "havoc" and r[1] is None:
                return [(st, self.recload(r[3], off, ty))]
            roff, rlen = r[1], r[2]
            if not off.t and not roff.t and (isinstance(rlen, int) or not rlen.t):
                # constant positions: no constraint is needed
                dc, lc = off.c - roff.c, rlen if isinstance(rlen, int) else rlen.c
                if dc >= lc or dc + size <= 0:
                    i -= 1
                    continue
                d = num(dc)
                rel = "in" if dc >= 0 and dc + size <= lc else "part"
            else:
                if isinstance(rlen, int):
                    rlen = num(rlen)
                d = off - roff
                rel = self.overlap(st, d, sz, rlen)
            if rel == "disjoint":
                i -= 1
                continue
            if rel == "unknown":
                out = []
                opts = self._fork3(st, d, sz, rlen)
                for kind, s in opts:
                    out += self._load(s, obj, recs[:i + 1] if kind == "in" else recs[:i], off, ty, inst)
                return out
            if rel == "part":
                return self._bytes(st, obj, recs[:i + 1], off, ty, inst)
            # contained
            if k == "s":
                if st.entails(d) and st.entails(-d) and size == r[2]:
                    return [(st, self.convert(st, r[3], ty))]
                if not d.t and isinstance(r[3], IV) and ty.kind == "int":
                    out = []
                    for s, v in self._lshr(st, r[3], 8 * d.c):
                        out += self.trunc(s, v, ty.width)
                    return out
                if isinstance(r[3], FP) or not isinstance(r[3], IV):
                    return [(st, self.unknown(ty, "punned"))]
                if d.t and size == r[2]:
                    s = st.assume([d, -d])
                    return [(s, self.convert(s, r[3], ty))] if s is not None else []
                return [(st, self.unknown(ty, "partial"))]
            if k == "set":
                b = r[3]
                if isinstance(b, IV) and b.const:
                    u = b.u & 0xff
                    if ty.kind == "int":
                        return [(st, ival(ty.width, int.from_bytes(bytes([u]) * size, "little")))]
                    if ty.kind == "ptr" and u == 0:
                        return [(st, NULL)]
                    if ty.kind == "double" and u == 0:
                        return [(st, FP(0.0))]
                if ty.kind == "int" and ty.width == 8 and isinstance(b, IV):
                    return self.trunc(st, b, 8) if b.w > 8 else [(st, b)]
                return [(st, self.unknown(ty, "memset"))]
            if k == "copy":
                return self._load(st, r[3], r[5], r[4] + d, ty, inst)
            if k == "fill":
                if ty.kind == "int":
                    return [(st, IV(ty.width, self.fill_atom(r[3], d, size)))]
                return [(st, self.unknown(ty, "fill"))]
            if k == "havoc":
                return [(st, self.recload(r[3], off, ty))]
            raise Unsupported("record " + k)
        return self.initial(st, obj, off, ty, inst)

    def recload(self, rid, off, ty):
        if ty.kind == "int":
            return IV(ty.width, self.rec_atom(rid, off, ty.size))
        if ty.kind == "ptr":
            o = self.keyobj("recptr", rid, off)
            o.nonnull = False
            o.attrs["imprecise"] = True
            return PV(o, ZERO)
        return self.unknown(ty, "havoc")

    def _bytes(self, st, obj, recs, off, ty, inst):
        if ty.kind != "int" or ty.size > 8 or ty.size == 1:
            return [(st, self.unknown(ty, "mixed"))]
        acc = [(st, num(0))]
        for j in range(ty.size):
            nxt = []
            for s, l in acc:
                for s2, v in self._load(s, obj, recs, off + j, _I8, inst):
                    if not isinstance(v, IV):
                        nxt.append((s2, l.add(var(self.fresh("mixed", 8, imprecise=True)), 1 << (8 * j))))
                        continue
                    for s3, u in self.canon(s2, v):
                        nxt.append((s3, l.add(u, 1 << (8 * j))))
            acc = nxt
        return [(s, IV(ty.width, l)) for s, l in acc]

    def convert(self, st, v, ty):
        if ty.kind == "ptr":
            if isinstance(v, IV):
                return PV(None, v.l)
            if isinstance(v, (PV, FV)):
                return v
            return self.unknown(ty, "cast")
        if ty.kind == "int":
            if isinstance(v, IV):
                return v if v.w == ty.width else IV(ty.width, v.l)
            if isinstance(v, (PV, FV)):
                return self.ptrint(v)
            if isinstance(v, Cond):
                return v
            if v is UNDEF:
                return self.unknown(ty, "undef")
        if ty.kind in ("double", "float"):
            return v if isinstance(v, FP) else self.unknown(ty, "fp")
        return v

    def initial(self, st, obj, off, ty, inst):
        if obj.kind == "global" and obj.origin is not None and obj.origin.init is not None \
                and (obj.origin.const or obj.attrs.get("static")):
            g = obj.origin
            if not off.t:
                v = self.initload(g.init, g.ty, off.c, ty)
                return [(st, v if v is not None else self.unknown(ty, "oob"))]
            return self.table(st, g, off, ty)
        if obj.attrs.get("zero"):
            return [(st, self.zero(ty))]
        if obj.kind in ("stack", "heap") and not obj.attrs.get("opaque"):
            if self.on_uninit:
                self.on_uninit(self, st, obj, off, ty, inst)
            return [(st, self.unknown(ty, "uninit(%s)" % obj.name))]
        f = obj.attrs.get("init")
        if f is not None:
            r = f(self, st, obj, off, ty)
            if r is not None:
                return r
        L = obj.attrs.get("strlen")
        if L is not None and ty.kind == "int" and ty.width == 8:
            return self.strbyte(st, obj, off, L)
        return [(st, self.ld(st, obj, off, ty))]

    def strbyte(self, st, obj, off, L):
        out = []
        pre = obj.attrs.get("prefix")
        if pre and not off.t and 0 <= off.c < len(pre):
            return [(st, ival(8, pre[off.c]))]
        marks = obj.attrs.get("marks", ())
        a = self.ld_atom(obj, off, 1)
        s = st.assume([L - off + (-1)])
        if s is not None:
            # characters before the terminator are never NUL
            rest = [s]
            for pos, ch in marks:
                nr = []
                for x in rest:
                    y = x.assume([off - pos, pos - off])
                    if y is not None:
                        out.append((y, ival(8, ch)))
                    y = x.assume_ne(off - pos)
                    if y is not None:
                        nr.append(y)
                rest = nr
            for s in rest:
                s = s.assume([a + (-1)])
                for ch in obj.attrs.get("special", ()):
                    if s is not None:
                        s = s.assume_ne(a - ch)
                if s is not None:
                    out.append((s, IV(8, a)))
        s = st.assume([off - L, L - off])
        if s is not None:
            out.append((s, ival(8, 0)))
        s = st.assume([off - L + (-1)])
        if s is not None:
            out.append((s, IV(8, var(self.fresh("beyond(%s)" % obj.name, 8)))))
        return out

    def ld(self, st, obj, off, ty):
        if ty.kind == "int":
            return IV(ty.width, self.ld_atom(obj, off, ty.size))
        if ty.kind == "ptr":
            return PV(self.keyobj("deref", obj, off), ZERO)
        if ty.kind in ("double", "float"):
            return FP(1.0, [(self.ld_atom(obj, off, ty.size).t[0][0], 1)])
        return UNDEF

    def table(self, st, g, off, ty):
        """constant table with symbolic index: partition into runs of equal entries"""
        lo, hi = st.cons.bounds(off)
        esz = ty.size
        t = g.ty
        n = g.size // esz
        base = 0
        stride = esz
        # stride from the coefficient gcd
        from math import gcd
        gg = 0
        for _, k in off.t:
            gg = gcd(gg, k)
        if gg > esz and gg % esz == 0:
            stride = gg
            base = off.c % gg
        else:
            base = off.c % esz
        lo = max(0, lo if lo is not None else 0)
        hi = min(g.size - esz, hi if hi is not None else g.size - esz)
        out = []
        p = base
        if lo > p:
            p += (lo - p + stride - 1) // stride * stride
        runs = []
        while p <= hi:
            v = self.initload(g.init, g.ty, p, ty)
            if runs and runs[-1][2] == v and v is not None:
                runs[-1][1] = p
            else:
                runs.append([p, p, v])
            p += stride
        for a, b, v in runs:
            s = st.assume([off - a, num(b) - off])
            if s is not None:
                out.append((s, v if v is not None else self.unknown(ty, "table")))
        for ex in ([-off + (-1)], [off - num(g.size - esz + 1)]):
            s = st.assume(ex)
            if s is not None:
                out.append((s, self.unknown(ty, "out of bounds of " + g.name)))
        return out

    def store(self, st, pv, v, ty, inst=None):
        """[st]"""
        if isinstance(v, AggV):
            n = len(v.e)
            cur = [st]
            for i in range(n):
                f = ty.fields[i] if ty.kind == "struct" else ty.elem
                o = ty.offsets[i] if ty.kind == "struct" else i * ty.elem.size
                cur = [y for x in cur for y in self.store(x, PV(pv.obj, pv.off + o), v.e[i], f, inst)]
            return cur
        if not isinstance(pv, PV):
            return [st]
        st = self.require_nonnull(st, pv, inst)
        if st is None:
            return []
        size = ty.size
        if self.on_access:
            self.on_access(self, st, "store", pv.obj, pv.off, num(size), inst)
        if isinstance(v, Cond):
            out = []
            for tr in (True, False):
                for s in self.assume_cond(st, v, tr):
                    out += self.store(s, pv, ival(8 * size, 1 if tr else 0), ty, inst)
            return out
        s = st.copy()
        o = self.canonobj(pv.obj)
        if self.on_store:
            self.on_store(self, s, o, pv.off, size, v, inst)
        self.put(s, o, ("s", pv.off, size, v))
        return [s]

    def put(self, s, o, rec):
        sink = o.attrs.get("sink")
        if sink is not None:
            sink(s, rec)
            return
        recs = s.mem.get(o, ())
        if rec[0] == "s":
            if any(r[0] == "s" and r[2] == rec[2] and r[1] == rec[1] for r in recs):
                # drop older identical cell only when nothing newer may overlap it
                new = []
                for i, r in enumerate(recs):
                    if r[0] == "s" and r[2] == rec[2] and r[1] == rec[1]:
                        continue
                    new.append(r)
                recs = tuple(new)
        elif rec[0] in ("set", "copy", "fill", "havoc"):
            ln = rec[2]
            if ln is not None:
                l = num(ln) if isinstance(ln, int) else ln
                recs = tuple(r for r in recs if not (
                    r[1] is not None and s.entails(r[1] - rec[1]) and
                    s.entails(rec[1] + l - r[1] - (num(r[2]) if isinstance(r[2], int) else r[2]))))
            else:
                recs = ()
        s.mem[o] = recs + (rec,)

    _rid = [0]

    def havoc(self, st, obj, off=None, ln=None):
        s = st.copy()
        self._rid[0] += 1
        o = self.canonobj(obj)
        self.put(s, o, ("havoc", off, ln, self._rid[0]))
        return s

    def access(self, st, kind, pv, ln, inst):
        st = self.require_nonnull(st, pv, inst)
        if st is None:
            return None
        if self.on_access:
            self.on_access(self, st, kind, pv.obj, pv.off, ln, inst)
        return st

    # ------------------------------------------------------------ casts
    def trunc(self, st, v, w):
        if isinstance(v, Cond):
            return [(st, v)]
        if v is UNDEF:
            return [(st, UNDEF)]
        v = self.iv(v, 64)
        if v.const:
            return [(st, ival(w, v.u))]
        if w == 1:
            return [(st, Cond("ne", v, ival(v.w, 0)))] if self._isbool(st, v) else \
                self._trunc1(st, v)
        return [(st, IV(w, v.l))]

    def _isbool(self, st, v):
        if v.w == 8:
            return True      # _Bool objects hold 0 or 1
        lo, hi = st.cons.bounds(v.l)
        return lo is not None and hi is not None and lo >= 0 and hi <= 1

    def _trunc1(self, st, v):
        out = []
        for s, x in self.binop(st, "and", v, ival(v.w, 1), v.w):
            out.append((s, Cond("ne", x, ival(x.w, 0))))
        return out

    def zext(self, st, v, w, signed=False):
        if v is UNDEF:
            return [(st, UNDEF)]
        if isinstance(v, Cond):
            out = []
            for tr in (True, False):
                for s in self.assume_cond(st, v, tr):
                    out.append((s, ival(w, (-1 if signed else 1) if tr else 0)))
            return out
        return [(s, IV(w, l)) for s, l in self.canon(st, v, signed)]

    # ------------------------------------------------------------ functions
    def loopinfo(self, fn):
        li = self._loopinfo.get(fn.name)
        if li is not None:
            return li
        blocks = sorted([b for b in fn.blocks if b.rpo >= 0], key=lambda b: b.rpo)
        dom = {}
        allb = set(blocks)
        entry = fn.entry
        for b in blocks:
            dom[b] = {b} if b is entry else allb
        changed = True
        while changed:
            changed = False
            for b in blocks:
                if b is entry:
                    continue
                ps = [dom[p] for p in b.preds if p.rpo >= 0]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    changed = True
        loops = {}
        for b in blocks:
            for s in b.succs:
                if s in dom[b]:
                    lp = loops.get(s)
                    if lp is None:
                        lp = Loop()
                        lp.header = s
                        lp.blocks = {s}
                        lp.latches = set()
                        lp.id = (fn.name, s.name)
                        loops[s] = lp
                    lp.latches.add(b)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in lp.blocks:
                            lp.blocks.add(x)
                            work += [p for p in x.preds if p.rpo >= 0]
        self._loopinfo[fn.name] = loops
        return loops

    def call(self, st, fn, args, inst=None):
        """[(st, ret)]: analyse a call of fn in this context"""
        h = self.hooks.get(fn.name)
        if h is not None:
            r = h(self, st, args, inst)
            if r is not None:
                return r
        if fn.decl or not fn.blocks:
            if self.external:
                r = self.external(self, st, fn.name, args, inst)
                if r is not None:
                    return r
            if fn.noreturn:
                self.terminals.append((fn.name, st, inst))
                return []
            self.unknown_calls.add(fn.name)
            return [(st, self.unknown(inst.ty, fn.name + "()") if inst is not None and inst.ty.kind != "void" else None)]
        depth = sum(1 for fr in self.stack if fr.fn is fn)
        if depth > self.rec_inline:
            if True:
                if self.rec:
                    r = self.rec(self, st, fn, args, inst)
                    if r is not None:
                        return r
                raise Unsupported("recursion into " + fn.name)
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        self.inlined.add(fn.name)
        fr = Frame()
        fr.fn, fr.args, fr.inst = fn, args, inst
        fr.loops = self.loopinfo(fn)
        self.stack.append(fr)
        try:
            env = {}
            for p, a in zip(fn.params, args):
                if p.index in fn.byval and isinstance(a, PV):
                    o = self.newobj("%s.%s" % (fn.name, p.name), "stack", num(fn.byval[p.index].size))
                    st = st.copy()
                    src = self.canonobj(a.obj)
                    self.put(st, o, ("copy", ZERO, num(fn.byval[p.index].size), src, a.off, st.mem.get(src, ())))
                    a = PV(o, ZERO)
                env[p] = a
            for p in fn.params[len(args):]:
                env[p] = UNDEF
            rets = []
            self.explore(fr, [Edge(fn.entry, None, env, st)], None, rets, None, None)
            return rets
        finally:
            self.stack.pop()

    def val(self, env, op):
        v = env.get(op)
        if v is not None:
            return v
        if isinstance(op, (ir.Inst, ir.Arg)):
            raise Unsupported("undefined value %s" % getattr(op, "name", op))
        return self.const(op)

    def explore(self, fr, work, loop, rets, backs, exits, started=False):
        """run until returns, back edges to loop.header, or edges leaving loop."""
        work = list(work)
        first = started
        while work:
            e = work.pop()
            blk = e.block
            if loop is not None and not first:
                if blk is loop.header:
                    backs.append(e)
                    continue
                if blk not in loop.blocks:
                    exits.append(e)
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("steps")
            if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
                raise Budget("time")
            if not first and blk in fr.loops and (loop is None or blk is not loop.header):
                for x in self.exec_loop(fr, fr.loops[blk], e, rets):
                    work.append(x)
                continue
            env = e.env
            if not first:
                env = self.phis(blk, e.pred, env)
            first = False
            self.block(fr, blk, env, e.st, work, rets)

    def phis(self, blk, pred, env):
        new = None
        for i in blk.insts:
            if i.op != "phi":
                break
            for b, v in i.incoming:
                if b is pred:
                    if new is None:
                        new = {}
                    new[i] = self.val(env, v)
                    break
        if new:
            env = dict(env)
            env.update(new)
        return env

    def block(self, fr, blk, env, st, work, rets):
        """execute the straight-line part for each state"""
        states = [(dict(env), st)]
        insts = [i for i in blk.insts if i.op != "phi"]
        for inst in insts:
            if inst.op in ("br", "switch", "ret", "unreachable"):
                for env, st in states:
                    self.term(fr, blk, inst, env, st, work, rets)
                return
            nxt = []
            for env, st in states:
                res = self.step(inst, env, st)
                if len(res) == 1:
                    s, v = res[0]
                    if v is not None:
                        env[inst] = v
                    nxt.append((env, s))
                else:
                    for s, v in res:
                        en = dict(env)
                        if v is not None:
                            en[inst] = v
                        nxt.append((en, s))
            states = nxt
            if not states:
                return
            self.steps += len(states) - 1
            if self.steps > self.max_steps:
                raise Budget("steps")

    def term(self, fr, blk, inst, env, st, work, rets):
        if inst.op == "ret":
            v = self.val(env, inst.ops[0]) if inst.ops else None
            rets.append((st, v))
        elif inst.op == "unreachable":
            self.terminals.append(("unreachable", st, inst))
        elif inst.op == "br":
            if not inst.ops:
                work.append(Edge(inst.targets[0], blk, env, st))
                return
            c = self.val(env, inst.ops[0])
            # LLVMGetSuccessor order: true, false
            fs = self.assume_cond(st, c, False)
            ts = self.assume_cond(st, c, True)
            for s in fs:
                work.append(Edge(inst.targets[1], blk, env, s))
            for s in ts:
                work.append(Edge(inst.targets[0], blk, env, s))
        elif inst.op == "switch":
            v = self.val(env, inst.ops[0])
            w = inst.ops[0].ty.width if hasattr(inst.ops[0], "ty") else 32
            if not isinstance(v, IV):
                v = self.iv(v, w)
            rest = [st]
            for cv, tgt in inst.cases:
                nr = []
                for s in rest:
                    for s2 in self._icmp(s, "eq", v, ival(v.w, cv)):
                        work.append(Edge(tgt, blk, env, s2))
                    nr += self._icmp(s, "ne", v, ival(v.w, cv))
                rest = nr
            for s in rest:
                work.append(Edge(inst.targets[0], blk, env, s))

    def step(self, inst, env, st):
        op = inst.op
        if op == "alloca":
            t = inst.alloc
            n = self.val(env, inst.ops[0]) if inst.ops else ival(32, 1)
            if isinstance(n, IV) and n.const:
                size = num(t.size * n.u)
            elif isinstance(n, IV):
                out = []
                for s, l in self.canon(st, n):
                    o = self.newobj("%s.%s" % (inst.fn.name, inst.name), "stack", l.scale(t.size), site=inst)
                    out.append((s, PV(o, ZERO)))
                return out
            else:
                size = None
            o = self.newobj("%s.%s" % (inst.fn.name, inst.name), "stack", size, site=inst)
            return [(st, PV(o, ZERO))]
        if op == "load":
            return self.load(st, self.aspv(self.val(env, inst.ops[0])), inst.ty, inst)
        if op == "store":
            v = self.val(env, inst.ops[0])
            p = self.aspv(self.val(env, inst.ops[1]))
            ty = inst.ops[0].ty if hasattr(inst.ops[0], "ty") and inst.ops[0].ty else None
            if isinstance(inst.ops[0], (ir.Fn, ir.Global)):
                ty = _PTR
            if ty is None:
                ty = _PTR
            return [(s, None) for s in self.store(st, p, v, ty, inst)]
        if op == "gep":
            return self.gep(inst, env, st)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.val(env, inst.ops[0]), self.val(env, inst.ops[1])
            w = inst.ty.width
            if w == 1:
                if op == "xor":
                    if isinstance(b, IV) and b.const:
                        return [(st, Cond("not", a, None) if b.u else a)]
                    return [(st, Cond("or", Cond("and", a, Cond("not", b, None)), Cond("and", Cond("not", a, None), b)))]
                if op in ("and", "or"):
                    return [(st, Cond(op, a, b))]
            return self.binop(st, op, self.iv(a, w), self.iv(b, w), w)
        if op == "icmp":
            a, b = self.val(env, inst.ops[0]), self.val(env, inst.ops[1])
            return [(st, Cond(inst.pred, a, b))]
        if op == "call":
            return self.docall(inst, env, st)
        if op in ("zext", "sext"):
            return self.zext(st, self.val(env, inst.ops[0]), inst.ty.width, op == "sext")
        if op == "trunc":
            return self.trunc(st, self.val(env, inst.ops[0]), inst.ty.width)
        if op == "select":
            c = self.val(env, inst.ops[0])
            a, b = self.val(env, inst.ops[1]), self.val(env, inst.ops[2])
            out = [(s, a) for s in self.assume_cond(st, c, True)]
            return out + [(s, b) for s in self.assume_cond(st, c, False)]
        if op in ("bitcast", "freeze"):
            return [(st, self.val(env, inst.ops[0]))]
        if op == "ptrtoint":
            return [(st, self.ptrint(self.val(env, inst.ops[0])))]
        if op == "inttoptr":
            v = self.val(env, inst.ops[0])
            if isinstance(v, IV):
                for a, k in v.l.t:
                    if a.name.startswith("addr("):
                        pass
                return [(st, PV(None, v.l))]
            return [(st, v)]
        if op in ("uitofp", "sitofp"):
            v = self.iv(self.val(env, inst.ops[0]), 64)
            out = []
            for s, l in self.canon(st, v, op == "sitofp"):
                if not l.t:
                    out.append((s, FP(float(l.c))))
                else:
                    out.append((s, FP(1.0, [(l, 1)])))
            return out
        if op in ("fmul", "fdiv"):
            a, b = self.val(env, inst.ops[0]), self.val(env, inst.ops[1])
            if isinstance(a, FP) and isinstance(b, FP):
                return [(st, a.mul(b, 1 if op == "fmul" else -1))]
            return [(st, self.unknown(inst.ty, op))]
        if op in ("fadd", "fsub", "frem", "fneg", "fptrunc", "fpext"):
            a = self.val(env, inst.ops[0])
            if op in ("fptrunc", "fpext"):
                return [(st, a)]
            b = self.val(env, inst.ops[1]) if len(inst.ops) > 1 else None
            at = self.keyed("fop", (op, a, b), None, None, "(%r %s %r)" % (a, op, b))
            return [(st, FP(1.0, [(at, 1)]))]
        if op in ("fptoui", "fptosi"):
            return [(st, IV(inst.ty.width, var(self.fresh("fptoint", inst.ty.width, imprecise=True))))]
        if op == "fcmp":
            return [(st, Cond("unknown", UNDEF, UNDEF))]
        if op == "extractvalue":
            v = self.val(env, inst.ops[0])
            for i in inst.indices:
                if isinstance(v, AggV):
                    v = v.e[i]
                else:
                    return [(st, self.unknown(inst.ty, "extract"))]
            return [(st, v)]
        if op == "insertvalue":
            v = self.val(env, inst.ops[0])
            x = self.val(env, inst.ops[1])
            return [(st, self._insert(v, inst.indices, x, inst.ty))]
        raise Unsupported("instruction " + op)

    def _insert(self, v, idx, x, ty):
        n = len(ty.fields) if ty.kind == "struct" else ty.count
        e = list(v.e) if isinstance(v, AggV) else [UNDEF] * n
        if len(idx) == 1:
            e[idx[0]] = x
        else:
            sub = ty.fields[idx[0]] if ty.kind == "struct" else ty.elem
            e[idx[0]] = self._insert(e[idx[0]], idx[1:], x, sub)
        return AggV(e)

    def aspv(self, v):
        if isinstance(v, PV):
            return v
        if isinstance(v, IV):
            return PV(None, v.l)
        if v is UNDEF:
            return PV(self.newobj("undefptr", "deref", None, False, imprecise=True), ZERO)
        return v

    def gep(self, inst, env, st):
        base = self.aspv(self.val(env, inst.ops[0]))
        acc = [(st, num(0))]
        ty = inst.srcty
        for k, o in enumerate(inst.ops[1:]):
            if isinstance(o, ir.Const):
                n = o.value
                if n >= 1 << (o.width - 1):
                    n -= 1 << o.width
                if k == 0:
                    d = n * ty.size
                elif ty.kind == "struct":
                    d = ty.offsets[n]
                    ty = ty.fields[n]
                else:
                    ty = ty.elem
                    d = n * ty.size
                acc = [(s, l + d) for s, l in acc]
                continue
            v = self.iv(self.val(env, o), 64)
            if k == 0:
                sz = ty.size
            else:
                ty = ty.elem
                sz = ty.size
            nxt = []
            for s, l in acc:
                if v.w == 64:
                    # address arithmetic is modulo 2^64 already
                    nxt.append((s, modnorm(l.add(v.l, sz), 64)))
                else:
                    for s2, x in self.canon(s, v, True):
                        nxt.append((s2, l.add(x, sz)))
            acc = nxt
        if not isinstance(base, PV):
            return [(s, self.unknown(inst.ty, "gep")) for s, l in acc]
        return [(s, PV(base.obj, base.off + l)) for s, l in acc]

    def docall(self, inst, env, st):
        c = inst.callee
        if c == "asm":
            return [(st, self.unknown(inst.ty, "asm") if inst.ty.kind != "void" else None)]
        args = [self.val(env, a) for a in inst.args]
        if isinstance(c, ir.Fn):
            r = self.call(st, c, args, inst)
        else:
            v = self.val(env, c)
            if isinstance(v, FV):
                r = self.call(st, v.fn, args, inst)
            else:
                r = None
                if self.icall:
                    r = self.icall(self, st, v, args, inst)
                if r is None:
                    self.unknown_calls.add("*indirect*")
                    r = [(st, self.unknown(inst.ty, "indirect") if inst.ty.kind != "void" else None)]
        if inst.noreturn:
            for s, _ in r:
                self.terminals.append(("noreturn", s, inst))
            return []
        return r

    # ------------------------------------------------------------ loops
    def exec_loop(self, fr, lp, edge, rets):
        env = self.phis(lp.header, edge.pred, edge.env)
        ent = Edge(lp.header, edge.pred, env, edge.st)
        mark = Atom.count
        r = self.unfold(fr, lp, ent)
        mode = "unfold"
        if r is None:
            mode = "fixpoint"
            r = self.fixpoint(fr, lp, ent)
        exits, lrets, journal, terms = r
        rets += lrets
        self.journal += journal
        self.terminals += terms
        if self.merge_paths:
            exits = self.merge(fr, exits, mark)
        return exits

    # ------------------------------------------------------------ merging of paths
    def liveness(self, fn):
        """block -> values used in it or after it before they are computed (phis of the block count as computed)"""
        r = self._liveness.get(fn.name)
        if r is not None:
            return r
        use, succ, live = {}, {}, {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    continue
                for o in list(i.ops) + list(getattr(i, "args", None) or ()) + [getattr(i, "callee", None)]:
                    if isinstance(o, (ir.Inst, ir.Arg)) and o not in d:
                        u.add(o)
                d.add(i)
            use[b] = (u, d)
            t = b.insts[-1]
            succ[b] = list(t.targets or ()) if t.op == "br" else [x for x in (t.targets or ())] + [x[1] for x in (t.cases or ())] \
                if t.op == "switch" else []
            live[b] = set(u)
        change = True
        while change:
            change = False
            for b in reversed(fn.blocks):
                out = set()
                for s in succ[b]:
                    phis = set()
                    for i in s.insts:
                        if i.op != "phi":
                            break
                        phis.add(i)
                        for pb, v in i.incoming:
                            if pb is b and isinstance(v, (ir.Inst, ir.Arg)):
                                out.add(v)
                    out |= live[s] - phis
                u, d = use[b]
                n = u | (out - d)
                if not n <= live[b]:
                    live[b] |= n
                    change = True
        self._liveness[fn.name] = live
        return live

    def merge(self, fr, edges, mark, applied=False):
        """edges to one block that agree in every value still needed become one, of which is known what is known on each;
        what is known about values that appeared since the mark and that nothing needs any more is dropped"""
        live = self.liveness(fr.fn)
        groups = {}
        for e in edges:
            need = live[e.block]
            vals = {}
            for i in e.block.insts:
                if i.op != "phi":
                    break
                if applied:
                    vals[i] = e.env.get(i)
                    continue
                for b, v in i.incoming:
                    if b is e.pred:
                        vals[i] = self.val(e.env, v)
            for v in need:
                if v in e.env:
                    vals[v] = e.env[v]
            at = set()
            for v in vals.values():
                self.atoms_of(v, at)
            for o, recs in e.st.mem.items():
                self.atoms_of(o, at)
                self.atoms_of(tuple(x for r in recs for x in r), at)
            for v in list(e.st.flags.values()) + list(e.st.flags) + list(e.st.ghost.values()):
                self.atoms_of(v, at)
            s = e.st.copy()
            ok = lambda l: all(a.id <= mark or a in at for a in l.atoms())
            s.cons = type(s.cons)([c for c in s.cons.cs if ok(c)])
            s.ne = tuple(n for n in s.ne if ok(n))
            k = e.block
            for o in groups.setdefault(k, []):
                if o[0] == vals and o[1].st.mem == s.mem and _fkey(o[1].st.flags) == _fkey(s.flags) and o[1].st.ghost == s.ghost:
                    a = o[1].st
                    cs = [c for c in a.cons.cs if s.entails(c)]
                    cs += [c for c in s.cons.cs if c not in cs and a.entails(c)]
                    j = s.copy()
                    j.ev = s.ev if a.ev is s.ev else None
                    j.cons = type(s.cons)(cs)
                    j.ne = tuple(n for n in a.ne if n in s.ne)
                    o[1].st = j
                    break
            else:
                groups[k].append((vals, Edge(e.block, e.pred, e.env, s)))
        return [x[1] for g in groups.values() for x in g]

    # loop_hook(eng, fr, lp, back_edge): called for every back edge analysed
    def _sub(self, fr, lp, ent):
        """one symbolic traversal of the loop body from a header state"""
        sj, stt = self.journal, self.terminals
        self.journal, self.terminals = [], []
        self.subs += 1
        try:
            rets, backs, exits = [], [], []
            mark = Atom.count
            self.explore(fr, [ent], lp, rets, backs, exits, started=True)
            b2 = []
            for b in backs:
                b2.append(Edge(lp.header, b.pred, self.phis(lp.header, b.pred, b.env), b.st))
                if self.loop_hook:
                    self.loop_hook(self, fr, lp, b2[-1])
            if self.merge_paths:
                b2, exits = self.merge(fr, b2, mark, True), self.merge(fr, exits, mark)
            return b2, exits, rets, self.journal, self.terminals
        finally:
            self.subs -= 1
            self.journal, self.terminals = sj, stt

    def unfold(self, fr, lp, ent):
        """exact unfolding when constants bound the trip count"""
        exits, rets, journal, terms = [], [], [], []
        cur = [ent]
        n = 0
        decided = True
        steps0 = self.steps
        while cur:
            n += 1
            nxt = []
            for c in cur:
                b, x, r, j, t = self._sub(fr, lp, c)
                if b and (x or r or len(b) > 1):
                    decided = False
                nxt += b
                exits += x
                rets += r
                journal += j
                terms += t
                if self.unroll_outer and not self.subs:
                    self.salvage += j
            cur = nxt
            if not cur:
                break
            if decided:
                if n >= self.max_unroll:
                    return None
            elif self.unroll_outer and self._outer(fr, lp):
                if n >= self.unroll_outer or len(cur) > 24 or len(exits) > self.exit_limit:
                    return None
                continue
            elif self.unroll_const:
                # a rule that gives a table constant size wants its slots one by one
                if n >= self.unroll_const or len(cur) > 256 or len(exits) > 1000 or not all(self._header_decided(lp, c) for c in cur):
                    return None
                continue
            elif (n >= 9 and not (n < 80 and len(cur) == 1 and self._header_decided(lp, cur[0]))) \
                    or len(cur) > 24 or len(exits) > 200:
                return None
            if not decided and n >= 2 and not self._const_bounded(lp, cur):
                return None
        self.note_loop(fr, lp, "unfold", n)
        return exits, rets, journal, terms

    def _outer(self, fr, lp):
        """a loop around other loops or calls"""
        return any(o is not lp and o.header in lp.blocks for o in fr.loops.values()) or \
            any(i.op == "call" for b in lp.blocks for i in b.insts)

    def _header_decided(self, lp, e):
        t = lp.header.insts[-1]
        if t.op != "br" or not t.ops:
            return False
        c = t.ops[0]
        if getattr(c, "op", None) != "icmp":
            return False
        for o in c.ops:
            v = e.env.get(o) if isinstance(o, (ir.Inst, ir.Arg)) else self.const(o)
            if not (isinstance(v, IV) and v.const):
                return False
        return True

    def _const_bounded(self, lp, cur):
        """some header phi is a constant that moves: candidate for exact unfolding"""
        for e in cur:
            ok = False
            for i in lp.header.insts:
                if i.op != "phi":
                    break
                v = e.env.get(i)
                if isinstance(v, IV) and v.const:
                    ok = True
            if not ok:
                return False
        return True

    def note_loop(self, fr, lp, mode, n):
        self.loops_seen.append((fr.fn.name, lp.header.insts[0].loc if lp.header.insts else "?", mode, n))

    # variables tracked at a loop header: phis, memory cells, ghosts
    def _vars(self, lp):
        out = []
        for i in lp.header.insts:
            if i.op != "phi":
                break
            out.append(("phi", i))
        return out

    def _get(self, e, v):
        k = v[0]
        if k == "phi":
            return e.env[v[1]]
        if k == "cell":
            _, obj, off, ty = v
            r = self._load(e.st, obj, e.st.mem.get(obj, ()), off, ty, None)
            if len(r) != 1:
                return None
            return r[0][1]
        if k == "ghost":
            return e.st.ghost.get(v[1])
        raise AssertionError

    def _set(self, e, v, val):
        k = v[0]
        if k == "phi":
            e.env[v[1]] = val
        elif k == "cell":
            _, obj, off, ty = v
            self.put(e.st, obj, ("s", off, ty.size, val))
        else:
            e.st.ghost[v[1]] = val

    def _havoc_val(self, v0, name):
        if isinstance(v0, IV):
            return IV(v0.w, var(self.fresh("h:" + name, v0.w, imprecise=True)))
        if isinstance(v0, Lin):
            return var(Atom("h:" + name, None, None, imprecise=True))
        if isinstance(v0, PV):
            if v0.obj is None:
                return PV(self.newobj("h:" + name, "deref", None, False, imprecise=True), ZERO)
            return PV(v0.obj, var(Atom("h:" + name, -(1 << 62), 1 << 62, imprecise=True)))
        if isinstance(v0, FP):
            return FP(v0.k, list(v0.f) + [(Atom("h:" + name, None, None, imprecise=True), 1)])
        if isinstance(v0, Cond):
            return Cond("ne", IV(8, var(Atom("h:" + name, 0, 1, imprecise=True))), ival(8, 0))
        return v0

    def _delta(self, cur, new):
        """('c', n) constant increment, ('l', Lin) linear increment, ('r', FP) ratio, ('=',), None"""
        if cur == new:
            return ("c", 0)
        if isinstance(cur, IV) and isinstance(new, IV) and cur.w == new.w:
            d = modnorm(new.l - cur.l, cur.w)
            return ("c", d.c) if not d.t else ("l", d)
        if isinstance(cur, Lin) and isinstance(new, Lin):
            d = new - cur
            return ("c", d.c) if not d.t else ("l", d)
        if isinstance(cur, PV) and isinstance(new, PV) and cur.obj is new.obj and cur.obj is not None:
            d = new.off - cur.off
            return ("c", d.c) if not d.t else ("l", d)
        if isinstance(cur, FP) and isinstance(new, FP) and cur.k != 0:
            return ("r", new.mul(cur, -1))
        return None

    def _cells(self, st0, backs, mark_obj, mark_atom):
        """memory written by the loop: (cells, regions)"""
        cells, regions = {}, {}
        for b in backs:
            for obj, recs in b.st.mem.items():
                base = st0.mem.get(obj, ())
                if recs is base or recs == base:
                    continue
                if obj.id > mark_obj:
                    continue
                bs = set(id(r) for r in base)
                for r in recs:
                    if id(r) in bs or r in base:
                        continue
                    offs = self.atoms_of(r[1], set()) if r[1] is not None else None
                    local = offs is None or any(a.id > mark_atom for a in offs)
                    if r[0] == "s" and not local:
                        v = r[3]
                        ty = _ty_of(v, r[2])
                        cells[(obj, r[1], r[2])] = ("cell", obj, r[1], ty)
                    else:
                        ln = r[2]
                        if r[0] != "s" and ln is not None:
                            la = self.atoms_of(ln, set()) if isinstance(ln, Lin) else set()
                            if any(a.id > mark_atom for a in la):
                                local = True
                        regions.setdefault(obj, []).append((r[1], ln, local))
        return cells, regions

    def fixpoint(self, fr, lp, ent):
        mark_atom, mark_obj = Atom.count, Obj.count
        name = "%s:%s" % (fr.fn.name, lp.header.name)
        st0 = ent.st
        vs = self._vars(lp)
        for g in sorted(st0.ghost):
            if isinstance(st0.ghost[g], (IV, FP, Lin)):
                vs.append(("ghost", g))
        cells = {}
        regions = {}
        # --- discovery: havoc everything that may change
        backs = []
        multi = set()          # pointers that move from one object to another
        seen = {_fkey(st0.flags): st0.flags}        # typestates an iteration may start in
        for rnd in range(8):
            e = Edge(lp.header, ent.pred, dict(ent.env), st0.copy())
            hv = {}
            for v in vs + list(cells.values()):
                v0 = self._get(ent, v)
                if v0 is None:
                    v0 = self.unknown(v[3], "cell")
                h = self._havoc_val(v0, _vname(v))
                if _vkey(v) in multi:
                    h = PV(self.newobj("h:" + _vname(v), "deref", None, False, imprecise=True), ZERO)
                hv[_vkey(v)] = h
                self._set(e, v, h)
            for obj, rl in regions.items():
                e.st = self.havoc(e.st, obj, *self._region_hull(rl))
                for v in cells.values():
                    if v[1] is obj:
                        self._set(e, v, hv[_vkey(v)])
            backs, c2, r2, grew = [], {}, {}, False
            for fl in list(seen.values()):
                e2 = Edge(e.block, e.pred, dict(e.env), e.st.copy())
                e2.st.flags = dict(fl)
                bs = self._sub(fr, lp, e2)[0]
                backs += bs
                c3, r3 = self._cells(e.st, bs, mark_obj, mark_atom)
                c2.update(c3)
                for o, rl in r3.items():
                    old = r2.setdefault(o, [])
                    old += [r for r in rl if r not in old]
                for b in bs:
                    fk = _fkey(b.st.flags)
                    if fk not in seen and len(seen) < 40:
                        seen[fk] = b.st.flags
                        grew = True
            for v in vs:
                if v[0] == "phi" and _vkey(v) not in multi:
                    v0 = self._get(ent, v)
                    if isinstance(v0, PV) and v0.obj is not None and v0.off == ZERO and v0.obj.attrs.get("key") \
                            and any(isinstance(x, PV) and x.obj is not None and x.obj is not v0.obj and x.off == ZERO
                                    for x in (self._get(b, v) for b in backs)):
                        multi.add(_vkey(v))
                        grew = True
            for k, v in c2.items():
                if k not in cells:
                    cells[k] = v
                    grew = True
            for o, rl in r2.items():
                if o not in regions:
                    regions[o] = []
                    grew = True
                for r in rl:
                    h = (r[0] if not r[2] else None, r[1] if not r[2] else None, r[2])
                    if h not in regions[o]:
                        regions[o].append(h)
                        grew = True
            if not grew:
                break
        if not backs:
            self.note_loop(fr, lp, "once", 1)
            b, x, r, j, t = self._sub(fr, lp, ent)
            return x, r, j, t
        vs = vs + list(cells.values())
        # --- classification
        k = Atom("iter(%s)" % name, 0, 1 << 62, "iter")
        closed = set()
        if multi:
            # counters in closed form first: they tell which element a pointer is at
            for v in vs:
                key = _vkey(v)
                v0 = self._get(ent, v)
                ds = [self._delta(hv[key], self._get(b, v)) if self._get(b, v) is not None else None for b in backs] \
                    if key in hv else []
                if isinstance(v0, (IV, Lin)) and ds and all(d is not None and d[0] == "c" and d[1] == ds[0][1] for d in ds):
                    hv[key] = _addlin(v0, var(k).scale(ds[0][1])) if ds[0][1] else v0
                    closed.add(key)
            e = Edge(lp.header, ent.pred, dict(ent.env), st0.copy())
            for obj, rl in regions.items():
                e.st = self.havoc(e.st, obj, *self._region_hull(rl))
            for v in vs:
                if _vkey(v) in hv:
                    self._set(e, v, hv[_vkey(v)])
            backs = []
            for fl in seen.values():
                e2 = Edge(e.block, e.pred, dict(e.env), e.st.copy())
                e2.st.flags = dict(fl)
                backs += self._sub(fr, lp, e2)[0]
        cls = {}
        monos = []
        rgroups = {}
        init = {}
        for v in vs:
            key = _vkey(v)
            v0 = self._get(ent, v)
            if v0 is None:
                v0 = self.unknown(v[3], "cell")
            init[key] = v0
            ds = []
            for b in backs:
                nv = self._get(b, v)
                ds.append(self._delta(hv.get(key, v0), nv) if nv is not None else None)
            if all(d is not None and d[0] == "c" for d in ds):
                s = set(d[1] for d in ds)
                if len(s) == 1:
                    cls[key] = ("ind", s.pop())
                else:
                    m = Atom("mono(%s:%s)" % (name, _vname(v)), None, None, "mono")
                    cls[key] = ("mono", m, min(s), max(s))
                    monos.append((v, m, min(s), max(s)))
                continue
            if all(d is not None and d[0] == "r" or d == ("c", 0) for d in ds):
                sig = tuple(FP(1.0) if d == ("c", 0) else d[1] for d in ds)
                F = rgroups.get(sig)
                if F is None:
                    F = Atom("factor(%s:%s)" % (name, _vname(v)), None, None, "factor")
                    rgroups[sig] = F
                cls[key] = ("ratio", F)
                continue
            if ds and all(d is not None and d[0] == "l" and d == ds[0] for d in ds):
                cls[key] = ("lin", ds[0][1])
                continue
            cls[key] = ("val",)
        # linear increments: expressible through induction variables only
        sub = {}
        for v in vs:
            key = _vkey(v)
            c = cls[key]
            h = hv.get(key)
            if c[0] == "ind" and h is not None and key not in closed:
                l0, lh = _linof(init[key]), _linof(h)
                if l0 is not None and lh is not None and len(lh.t) == 1:
                    sub[lh.t[0][0]] = l0.add(var(k), c[1])
        # pointers to the element of a container that belongs to the iteration
        back = {k: var(k) + (-1)}
        for v in vs:
            key = _vkey(v)
            if key not in multi or cls[key][0] != "val":
                continue
            ns = [self._get(b, v) for b in backs]
            if not all(isinstance(x, PV) and x.off == ZERO for x in ns):
                continue
            try:
                fs = set(self.rn_obj(self.rn_obj(x.obj, sub, {}), back, {}) for x in ns if x.obj is not None)
            except Unsupported:
                continue
            if len(fs) != 1:
                continue
            F = fs.pop()
            if F.id <= mark_obj and F.attrs.get("key") is None:
                continue
            if any(a.id > mark_atom and a is not k for a in self.atoms_of(F, set())) or \
                    any(o.id > mark_obj and not o.attrs.get("key") for o in self._objs_of(F, set())):
                continue
            cls[key] = ("expr", PV(F, ZERO))
            if self.rn_obj(F, {k: ZERO}, {}) is init[key].obj:
                sub[hv[key].obj] = F
        for v in vs:
            key = _vkey(v)
            c = cls[key]
            if c[0] == "lin":
                try:
                    d = self.rn(c[1], sub, {})
                except Unsupported:
                    d = None
                bad = d is None or any(
                    (a.id > mark_atom and a is not k and not self._pure(a, k, mark_atom)) or
                    any(isinstance(x, Obj) and any(o.id > mark_obj and not o.attrs.get("key")
                                                   for o in self._objs_of(x, set())) for x in a.args)
                    for a in self.atoms_of(d, set()))
                if bad:
                    cls[key] = ("val",)
                else:
                    cls[key] = ("sum", d)
        # --- header states
        gen = {}        # general value of each variable
        tight = {}
        for obj, rl in regions.items():
            rr = r2.get(obj)
            t = None
            if rr and all(r[0] is not None and isinstance(r[1], (int, Lin)) for r in rr) and len(rr) <= 2:
                t = self._tight_region(rr, sub, hv, cls, init, k, mark_atom)
            if t is not None:
                tight[obj] = t

        def general(key, v0):
            c = cls[key]
            if c[0] == "ind":
                if c[1] == 0:
                    return v0
                return _addlin(v0, var(k).scale(c[1]))
            if c[0] == "mono":
                return _addlin(v0, var(c[1]))
            if c[0] == "expr":
                return c[1]
            if c[0] == "sum":
                return _addlin(v0, self.sumatom(k, c[1], var(k)))
            if c[0] == "ratio":
                return FP(v0.k, list(v0.f) + [(c[1], 1)])
            return None
        for v in vs:
            gen[_vkey(v)] = general(_vkey(v), init[_vkey(v)])
        shift = {k: var(k) + (-1)}
        tmpl = [var(k) + (-1)]
        for v, m, dmin, dmax in monos:
            tmpl += [var(m) - var(k).scale(dmin), var(k).scale(dmax) - var(m)]
            if dmin >= 0:
                tmpl.append(var(m))
        for i in range(len(monos)):
            for j in range(i):
                a, b = var(monos[i][1]), var(monos[j][1])
                tmpl += [a - b, b - a, a + b - var(k), var(k) - a - b]
        sums = []
        for v in vs:
            c = cls[_vkey(v)]
            if c[0] == "sum":
                sv = self.sumatom(k, c[1], var(k))
                if any(x is not sv and x[0] == sv for x in sums):
                    continue
                sums.append((sv, c[1]))
                l0 = _linof(init[_vkey(v)])
                if isinstance(init[_vkey(v)], IV) and l0 is not None:
                    tmpl.append(l0 + sv)
                    tmpl.append(num((1 << init[_vkey(v)].w) - 1) - l0 - sv)
                bs = [st0.cons.bounds(c[1])]
                if all(x[0] is not None for x in bs):
                    tmpl.append(sv - var(k).scale(min(x[0] for x in bs)))
                if all(x[1] is not None for x in bs):
                    tmpl.append(var(k).scale(max(x[1] for x in bs)) - sv)
        # thresholds: loop guards of a generic iteration, as bounds on the iteration number
        thr = []
        rthr = []              # the same against variables whose value is kept as it is
        hatom = {}
        for v in vs:
            h = hv.get(_vkey(v))
            if cls[_vkey(v)][0] == "val" and isinstance(h, IV) and len(h.l.t) == 1:
                hatom[h.l.t[0][0]] = _vkey(v)

        def threshold(c):
            if len(thr) < 40 and any(a in sub for a, _ in c.t):
                t = self.rn(c, sub, {})
                kk = [n for a, n in t.t if a is k]
                late = [a for a, _ in t.t if a.id > mark_atom and a is not k]
                if kk and kk[0] < 0 and late and len(rthr) < 8 and all(a in hatom for a in late):
                    t = t + (-kk[0])
                    if t not in rthr:
                        rthr.append(t)
                    return
                if kk and kk[0] < 0 and not any(a.id > mark_atom and a is not k for a, _ in t.t):
                    t = t + (-kk[0])            # one iteration later
                    if t not in thr:
                        thr.append(t)
        for b in backs:
            for c in b.st.cons.cs:
                threshold(c)
            for n in b.st.ne:
                threshold(n + (-1))
                threshold(-n + (-1))
        havocked = {}          # key -> atom (generalised val variables)
        chain = {}
        state = {"exits": [], "rets": [], "journal": [], "terms": []}

        def run(e):
            return self._sub(fr, lp, e)

        # region extents at the general header
        def apply_regions(st):
            for obj, rl in regions.items():
                off, ln = tight.get(obj) or self._region_hull(rl)
                st = self.havoc(st, obj, off, ln)
            return st

        base = apply_regions(st0) if regions else st0

        def header(vals, cons, ne, flags, ghost, first, ev):
            e = Edge(lp.header, ent.pred, dict(ent.env), (st0 if first else base).copy())
            e.st.cons = cons
            e.st.ne = ne
            e.st.flags = dict(flags)
            e.st.ev = ev
            for v in vs:
                self._set(e, v, vals[_vkey(v)])
            return e

        parts = {}
        order = []
        csrc = {}
        fixed = set([k]) | set(m for _, m, _, _ in monos)
        for c in cls.values():
            if c[0] == "ratio":
                fixed.add(c[1])
        # first iteration: exact
        c0 = st0.cons.add([var(k), -var(k)] + [x for v, m, a, b in monos for x in (var(m), -var(m))])
        vals0 = dict(init)
        vals0 = {_vkey(v): (gen[_vkey(v)] if gen[_vkey(v)] is not None and cls[_vkey(v)][0] in ("ind", "mono")
                            else init[_vkey(v)]) for v in vs}
        # sums and ratios are exactly their initial value in the first iteration
        e0 = header(vals0, c0, st0.ne, st0.flags, st0.ghost, True, st0.ev)
        evloop = (st0.ev, ("loop", {"id": lp.id}))
        results = {}
        queue = []

        def arrive(b, src_first):
            """a back edge state -> generalised header partition"""
            flags = b.st.flags
            c3, r3 = self._cells(st0, [b], mark_obj, mark_atom)
            if any(x not in cells for x in c3) or any(o not in regions for o in r3):
                self.incomplete.add("an iteration of %s changes what was not foreseen" % name)
            vals = {}
            memo = {}
            sub2 = dict(shift)
            extra = []
            for v, m, dmin, dmax in monos:
                key = _vkey(v)
                nv = self._get(b, v)
                # m' = nv - v0
                d = _linof(nv) - _linof(init[key]) if nv is not None else None
                if d is None:
                    raise Unsupported("mono")
                dd = d - var(m)
                if dd.t:
                    dd = None
                if dd is None:
                    raise Unsupported("mono")
                sub2[m] = var(m) + (-dd.c)
            hv_new, same = {}, {}
            for v in vs:
                key = _vkey(v)
                c = cls[key]
                if key in havocked:
                    continue
                if c[0] == "expr" and self._get(b, v).obj is None:
                    vals[key] = NULL
                    continue
                if c[0] in ("ind", "mono", "sum", "ratio", "expr"):
                    vals[key] = gen[key]
                    continue
                nv = self._get(b, v)
                if nv is None:
                    nv = UNDEF
                vals[key] = self.rn(nv, sub2, memo)
            # quantities created inside the loop and carried to the next iteration get
            # canonical names (alpha-renaming), so that the header value is the same
            # every time round
            ren = self._canon_sources(lp, [vals[_vkey(v)] for v in vs if _vkey(v) in vals
                                           and cls[_vkey(v)][0] == "val"],
                                      mark_atom, mark_obj, fixed, csrc)
            if ren:
                for key in list(vals):
                    vals[key] = self.rn(vals[key], ren, {})
                flags = {self._rnflag(kk, ren): self._rnflag(x, ren) for kk, x in flags.items()}
            # generalised (havocked) variables: new value constrains the fresh atom
            for v in vs:
                key = _vkey(v)
                if key not in havocked:
                    continue
                h = havocked[key]
                nv = self._get(b, v)
                if len(havocked) <= 3 and isinstance(nv, IV) and isinstance(init[key], IV) and nv.l == init[key].l:
                    vals[key] = init[key]        # still what it was before the loop
                    same[key] = nv
                    continue
                hv_new[key] = (h, nv)
            for t in twins:
                x, y = (hv_new[q][1] if q in hv_new else same.get(q) for q in t)
                if not (isinstance(x, IV) and isinstance(y, IV)):
                    differ.add(t)
                    continue
                d = modnorm(x.l - y.l, x.w)
                if d.t or d.c:
                    differ.add(t)
            # old havoc atoms must not be confused with the new ones
            hsub = {}
            for key, (h, nv) in hv_new.items():
                l = _linof(h)
                if l is not None and l.t:
                    hsub[l.t[0][0]] = var(Atom("old:" + l.t[0][0].name, l.t[0][0].lo, l.t[0][0].hi, imprecise=True))
            if hsub:
                sub3 = dict(sub2)
                sub3.update(hsub)
            else:
                sub3 = sub2
            memo3 = {} if hsub else memo
            cons = [self.rn(c, sub3, memo3) for c in b.st.cons.cs]
            ne = tuple(self.rn(n, sub3, memo3) for n in b.st.ne)
            if ren:
                mm = {}
                cons = [self.rn(c, ren, mm) for c in cons]
                ne = tuple(self.rn(n, ren, mm) for n in ne)
            defs = []
            for key, (h, nv) in hv_new.items():
                vals[key] = h
                lh, ln = _linof(h), _linof(nv)
                if isinstance(h, PV) and (not isinstance(nv, PV) or h.obj is not nv.obj):
                    continue
                if lh is not None and ln is not None:
                    if isinstance(nv, IV):
                        r = self.canon(b.st, nv)
                        if len(r) != 1:
                            continue
                        ln = r[0][1]
                    ln = self.rn(ln, sub3, memo3)
                    if ren:
                        ln = self.rn(ln, ren, {})
                    cons += [lh - ln, ln - lh]
                    defs.append((lh, ln))
                    lds = {}
                    for c in cons:
                        for a in c.atoms():
                            if a.kind == "ld" and a not in lds:
                                lds[a] = self._at_index(a, ln, lh)
                    lds = {a: x for a, x in lds.items() if x is not None}
                    if lds:
                        cons += [x for x in (c.subst(lds) for c in cons if any(a in lds for a in c.atoms()))]
            # order of the generalised integers among each other and their first values
            htmpl = []
            hs = [(_linof(havocked[q]), _linof(init[q])) for q in havocked if q in hv_new and isinstance(init[q], IV)]
            for i, (x, x0) in enumerate(hs):
                for y in [z for z, _ in hs[:i]] + [z0 for _, z0 in hs] + [_linof(init[q]) for q in same]:
                    htmpl += [x - y, y - x, x - y + (-1), y - x + (-1)]
            if src_first:
                for sv, d in sums:
                    x = sv - self.rn(d, {k: ZERO}, {})
                    cons += [x, -x]
            full = Cons(cons)
            if not _sat(full):
                if _sat(b.st.cons):
                    # what is explored stays true, but it is not everything
                    self.incomplete.add("a back edge of %s was lost" % name)
                return
            pk = (tuple((_vkey(v), vals[_vkey(v)]) for v in vs), _fkey(flags))
            live = set()
            for v in vs:
                self.atoms_of(vals[_vkey(v)], live)
            for kk, x in _fkey(flags):
                self.atoms_of(x, live)
            live.add(k)
            for v, m, _, _ in monos:
                live.add(m)

            def ok(c):
                for a, _ in c.t:
                    if a.id <= mark_atom or a in live:
                        continue
                    if self._pure(a, k, mark_atom, live):
                        continue
                    return False
                return True
            old = parts.get(pk)
            if old is None:
                # constraints of the arriving state over surviving atoms + templates
                keep = [c for c in full.cs if ok(c)]
                # what is known about the quantities that the generalised variables now stand for
                elim = {}
                for lh, ln in defs:
                    l2 = ln.subst(elim) if elim else ln
                    for a, co in l2.t:
                        if co == 1 and a.id > mark_atom and a not in live and a not in elim and not ok(var(a)):
                            elim[a] = lh - (l2 - var(a))
                            break
                if elim:
                    for c in full.cs:
                        if any(a in elim for a, _ in c.t):
                            c2 = c.subst(elim)
                            if c2.t and c2 not in keep and ok(c2):
                                keep.append(c2)
                # widen: the iteration number is only bounded below
                keep = [c for c in keep if not (src_first and len(c.t) == 1 and c.t[0][0] is k and c.t[0][1] < 0)]
                rel = []
                for t in rthr:
                    m = {a: _linof(vals[hatom[a]]) for a in t.atoms() if a in hatom}
                    if all(x is not None for x in m.values()):
                        t = t.subst(m)
                        if t.t and ok(t) and any(a is k for a in t.atoms()):
                            rel.append(t)
                for t in tmpl + htmpl + rel:
                    if full.entails(t):
                        keep.append(t)
                if src_first:
                    for t in thr:
                        if full.entails(t):
                            keep.append(t)
                nes = tuple(n for n in ne if ok(n))
                parts[pk] = [Cons(()).add(keep), nes, vals, dict(flags)]
                order.append(pk)
                queue.append(pk)
                for v in vs:
                    key = _vkey(v)
                    if cls[key][0] == "val" and key not in havocked:
                        x = vals[key]
                        cset = chain.setdefault(key, set())
                        cset.add(x if _hashable(x) else repr(x))
                return
            keep = [c for c in old[0].cs if full.entails(c)]
            nes = tuple(n for n in old[1] if n in ne or full.entails(n + (-1)) or full.entails((-n) + (-1)))
            if len(keep) != len(old[0].cs) or len(nes) != len(old[1]):
                # weaker: also try constraints of the new state that the old one satisfies
                weaker[pk] = weaker.get(pk, 0) + 1
                more = [c for c in full.cs if ok(c) and c not in keep and old[0].entails(c)] if weaker[pk] < 8 else []
                old[0] = Cons(()).add(keep + more)
                old[1] = nes
                if pk not in queue:
                    queue.append(pk)

        rounds = 0
        weaker = {}
        seen, twins, differ = {}, [], set()
        first_res = run(e0)
        for b in first_res[0]:
            arrive(b, True)
        limit_parts = 16 + 4 * self.chain_limit
        while queue or any(t in differ for t in twins):
            rounds += 1
            if rounds > 160 + 20 * self.chain_limit:
                raise Budget("loop rounds in " + name)
            if any(t in differ for t in twins):
                for t in [t for t in twins if t in differ]:
                    twins.remove(t)
                    havocked[t[1]] = self._havoc_val(init[t[1]], str(t[1]))
                parts.clear()
                queue.clear()
                results.clear()
                chain.clear()
                for b in first_res[0]:
                    arrive(b, True)
                continue
            # generalise variables whose exact values keep growing
            big = [key for key, s in chain.items() if key not in havocked and self._too_many(s)]
            if big or len(parts) > limit_parts:
                if not big:
                    big = sorted((key for key in chain if key not in havocked),
                                 key=lambda q: -len(chain[q]))[:1]
                    if not big:
                        raise Budget("loop partitions in " + name)
                for key in big:
                    v0 = init[key]
                    # integers that have always been equal stay equal until shown otherwise
                    twin = [q for q in havocked if isinstance(v0, IV) and isinstance(init[q], IV) and init[q].w == v0.w
                            and seen.get(q) == chain[key] and (q, key) not in differ]
                    seen[key] = set(chain[key])
                    if twin:
                        havocked[key] = havocked[twin[0]]
                        twins.append((twin[0], key))
                        continue
                    havocked[key] = self._havoc_val(v0, key[-1] if isinstance(key[-1], str) else str(key))
                    self.notes.append("generalised %s in %s" % (key, name))
                    # unknown pointer objects: fully unknown
                    vals_seen = chain[key]
                    if isinstance(v0, PV) and any(not (isinstance(x, PV) and x.obj is v0.obj) for x in vals_seen):
                        havocked[key] = PV(self.newobj("h:%s" % (key,), "deref", None, False, imprecise=True), ZERO)
                parts.clear()
                queue.clear()
                results.clear()
                chain.clear()
                for b in first_res[0]:
                    arrive(b, True)
                continue
            pk = queue.pop(0)
            cons, ne, vals, flags = parts[pk]
            e = header(vals, cons, ne, flags, None, False, evloop)
            if not _sat(cons):
                results[pk] = ([], [], [], [], [])
                continue
            res = run(e)
            results[pk] = res
            for b in res[0]:
                arrive(b, False)
        ex, rt, jr, tm = list(first_res[1]), list(first_res[2]), list(first_res[3]), list(first_res[4])
        for pk in order:
            if pk in results and pk in parts:
                r = results[pk]
                ex += r[1]
                rt += r[2]
                jr += r[3]
                tm += r[4]
                results.pop(pk)
        self.note_loop(fr, lp, "fixpoint", len(parts))
        return ex, rt, jr, tm

    def _rnflag(self, x, ren):
        if isinstance(x, tuple):
            return tuple(self._rnflag(y, ren) for y in x)
        if isinstance(x, (Lin, IV, PV, Obj, Atom)):
            return self.rn(x, ren, {})
        return x

    def _canon_sources(self, lp, vals, mark_atom, mark_obj, fixed, csrc):
        order, seen = [], set()

        def visit(x):
            if isinstance(x, Lin):
                for a, _ in x.t:
                    visit(a)
            elif isinstance(x, Atom):
                if x in seen:
                    return
                seen.add(x)
                if x.args:
                    for y in x.args:
                        visit(y)
                elif x.id > mark_atom and x not in fixed and x.kind == "sym" and not x.name.startswith("h:"):
                    order.append(x)
            elif isinstance(x, IV):
                visit(x.l)
            elif isinstance(x, PV):
                visit(x.off)
                if x.obj is not None:
                    visit(x.obj)
            elif isinstance(x, Obj):
                if x in seen:
                    return
                seen.add(x)
                kk = x.attrs.get("key")
                if kk:
                    for y in kk[1:]:
                        visit(y)
                elif x.kind == "draw" and x.id > mark_obj:
                    order.append(x)
            elif isinstance(x, Cond):
                visit(x.a)
                visit(x.b)
            elif isinstance(x, FP):
                for f, _ in x.f:
                    visit(f)
            elif isinstance(x, AggV):
                for y in x.e:
                    visit(y)
            elif isinstance(x, tuple):
                for y in x:
                    visit(y)
        for v in vals:
            visit(v)
        ren = {}
        n = 0
        for x in order:
            if isinstance(x, Obj):
                key = ("o", n, x.kind, x.size)
            else:
                key = ("a", n, x.lo, x.hi, x.width, x.imprecise)
            c = csrc.get(key)
            if c is None:
                if isinstance(x, Obj):
                    c = self.newobj("cur%d:%s" % (n, x.name), x.kind, x.size)
                    c.attrs.update(x.attrs)
                else:
                    c = Atom("cur%d:%s" % (n, x.name), x.lo, x.hi, "sym", (), x.width, x.imprecise)
                csrc[key] = c
            ren[x] = c if isinstance(c, Obj) else var(c)
            n += 1
        # canonical names of the previous iteration that are no longer carried
        for c in csrc.values():
            if c not in ren:
                if isinstance(c, Obj):
                    o = self.newobj("old:" + c.name, c.kind, c.size)
                    o.attrs.update(c.attrs)
                    ren[c] = o
                else:
                    ren[c] = var(Atom("old:" + c.name, c.lo, c.hi, "sym", (), c.width, c.imprecise))
        if all((r == var(x) if isinstance(x, Atom) else r is x) for x, r in ren.items()):
            return None
        return ren

    def _too_many(self, s):
        nonconst = [x for x in s if not (isinstance(x, IV) and x.const)]
        return len(nonconst) > self.chain_limit or len(s) > self.const_limit + self.chain_limit

    def _at_index(self, a, ln, lh):
        """the element load `a`, when its index is a constant away from ln, expressed through lh"""
        if not ln.t or not isinstance(a.args[1], Lin):
            return None
        x, cx = ln.t[0]
        cy = [n for b, n in a.args[1].t if b is x]
        if not cy or cy[0] % cx:
            return None
        m = cy[0] // cx
        d = a.args[1] - ln.scale(m)
        if d.t:
            return None
        return self.ld_atom(a.args[0], lh.scale(m) + d.c, a.args[2])

    def _pure(self, a, k, mark, live=()):
        """atom expressible over pre-loop atoms and the iteration number"""
        if a.id <= mark or a is k or a in live:
            return True
        if not a.args:
            return False
        ok = True

        def chk(x):
            nonlocal ok
            if isinstance(x, Lin):
                for b, _ in x.t:
                    if not self._pure(b, k, mark, live):
                        ok = False
            elif isinstance(x, Atom):
                if not self._pure(x, k, mark, live):
                    ok = False
            elif isinstance(x, Obj):
                kk = x.attrs.get("key")
                if kk:
                    for y in kk[1:]:
                        chk(y)
            elif isinstance(x, (IV,)):
                chk(x.l)
            elif isinstance(x, PV):
                chk(x.off)
                if x.obj is not None:
                    chk(x.obj)
            elif isinstance(x, tuple):
                for y in x:
                    chk(y)
        for x in a.args:
            chk(x)
        return ok

    def _tight_region(self, rr, sub, hv, cls, init, k, mark):
        """[off, off+len) covering what the first k iterations write, when the offset of the
        one write advances by a constant step"""
        res = None
        for off, ln, _ in rr:
            ln = num(ln) if isinstance(ln, int) else ln
            if any(a.id > mark for a in self.atoms_of(ln, set())):
                return None
            o2 = ZERO + off.c
            for a, c in off.t:
                x = sub.get(a)
                if x is None:
                    if a.id > mark or self.atoms_of(var(a), set()) & set(sub):
                        return None
                    x = var(a)
                o2 = o2.add(x, c)
            ck = [c for a, c in o2.t if a is k]
            step = ck[0] if ck else 0
            if step < 0 or any(k in self.atoms_of(var(a), set()) for a, _ in o2.t if a is not k):
                return None
            start = o2.add(var(k), -step)
            # iteration j writes [start+step*j, start+step*j+ln); j < k
            if step == 0:
                tot = ln
            elif not ln.t:
                tot = var(k).scale(step) + max(0, ln.c - step)
            else:
                return None
            if res is None:
                res = (start, tot)
            else:
                d = start - res[0]
                if d.t:
                    return None
                if d.c < 0:
                    return None
                e = (tot + d) - res[1]
                if e.t:
                    return None
                res = (res[0], res[1] + max(0, e.c))
        return res

    def _region_hull(self, rl):
        if any(r[2] or r[0] is None for r in rl):
            return (None, None)
        if len(rl) == 1:
            ln = rl[0][1]
            return (rl[0][0], num(ln) if isinstance(ln, int) else ln)
        return (None, None)


def _sat(cons):
    from .poly import infeasible
    return not infeasible(list(cons.cs))


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _fkey(flags):
    return tuple(sorted(flags.items(), key=lambda kv: str(kv[0])))


def _vname(v):
    if v[0] == "phi":
        return v[1].name
    if v[0] == "cell":
        return "%s+%r" % (v[1].name, v[2])
    return "ghost." + v[1]


def _vkey(v):
    if v[0] == "phi":
        return ("phi", v[1].id, v[1].name)
    if v[0] == "cell":
        return ("cell", v[1].id, v[2], v[3].size)
    return ("ghost", v[1])


def _linof(v):
    if isinstance(v, IV):
        return v.l
    if isinstance(v, PV):
        return v.off
    if isinstance(v, Lin):
        return v
    return None


def _addlin(v, l):
    if isinstance(v, IV):
        return IV(v.w, v.l + l)
    if isinstance(v, PV):
        return PV(v.obj, v.off + l)
    if isinstance(v, Lin):
        return v + l
    raise Unsupported("addlin %r" % (v,))


class _T:
    pass


def _mkty(kind, width, size):
    t = ir.Type()
    t.kind, t.width, t.size = kind, width, size
    t.elem = t.fields = t.offsets = t.name = None
    t.count = 0
    return t


_I8 = _mkty("int", 8, 1)
_I16 = _mkty("int", 16, 2)
_I32 = _mkty("int", 32, 4)
_I64 = _mkty("int", 64, 8)
_PTR = _mkty("ptr", 64, 8)
_DBL = _mkty("double", 0, 8)
INT = {1: _I8, 2: _I16, 4: _I32, 8: _I64}


def _ty_of(v, size):
    if isinstance(v, (PV, FV)):
        return _PTR
    if isinstance(v, FP):
        return _DBL
    if isinstance(v, IV):
        return INT.get(size) or _mkty("int", 8 * size, size)
    return INT.get(size) or _PTR


_NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
        "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
_CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
        "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b,
        "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b,
        "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
        "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}


def _bitop(op, p, q):
    if op == "and":
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1:
            return p
        return p if p == q and p is not None else None
    if op == "or":
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0:
            return p
        return p if p == q and p is not None else None
    if p == 0:
        return q
    if q == 0:
        return p
    if p in (0, 1) and q in (0, 1):
        return p ^ q
    if p is not None and p == q:
        return 0
    return None
