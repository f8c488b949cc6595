"""Keys of hash maps (H02): the two key contexts and the hash function they use.

Keys are texts of arbitrary length: zero terminated code units of 8 or 32 bits.  What comparing functions of the C library
found out is kept as facts of a path; a verdict on equality must follow from them.
"""
from ..interp import State, INT, Unsupported
from ..interp import _PTR as PTR
from ..terms import Atom, num, var, ZERO, IV, ival, PV, NULL, FV
from ..libc import conststr
from .cli import sayer, at_start, at
from .container import Sink, watch, drain, HLAYOUT

I1, I32, I64 = INT[1], INT[4], INT[8]


class Base:
    def __init__(self, ck, cfg, what, where):
        self.ck, self.cfg, self.what, self.where = ck, cfg, what, where
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, where)
        self.L = ck.layout(HLAYOUT, cfg)
        at_start(e)
        watch(e, Sink(ck, "%s, %s" % (what, cfg)))

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s, %s]" % (msg, self.what, self.cfg), imp, where)

    def done(self):
        drain(self.ck, self.e)
        self.ck.note(self.e)

    def func(self, ctx, name):
        e = self.e
        g = next((g for n, g in e.m.globals.items() if n == ctx), None)
        if g is None:
            from ..check import Anchor
            raise Anchor("%s is not there" % ctx)
        st = State()
        o = e.gobj(g)
        v = e.load(st, PV(o, num(self.L["ctx." + name])), PTR)[0][1]
        if not isinstance(v, FV):
            raise Unsupported("the function of the context cannot be told")
        return v.fn

    def text(self, name, unit):
        """a text of any length"""
        e = self.e
        n = var(Atom("len(%s)" % name, 0, 1 << 40))
        o = e.param(name, (n + 1).scale(unit))
        o.nonnull = True
        if unit == 1:
            o.attrs["strlen"] = n

        def load(e, st, obj, off, ty):
            if ty.kind != "int" or ty.size != unit:
                return None
            if unit == 1:
                k = off
            else:
                if off.c % 4 or any(c % 4 for _, c in off.t):
                    return None
                k = num(off.c // 4) + sum((var(a).scale(c // 4) for a, c in off.t), ZERO)
            out = []
            for s, lo in ((st.assume([n - k + (-1)]), 1), (st.assume([n - k, k - n]), 0)):
                if s is None:
                    continue
                if not lo:
                    out.append((s, ival(8 * unit, 0)))
                    continue
                a = e.keyed("ld", (obj, off, unit), 1, (1 << 8 * unit) - 1, "%s[%r]" % (name, k), 8 * unit)
                out.append((s, IV(8 * unit, var(a))))
            s = st.assume([k - n + (-1)])
            if s is not None:
                out.append((s, e.unknown(ty)))
            return out
        o.attrs["init"] = load
        return o, n


class Equal(Base):
    def __init__(self, ck, cfg, ctx, unit):
        Base.__init__(self, ck, cfg, "keys of %d bits" % (8 * unit), "src/container/hashmap.c:%s.equal" % ctx)
        self.ctx, self.unit = ctx, unit
        for n in ("strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp", "bcmp", "strcoll"):
            self.e.hooks[n] = lambda e, st, a, i, n=n: self.compare(n, st, a, i)

    def compare(self, name, st, a, i):
        """[(state, result)]: equal or not, remembered"""
        e = self.e
        p, q = e.aspv(a[0]), e.aspv(a[1])
        n = None
        if name in ("strncmp", "memcmp", "bcmp", "strncasecmp"):
            c = e.canon(st, e.iv(a[2], 64))
            if len(c) != 1:
                raise Unsupported("how much is compared is not known")
            st, n = c[0]
        both = {p.obj, q.obj} == {self.l, self.r} and st.eq(p.off, ZERO) and st.eq(q.off, ZERO)
        if name in ("memcmp", "bcmp"):
            for x in (p, q):
                if n.t or n.c:
                    st = e.access(st, "load", x, n, i)
                    if st is None:
                        return []
        out = []
        for same in (True, False):
            s = st.copy()
            if both:
                s.flags["facts"] = s.flags.get("facts", ()) + ((name, n, same),)
            if same:
                out.append((s, ival(32, 0)))
            else:
                for v in (1, 0xffffffff):
                    s = s.copy()
                    out.append((s, ival(32, v)))
        return out

    def holds(self, s):
        """(the texts are known to be equal, known to differ) on a path"""
        nl, nr = self.nl, self.nr
        u = self.unit
        samelen = s.eq(nl, nr)
        difflen = s.assume([nl - nr, nr - nl]) is None
        eq, ne = False, difflen
        for name, n, same in s.flags.get("facts", ()):
            if name in ("strcmp", "strncmp") and u == 1:
                whole = n is None or s.entails(n - nl) and s.entails(n - nr) and samelen or s.entails(n - nl + (-1)) or s.entails(n - nr + (-1))
                eq = eq or same and whole
                ne = ne or not same
            elif name in ("memcmp", "bcmp"):
                whole = samelen and s.entails(n - nl.scale(u)) or any(s.entails(n - (x + 1).scale(u)) for x in (nl, nr))
                inside = any(s.entails((x + 1).scale(u) - n) for x in (nl, nr))
                eq = eq or same and whole
                ne = ne or not same and inside
        if samelen and s.eq(nl, ZERO):
            eq = True
        return eq, ne

    def run(self):
        e = self.e
        self.l, self.nl = self.text("left", self.unit)
        self.r, self.nr = self.text("right", self.unit)
        m = e.param("map", num(self.L["map.size"]))
        n = 0
        fn = self.func(self.ctx, "equal")
        for s, r in e.call(State(), fn, [PV(m, ZERO), PV(self.l, ZERO), PV(self.r, ZERO)]):
            n += 1
            for val in (True, False):
                for s2 in (e.assume_cond(s, r, val) if not isinstance(r, IV) else self.split(s, r, val)):
                    eq, ne = self.holds(s2)
                    imp = bool(e.unknown_calls) or isinstance(r, IV) and e.imprecise(r.l) or not s2.flags.get("facts") and not (eq or ne)
                    if val:
                        self.say(eq, "equality", "two keys that need not be equal are taken for equal", imp)
                    else:
                        self.say(ne, "equality", "two keys that may be equal are taken for different", imp)
        self.say(n > 0, "equality", "comparing never returns", bool(e.unknown_calls))
        self.done()

    def split(self, s, r, val):
        out = []
        for s2, v in self.e.canon(s, r.l and r or r):
            t = s2.assume([v + (-1)]) if val else s2.assume([-v])
            if t is not None:
                out.append(t)
        return out


class Hash(Base):
    def __init__(self, ck, cfg, ctx, unit):
        Base.__init__(self, ck, cfg, "keys of %d bits" % (8 * unit), "src/container/hashmap.c:%s.hash" % ctx)
        self.ctx, self.unit = ctx, unit
        self.e.hooks["passgen_siphash"] = self.siphash

    def siphash(self, e, st, a, i):
        p, k, out = e.aspv(a[0]), e.aspv(a[2]), e.aspv(a[3])
        res = []
        for s, n in e.canon(st, e.iv(a[1], 64)):
            for s2, m in e.canon(s, e.iv(a[4], 64)):
                self.say(p.obj is self.key and s2.eq(p.off, ZERO), "hash", "%r is hashed, which is not the start of the key" % p, e.imprecise(p), at(i))
                whole = s2.eq(n, self.n.scale(self.unit)) or s2.eq(n, self.n)
                self.say(whole, "hash", "%r bytes of a key of length %r are hashed" % (n, self.n), e.imprecise(n), at(i))
                self.say(s2.entails(self.n.scale(self.unit) - n), "hash", "more than the key is hashed", e.imprecise(n), at(i))
                if not self.say(s2.eq(m, num(8)), "hash", "a hash of %r bytes is asked for" % m, e.imprecise(m), at(i)):
                    continue
                s3 = e.access(s2, "load", k, num(16), i)
                if s3 is None:
                    continue
                key = self.bytes(s3, k)
                self.say(key is not None, "hash", "the key of the hash function is not constant", True, at(i))
                h = e.user_atom("hash", (str(key),), 0, (1 << 64) - 1, 64)
                for s4 in e.store(s3, out, IV(64, h), I64, i):
                    s4 = s4.copy()
                    s4.flags["keys"] = s4.flags.get("keys", ()) + (key,)
                    res.append((s4, ival(32, 0)))
        return res

    def bytes(self, st, p):
        if p.obj is None or p.obj.kind != "global":
            return None
        out = []
        keep, self.e.on_access = self.e.on_access, None
        for j in range(16):
            r = self.e.load(st, PV(p.obj, p.off + j), I1)
            v = self.e.iv(r[0][1], 8)
            if len(r) != 1 or not v.const:
                out = None
                break
            out.append(v.u)
        self.e.on_access = keep
        return bytes(out) if out is not None else None

    def run(self):
        e = self.e
        self.key, self.n = self.text("key", self.unit)
        m = e.param("map", num(self.L["map.size"]))
        got = {}
        init, fn = self.func(self.ctx, "init"), self.func(self.ctx, "hash")
        for s0, _ in e.call(State(), init, [PV(m, ZERO)]):
            for first in (1, 0):
                n = 0
                for s, r in e.call(s0, fn, [PV(m, ZERO), PV(self.key, ZERO), ival(1, first)]):
                    n += 1
                    keys = s.flags.get("keys", ())
                    imp = bool(e.unknown_calls)
                    if not self.say(len(keys) == 1, "hash", "the key is hashed %d times" % len(keys), True):
                        continue
                    for s2, v in e.canon(s, e.iv(r, 64)):
                        self.say(s2.eq(v, e.user_atom("hash", (str(keys[0]),), 0, (1 << 64) - 1, 64)), "hash", "the hash returned is %r" % v, imp or e.imprecise(v))
                    got.setdefault(first, set()).add(keys[0])
                self.say(n > 0, "hash", "hashing never returns", bool(e.unknown_calls))
        for first in (1, 0):
            self.say(len(got.get(first, ())) <= 1, "hash", "the same key can be hashed in different ways", None in got.get(first, ()))
        if got.get(0) and got.get(1):
            self.say(not (got[0] & got[1]), "hash", "both positions of a key are computed with the same key of the hash function", None in got[0] | got[1])
        self.done()


class Sip(Base):
    """the hash function reads its inputs and writes its output completely, and nothing else"""

    def __init__(self, ck, cfg, rest, outlen):
        Base.__init__(self, ck, cfg, "any length 8q+%d, output of %d bytes" % (rest, outlen), "src/util/siphash.c:passgen_siphash")
        self.rest, self.outlen = rest, outlen

    def run(self):
        e = self.e
        q = var(Atom("q", 0, 1 << 30))
        n = q.scale(8) + self.rest
        w = Atom("byte", 0, 1 << 34)
        k = Atom("keybyte", 0, 15)
        src, key, out = e.param("in", n), e.param("k", num(16)), e.param("out", num(self.outlen))
        old = Atom("old", 0, 255, width=8)
        some = self.rest or self.outlen == 8

        def load(flag, wa):
            def f(e, st, obj, off, ty):
                if ty.kind != "int" or ty.size != 1:
                    st = st.copy()
                    raise Unsupported("bytes are read by words")
                v = IV(8, var(junk8))
                if st.flags.get(flag):
                    return [(st, v)]
                res = []
                s = st.assume([off - var(wa), var(wa) - off])
                if s is not None:
                    s = s.copy()
                    s.flags[flag] = True
                    res.append((s, v))
                s = st.assume_ne(off - var(wa))
                if s is not None:
                    res.append((s, v))
                return res
            return f
        # what is computed from the bytes does not matter here
        junk8, junk = Atom("byte value", 0, 255, width=8), Atom("value", 0, (1 << 64) - 1, width=64)
        binop = e.binop

        def opaque(st, op, x, y, w, *more):
            if w == 64 and any(isinstance(v, IV) and any(a is junk or a is junk8 for a, _ in v.l.t) for v in (x, y)):
                return [(st, IV(64, var(junk)))]
            return binop(st, op, x, y, w, *more)
        e.binop = opaque
        src.attrs["init"] = load("read", w)
        key.attrs["init"] = load("keyread", k)
        fn = self.ck.fn("passgen_siphash", self.cfg)
        for empty in ((True, False) if not self.rest else (False,)):
            st = State()
            st = st.assume([-q]) if empty else st.assume([n - var(w) + (-1)])
            m = 0
            for s, r in e.call(st, fn, [PV(src, ZERO), IV(64, n), PV(key, ZERO), PV(out, ZERO), ival(64, self.outlen)]):
                m += 1
                imp = bool(e.unknown_calls)
                self.say(empty or s.flags.get("read"), "siphash", "a byte of the input is never read", imp)
                self.say(s.flags.get("keyread"), "siphash", "a byte of the key is never read", imp)
                for j in range(self.outlen):
                    keep, e.on_access = e.on_access, None
                    for s2, v in e.load(s, PV(out, num(j)), I1):
                        l = e.iv(v, 8).l
                        self.say(not any(a.kind == "ld" and a.args[0] is out for a, _ in l.t), "siphash", "byte %d of the output is not written" % j, imp)
                    e.on_access = keep
            self.say(m > 0, "siphash", "hashing never returns", bool(e.unknown_calls))
        self.done()


def H02(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(HLAYOUT, cfg)
        for ctx, unit in (("passgen_hashmap_context_utf8", 1), ("passgen_hashmap_context_utf32", 4)):
            jobs.append(lambda c=cfg, a=(ctx, unit): ck.guarded("equality", "%s, %s" % (a[0], c), Equal(ck, c, *a).run))
            jobs.append(lambda c=cfg, a=(ctx, unit): ck.guarded("hash", "%s, %s" % (a[0], c), Hash(ck, c, *a).run))
        for rest in range(8):
            for outlen in (8, 16) if rest == 3 else (8,):
                jobs.append(lambda c=cfg, a=(rest, outlen): ck.guarded("siphash", "rest %d, output %d, %s" % (a[0], a[1], c), Sip(ck, c, *a).run))
    ck.parallel(jobs)
