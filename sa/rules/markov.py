"""Markov chains (M01 to M04): src/markov.c.

M01 decides what inserting into one table (node or leaf) does, for any capacity, and that growing a table keeps what
it holds.  M02 decides which sequences a word is broken into and where they end up.  M03 decides how a code point is chosen.
M04 follows the release of a chain.
"""
from ..interp import State, INT, Budget, Unsupported
from ..interp import _PTR as PTR, _DBL as DBL
from ..terms import Atom, num, var, ZERO, IV, ival, PV, NULL, FP
from ..libc import h_memset
from .cli import sayer, at_start, at
from .container import Sink, watch, drain, alive

I8, I32, I64 = INT[1], INT[4], INT[8]
ML = {"leaf": "sizeof(passgen_markov_leaf)", "leaf.total": "offsetof(passgen_markov_leaf,total_count)",
      "leaf.cap": "offsetof(passgen_markov_leaf,capacity)", "leaf.entries": "offsetof(passgen_markov_leaf,entries)",
      "node": "sizeof(passgen_markov_node)", "node.cap": "offsetof(passgen_markov_node,capacity)",
      "node.entries": "offsetof(passgen_markov_node,entries)", "markov": "sizeof(passgen_markov)",
      "level": "offsetof(passgen_markov,level)", "count": "offsetof(passgen_markov,count)", "root": "offsetof(passgen_markov,root)"}
FILE = "src/markov.c"


class Table:
    """where things are in a node or leaf of a given capacity (odd for nodes: c = 2h + 1)"""

    def __init__(self, L, kind, h):
        self.L, self.kind = L, kind
        self.c = h.scale(2) + 1
        self.e = L[kind + ".entries"]
        self.second = self.c.scale(4) + self.e if kind == "leaf" else (h + 1).scale(8) + self.e
        self.w = 4 if kind == "leaf" else 8
        self.size = self.second + self.c.scale(self.w)

    def cp(self, k):
        return k.scale(4) + self.e

    def val(self, k):
        return self.second + k.scale(self.w)

    def index(self, off, s):
        """the slot an offset belongs to, as (field, index), given what is known"""
        for field, base, w in (("cp", num(self.e), 4), ("val", self.second, self.w)):
            d = off - base
            if d.c % w or any(c % w for _, c in d.t):
                continue
            k = num(d.c // w) + sum((var(a).scale(c // w) for a, c in d.t), ZERO)
            if s.entails(k) and s.entails(self.c - k + (-1)):
                return field, k
        return None, None


class Base:
    def __init__(self, ck, cfg, what, fn):
        self.ck, self.cfg, self.what = ck, cfg, what
        self.where = "%s:%s" % (FILE, fn)
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.L = ck.layout(ML, cfg)
        at_start(e)
        watch(e, Sink(ck, "%s, %s" % (what, cfg)))

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s, %s]" % (msg, self.what, self.cfg), imp, where)

    def done(self):
        drain(self.ck, self.e)
        self.ck.note(self.e)

    def get(self, st, p, ty):
        """[(state, Lin or PV)]"""
        out = []
        keep, self.e.on_access = self.e.on_access, None
        r = self.e.load(st, p, ty)
        self.e.on_access = keep
        for s, v in r:
            if ty is PTR:
                out.append((s, self.e.aspv(v)))
            else:
                out += self.e.canon(s, self.e.iv(v, ty.width))
        return out


def capacities(ck, cfg, kind):
    """the capacities tables can have, by what the constructor makes of its argument"""
    b = Base(ck, cfg, "new", "passgen_markov_%s_new" % kind)
    e, L = b.e, b.L
    fn = ck.fn("passgen_markov_%s_new" % kind, cfg)
    caps = []
    for k in range(64):
        n = len(e.journal)
        rets = e.call(State(), fn, [ival(64, k)])
        if not rets or len(rets) == 1 and e.aspv(rets[0][1]).obj is None:
            del e.journal[n:]
            break
        if len(rets) != 1:
            break
        s, r = rets[0]
        p = e.aspv(r)
        live = alive(s)
        b.say(p.obj is not None and live == [p.obj] and s.eq(p.off, ZERO), "new", "number %d is %r, and %d blocks are allocated"
              % (k, p, len(live)), e.imprecise(p))
        if p.obj is None:
            break
        v = b.get(s, PV(p.obj, num(L[kind + ".cap"])), I64)
        if len(v) != 1 or v[0][1].t:
            b.say(False, "new", "the capacity of number %d cannot be told" % k, True)
            break
        c = v[0][1].c
        if c == 0:
            break
        b.say(c > (caps[-1] if caps else 0) and c % 2 == 1, "new", "capacity number %d is %d%s" % (k, c, ", after %d" % caps[-1] if caps else ""))
        if c % 2 == 0:
            break
        caps.append(c)
        t = Table(L, kind, num(c // 2))
        b.say(p.obj.size is not None and s.entails(p.obj.size - t.size), "new", "capacity %d has room for %r of %r bytes" % (c, p.obj.size, t.size))
        x = Atom("slot", 0, c - 1)
        for o, ty in ((t.cp(var(x)), I32), (t.val(var(x)), PTR if kind == "node" else I32)):
            for s1, v in b.get(s, PV(p.obj, o), ty):
                ok = v.obj is None if ty is PTR else s1.eq(v, ZERO)
                b.say(ok, "new", "a slot of a new table of capacity %d holds %r" % (c, v), e.imprecise(v))
        if kind == "leaf":
            for s1, v in b.get(s, PV(p.obj, num(L["leaf.total"])), I64):
                b.say(s1.eq(v, ZERO), "new", "the total of a new table is %r" % v, e.imprecise(v))
    b.say(len(caps) > 1 and caps[-1] > 0x10ffff, "new", "the largest capacity is %d, which leaves room for collisions of code points"
          % (caps[-1] if caps else 0))
    b.done()
    return caps


class Insert(Base):
    """inserting into a table of any capacity; growing it is assumed to work (see Grow) and tried up to twice"""

    def __init__(self, ck, cfg, kind):
        Base.__init__(self, ck, cfg, "any capacity", "passgen_markov_%s_insert" % kind)
        self.kind = kind
        e = self.e
        self.tabs, self.objs = [], []
        self.cp = Atom("codepoint", 0, (1 << 32) - 1)
        self.x = Atom("slot", 0, 1 << 27)
        for k in range(3):
            t = Table(self.L, kind, var(Atom("half%d" % k, 1, 1 << 26)))
            self.tabs.append(t)
            o = e.param("table" if not k else "table grown %s" % ("once", "twice")[k - 1], t.size)
            self.objs.append(o)
        e.hooks["passgen_markov_%s_realloc" % kind] = self.grow

    def start(self):
        e, L, kind = self.e, self.L, self.kind
        states = [State()]
        self.z = []
        for t, o in zip(self.tabs, self.objs):
            nxt = []
            for s in states:
                for s1 in e.store(s, PV(o, num(L[kind + ".cap"])), IV(64, t.c), I64):
                    for s2, z in e.binop(s1, "urem", IV(64, var(self.cp)), IV(64, t.c), 64):
                        nxt.append((s2, z.l))
            # the code point may be smaller than the capacity: one state each
            states = [s for s, _ in nxt]
            self.z.append([z for _, z in nxt])
        return states

    def grow(self, e, st, a, i):
        p = e.aspv(a[0])
        k = st.flags.get("grown", 0)
        w = at(i)
        self.say(p.obj is self.objs[k] and st.eq(p.off, ZERO), "grow", "%r is made to grow instead of the table" % p, e.imprecise(p), w)
        if k == 2:
            self.say(False, "grow", "an empty table is made to grow", any(e.imprecise(c) for c in st.cons.cs), w)
            return []
        s = st.copy()
        s.flags["grown"] = k + 1
        s.flags[("freed", self.objs[k].id)] = True
        return [(s, PV(self.objs[k + 1], ZERO))]

    def run(self):
        e, L, kind = self.e, self.L, self.kind
        fn = self.ck.fn("passgen_markov_%s_insert" % kind, self.cfg)
        t2, o2 = self.tabs[2], self.objs[2]
        base = o2.attrs.get("init")

        def init(e_, st, obj, off, ty):
            f, k = t2.index(off, st)
            if f == "val":
                return [(st, ival(32, 0) if ty is not PTR and ty.kind == "int" else NULL)]
            return None
        o2.attrs["init"] = init
        n = 0
        weight = var(Atom("weight", 1, 1 << 31))
        for st in self.start():
            zs = []
            for t in self.tabs:
                r = e.binop(st, "urem", IV(64, var(self.cp)), IV(64, t.c), 64)
                assert len(r) == 1, len(r)
                st, z = r[0]
                zs.append(z.l)
            if kind == "leaf":
                lim = [num((1 << 32) - 1) - weight - e.ld_atom(o, t.val(z), 4) for t, o, z in zip(self.tabs, self.objs, zs)]
                lim += [num((1 << 62)) - e.ld_atom(o, num(L["leaf.total"]), 8) for o in self.objs]
                st = st.assume(lim)
            for w in ([ZERO, weight] if kind == "leaf" else [None]):
                args = [PV(self.objs[0], ZERO), IV(32, var(self.cp))] + ([IV(64, w)] if w is not None else [])
                for s, r in e.call(st, fn, args):
                    n += 1
                    self.check(st, s, e.aspv(r), w, zs)
        self.say(n > 0, "insert", "inserting never returns", bool(e.unknown_calls))
        self.done()

    def check(self, s0, s, r, w, zs):
        e, L, kind = self.e, self.L, self.kind
        k = s.flags.get("grown", 0)
        t, o, z = self.tabs[k], self.objs[k], zs[k]
        imp = bool(e.unknown_calls)
        if not self.say(r.obj is o and s.eq(r.off, ZERO), "insert", "%r is returned instead of the table" % r, e.imprecise(r) or imp):
            return
        none = w is not None and s.eq(w, ZERO)
        fields = [("codepoint", t.cp, I32), ("count", t.val, I32)] if kind == "leaf" else [("codepoint", t.cp, I32), ("child", t.val, PTR)]

        def same(s, off, ty, what):
            for s1, v in self.get(s, PV(o, off), ty):
                b0 = s0.copy()
                b0.cons, b0.ne = s1.cons, s1.ne
                for _, b in self.get(b0, PV(o, off), ty):
                    ok = v == b if ty is PTR else s1.eq(v, b)
                    self.say(ok, "frame", "%s is %r instead of %r afterwards" % (what, v, b), imp or e.imprecise(v))
        same(s, num(L[kind + ".cap"]), I64, "the capacity")
        x = var(self.x)
        inside = s.assume([t.c - x + (-1)])
        parts = [inside] if none else [inside.assume([x - z + (-1)]), inside.assume([z - x + (-1)])] if inside is not None else []
        for s1 in parts:
            if s1 is not None:
                for f, off, ty in fields:
                    same(s1, off(x), ty, "the %s of another slot" % f)
        if none:
            same(s, num(L["leaf.total"]), I64, "the total")
            return
        # the slot of the code point: free or its own before
        if kind == "leaf":
            c0 = e.ld_atom(o, t.val(z), 4)
            p0 = e.ld_atom(o, t.cp(z), 4)
            if k < 2:
                bad = s.assume([c0 + (-1)])
                bad = bad.assume_ne(p0 - var(self.cp)) if bad is not None else None
                self.say(bad is None, "collision", "the slot of another code point is taken", imp)
            else:
                c0 = ZERO
            for s1, v in self.get(s, PV(o, t.cp(z)), I32):
                self.say(s1.eq(v, var(self.cp)), "insert", "the slot is for code point %r" % v, imp or e.imprecise(v))
            for s1, v in self.get(s, PV(o, t.val(z)), I32):
                self.say(s1.eq(v, c0 + w), "insert", "the count is %r instead of %r" % (v, c0 + w), imp or e.imprecise(v))
            t0 = e.ld_atom(o, num(L["leaf.total"]), 8)
            for s1, v in self.get(s, PV(o, num(L["leaf.total"])), I64):
                self.say(s1.eq(v, t0 + w), "insert", "the total is %r instead of %r" % (v, t0 + w), imp or e.imprecise(v))
        else:
            if k < 2:
                for s1, q in self.get(s0, PV(o, t.val(z)), PTR):
                    full = s.assume([-var(e.nullatom(q.obj))]) if q.obj is not None and not q.obj.nonnull else s if q.obj is not None else None
                    full = full.assume_ne(e.ld_atom(o, t.cp(z), 4) - var(self.cp)) if full is not None else None
                    self.say(full is None, "collision", "the slot of another code point is taken", imp)
                same(s, t.val(z), PTR, "the child of the code point")
            for s1, v in self.get(s, PV(o, t.cp(z)), I32):
                self.say(s1.eq(v, var(self.cp)), "insert", "the slot is for code point %r" % v, imp or e.imprecise(v))


class Grow(Base):
    """growing a table of a given capacity keeps what it holds: an arbitrary slot is followed"""

    def __init__(self, ck, cfg, kind, caps, n, full):
        Base.__init__(self, ck, cfg, "growing from capacity %d, %s slot" % (caps[n], "used" if full else "free"), "passgen_markov_%s_insert" % kind)
        self.kind, self.caps, self.n, self.full = kind, caps, n, full
        e, L = self.e, self.L
        self.t = t = Table(L, kind, num(caps[n] // 2))
        self.old = e.param("table", t.size)
        self.x = Atom("slot", 0, caps[n] - 1)
        self.xcp = Atom("codepoint in slot", 0, (1 << 32) - 1)
        self.xcount = Atom("count in slot", 1, (1 << 32) - 1)
        self.xchild = e.param("child in slot", None)
        self.old.attrs["init"] = self.load
        # the new table, before and after it may have grown itself
        self.new = []
        for k in range(2):
            o = e.param("new table" if not k else "new table, grown again", None)
            o.attrs["init"], o.attrs["sink"] = self.load_new, self.sink(o)
            self.new.append(o)
        e.hooks.update({"passgen_markov_%s_new" % kind: self.make, "passgen_markov_%s_insert" % kind: self.insert})
        e.on_store = self.stored

    def load(self, e, st, obj, off, ty):
        if ty is not PTR and ty.kind == "int" and ty.width == 64 and st.eq(off, num(self.L[self.kind + ".cap"])):
            return [(st, IV(64, self.t.c))]
        f, k = self.t.index(off, st)
        if f is None:
            return None
        out = []
        s = st.assume([k - var(self.x), var(self.x) - k])
        if s is not None:
            if f == "cp":
                v = IV(32, var(self.xcp))
            elif self.kind == "leaf":
                v = IV(32, var(self.xcount)) if self.full else ival(32, 0)
            else:
                v = PV(self.xchild, ZERO) if self.full else NULL
            out.append((s, v))
        s = st.assume_ne(k - var(self.x))
        if s is not None:
            if f == "cp" or self.kind == "leaf":
                v = IV(32, var(e.user_atom(f, (k,), 0, (1 << 32) - 1, 32).t[0][0]))
            else:
                o = e.keyobj("child", k)
                o.nonnull = False
                v = PV(o, ZERO)
            out.append((s, v))
        return out

    def load_new(self, e, st, obj, off, ty):
        """in the new table, slots that are looked at after an insertion are free"""
        if st.eq(off, num(self.L[self.kind + ".cap"])):
            return [(st, IV(64, st.ghost["capacity"].l))]
        if ty is PTR or ty.kind == "ptr":
            return [(st, NULL)]
        return [(st, IV(ty.width, var(e.fresh("in the new table", ty.width))))] if ty.width != 32 else [(st, ival(32, 0))]

    def sink(self, o):
        return lambda st, rec: None

    def cur(self, st):
        return self.new[1] if st.flags.get("again") else self.new[0]

    def make(self, e, st, a, i):
        w = at(i)
        k = e.iv(a[0], 64)
        out = []
        if "new" in st.flags:
            self.say(False, "grow", "more than one new table is made", where=w)
            return []
        ok = k.const and k.u < len(self.caps) and self.caps[k.u] > self.caps[self.n]
        if not self.say(ok, "grow", "the new table has capacity number %r, the old one number %d" % (k, self.n), e.imprecise(k), w):
            return []
        s = st.copy()
        s.flags["new"] = True
        s.ghost["capacity"] = ival(64, self.caps[k.u])
        return [(s, PV(self.new[0], ZERO))]

    def key(self, l):
        """the slot a value was read from: (field, index) or None"""
        if len(l.t) != 1 or l.c or l.t[0][1] != 1:
            return None
        a = l.t[0][0]
        if a is self.xcp:
            return "cp", var(self.x)
        if a is self.xcount:
            return "val", var(self.x)
        if a.kind == "user" and a.args[0] in ("cp", "val"):
            return a.args[0], a.args[1][0]
        return None

    def insert(self, e, st, a, i):
        if i is None:
            return None         # the insertion under analysis
        w = at(i)
        p = e.aspv(a[0])
        if "new" not in st.flags:
            self.say(False, "grow", "something is inserted before there is a new table", bool(e.unknown_calls), w)
            return []
        self.say(p.obj is self.cur(st) and st.eq(p.off, ZERO), "grow", "something is inserted into %r instead of the new table" % p, e.imprecise(p), w)
        out = []
        cps = e.canon(st, e.iv(a[1], 32))
        for s, cp in cps:
            ns = e.canon(s, e.iv(a[2], 64)) if self.kind == "leaf" else [(s, None)]
            for s1, n in ns:
                k = self.key(cp)
                j = self.key(n) if n is not None else None
                imp = e.imprecise(cp) or n is not None and e.imprecise(n)
                ok = k is not None and k[0] == "cp" and (n is None or j is not None and j[0] == "val" and s1.eq(k[1], j[1]))
                self.say(ok, "grow", "%r%s is inserted into the new table" % (cp, "" if n is None else " with count %r" % n), imp, w)
                if not ok:
                    continue
                if s1.eq(k[1], var(self.x)):
                    self.say("moved" not in s1.flags, "grow", "the slot is moved twice", where=w)
                    s1 = s1.copy()
                    s1.flags["moved"] = True
                    s1.flags["pending"] = True
                else:
                    s1 = s1.copy()
                    s1.flags["pending"] = False
                for again in ((False, True) if not s1.flags.get("again") else (True,)):
                    s2 = s1.copy()
                    if again and not s1.flags.get("again"):
                        s2.flags["again"] = True
                        s2.flags[("freed", self.new[0].id)] = True
                        c = Atom("capacity again", self.caps[self.n] + 1, 1 << 27)
                        s2.ghost["capacity"] = IV(64, var(c))
                    out.append((s2, PV(self.cur(s2), ZERO)))
        return out

    def stored(self, e, st, obj, off, size, v, i):
        """children are put where their code point is looked for"""
        if self.kind != "node" or obj not in self.new or not isinstance(v, PV) or v.obj is not self.xchild:
            return
        w = at(i)
        self.say(st.flags.get("pending") is True, "grow", "the child in the slot is stored for another code point", where=w)
        self.say("attached" not in st.flags, "grow", "the child in the slot is stored twice", where=w)
        self.say(st.eq(v.off, ZERO), "grow", "%r is stored instead of the child" % v, e.imprecise(v), w)
        c = st.ghost["capacity"].l
        half = num((c.c + 1) // 2) if not c.t else None
        rs = e.binop(st, "urem", IV(64, var(self.xcp)), IV(64, c), 64)
        if half is None:
            hs = e.binop(st, "lshr", IV(64, c + 1), ival(64, 1), 64)
            half = hs[0][1].l if len(hs) == 1 else None
        oks = [s for s, z in rs if half is not None and s.eq(off, z.l.scale(8) + half.scale(8) + self.L["node.entries"])]
        self.say(len(oks) == len(rs), "grow", "the child is stored at %r, where its code point is not looked for" % off,
                 e.imprecise(off) or e.imprecise(c) or half is None, w)
        st.flags["attached"] = True

    def run(self):
        e, kind = self.e, self.kind
        fn = self.ck.fn("passgen_markov_%s_insert" % kind, self.cfg)
        args = [PV(self.old, ZERO), IV(32, var(Atom("codepoint", 0, (1 << 32) - 1)))]
        if kind == "leaf":
            args.append(IV(64, var(Atom("weight", 1, 1 << 31))))
        n = 0
        for s, r in e.call(State(), fn, args):
            if "new" not in s.flags:
                continue
            n += 1
            p = e.aspv(r)
            imp = bool(e.unknown_calls)
            self.say(p.obj is self.cur(s) and s.eq(p.off, ZERO), "grow", "%r is returned instead of the new table" % p, imp or e.imprecise(p))
            self.say(bool(s.flags.get(("freed", self.old.id))), "leak", "the old table is not released", imp)
            self.say(s.flags.get("moved", False) == self.full, "grow", "a slot that is %s is %smoved to the new table"
                     % ("used" if self.full else "free", "" if s.flags.get("moved") else "not "), imp)
            if kind == "node":
                self.say(s.flags.get("attached", False) == self.full, "grow", "the child of a slot is %smoved to the new table"
                         % ("" if s.flags.get("attached") else "not "), imp)
        self.say(n > 0, "grow", "a table with a collision does not grow", bool(e.unknown_calls))
        self.done()


def M01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(ML, cfg)
        for kind in ("leaf", "node"):
            caps = ck.guarded("new", "%s, %s" % (kind, cfg), capacities, ck, cfg, kind) or []
            for n in range(len(caps) - 1):
                for full in (True, False):
                    jobs.append(lambda c=cfg, k=kind, n=n, f=full, caps=caps:
                                ck.guarded("grow", "%s, %s" % (k, c), Grow(ck, c, k, caps, n, f).run))
            jobs.append(lambda c=cfg, k=kind: ck.guarded("insert", "%s, %s" % (k, c), Insert(ck, c, k).run))
        jobs.append(lambda c=cfg: ck.guarded("count", c, Look(ck, c).run))
    ck.parallel(jobs)


class Walk(Base):
    """inserting a sequence: one table per level, from the root to a leaf"""

    def __init__(self, ck, cfg, level):
        Base.__init__(self, ck, cfg, "chain of length %d" % level, "passgen_markov_node_insert_word")
        self.level = level
        e, L = self.e, self.L
        e.rec_inline = level + 2
        self.seq = e.param("sequence", num(4 * (level + 1)))
        self.tab = {}
        self.root = self.table("root")
        e.hooks.update({"passgen_markov_node_new": self.make("node"), "passgen_markov_leaf_new": self.make("leaf"),
                        "passgen_markov_node_insert": self.node_insert, "passgen_markov_leaf_insert": self.leaf_insert})

    def table(self, *key):
        o = self.e.keyobj("table", *key)
        if o.id not in self.tab:
            o.name = " ".join(str(k) for k in key)
            o.nonnull = True
            self.tab[o.id] = t = Table(self.L, "node", var(Atom("half of " + o.name, 1, 1 << 26)))
            o.size = t.size
            o.attrs["init"] = self.load
        return o

    def leaf(self, *key):
        o = self.e.keyobj("leaf", *key)
        o.name = " ".join(str(k) for k in ("leaf",) + key)
        if not o.nonnull or o.size is None:
            o.nonnull = True
            o.size = Table(self.L, "leaf", var(Atom("half of " + o.name, 1, 1 << 26))).size
        return o

    def load(self, e, st, obj, off, ty):
        t = self.tab[obj.id]
        if ty is not PTR and ty.kind == "int" and ty.width == 64 and st.eq(off, num(self.L["node.cap"])):
            return [(st, IV(64, t.c))]
        ins = dict(st.flags.get("inserted", ()))
        if obj not in ins:
            return None
        d, frm = ins[obj]
        out = []
        for s, z in self.slot(st, obj, d):
            if not s.eq(off, t.val(z)):
                return None
            # whether there is a child was decided when the code point was inserted
            c = s.flags.get(("child", d))
            out.append((s, PV(c, ZERO) if c is not None else NULL))
        return out

    def slot(self, st, obj, d):
        cp = self.e.ld_atom(self.seq, num(4 * d), 4)
        return [(s, z.l) for s, z in self.e.binop(st, "urem", IV(64, cp), IV(64, self.tab[obj.id].c), 64)]

    def make(self, kind):
        def f(e, st, a, i):
            k = e.iv(a[0], 64)
            self.say(k.const and k.u < 16, "walk", "a %s of size number %r is made" % (kind, k), e.imprecise(k), at(i))
            n = st.flags.get("made", 0)
            s = st.copy()
            s.flags["made"] = n + 1
            o = self.table("new node", n) if kind == "node" else self.leaf("new", n)
            s.flags["fresh"] = st.flags.get("fresh", ()) + (o,)
            return [(s, PV(o, ZERO))]
        return f

    def expected(self, st, d, p, w, what):
        """the table of depth d"""
        e = self.e
        if d == 0:
            ok = p.obj is self.root
        else:
            c = st.flags.get(("child", d - 1))
            ok = p.obj is c if c is not None else p.obj is not None and p.obj in st.flags.get("fresh", ())
        self.say(ok and st.eq(p.off, ZERO), "walk", "%s %r instead of the table for position %d" % (what, p, d), e.imprecise(p), w)
        return ok

    def node_insert(self, e, st, a, i):
        w = at(i)
        p = e.aspv(a[0])
        ins = st.flags.get("inserted", ())
        d = len(ins)
        if not self.say(d < self.level, "walk", "code points are inserted into more than %d nodes" % self.level, where=w) or p.obj is None:
            return []
        ok = self.expected(st, d, p, w, "a code point is inserted into")
        for s, l in e.canon(st, e.iv(a[1], 32)):
            self.say(s.eq(l, e.ld_atom(self.seq, num(4 * d), 4)), "walk", "%r is inserted instead of code point %d of the sequence" % (l, d),
                     e.imprecise(l), w)
        if not ok:
            return []
        fresh = p.obj in st.flags.get("fresh", ())
        out = []
        for moved in (False, True):
            o = p.obj if not moved else self.table("moved node", d)
            for child in ((False,) if fresh else (False, True)):
                s = st.copy()
                if fresh:
                    s.flags["fresh"] = tuple(x for x in st.flags["fresh"] if x is not p.obj)
                if moved:
                    s.flags[("freed", p.obj.id)] = True
                s.flags["inserted"] = ins + ((o, (d, p.obj)),)
                s.flags[("child", d)] = None if not child else self.table("node", d + 1) if d + 1 < self.level else self.leaf("old")
                out.append((s, PV(o, ZERO)))
        return out

    def leaf_insert(self, e, st, a, i):
        w = at(i)
        p = e.aspv(a[0])
        ins = st.flags.get("inserted", ())
        if not self.say(len(ins) == self.level and "leaf" not in st.flags, "walk", "a leaf is changed after %d of %d nodes" % (len(ins), self.level), where=w) \
                or p.obj is None:
            return []
        ok = self.expected(st, self.level, p, w, "a code point is counted in")
        out = []
        for s, l in e.canon(st, e.iv(a[1], 32)):
            self.say(s.eq(l, e.ld_atom(self.seq, num(4 * self.level), 4)), "walk", "%r is counted instead of the last code point" % l, e.imprecise(l), w)
            for s1, n in e.canon(s, e.iv(a[2], 64)):
                self.say(s1.eq(n, var(self.weight)), "walk", "%r is counted instead of the weight" % n, e.imprecise(n), w)
                if not ok:
                    continue
                for moved in (False, True):
                    s2 = s1.copy()
                    o = p.obj if not moved else self.leaf("moved")
                    s2.flags["fresh"] = tuple(x for x in s1.flags.get("fresh", ()) if x is not p.obj)
                    if moved:
                        s2.flags[("freed", p.obj.id)] = True
                    s2.flags["leaf"] = o
                    out.append((s2, PV(o, ZERO)))
        return out

    def run(self):
        e = self.e
        self.weight = Atom("weight", 0, 1 << 31)
        fn = self.ck.fn("passgen_markov_node_insert_word", self.cfg)
        n = 0
        for s, r in e.call(State(), fn, [PV(self.root, ZERO), PV(self.seq, ZERO), ival(64, self.level + 1), IV(64, var(self.weight))]):
            n += 1
            imp = bool(e.unknown_calls)
            ins = s.flags.get("inserted", ())
            if not self.say(len(ins) == self.level and "leaf" in s.flags, "walk", "the sequence is not inserted completely: %d nodes%s"
                            % (len(ins), "" if "leaf" in s.flags else ", no leaf"), imp):
                continue
            self.say(not s.flags.get("fresh"), "leak", "%s is made but not used" % ", ".join(o.name for o in s.flags.get("fresh", ())), imp)
            p = e.aspv(r)
            self.say(p.obj is ins[0][0] and s.eq(p.off, ZERO), "walk", "%r is returned instead of the root" % p, e.imprecise(p) or imp)
            for d in range(self.level):
                o = ins[d][0]
                want = ins[d + 1][0] if d + 1 < self.level else s.flags["leaf"]
                for s1, z in self.slot(s, o, d):
                    for s2, q in self.get(s1, PV(o, self.tab[o.id].val(z)), PTR):
                        self.say(q.obj is want and s2.eq(q.off, ZERO), "walk", "below position %d there is %r instead of %s"
                                 % (d, q, want.name), e.imprecise(q) or imp)
        self.say(n > 0, "walk", "inserting a sequence never returns", bool(e.unknown_calls))
        self.done()


class Windows(Base):
    """the sequences a word is broken into"""

    def __init__(self, ck, cfg, level, weight):
        Base.__init__(self, ck, cfg, "chain of length %s, weight %d" % (level or "n", weight), "passgen_markov_add")
        self.weight = weight
        e, L = self.e, self.L
        self.level = num(level) if level else var(Atom("level", 1, 255))
        self.len = var(Atom("length of the word", 0, 1 << 30))
        self.word = e.param("word", self.len.scale(4))
        self.markov = e.param("markov", num(L["markov"]))
        self.roots = [e.param("root", None), e.param("moved root", None)]
        self.total = var(Atom("number of sequences", 0, 1 << 62))
        e.hooks["passgen_markov_node_insert_word"] = self.insert

    def same(self, s, v, l):
        """equal, or both the code point at the same place of the word"""
        if s.eq(v, l):
            return True
        one = [a for x in (v, l) for a, c in x.t if len(x.t) == 1 and c == 1 and x.c == 0 and a.kind == "ld"]
        return len(one) == 2 and one[0].args[0] == one[1].args[0] and one[0].args[2] == one[1].args[2] and s.eq(one[0].args[1], one[1].args[1])

    def insert(self, e, st, a, i):
        w = at(i)
        p, q = e.aspv(a[0]), e.aspv(a[1])
        cur = self.roots[1] if st.flags.get("moved") else self.roots[0]
        self.say(p.obj is cur and st.eq(p.off, ZERO), "windows", "a sequence is inserted below %r instead of the root" % p, e.imprecise(p), w)
        j = st.ghost["inserted"].l
        for s, n in e.canon(st, e.iv(a[2], 64)):
            self.say(s.eq(n, self.level + 1), "windows", "a sequence of %r code points is inserted" % n, e.imprecise(n), w)
            for s1, n in e.canon(s, e.iv(a[3], 64)):
                self.say(s1.eq(n, num(self.weight)), "windows", "a sequence is inserted with weight %r" % n, e.imprecise(n), w)
        self.say(st.entails(self.len - j), "windows", "more sequences are inserted than the word has", e.imprecise(j), w)
        # position t of sequence number j is position j + t of the word with as many zeros before it and one after it
        x = var(Atom("position", 0, 1 << 30))
        s = st.assume([self.level - x])
        for cs, want in (([self.level - j - x + (-1)], ZERO),
                         ([j + x - self.level, self.level + self.len - j - x + (-1)], None),
                         ([j + x - self.level - self.len], ZERO)):
            s1 = s.assume(cs) if s is not None else None
            if s1 is None:
                continue
            for s2, v in self.get(s1, PV(q.obj, q.off + x.scale(4)), I32):
                l = want if want is not None else e.ld_atom(self.word, (j + x - self.level).scale(4), 4)
                self.say(self.same(s2, v, l), "windows", "position x of sequence j is %r instead of %r, where %s" %
                         (v, l, ", ".join("%r >= 0" % c for c in cs)), e.imprecise(v) or e.imprecise(j), w)
        st = e.access(st, "load", q, self.level.scale(4) + 4, i)
        if st is None:
            return []
        out = []
        for moved in ((False, True) if not st.flags.get("moved") else (True,)):
            s = st.copy()
            if moved:
                s.flags["moved"] = True
            s.ghost["inserted"] = IV(64, j + 1)
            out.append((s, PV(self.roots[1] if moved else self.roots[0], ZERO)))
        return out

    def run(self):
        e, L = self.e, self.L
        fn = self.ck.fn("passgen_markov_add", self.cfg)
        st = State()
        for n, v, ty in (("level", IV(64, self.level), I64), ("count", IV(64, self.total), I64), ("root", PV(self.roots[0], ZERO), PTR)):
            st = e.store(st, PV(self.markov, num(L[n])), v, ty)[0]
        st.ghost["inserted"] = ival(64, 0)
        n = 0
        for s, _ in e.call(st, fn, [PV(self.markov, ZERO), PV(self.word, ZERO), IV(64, self.len), ival(64, self.weight)]):
            n += 1
            imp = bool(e.unknown_calls)
            j = s.ghost["inserted"].l
            self.say(s.eq(j, self.len + 1), "windows", "%r sequences are inserted for a word of %r code points" % (j, self.len), imp or e.imprecise(j))
            for s1, v in self.get(s, PV(self.markov, num(L["root"])), PTR):
                self.say(v.obj is (self.roots[1] if s1.flags.get("moved") else self.roots[0]), "windows", "%r is kept as the root" % v,
                         imp or e.imprecise(v))
            for s1, v in self.get(s, PV(self.markov, num(L["count"])), I64):
                want = self.total + (self.len + 1).scale(self.weight)
                self.say(s1.eq(v, want), "windows", "the number of sequences is %r instead of %r" % (v, want), imp or e.imprecise(v))
            for s1, v in self.get(s, PV(self.markov, num(L["level"])), I64):
                self.say(s1.eq(v, self.level), "windows", "the level is %r afterwards" % v, imp or e.imprecise(v))
        self.say(n > 0, "windows", "adding a word never returns", bool(e.unknown_calls))
        self.done()


def M02(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(ML, cfg)
        for level in (1, 2, 3, 4, 5):
            jobs.append(lambda c=cfg, l=level: ck.guarded("walk", "chain of length %d, %s" % (l, c), Walk(ck, c, l).run))
        for level, weight in ((None, 1), (1, 1), (2, 3), (3, 1)):
            jobs.append(lambda c=cfg, l=level, w=weight: ck.guarded("windows", "chain of length %s, %s" % (l, c), Windows(ck, c, l, w).run))
    ck.parallel(jobs)


class Choose(Base):
    """choosing the next code point: the tables on the way are of any capacity, the leaf has a given one"""

    def __init__(self, ck, cfg, level, cap, used, entropy):
        Base.__init__(self, ck, cfg, "chain of length %d, leaf of %d slots of which %s may be used%s"
                      % (level, cap, ", ".join(map(str, used)), ", with entropy" if entropy else ""),
                      "passgen_markov_generate")
        self.level, self.cap = level, cap
        e, L = self.e, self.L
        e.unroll_const = 40
        self.cur = e.param("current", num(4 * level))
        self.markov = e.param("markov", num(L["markov"]))
        self.random = e.param("random")
        self.nodes = []
        for d in range(level):
            t = Table(L, "node", var(Atom("half of table %d" % d, 1, 1 << 26)))
            o = e.param("table %d" % d, t.size)
            o.attrs["init"] = self.load
            o.attrs["sink"] = self.sink
            self.nodes.append((o, t))
        self.t = Table(L, "leaf", num(cap // 2))
        self.leaf = e.param("leaf", self.t.size)
        self.leaf.attrs["init"] = self.load_leaf
        self.leaf.attrs["sink"] = self.sink
        self.used = set(used)
        self.counts = [var(Atom("count%d" % k, 0, (1 << 32) - 1)) if k in used else ZERO for k in range(cap)]
        self.total = var(Atom("total", 1, cap << 32))
        self.start = Atom("entropy so far", 1, 1 << 60)
        self.ent = e.param("entropy", num(8)) if entropy else None
        for width in (8, 16, 32, 64):
            e.hooks["passgen_random_u%d_max" % width] = lambda e, st, a, i, w=width: self.draw(e, st, a, i, w)

    def sink(self, st, rec):
        self.say(False, "choose", "choosing a code point changes the tables", where=self.where)

    def load(self, e, st, obj, off, ty):
        d = next(d for d, (o, _) in enumerate(self.nodes) if o is obj)
        t = self.nodes[d][1]
        if ty is not PTR and ty.kind == "int" and ty.width == 64 and st.eq(off, num(self.L["node.cap"])):
            return [(st, IV(64, t.c))]
        out = []
        for s, z in e.binop(st, "urem", IV(64, e.ld_atom(self.cur, num(4 * d), 4)), IV(64, t.c), 64):
            if s.eq(off, t.cp(z.l)) and ty is not PTR:
                out.append((s, IV(32, e.ld_atom(self.cur, num(4 * d), 4))))
            elif s.eq(off, t.val(z.l)):
                out.append((s, PV(self.nodes[d + 1][0] if d + 1 < self.level else self.leaf, ZERO)))
            else:
                self.say(False, "walk", "in table %d the entry at %r is read, where the code point of position %d is not kept" % (d, off, d),
                         e.imprecise(off))
                return None
        return out

    def load_leaf(self, e, st, obj, off, ty):
        if ty is PTR or ty.kind != "int":
            return None
        if st.eq(off, num(self.L["leaf.cap"])):
            return [(st, ival(ty.width, self.cap))]
        if st.eq(off, num(self.L["leaf.total"])):
            return [(st, IV(64, self.total))]
        f, k = self.t.index(off, st)
        if f == "val":
            if k.t:
                raise Unsupported("which slot is looked at is not known")
            return [(st, IV(32, self.counts[k.c]))]
        return None

    def draw(self, e, st, a, i, width):
        w = at(i)
        p = e.aspv(a[0])
        out = []
        for s, n in e.canon(st, e.iv(a[1], width)):
            out += self.drawn(e, s, p, n, width, w)
        return out

    def drawn(self, e, st, p, n, width, w):
        self.say(p.obj is self.random and st.eq(p.off, ZERO), "random", "%r is asked for a random number" % p, e.imprecise(p), w)
        self.say(st.eq(n, self.total), "draw", "a number below %r instead of the total is drawn" % n, e.imprecise(n), w)
        self.say("drawn" not in st.flags, "draw", "more than one number is drawn", where=w)
        s = st.copy()
        s.flags["drawn"] = True
        x = var(Atom("choice", 0, (1 << 64) - 1))
        s = s.assume([n - x + (-1)])
        if s is None:
            return []
        s.flags["choice"] = x
        return [(s, IV(width, x))]

    def run(self):
        e, L = self.e, self.L
        fn = self.ck.fn("passgen_markov_generate", self.cfg)
        st = State()
        for n, v, ty in (("level", ival(64, self.level), I64), ("count", IV(64, var(Atom("words", 0, 1 << 62))), I64),
                         ("root", PV(self.nodes[0][0], ZERO), PTR)):
            st = e.store(st, PV(self.markov, num(L[n])), v, ty)[0]
        al = sum(self.counts, ZERO)
        st = st.assume([al - self.total, self.total - al])
        if self.ent:
            st = e.store(st, PV(self.ent, ZERO), FP(1.0, [(self.start, 1)]), DBL)[0]
        args = [PV(self.markov, ZERO), PV(self.cur, ZERO), PV(self.random, ZERO), PV(self.ent, ZERO) if self.ent else NULL]
        n = 0
        orders = []
        for s, r in e.call(st, fn, args):
            n += 1
            imp = bool(e.unknown_calls)
            if not self.say("drawn" in s.flags, "draw", "a code point is chosen without a random number", imp):
                continue
            x = s.flags["choice"]
            for s1, l in e.canon(s, e.iv(r, 32)):
                a = l.t[0][0] if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 else None
                f, k = self.t.index(a.args[1], s1) if a is not None and a.kind == "ld" and a.args[0] is self.leaf else (None, None)
                if not self.say(f == "cp" and not k.t, "choose", "%r is chosen, which is not a code point of the leaf" % l, imp or e.imprecise(l)):
                    continue
                k = k.c
                lo = sum(self.counts[:k], ZERO)
                hi = sum(self.counts[k + 1:], ZERO)
                fwd = s1.entails(x - lo) and s1.entails(lo + self.counts[k] - x + (-1))
                bwd = s1.entails(x - hi) and s1.entails(hi + self.counts[k] - x + (-1))
                orders.append((k, fwd, bwd, imp or any(e.imprecise(c) for c in s1.cons.cs)))
                if self.ent:
                    want = FP(1.0, [(self.start, 1), (self.total, 1), (self.counts[k], -1)])
                    keep, e.on_access = e.on_access, None
                    for s2, v in e.load(s1, PV(self.ent, ZERO), DBL):
                        self.say(isinstance(v, FP) and v == want, "entropy", "the entropy becomes %r instead of %r" % (v, want), imp or e.imprecise(v))
                    e.on_access = keep
        self.say(n > 0, "choose", "choosing never returns", bool(e.unknown_calls))
        ways = 1 if sum(not o[1] for o in orders) <= sum(not o[2] for o in orders) else 2
        for o in orders:
            self.say(o[ways], "choose", "the numbers for which the code point of slot %d is chosen are not as many as its count" % o[0], o[3])
        self.say({o[0] for o in orders} == self.used, "choose", "only the code points of the slots %s are ever chosen"
                 % sorted({o[0] for o in orders}), bool(e.unknown_calls))
        self.done()


class Look(Base):
    """how often a code point was counted, in a leaf of any capacity"""

    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any capacity", "passgen_markov_leaf_count")

    def run(self):
        e, L = self.e, self.L
        t = Table(L, "leaf", var(Atom("half", 1, 1 << 26)))
        o = e.param("leaf", t.size)
        cp = var(Atom("codepoint", 0, (1 << 32) - 1))
        st = e.store(State(), PV(o, num(L["leaf.cap"])), IV(64, t.c), I64)[0]
        n = 0
        for s0, z in e.binop(st, "urem", IV(64, cp), IV(64, t.c), 64):
            for s, r in e.call(s0, self.ck.fn("passgen_markov_leaf_count", self.cfg), [PV(o, ZERO), IV(32, cp)]):
                for s1, v in e.canon(s, e.iv(r, 32)):
                    have = e.ld_atom(o, t.cp(z.l), 4) - cp
                    for s2, want in ((s1.assume([have, -have]), e.ld_atom(o, t.val(z.l), 4)), (s1.assume_ne(have), ZERO)):
                        if s2 is not None:
                            n += 1
                            self.say(s2.eq(v, want), "count", "the count is %r instead of %r" % (v, want), e.imprecise(v) or bool(e.unknown_calls))
        self.say(n > 0, "count", "counting never returns", bool(e.unknown_calls))
        self.done()


def M03(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(ML, cfg)
        for level, cap, used, ent in ((1, 3, (0, 1, 2), True), (1, 3, (0, 1, 2), False), (2, 3, (0, 1, 2), True), (3, 3, (0, 1, 2), True),
                                      (1, 7, (0, 1, 5, 6), True), (1, 7, (2, 3, 4), False), (2, 17, (0, 9, 16), True), (1, 37, (7, 30), True)):
            jobs.append(lambda c=cfg, a=(level, cap, used, ent): ck.guarded("choose", "chain of length %d, %s" % (a[0], c), Choose(ck, c, *a).run))
        jobs.append(lambda c=cfg: ck.guarded("count", c, Look(ck, c).run))
    ck.parallel(jobs)


class Release(Base):
    """releasing a chain: every table that is there, once"""

    def __init__(self, ck, cfg, level, cap, used):
        Base.__init__(self, ck, cfg, "chain of length %d, root of %d slots of which %s may be used" % (level, cap, ", ".join(map(str, used))),
                      "passgen_markov_free")
        self.level = level
        e, L = self.e, self.L
        e.rec_inline = level + 2
        e.max_steps *= 4
        e.unroll_const = 40
        e.hooks["passgen_wipe"] = lambda e, st, a, i: h_memset(e, st, [a[0], ival(32, 0), a[1]], i)
        self.markov = e.param("markov", num(L["markov"]))
        self.kids = {}
        self.used = used
        self.root = self.table(0, cap, "root")

    def table(self, d, cap, name):
        """the table at depth d: all slots of the root may be used, further down one is used and another may be"""
        kind = "leaf" if d == self.level else "node"
        t = Table(self.L, kind, num(cap // 2))
        o = self.e.param(name, t.size)
        o.attrs["init"] = self.load
        self.kids[o.id] = t, d, []
        if d < self.level:
            for k in range(cap):
                c = None
                if k in self.used if d == 0 else k:
                    c = self.table(d + 1, 3, "%s.%d" % (name, k))
                    c.nonnull = d > 0 and k == 1
                self.kids[o.id][2].append(c)
        return o

    def load(self, e, st, obj, off, ty):
        t, d, kids = self.kids[obj.id]
        if ty is not PTR and ty.kind == "int" and ty.width == 64 and st.eq(off, num(self.L[("node" if kids else "leaf") + ".cap"])):
            return [(st, IV(64, t.c))]
        if not kids and ty.kind == "ptr":
            self.say(False, "release", "a child of %s is looked for, which is a leaf" % obj.name, where=self.where)
            return [(st, NULL)]
        f, k = t.index(off, st)
        if kids and f == "val":
            if k.t:
                raise Unsupported("which slot is looked at is not known")
            c = kids[k.c]
            return [(st, PV(c, ZERO) if c is not None else NULL)]
        return None

    def there(self, st, o):
        """the tables that are there, below and including one"""
        yield o
        for c in self.kids[o.id][2]:
            if c is not None and (c.nonnull or st.assume([-var(self.e.nullatom(c))]) is not None):
                yield from self.there(st, c)

    def run(self):
        e, L = self.e, self.L
        st = State()
        for n, v, ty in (("level", ival(64, self.level), I64), ("count", IV(64, var(Atom("words", 0, 1 << 62))), I64),
                         ("root", PV(self.root, ZERO), PTR)):
            st = e.store(st, PV(self.markov, num(L[n])), v, ty)[0]
        n = 0
        for s, _ in e.call(st, self.ck.fn("passgen_markov_free", self.cfg), [PV(self.markov, ZERO)]):
            n += 1
            left = [o.name for o in self.there(s, self.root) if not s.flags.get(("freed", o.id))]
            self.say(not left, "leak", "%s %s not released" % (", ".join(left), "is" if len(left) == 1 else "are"), bool(e.unknown_calls))
            self.say(not s.flags.get(("freed", self.markov.id)), "release", "the chain itself is released, which belongs to the caller")
        self.say(n > 0, "release", "releasing a chain never returns", bool(e.unknown_calls))
        self.done()


class Init(Base):
    """a new chain is empty"""

    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any length", "passgen_markov_init")

    def run(self):
        e, L = self.e, self.L
        m = e.param("markov", num(L["markov"]))
        level = var(Atom("level", 1, 255))
        n = 0
        for s, _ in e.call(State(), self.ck.fn("passgen_markov_init", self.cfg), [PV(m, ZERO), IV(8, level)]):
            n += 1
            imp = bool(e.unknown_calls)
            for what, want in (("level", level), ("count", ZERO)):
                for s1, v in self.get(s, PV(m, num(L[what])), I64):
                    self.say(s1.eq(v, want), "init", "the %s is %r instead of %r" % (what, v, want), imp or e.imprecise(v))
            for s1, p in self.get(s, PV(m, num(L["root"])), PTR):
                if not self.say(alive(s1) == [p.obj] and p.obj is not None and s1.eq(p.off, ZERO), "init", "the root is %r, and %d blocks are allocated"
                                % (p, len(alive(s1))), imp or e.imprecise(p)):
                    continue
                for s2, c in self.get(s1, PV(p.obj, num(L["node.cap"])), I64):
                    if not self.say(not c.t and c.c % 2 == 1, "init", "the root has %r slots" % c, imp or e.imprecise(c)):
                        continue
                    t = Table(L, "node", num(c.c // 2))
                    for s3, v in self.get(s2, PV(p.obj, t.val(var(Atom("slot", 0, c.c - 1)))), PTR):
                        self.say(v.obj is None, "init", "a slot of the root is %r" % v, imp or e.imprecise(v))
        self.say(n > 0, "init", "initialising never returns", bool(e.unknown_calls))
        self.done()


def M04(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(ML, cfg)
        for level, cap, used in ((1, 3, (0, 1, 2)), (1, 7, (0, 1, 3, 6)), (1, 17, (2, 5, 16)), (2, 3, (0, 1)), (2, 3, (0, 2)), (3, 3, (1, 2)),
                                 (4, 3, (2,))):
            jobs.append(lambda c=cfg, a=(level, cap, used): ck.guarded("release", "chain of length %d, %s" % (a[0], c), Release(ck, c, *a).run))
        jobs.append(lambda c=cfg: ck.guarded("init", c, Init(ck, c).run))
    ck.parallel(jobs)
