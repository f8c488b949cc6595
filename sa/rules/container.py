"""Containers: stacks (S01) and hash maps (H01, H02).

S01 explores the abstract heap shapes a stack can reach: the length and the sizes of the
live allocations are tracked exactly, the bytes of the elements are opaque.  From every
shape below the length limit both a push and a pop are analysed, so the obligations hold
for every history of operations that stays below the limit.
"""
from ..interp import State, INT
from ..interp import _PTR as PTR
from ..terms import Atom, num, var, mk, ZERO, IV, ival, PV, NULL, AggV, Cond
from .. import pattern as P
from .parser import Ptrs

I64 = INT[8]


def loc(inst):
    return inst.loc if inst is not None and inst.loc else "?"


class Sink:
    """obligations of one root, told apart by rule"""

    def __init__(self, ck, where):
        self.ck, self.where = ck, where

    def say(self, cond, rule, msg, imp=False):
        self.ck.judge(bool(cond), rule, self.where, msg, imp)
        return cond


def alive(st):
    """heap objects that are allocated and not released, in order of allocation"""
    gone = set()
    out = []
    for k, d in st.events():
        if k == "malloc":
            out.append(d["obj"])
        elif k == "free":
            gone.add(d["obj"].id)
    return [o for o in out if o.id not in gone]


def watch(e, sink):
    def access(e_, st, kind, obj, off, size, inst):
        at = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        if st.flags.get(("freed", obj.id)):
            e.journal.append(("bad", "lifetime", at, "%s of memory that was released [%s]" % (kind, sink.where), False))
        if obj.size is None or kind == "strlen":
            return
        if st.entails(off) and st.entails(obj.size - off - size):
            e.journal.append(("ok", "in-bounds", at, "", False))
        else:
            imp = e.imprecise(off) or e.imprecise(size)
            e.journal.append(("und" if imp else "bad", "in-bounds", at,
                              "%s of %r bytes at %s+%r leaves the object of %r bytes [%s]"
                              % (kind, size, obj.name, off, obj.size, sink.where), imp))

    def free(e_, st, p, inst):
        at = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        twice = bool(st.flags.get(("freed", p.obj.id)))
        e.journal.append(("bad" if twice else "ok", "release", at, "memory is released twice [%s]" % sink.where, False))

    def null(e_, st, pv, inst, definite):
        at = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        e.journal.append(("bad" if definite else "und", "null", at, "a pointer that is NULL is used [%s]" % sink.where, False))

    e.on_access, e.on_free, e.on_null = access, free, null


def drain(ck, e, rules=None):
    for v, rule, where, msg, imp in e.journal:
        if rules and rule not in rules:
            continue
        {"ok": ck.ok, "bad": ck.bad, "und": ck.und}[v](*((rule, where) if v == "ok" else (rule, where, msg)))
    e.journal.clear()


class Seq:
    """a container together with the elements it should hold"""

    def __init__(self, st, items):
        self.st, self.items = st, items


class StackRun:
    def __init__(self, ck, cfg, es, limit, full):
        self.ck, self.cfg, self.es, self.limit, self.full = ck, cfg, es, limit, full
        self.e = ck.engine(cfg, {}, max_steps=40000000)
        self.L = ck.layout({"stack.size": "sizeof(passgen_stack)"}, cfg)
        m = ck.mod(cfg)
        self.fn = {n: ck.fn("passgen_stack_" + n, cfg) for n in ("init", "push", "pop", "get", "top", "foreach", "free")}
        self.sink = Sink(ck, "elements of %d bytes (%s)" % (es, cfg))
        watch(self.e, self.sink)
        self.e.icall = self.visit
        self.seen = None
        self.n = 0

    def visit(self, e, st, v, args, inst):
        st = st.copy()
        st.ghost["visited"] = st.ghost.get("visited", ()) + (e.aspv(args[0]),)
        return [(st, None)]

    def at(self, fn):
        f = self.fn[fn]
        return "src/container/stack.c:%s" % f.name

    def one(self, st, fn, args):
        r = self.e.call(st, self.fn[fn], args)
        drain(self.ck, self.e)
        if len(r) != 1:
            self.sink.where = self.ctx
            self.ck.und("step", self.ctx, "%d outcomes of %s" % (len(r), fn))
            return None
        return r[0]

    def content(self, st, pv, src):
        """the bytes at pv are those of the source element"""
        off = 0
        while off < self.es:
            w = 8 if self.es - off >= 8 else 4 if self.es - off >= 4 else 1
            t = INT[w]
            a = self.e.load(st, PV(pv.obj, pv.off + off), t)
            b = self.e.load(st, PV(src, num(off)), t)
            if len(a) != 1 or a[0][1] != b[0][1]:
                return False
            off += w
        return True

    def holds(self, st, v, src):
        if v is NULL or not isinstance(v, PV) or v.obj is None:
            return "NULL"
        if st.flags.get(("freed", v.obj.id)):
            return "a pointer to released memory"
        if not self.content(st, v, src):
            return "something else"
        return None

    def check(self, q, how):
        ck, st, n = self.ck, q.st, len(q.items)
        where = "%s, %s" % (self.ctx, how)
        pos = range(n) if n <= self.full else sorted({0, 1, n // 2, n - 2, n - 1} | {
            p + d for p in [16, 32, 48, 64, 96, 128, 256, 512] for d in (-1, 0, 1) if 0 <= p + d < n})
        for p in pos:
            r = self.one(st, "get", [self.obj, ival(64, p)])
            if r is None:
                return
            why = self.holds(r[0], r[1], q.items[p])
            ck.judge(why is None, "get", self.at("get"), "element %d of %d is %s (%s)" % (p, n, why, where))
        for p in (n, n + 1, (1 << 64) - 1):
            r = self.one(st, "get", [self.obj, ival(64, p)])
            if r is None:
                return
            ck.judge(r[1] is NULL or r[1] == NULL, "get", self.at("get"),
                     "element %d of a stack of %d elements is not NULL (%s)" % (p, n, where))
        r = self.one(st, "top", [self.obj])
        if r is not None:
            if n:
                why = self.holds(r[0], r[1], q.items[-1])
                ck.judge(why is None, "top", self.at("top"), "the top of %d elements is %s (%s)" % (n, why, where))
            else:
                ck.judge(r[1] == NULL, "top", self.at("top"), "the top of an empty stack is not NULL (%s)" % where)
        s = st.copy()
        s.ghost["visited"] = ()
        r = self.one(s, "foreach", [self.obj, PV(self.e.newobj("func", "function", None), ZERO)])
        if r is not None:
            v = r[0].ghost["visited"]
            ok = len(v) == n and all(self.holds(r[0], v[i], q.items[i]) is None for i in pos)
            ck.judge(ok, "foreach", self.at("foreach"),
                     "%d of %d elements visited, in order and unchanged: %s (%s)" % (len(v), n, ok, where))
        # release everything
        r = self.one(st.copy(), "free", [self.obj])
        if r is not None:
            left = alive(r[0])
            ck.judge(not left, "release", self.at("free"), "%d allocations are not released with the stack (%s): %s"
                     % (len(left), where, [o.name for o in left][:3]))

    def key(self, q):
        st = q.st
        cells = []
        for off in range(0, self.L["stack.size"], 8):
            v = self.e.load(st, PV(self.obj.obj, num(off)), I64)
            cells.append(v[0][1].u if len(v) == 1 and isinstance(v[0][1], IV) and v[0][1].const else None)
        return (len(q.items), tuple(cells), tuple(o.size.c if o.size is not None and not o.size.t else None for o in alive(st)))

    def value(self):
        self.n += 1
        o = self.e.param("element%d" % self.n, num(self.es))
        return o if isinstance(o, PV) else PV(o, ZERO)

    def run(self):
        e, ck = self.e, self.ck
        self.ctx = "elements of %d bytes (%s)" % (self.es, self.cfg)
        o = e.param("stack", num(self.L["stack.size"]))
        self.obj = o if isinstance(o, PV) else PV(o, ZERO)
        r = self.one(State(), "init", [self.obj, ival(64, self.es)])
        if r is None:
            return
        q = Seq(r[0], [])
        seen = {self.key(q)}
        work = [q]
        self.check(q, "after init")
        shapes = 1
        while work:
            q = work.pop()
            for nq, how in self.successors(q):
                k = self.key(nq)
                if k in seen:
                    continue
                seen.add(k)
                shapes += 1
                self.check(nq, how)
                work.append(nq)
        ck.note(e)
        ck.stats["shapes"] = ck.stats.get("shapes", 0) + shapes

    def deep(self, n):
        """one long run: every push and every pop up to a large length"""
        self.ctx = "elements of %d bytes (%s)" % (self.es, self.cfg)
        self.obj = PV(self.e.param("stack", num(self.L["stack.size"])), ZERO)
        st, _ = self.one(State(), "init", [self.obj, ival(64, self.es)])
        items = []
        for i in range(n):
            v = self.value()
            self.sink.where = "%s, after pushing onto %d elements" % (self.ctx, i)
            r = self.one(st, "push", [self.obj, v])
            if r is None:
                return
            st = r[0]
            items.append(v.obj)
            why = self.holds(st, r[1], v.obj)
            self.ck.judge(why is None, "push", self.at("push"), "push returns %s instead of the new element (%s)"
                          % (why, self.sink.where))
        s = st.copy()
        r = self.one(s, "free", [self.obj])
        left = alive(r[0]) if r else []
        self.ck.judge(not left, "release", self.at("free"), "%d allocations are not released with a stack of %d elements"
                      % (len(left), n))
        for i in range(n, 0, -1):
            self.sink.where = "%s, after popping one of %d elements" % (self.ctx, i)
            for p in {0, i // 2, i - 1} if i % 32 < 2 else {i - 1}:
                g = self.one(st, "get", [self.obj, ival(64, p)])
                if g is None:
                    return
                why = self.holds(g[0], g[1], items[p])
                self.ck.judge(why is None, "get", self.at("get"), "element %d of %d is %s (%s)" % (p, i, why, self.sink.where))
            r = self.one(st, "pop", [self.obj, NULL])
            if r is None:
                return
            st = r[0]
        self.ck.note(self.e)

    def successors(self, q):
        n = len(q.items)
        if n < self.limit:
            v = self.value()
            how = "after pushing onto %d elements" % n
            self.sink.where = "%s, %s" % (self.ctx, how)
            r = self.one(q.st, "push", [self.obj, v])
            if r is not None:
                why = self.holds(r[0], r[1], v.obj)
                self.ck.judge(why is None, "push", self.at("push"), "push returns %s instead of the new element (%s)"
                              % (why, self.sink.where))
                yield Seq(r[0], q.items + [v.obj]), how
            # room for an element that the caller fills in
            r = self.one(q.st, "push", [self.obj, NULL])
            if r is not None:
                t = self.one(r[0], "top", [self.obj])
                self.ck.judge(t is not None and isinstance(r[1], PV) and t[1] == r[1], "push", self.at("push"),
                              "push without a value does not return the new element (%s)" % self.sink.where)
        how = "after popping one of %d elements" % n
        self.sink.where = "%s, %s" % (self.ctx, how)
        out = self.e.param("out", num(self.es))
        out = out if isinstance(out, PV) else PV(out, ZERO)
        r = self.one(q.st, "pop", [self.obj, out])
        if r is not None:
            if n:
                why = self.holds(r[0], r[1], q.items[-1])
                self.ck.judge(why is None and r[1] == out, "pop", self.at("pop"), "pop returns %s instead of the top (%s)"
                              % (why, self.sink.where))
                yield Seq(r[0], q.items[:-1]), how
            else:
                self.ck.judge(r[1] == NULL, "pop", self.at("pop"), "popping an empty stack does not return NULL")
                yield Seq(r[0], []), how
        if n:
            r = self.one(q.st, "pop", [self.obj, NULL])
            if r is not None:
                yield Seq(r[0], q.items[:-1]), how


def S01(ck):
    limit, full = (140, 36) if ck.tier == "quick" else (600, 140)
    sizes = {"Debug": (8, 40), "Release": (1, 24)} if ck.tier == "quick" else dict.fromkeys(("Debug", "Release"), (1, 4, 8, 24, 40))
    jobs = []
    for cfg in ("Debug", "Release"):
        for es in sizes[cfg]:
            def f(cfg=cfg, es=es):
                where = "elements of %d bytes (%s)" % (es, cfg)
                ck.guarded("step", where, StackRun(ck, cfg, es, limit, full).run)
            ck.mod(cfg)
            ck.layout({"stack.size": "sizeof(passgen_stack)"}, cfg)
            jobs.append(f)

        def g(cfg=cfg):
            ck.guarded("step", "long runs (%s)" % cfg, StackRun(ck, cfg, 8, limit, full).deep,
                       8300 if ck.tier == "quick" else 66000)
        jobs.insert(0, g)
    ck.parallel(jobs)


# ------------------------------------------------------------------ hash maps
HLAYOUT = {
    "map.size": "sizeof(passgen_hashmap)", "map.cap": "offsetof(passgen_hashmap, capacity)",
    "map.len": "offsetof(passgen_hashmap, len)", "map.ctx": "offsetof(passgen_hashmap, context)",
    "map.data": "offsetof(passgen_hashmap, data)",
    "entry.size": "sizeof(passgen_hashmap_entry)", "entry.key": "offsetof(passgen_hashmap_entry, key)",
    "entry.value": "offsetof(passgen_hashmap_entry, value)",
    "ctx.size": "sizeof(passgen_hashmap_context)", "ctx.hash": "offsetof(passgen_hashmap_context, hash)",
    "ctx.equal": "offsetof(passgen_hashmap_context, equal)", "ctx.init": "offsetof(passgen_hashmap_context, init)",
    "ctx.fini": "offsetof(passgen_hashmap_context, fini)",
}
MAXCAP = 1 << 32


class Map:
    """an arbitrary hash map that satisfies the representation invariant

    The capacity is any number, every slot is empty or holds a key whose first or second
    position is that slot, and no two slots hold equal keys.  Slots are materialised when
    they are looked at; hash values and equality of keys are uninterpreted.
    """

    def __init__(self, ck, cfg, where, witness=False, empty=False, same=False, own=None):
        self.ck, self.cfg, self.where = ck, cfg, where
        self.own = own              # which position, if full, holds the very key given to the call, not just an equal one
        self.samevalue = same            # every entry has the value given to the call
        self.L = L = ck.layout(HLAYOUT, cfg)
        self.e = e = ck.engine(cfg, {}, max_steps=3000000)
        watch(e, Sink(ck, where))
        e.icall = self.icall
        self.witness = witness
        self.cap = Atom("capacity", 1, MAXCAP)
        self.len = Atom("len", 0, MAXCAP)
        self.C = ZERO if empty else var(self.cap)
        self.es = L["entry.size"]
        self.data = e.param("data", self.C.scale(self.es))
        self.data.attrs["init"] = self.slot_init
        self.ctx = e.param("context", num(L["ctx.size"]))
        self.fns = {}
        for n in ("hash", "equal", "init", "fini"):
            self.fns[e.newobj(n, "function", None)] = n
        byname = {n: o for o, n in self.fns.items()}
        P.attach(self.ctx, Ptrs(L["ctx.size"], {L["ctx." + n]: PV(byname[n], ZERO) for n in byname}))
        self.map = e.param("map", num(L["map.size"]))
        self.fields = {L["map.cap"]: self.C, L["map.len"]: ZERO if empty else var(self.len),
                       L["map.ctx"]: PV(self.ctx, ZERO), L["map.data"]: NULL if empty else PV(self.data, ZERO)}
        P.attach(self.map, Ptrs(L["map.size"], self.fields))
        self.k = e.param("key", None)
        self.v = e.param("value", None)
        self.v.nonnull = False      # NULL is a value like any other
        self.st = State().assume([var(self.cap) - var(self.len)])
        if witness:
            self.w = Atom("slot", 0, MAXCAP)
            self.wk, self.wv = e.param("witness key", None), e.param("witness value", None)
            self.wv.nonnull = False
            self.st = self.st.assume([var(self.cap) - var(self.w) + (-1), var(self.len) + (-1)])

    def say(self, cond, rule, where, msg, imp=False):
        self.e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where, "" if cond else
                               "%s (%s)" % (msg, self.where), imp))
        return cond

    # -- slots
    def slot_of(self, off):
        if any(k % self.es for _, k in off.t):
            return None, None
        r = off.c % self.es
        return mk({a: k // self.es for a, k in off.t}, off.c // self.es), r

    def pos(self, key, first, C=None):
        return self.e.opaque("urem", self.hash(key, first), C if C is not None else self.C, 64)

    def hash(self, key, first):
        return self.e.user_atom("hash", (key, bool(first)), 0, (1 << 64) - 1, 64)

    def slots(self, st):
        return [(k[1], v) for k, v in st.flags.items() if k[0] == "slot"]

    def key_at(self, p):
        if self.own is not None and p == self.pos(self.k, self.own):
            return self.k
        o = self.e.keyobj("key in slot", p)
        o.nonnull = True
        return o

    def val_at(self, p):
        if self.samevalue:
            return self.v
        o = self.e.keyobj("value in slot", p)
        o.nonnull = False
        return o

    def slot_init(self, e, st, obj, off, ty):
        p, r = self.slot_of(off)
        if p is None:
            return None
        if self.witness:
            return self.witness_init(e, st, p, r, ty)
        out = []
        rest = [st]
        for q, kind in self.slots(st):
            nxt = []
            for s in rest:
                if s.entails(p - q) and s.entails(q - p):
                    out.append((s, q, kind))
                    continue
                a = s.assume([p - q, q - p])
                if a is not None:
                    out.append((a, q, kind))
                b = s.assume_ne(p - q)
                if b is not None:
                    nxt.append(b)
            rest = nxt
        for s in rest:
            a = s.copy()
            a.flags[("slot", p)] = "empty"
            out.append((a, p, "empty"))
            K = self.key_at(p)
            if K is self.k and any(k[0] == "equal" and v for k, v in s.flags.items()):
                continue
            p1, p2 = self.pos(K, True), self.pos(K, False)
            bounds = [p1, self.C - p1 + (-1), p2, self.C - p2 + (-1), var(self.len) + (-1)]
            for eqs, ne in (([p1 - p, p - p1], None), ([p2 - p, p - p2], p1 - p)):
                b = s.assume(bounds + eqs)
                if b is not None and ne is not None:
                    b = b.assume_ne(ne)
                if b is not None:
                    b = b.copy()
                    b.flags[("slot", p)] = "full"
                    out.append((b, p, "full"))
        res = []
        for s, q, kind in out:
            res.append((s, self.cell(q, kind, r, ty)))
        return res

    def cell(self, q, kind, r, ty):
        if r not in (self.L["entry.key"], self.L["entry.value"]):
            return self.e.unknown(ty, "padding")
        if kind == "empty" and r == self.L["entry.key"]:
            v = NULL
        elif kind == "empty":
            # what an empty slot holds besides its key is anything
            o = self.e.keyobj("value in empty slot", q)
            o.nonnull = False
            v = PV(o, ZERO)
        else:
            v = PV(self.key_at(q) if r == self.L["entry.key"] else self.val_at(q), ZERO)
        return self.e.convert(None, v, ty)

    def witness_init(self, e, st, p, r, ty):
        out = []
        a = st.assume([p - var(self.w), var(self.w) - p])
        if a is not None:
            out.append((a, PV(self.wk if r == self.L["entry.key"] else self.wv, ZERO)))
        b = st.assume_ne(p - var(self.w))
        if b is not None:
            # any other slot may be empty: its key may be NULL
            o = e.keyobj("key in slot" if r == self.L["entry.key"] else "value in slot", p)
            o.nonnull = False
            out.append((b, PV(o, ZERO)))
        return out

    # -- callbacks
    def icall(self, e, st, v, args, inst):
        n = self.fns.get(v.obj) if isinstance(v, PV) else None
        if n == "hash":
            return self.call_hash(e, st, args, inst)
        if n == "equal":
            return self.call_equal(e, st, args, inst)
        if n in ("init", "fini"):
            s = st.copy()
            s.flags[("ctx", n)] = s.flags.get(("ctx", n), 0) + 1
            return [(s, None)]
        if isinstance(v, PV) and v.obj is getattr(self, "func", None):
            return self.call_func(e, st, args, inst)
        return None

    def bools(self, e, st, v):
        if isinstance(v, Cond):
            return [(s, t) for t in (True, False) for s in e.assume_cond(st, v, t)]
        out = []
        for s, l in e.canon(st, e.iv(v, 8)):
            z = s.assume([-l])
            if z is not None and z.entails(l):
                out.append((z, False))
            elif z is not None:
                z = z.assume([l])
                if z is not None:
                    out.append((z, False))
            o = s.assume([l + (-1)])
            if o is not None:
                out.append((o, True))
        return out

    def call_hash(self, e, st, args, inst):
        m, k = e.aspv(args[0]), e.aspv(args[1])
        at = "%s:%s" % (loc(inst), inst.fn.name)
        ok = k.obj is not None and k.obj.nonnull and not k.off.t and k.off.c == 0
        self.say(ok, "hash-key", at, "something that is not a key is hashed", k.obj is not None and e.imprecise(k))
        if not ok:
            return []
        self.say(m.obj is self.map or m.obj is None or m.obj.kind == "stack", "hash-key", at,
                 "the context is asked about another map")
        return [(s, IV(64, self.hash(k.obj, t))) for s, t in self.bools(e, st, args[2])]

    def call_equal(self, e, st, args, inst):
        a, b = e.aspv(args[1]), e.aspv(args[2])
        at = "%s:%s" % (loc(inst), inst.fn.name)
        ok = all(x.obj is not None and x.obj.nonnull and not x.off.t and x.off.c == 0 for x in (a, b))
        self.say(ok, "hash-key", at, "something that is not a key is compared",
                 any(x.obj is not None and e.imprecise(x) for x in (a, b)))
        if not ok:
            return []
        if a.obj is b.obj:
            return [(st, ival(8, 1))]
        if self.k not in (a.obj, b.obj):
            return [(st, ival(8, 0))]
        o = b.obj if a.obj is self.k else a.obj
        return [(s, ival(8, 1 if t else 0)) for s, t in self.equal(st, o)]

    def equal(self, st, o):
        """is the key in a slot equal to the key of the operation"""
        f = ("equal", o)
        if f in st.flags:
            return [(st, st.flags[f])]
        out = []
        s = st.copy()
        s.flags[f] = False
        out.append((s, False))
        if not any(k[0] == "equal" and v for k, v in st.flags.items()) and not any(v == "full" and self.key_at(q) is self.k for q, v in self.slots(st)):
            d = []
            for first in (True, False):
                x = self.pos(o, first) - self.pos(self.k, first)
                d += [x, -x]
            s = st.assume(d)
            if s is not None:
                s = s.copy()
                s.flags[f] = True
                out.append((s, True))
        return out

    # -- results
    def get(self, st, pv, size=8, ptr=True):
        r = self.e.load(st, pv, PTR if ptr else INT[size])
        return r

    def field(self, st, name, ptr=False):
        r = self.e.load(st, PV(self.map, num(self.L[name])), PTR if ptr else I64)
        return r[0][1] if len(r) == 1 else None

    def same(self, s, where, names=("map.cap", "map.ctx", "map.data", "map.len"), delta=0):
        """the fields of the map, apart from the number of entries, are as they were"""
        for n in names:
            ptr = n in ("map.ctx", "map.data")
            v = self.field(s, n, ptr)
            want = self.fields[self.L[n]]
            if ptr:
                self.say(v == want, "frame", where, "the %s of the map is %r" % (n[4:], v), self.e.imprecise(v))
                continue
            want = want + (delta if n == "map.len" else 0)
            l = v.l if isinstance(v, IV) else None
            ok = l is not None and s.eq(l, want)
            self.say(ok, "count" if n == "map.len" else "frame", where, "the %s of the map is %r, not %r" % (n[4:], l, want),
                     l is not None and self.e.imprecise(l))

    def entries(self, s):
        """final contents of every slot that was looked at: [(state, [(slot, key, value)])]"""
        acc = [(s, [])]
        for q, kind in self.slots(s):
            nxt = []
            for s1, l in acc:
                for s2, k in self.e.load(s1, PV(self.data, q.scale(self.es) + self.L["entry.key"]), PTR):
                    for s3, v in self.e.load(s2, PV(self.data, q.scale(self.es) + self.L["entry.value"]), PTR):
                        nxt.append((s3, l + [(q, k, v)]))
            acc = nxt
        return acc

    def stray(self, s):
        """slots that were written without having been looked at"""
        for rec in s.mem.get(self.data, ()):
            if rec[0] == "havoc" or rec[1] is None:
                yield rec
                continue
            p, r = self.slot_of(rec[1])
            n = num(rec[2]) if isinstance(rec[2], int) else rec[2]
            if p is None or n.t or r + n.c > self.es or not any(s.eq(p, q) for q, _ in self.slots(s)):
                yield rec

    def isnull(self, v):
        return v is NULL or (isinstance(v, PV) and v.obj is None)

    def placed(self, s, key, q):
        return any(s.eq(self.pos(key, f), q) for f in (True, False))

    def examined(self, s, where, what):
        """both positions of the key were looked at and neither holds an equal key"""
        for first in (True, False):
            p = self.pos(self.k, first)
            hit = None
            for q, kind in self.slots(s):
                if s.eq(p, q):
                    hit = (q, kind)
            if hit is None:
                self.say(False, "lookup", where, "%s although the %s position of the key was not looked at"
                         % (what, "first" if first else "second"))
            elif hit[1] == "full" and self.key_at(hit[0]) is not self.k and s.flags.get(("equal", self.key_at(hit[0]))) is None:
                self.say(False, "lookup", where, "%s although the key in its %s position was not compared"
                         % (what, "first" if first else "second"))
            else:
                self.say(True, "lookup", where, "")

    def found(self, s):
        for q, kind in self.slots(s):
            if kind == "full" and (self.key_at(q) is self.k or s.flags.get(("equal", self.key_at(q)))):
                return q
        return None

    def compare(self, s, where, want):
        """the slots hold exactly the wanted entries, each in one of its positions"""
        for rec in self.stray(s):
            self.say(False, "entries", where, "slot at %r is written without looking at what it holds" % (rec[1],))
        for s1, l in self.entries(s):
            self.compare1(s1, where, want, l)

    def compare1(self, s, where, want, slots):
        have = []
        for q, k, v in slots:
            if self.isnull(k):
                continue
            have.append((k, v))
            if isinstance(k, PV) and k.obj is not None:
                self.say(self.placed(s, k.obj, q), "position", where,
                         "%s ends up in slot %r, where it is not looked for" % (k.obj.name, q), self.e.imprecise(k))
        for k, v in want:
            n = sum(1 for a, b in have if a == k and b == v)
            self.say(n == 1, "entries", where, "the entry with %s is there %d times afterwards" % (k.obj.name, n))
        for a, b in have:
            self.say(any(a == k and b == v for k, v in want), "entries", where,
                     "an entry that was not there before or was to be replaced is there afterwards: %r, %r" % (a, b),
                     self.e.imprecise(a) or self.e.imprecise(b))

    def before(self, s, without=None):
        return [(PV(self.key_at(q), ZERO), PV(self.val_at(q), ZERO)) for q, kind in self.slots(s)
                if kind == "full" and q is not without]

    def agg(self, v):
        return v.e if isinstance(v, AggV) else None

    def call(self, name, args, sret=True):
        """call a function returning an entry: [(st, key, value)]"""
        fn = self.ck.fn(name, self.cfg)
        e = self.e
        rets = e.call(self.st, fn, args)
        return [(s, r) for s, r in rets]


def rule_at(fn):
    return "src/container/hashmap.c:%s" % fn


def entry_of(m, s, r):
    v = m.agg(r)
    if v is not None and len(v) == 2:
        return [m.e.aspv(x) for x in v]
    return None


def h_insert_same(ck, cfg, empty):
    h_insert(ck, cfg, empty, True)


def h_insert_first(ck, cfg, empty):
    h_insert(ck, cfg, empty, own=True)


def h_insert_second(ck, cfg, empty):
    h_insert(ck, cfg, empty, own=False)


def h_insert(ck, cfg, empty, same=False, own=None):
    where = "insert into %s map%s%s (%s)" % ("an empty" if empty else "any", " of the value all keys have" if same else "",
                                             " that has the very key" if own is not None else "", cfg)
    m = Map(ck, cfg, where, empty=empty, same=same, own=own)
    e, at = m.e, rule_at("passgen_hashmap_insert")
    root = ck.fn("passgen_hashmap_insert", cfg)
    kv, vv, mp = PV(m.k, ZERO), PV(m.v, ZERO), PV(m.map, ZERO)
    state = {"depth": 0}

    def insert(e_, st, args, inst):
        if inst is None:
            return None
        # the key is inserted again once there is room
        s = st.copy()
        ok = e.aspv(args[0]) == mp and e.aspv(args[1]) == kv and e.aspv(args[2]) == vv
        m.say(ok, "grow", at, "after growing, something else than the entry is inserted")
        m.say(bool(s.flags.get("grown")), "grow", at, "the insertion starts over without any room having been made")
        s.flags["again"] = s.flags.get("again", 0) + 1
        return [(s, AggV([PV(e.newobj("previous key", "param", None), ZERO), PV(e.newobj("previous value", "param", None), ZERO)]))]

    def realloc(e_, st, args, inst):
        if empty:
            return None
        s = st.copy()
        for s2, c in e.canon(s, e.iv(args[1], 64)):
            m.say(s2.entails(c - m.C + (-1)), "grow", at, "the map grows from capacity to %r, which is not more" % c, e.imprecise(c))
        m.say(e.aspv(args[0]) == mp, "grow", at, "another map grows")
        s.flags["grown"] = s.flags.get("grown", 0) + 1
        return [(s, None)]

    nxt = ck.mod(cfg).fns.get("next_capacity")
    if nxt is not None and len(nxt.params) == 1 and not empty:
        # decided once for every capacity, and summarised where it is called
        for s, r in e.call(m.st, nxt, [mp]):
            for s2, c in e.canon(s, e.iv(r, 64)):
                m.say(s2.entails(c - m.C + (-1)), "grow", rule_at("next_capacity"),
                      "the map grows from capacity to %r, which is not more" % c, e.imprecise(c))
        more = Atom("next capacity", 1, MAXCAP)

        def summary(e_, st, args, inst):
            if e.aspv(args[0]) != mp:
                return None
            s = st.assume([var(more) - m.C + (-1)])
            return [] if s is None else [(s, IV(64, var(more)))]
        e.hooks["next_capacity"] = summary
    e.hooks["passgen_hashmap_insert"] = insert
    if "passgen_hashmap_realloc" in ck.mod(cfg).fns:
        e.hooks["passgen_hashmap_realloc"] = realloc
    rets = e.call(m.st, root, [mp, kv, vv])
    m.say(bool(rets), "result", at, "no insertion ever returns")
    for s, r in rets:
        x = entry_of(m, s, r)
        if x is None:
            m.say(False, "result", at, "the result cannot be told", True)
            continue
        if empty:
            fresh(m, s, at)
            continue
        if s.flags.get("grown"):
            m.say(s.flags.get("again", 0) == 1, "grow", at, "after growing, the entry is inserted %d times" % s.flags.get("again", 0))
            m.compare(s, at, m.before(s))
            m.same(s, at)
            continue
        t = m.found(s)
        if t is not None:
            m.say(x[0] == PV(m.key_at(t), ZERO) and x[1] == PV(m.val_at(t), ZERO), "result", at,
                  "replacing an entry returns %r instead of the entry replaced" % x)
            m.compare(s, at, m.before(s, t) + [(kv, vv)])
            m.same(s, at)
        else:
            m.examined(s, at, "a new entry is made")
            m.say(m.isnull(x[0]), "result", at, "a previous key is returned although there was none")
            m.compare(s, at, m.before(s) + [(kv, vv)])
            m.same(s, at, delta=1)
    drain(ck, e)
    ck.note(e)


def fresh(m, s, at):
    """the first entry of an empty map"""
    e = m.e
    d = m.field(s, "map.data", True)
    c, n = m.field(s, "map.cap"), m.field(s, "map.len")
    ok = isinstance(d, PV) and d.obj is not None and isinstance(c, IV) and c.const and isinstance(n, IV) and n.const
    if not m.say(ok, "first", at, "the map after the first insertion cannot be told: %r %r %r" % (d, c, n), True):
        return
    m.say(n.u == 1, "count", at, "the map holds one entry and its len is %d" % n.u)
    m.say(c.u > 0 and d.obj.size is not None and s.entails(d.obj.size - c.u * m.es), "first", at,
          "%d slots are claimed in an allocation of %r bytes" % (c.u, d.obj.size))
    for f in (True, False):
        lo = m.pos(m.k, f, num(c.u))
    hits = 0
    for i in range(min(c.u, 64)):
        k = e.load(s, PV(d.obj, num(i * m.es + m.L["entry.key"])), PTR)
        v = e.load(s, PV(d.obj, num(i * m.es + m.L["entry.value"])), PTR)
        if any(x == PV(m.k, ZERO) for _, x in k):
            pairs = [(a, y) for (a, x) in k if x == PV(m.k, ZERO) for _, y in e.load(a, PV(d.obj, num(i * m.es + m.L["entry.value"])), PTR)]
            hits += 1
            m.say(all(y == PV(m.v, ZERO) for _, y in pairs), "first", at, "the value stored is %r" % (pairs[0][1],))
    m.say(hits > 0, "first", at, "the first entry of a map is not stored")


def h_lookup_first(ck, cfg, empty):
    h_lookup(ck, cfg, empty, True)


def h_lookup_second(ck, cfg, empty):
    h_lookup(ck, cfg, empty, False)


def h_lookup(ck, cfg, empty, own=None):
    where = "lookup in %s map%s (%s)" % ("an empty" if empty else "any", " that has the very key" if own is not None else "", cfg)
    m = Map(ck, cfg, where, empty=empty, own=own)
    e, at = m.e, rule_at("passgen_hashmap_lookup")
    rets = e.call(m.st, ck.fn("passgen_hashmap_lookup", cfg), [PV(m.map, ZERO), PV(m.k, ZERO)])
    m.say(bool(rets), "result", at, "no lookup ever returns")
    for s, r in rets:
        r = e.aspv(r)
        t = m.found(s)
        if t is not None:
            ok = r.obj is m.data and s.eq(r.off, t.scale(m.es))
            m.say(ok, "result", at, "the key is in slot %r and %r is returned" % (t, r), e.imprecise(r))
        else:
            if not empty:
                m.examined(s, at, "nothing is found")
            m.say(m.isnull(r), "result", at, "an entry is returned although no key was equal: %r" % r, e.imprecise(r))
        m.compare(s, at, m.before(s))
        m.same(s, at)
    drain(ck, e)
    ck.note(e)


def h_remove_first(ck, cfg, empty):
    h_remove(ck, cfg, empty, True)


def h_remove_second(ck, cfg, empty):
    h_remove(ck, cfg, empty, False)


def h_remove(ck, cfg, empty, own=None):
    where = "remove from %s map%s (%s)" % ("an empty" if empty else "any", " that has the very key" if own is not None else "", cfg)
    m = Map(ck, cfg, where, empty=empty, own=own)
    e, at = m.e, rule_at("passgen_hashmap_remove")
    e.on_divzero = lambda e_, s, y: m.say(not s.entails(-y), "divide", at, "the position in a map without slots is computed")
    rets = e.call(m.st, ck.fn("passgen_hashmap_remove", cfg), [PV(m.map, ZERO), PV(m.k, ZERO)])
    m.say(bool(rets), "result", at, "no removal ever returns")
    for s, r in rets:
        x = entry_of(m, s, r)
        if x is None:
            m.say(False, "result", at, "the result cannot be told", True)
            continue
        t = m.found(s)
        if t is not None:
            m.say(x[0] == PV(m.key_at(t), ZERO) and x[1] == PV(m.val_at(t), ZERO), "result", at,
                  "removing an entry returns %r instead of the entry removed" % x)
            m.compare(s, at, m.before(s, t))
            m.same(s, at, delta=-1)
        else:
            if not empty:
                m.examined(s, at, "nothing is removed")
            m.say(m.isnull(x[0]), "result", at, "an entry is returned although no key was equal")
            m.compare(s, at, m.before(s))
            m.same(s, at)
    drain(ck, e)
    ck.note(e)


def h_foreach(ck, cfg):
    where = "foreach over any map (%s)" % cfg
    m = Map(ck, cfg, where, witness=True)
    e, at = m.e, rule_at("passgen_hashmap_foreach")
    m.func = e.newobj("func", "function", None)
    user = PV(e.newobj("user", "param", None, False), ZERO)

    def call_func(e_, st, args, inst):
        u, en = e.aspv(args[0]), e.aspv(args[1])
        m.say(u == user, "foreach", at, "the user pointer passed on is %r" % u)
        p, r = m.slot_of(en.off) if en.obj is m.data else (None, None)
        if not m.say(p is not None and r == 0, "foreach", at, "the function is called with %r, which is not an entry" % en, e.imprecise(en)):
            return [(st, ival(32, 0))]
        m.say(not st.flags.get("stop"), "foreach", at, "the function is called again after it returned nonzero")
        out = []
        for s, hit in ((st.assume([p - var(m.w), var(m.w) - p]), True), (st.assume_ne(p - var(m.w)), False)):
            if s is None:
                continue
            s = s.copy()
            if hit:
                s.flags["visits"] = min(2, s.flags.get("visits", 0) + 1)
            else:
                k = e.load(s, PV(m.data, p.scale(m.es) + m.L["entry.key"]), PTR)
                for s2, x in k:
                    pass
            out.append((s, ival(32, 0)))
            s = s.copy()
            a = e.user_atom("result", (), 1, 0xffffffff, 32)
            s.flags["stop"] = True
            out.append((s, IV(32, a)))
        return out

    m.call_func = call_func
    rets = e.call(m.st, ck.fn("passgen_hashmap_foreach", cfg), [PV(m.map, ZERO), user, PV(m.func, ZERO)])
    m.say(bool(rets), "foreach", at, "no iteration ever returns")
    for s, r in rets:
        for s2, l in e.canon(s, e.iv(r, 32)):
            n = s2.flags.get("visits", 0)
            if s2.flags.get("stop"):
                m.say(s2.eq(l, e.user_atom("result", (), 1, 0xffffffff, 32)), "foreach", at,
                      "the nonzero result of the function is not returned but %r" % l, e.imprecise(l))
                m.say(n <= 1, "foreach", at, "an entry is visited more than once")
            else:
                m.say(s2.eq(l, ZERO), "foreach", at, "a complete iteration returns %r" % l, e.imprecise(l))
                m.say(n == 1, "foreach", at, "an entry is visited %s in a complete iteration" % ("never" if n == 0 else "more than once"))
    drain(ck, e)
    ck.note(e)


def h_grow(ck, cfg):
    if "passgen_hashmap_realloc" not in ck.mod(cfg).fns:
        return
    where = "growing any map (%s)" % cfg
    m = Map(ck, cfg, where, witness=True)
    e, at = m.e, rule_at("passgen_hashmap_realloc")
    newcap = Atom("new capacity", 1, MAXCAP)
    mp = PV(m.map, ZERO)

    def insert(e_, st, args, inst):
        a = [e.aspv(x) for x in args]
        m.say(a[0] == mp, "grow", at, "an old entry goes into %r" % a[0])
        if not st.flags.get("first"):
            # nothing of the old map may be left
            d, c, n = (m.field(st, x, x == "map.data") for x in ("map.data", "map.cap", "map.len"))
            ok = isinstance(d, PV) and d.obj is not None and d.obj is not m.data
            m.say(ok, "grow", at, "old entries are inserted into the old slots")
            if ok:
                m.say(d.obj.size is not None and isinstance(c, IV) and st.entails(d.obj.size - c.l.scale(m.es)), "grow", at,
                      "%r slots are claimed in an allocation of %r bytes" % (c, d.obj.size))
                m.say(bool(d.obj.attrs.get("zero")), "grow", at, "the new slots are not empty to begin with")
            m.say(isinstance(n, IV) and n.const and n.u == 0, "count", at, "entries are inserted while len is already %r" % n,
                  e.imprecise(n))
            m.say(isinstance(c, IV) and st.eq(c.l, var(newcap)), "grow", at, "the new capacity is %r" % c, e.imprecise(c))
        m.say(not st.flags.get(("freed", m.data.id)), "grow", at, "the old slots are released before they were read")
        s = st.copy()
        s.flags["first"] = True
        if a[1].obj is m.wk:
            m.say(a[2] == PV(m.wv, ZERO), "grow", at, "a key is inserted with %r instead of its value" % a[2], e.imprecise(a[2]))
            s.flags["moved"] = min(2, s.flags.get("moved", 0) + 1)
        else:
            ok = a[1].obj is not None and (a[1].obj.nonnull or st.entails(-var(e.nullatom(a[1].obj))))
            m.say(ok, "grow", at, "%r is inserted" % a[1], e.imprecise(a[1]))
        return [(s, AggV([NULL, NULL]))]

    e.hooks["passgen_hashmap_insert"] = insert
    rets = e.call(m.st, ck.fn("passgen_hashmap_realloc", cfg), [mp, IV(64, var(newcap))])
    m.say(bool(rets), "grow", at, "growing never returns")
    for s, r in rets:
        n = s.flags.get("moved", 0)
        m.say(n == 1, "grow", at, "an entry is %s" % ("lost" if n == 0 else "inserted more than once"))
        m.say(bool(s.flags.get(("freed", m.data.id))), "release", at, "the old slots are not released")
    drain(ck, e)
    ck.note(e)


def h_ends(ck, cfg):
    """init and free"""
    m = Map(ck, cfg, "init (%s)" % cfg)
    e, at = m.e, rule_at("passgen_hashmap_init")
    raw = e.param("raw map", num(m.L["map.size"]))
    for given in (True, False):
        m.map = raw
        ctx = PV(m.ctx, ZERO) if given else NULL
        hooks = []
        for s, _ in e.call(m.st, ck.fn("passgen_hashmap_init", cfg), [PV(raw, ZERO), ctx]):
            d, c, n, x = (m.field(s, f, f in ("map.data", "map.ctx")) for f in ("map.data", "map.cap", "map.len", "map.ctx"))
            m.say(m.isnull(d) and c == ival(64, 0) and n == ival(64, 0), "init", at, "a new map has %r, capacity %r, len %r" % (d, c, n))
            if given:
                m.say(x == ctx, "init", at, "the context of a new map is %r" % x)
                m.say(s.flags.get(("ctx", "init")) == 1, "init", at, "the context is not initialised")
            else:
                m.say(isinstance(x, PV) and x.obj is not None and x.obj.origin is not None and
                      getattr(x.obj.origin, "name", "") == "passgen_hashmap_context_utf8", "init", at,
                      "without a context the map uses %r" % x)
    drain(ck, e)
    ck.note(e)
    m = Map(ck, cfg, "free (%s)" % cfg)
    e, at = m.e, rule_at("passgen_hashmap_free")
    for s, _ in e.call(m.st, ck.fn("passgen_hashmap_free", cfg), [PV(m.map, ZERO)]):
        m.say(bool(s.flags.get(("freed", m.data.id))), "release", at, "the slots are not released")
        m.say(s.flags.get(("ctx", "fini")) == 1, "release", at, "the context is not released")
    drain(ck, e)
    ck.note(e)


def H01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.layout(HLAYOUT, cfg)
        for f in ("init", "insert", "lookup", "remove", "foreach", "free"):
            ck.fn("passgen_hashmap_" + f, cfg)
        for f, a in [(h_insert, True), (h_insert, False), (h_insert_same, False), (h_insert_first, False), (h_insert_second, False),
                     (h_lookup, True), (h_lookup, False), (h_lookup_first, False), (h_lookup_second, False),
                     (h_remove, True), (h_remove, False), (h_remove_first, False), (h_remove_second, False)]:
            jobs.append(lambda f=f, a=a, cfg=cfg: ck.guarded("step", "%s, %s map (%s)" % (f.__name__[2:], "empty" if a else "any", cfg),
                                                            f, ck, cfg, a))
        for f in (h_foreach, h_grow, h_ends):
            jobs.append(lambda f=f, cfg=cfg: ck.guarded("step", "%s (%s)" % (f.__name__[2:], cfg), f, ck, cfg))
    ck.parallel(jobs)
