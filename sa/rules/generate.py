"""Generation: choices, emissions, entropy, failures, recursion (src/generate.c)."""
import time

from ..terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond, Obj, modnorm
from ..interp import INT, _PTR, State, _DBL as F64
from ..check import loc
from .random import flush, _bounds_cb
from .. import pattern as P


# ------------------------------------------------------------------ model
def draw_max(w):
    def hook(e, st, args, inst):
        out = []
        for s, m in e.canon(st, e.iv(args[1], w)):
            z = s.assume([-m])
            if z is not None:
                zz = z.copy()
                zz.event("draw0", inst=inst)
                e.gen.zero_bound(e, zz, inst)
            s = s.assume([m + (-1)])
            if s is None:
                continue
            a = Atom("draw@%s" % loc(inst).split("/")[-1], 0, (1 << w) - 1, "draw", (), w)
            s = s.assume([var(a), m - var(a) + (-1)])
            if s is None:
                continue
            s = s.copy()
            e.gen.draw(e, s, a, m, inst, args[0])
            out.append((s, IV(w, var(a))))
        return out
    return hook


def draw_bool(e, st, args, inst):
    a = Atom("bool@%s" % loc(inst).split("/")[-1], 0, 1, "draw", (), 8)
    s = st.copy()
    e.gen.draw(e, s, a, num(2), inst, args[0])
    return [(s, Cond("ne", IV(8, var(a)), ival(8, 0)))]


def draw_raw(w):
    def hook(e, st, args, inst):
        a = Atom("raw@%s" % loc(inst).split("/")[-1], 0, (1 << w) - 1, "draw", (), w)
        s = st.copy()
        e.gen.draw(e, s, a, num(1 << w), inst, args[0])
        return [(s, IV(w, var(a)))]
    return hook


def gmul(s, name, f, e=1):
    cur = s.ghost.get(name)
    if cur is not None:
        s.ghost[name] = cur.mul(f, e)


def fpof(l):
    """FP value of an integer linear form"""
    return FP(float(l.c)) if not l.t else FP(1.0, [(l, 1)])


class Gen:
    """observes the draws and emissions of one analysis of passgen_generate"""

    def __init__(self, ck, where, fail=False):
        self.ck, self.where, self.fail = ck, where, fail
        self.on_emit = None
        self.ndraw = 0
        self.rules = None
        self.want = True

    def zero_bound(self, e, st, inst):
        pass

    def draw(self, e, s, a, m, inst, rnd):
        self.ndraw += 1
        if s.flags.get("failed"):
            self.say(e, False, "stops-after-failure", "randomness is consumed at %s after %s"
                     % (loc(inst), s.flags["failed"]))
        s.event("draw", atom=a, max=m, inst=inst)
        gmul(s, "X", fpof(m))

    def say(self, e, cond, rule, msg, imp=False):
        if self.rules is None or rule in self.rules:
            e.journal.append(("ok" if cond else "und" if imp else "bad", rule, self.where, "" if cond else msg, imp))

    def emit(self, e, st, callee, args, inst):
        if not (isinstance(callee, PV) and callee.obj is self.func and not callee.off.t and callee.off.c == 0):
            return None
        d = args[0]
        self.say(e, isinstance(d, PV) and d.obj is self.data and d.off == ZERO, "callback-data",
                 "the callback at %s does not get the caller's data pointer but %r" % (loc(inst), d), e.imprecise(d))
        if st.flags.get("failed"):
            self.say(e, False, "stops-after-failure", "the callback is called at %s after %s"
                     % (loc(inst), st.flags["failed"]))
        s = st.copy()
        s.event("emit", cp=args[1], inst=inst)
        if self.on_emit and self.on_emit(e, s, e.iv(args[1], 32), inst) == "stop":
            return []
        if "E" in s.ghost:
            s.ghost["E"] = IV(64, s.ghost["E"].l + 1)
        out = [(s, ival(32, 0))]
        if self.fail:
            for lo, hi in ((1, (1 << 31) - 1), (-(1 << 31), -1)):
                f = s.copy()
                f.flags["failed"] = "the callback failing at %s" % loc(inst)
                out.append((f, IV(32, var(Atom("callback_error", lo, hi)))))
        return out


def hooks(extra=None):
    h = {"passgen_stack_get": P.hook_stack_get, "passgen_stack_top": P.hook_stack_top,
         "passgen_random_bool": draw_bool}
    for w in (8, 16, 32, 64):
        h["passgen_random_u%d_max" % w] = draw_max(w)
        h["passgen_random_u%d" % w] = draw_raw(w)
    if extra:
        h.update(extra)
    return h


def run(ck, cfg, where, group, entropy=True, fail=False, on_emit=None, extra=None, setup=None, rec=0, ghost=(),
        cb=None):
    """analyse passgen_generate on a pattern whose group is `group`; [(st, ret)], engine, Gen"""
    L = ck.layout(P.LAYOUT)
    fn = ck.fn("passgen_generate", cfg)
    e = ck.engine(cfg, hooks(extra))
    e.layout = L
    e.on_newkey = P.newkey
    e.rec_inline = rec
    g = e.gen = Gen(ck, where, fail)
    g.on_emit = on_emit
    g.L = L
    st = State()
    group.base = L["pattern.group"]
    pat = P.attach(e.param("pattern", num(L["pattern.size"])), group)
    env = e.param("env", num(L["env.size"]))
    g.pat, g.env = pat, env
    g.ent = e.param("entropy", num(8))
    g.data, g.func = e.param("data"), e.param("func")
    e.icall = g.emit
    if cb:
        cb(e, g)
    if setup:
        st = setup(e, st, g)
    st = st.copy()
    if "X" in ghost:
        st.ghost["X"] = FP(1.0)
    if "E" in ghost:
        st.ghost["E"] = ival(64, 0)
    rets = e.call(st, fn, [PV(pat, ZERO), PV(env, ZERO), PV(g.ent, ZERO) if entropy else NULL,
                           PV(g.data, ZERO), PV(g.func, ZERO)])
    ck.note(e)
    g.unknown = bool(e.unknown_calls)
    return rets, e, g


def split(e, rets):
    """(successes, failures) of (st, ret)"""
    ok, bad = [], []
    for st, r in rets:
        r = e.iv(r, 32)
        for s in e.assume_cond(st, Cond("eq", r, ival(r.w, 0)), True):
            ok.append(s)
        for s in e.assume_cond(st, Cond("eq", r, ival(r.w, 0)), False):
            bad.append(s)
    return ok, bad


def leaf(L, count=1, min=1, max=1, maybe=0):
    return P.Item(L, "literal", P.Literal(L, count), min, max, maybe)


def single(L, item):
    """a pattern with exactly one segment and one item"""
    return P.Group(L, 1, 1, lambda i: P.Segment(L, 1, 1, lambda j: item))


def entropy_of(e, st, g):
    return e._load(st, g.ent, st.mem.get(g.ent, ()), ZERO, F64, None)


def sym(name, lo, hi):
    return var(Atom(name, lo, hi))


# ------------------------------------------------------------------ pattern schemas
def S_literal(L):
    return single(L, leaf(L, sym("count", 1, 7)))


def S_repeat(L):
    mn, df = sym("min", 0, 1 << 40), sym("diff", 0, 1 << 40)
    return single(L, leaf(L, 1, mn, mn + df))


def S_optrepeat(L):
    """an item with any repetitions that may be optional"""
    mn, df = sym("min", 0, 1 << 40), sym("diff", 0, 1 << 40)
    return single(L, leaf(L, 1, mn, mn + df, None))


def S_maybe(L):
    return single(L, leaf(L, 1, maybe=None))


def S_set(L):
    return single(L, P.Item(L, "set", P.Set(L, sym("ranges", 1, P.MAXCOUNT))))


def S_emptyset(L):
    return single(L, P.Item(L, "set", P.Set(L, 0)))


def S_group(L):
    return P.Group(L, sym("segments", 1, P.MAXCOUNT), sym("sum", 1, 1 << 40),
                   lambda i: P.Segment(L, 1, None, lambda j: leaf(L)))


def S_nogroup(L):
    return P.Group(L, sym("segments", 0, P.MAXCOUNT), 0, lambda i: P.Segment(L, 1, None, lambda j: leaf(L)))


def S_sequence(L):
    return P.Group(L, 1, 1, lambda i: P.Segment(L, sym("items", 0, P.MAXCOUNT), 1, lambda j: leaf(L)))


def S_setrepeat(L):
    """any number of sets, each repeated and optional in any way"""
    mn, df = sym("min", 0, 1 << 40), sym("diff", 0, 1 << 40)
    return P.Group(L, 1, 1, lambda i: P.Segment(L, sym("items", 0, P.MAXCOUNT), 1, lambda j: P.Item(
        L, "set", P.Set(L, 1), mn, mn + df, None)))


def nested(L, depth, inner, segs=1, sum=1, mult=1, items=1, min=1, max=1, maybe=0):
    """`depth` groups around the item `inner`"""
    it = inner
    for _ in range(depth):
        it = P.Item(L, "group", (lambda it: P.Group(L, segs, sum, lambda i: P.Segment(L, items, mult, lambda j: it)))(it),
                    min, max, maybe)
    return single(L, it)


def S_nested(L):
    mn, df = sym("min", 0, 1 << 40), sym("diff", 0, 1 << 40)
    return nested(L, 1, leaf(L), segs=sym("segments", 1, P.MAXCOUNT), sum=sym("sum", 1, 1 << 40), mult=None,
                  min=mn, max=mn + df)


def S_inner(L):
    """a group of any number of alternatives inside a sequence of one"""
    return nested(L, 1, leaf(L), segs=sym("segments", 1, P.MAXCOUNT), sum=sym("sum", 1, 1 << 40), mult=None)


def S_times(L):
    """a repeated and optional group"""
    mn, df = sym("min", 0, 1 << 40), sym("diff", 0, 1 << 40)
    return nested(L, 1, leaf(L), min=mn, max=mn + df, maybe=None)


def S_special(kind):
    return lambda L: single(L, P.Item(L, "special", P.Special(L, kind)))


def deep(e, st, g):
    """enough recursion depth for the pattern"""
    g.env.attrs["init"] = lambda e, st, o, off, ty: \
        [(st, IV(64, sym("depth_limit", 16, 1 << 40)))] if off == num(g.L["env.depth"]) else None
    return st


# ------------------------------------------------------------------ contracts for wordlists
def special_hooks(L):
    def lookup(e, st, args, inst):
        p = e.aspv(args[0])
        s = e.require_nonnull(st, p, inst)
        if s is None:
            return []
        o = e.keyobj("entry", p.obj, p.off)
        o.nonnull = True
        e.gen.say(e, isinstance(args[1], PV) and args[1].obj is not None and args[1].obj.attrs.get("key", ("",))[0]
                  == "parameters", "lookup-key", "the wordlist looked up at %s is not the one the pattern names" % loc(inst),
                  e.imprecise(args[1]))
        e.gen.say(e, p.obj is e.gen.env and p.off == num(L["env.wordlists"]), "lookup-key",
                  "the lookup at %s is not in the environment's wordlists" % loc(inst), e.imprecise(p))
        s2 = st.copy()
        s2.flags["failed"] = "a lookup of an unknown name"
        return [(s, PV(o, ZERO)), (s2, NULL)]

    def parse(e, st, args, inst):
        p = e.aspv(args[0])
        s = e.require_nonnull(st, p, inst)
        if s is None:
            return []
        a = s.copy()
        e.put(a, e.canonobj(p.obj), ("s", p.off + L["wl.parsed"], 1, ival(8, 1)))
        b = s.copy()
        e.put(b, e.canonobj(p.obj), ("s", p.off + L["wl.parsed"], 1, IV(8, var(Atom("parsed", 0, 1)))))
        b.flags["failed"] = "a word list that could not be read"
        return [(a, ival(32, 0)), (b, IV(32, var(Atom("parse_error", 1, 255))))]

    def parse_markov(e, st, args, inst):
        p = e.aspv(args[0])
        s = e.require_nonnull(st, p, inst)
        if s is None:
            return []
        a = s.copy()
        if s.flags.get("failed"):
            e.gen.say(e, False, "stops-after-failure", "a word list that could not be read is used at %s" % loc(inst))
        e.put(a, e.canonobj(p.obj), ("s", p.off + L["wl.parsed_markov"], 1, ival(8, 1)))
        return [(a, None)]

    def decode(e, st, args, inst):
        outp, inp = e.aspv(args[0]), e.aspv(args[3])
        res = []
        for s, cap in e.canon(st, e.iv(args[1], 64)):
            for s1, buf in e.load(s, outp, _PTR, inst):
                for s2, src in e.load(s1, inp, _PTR, inst):
                    buf, src = e.aspv(buf), e.aspv(src)
                    bad = s2.copy()
                    bad.flags["failed"] = "a word that is not valid UTF-8 or too long"
                    res.append((bad, IV(32, var(Atom("decode_error", -255, -1)))))
                    s3 = e.access(s2, "store", buf, cap.scale(4), inst)
                    if s3 is None:
                        continue
                    m = Atom("decoded_len", 0, 1 << 40)
                    s3 = s3.assume([cap - var(m)])
                    if s3 is None:
                        continue
                    s3 = s3.copy()
                    d = e.newobj("decoded", "draw", var(m))
                    d.attrs["source"] = src
                    d.attrs["n"] = m
                    e.put(s3, e.canonobj(buf.obj), ("fill", buf.off, var(m).scale(4), d))
                    s3.event("decode", src=src, n=m, draw=d, len=args[4], inst=inst)
                    for s4 in e.store(s3, outp, PV(buf.obj, buf.off + var(m).scale(4)), _PTR, inst):
                        for s5, k in e.canon(s4, e.iv(args[4], 64)):
                            for s6 in e.store(s5, inp, PV(src.obj, src.off + k), _PTR, inst):
                                res.append((s6, ival(32, 0)))
        return res

    def markov(e, st, args, inst):
        g = e.gen
        s = st.copy()
        f = Atom("choices@%s" % loc(inst).split("/")[-1], None, None, "choices")
        ent = args[3]
        g.say(e, isinstance(ent, PV) and (ent.obj is g.ent and ent.off == ZERO if g.want else ent.obj is None),
              "entropy-passed", "the markov step at %s does not account to the caller's entropy (%r)" % (loc(inst), ent),
              e.imprecise(ent))
        if s.flags.get("failed"):
            g.say(e, False, "stops-after-failure", "a letter is generated at %s after %s" % (loc(inst), s.flags["failed"]))
        s.event("draw", atom=f, max=var(f), inst=inst)
        gmul(s, "X", FP(1.0, [(f, 1)]))
        out = []
        if isinstance(ent, PV) and ent.obj is not None:
            for s1, v in e.load(s, ent, F64, inst):
                out += e.store(s1, ent, v.mul(FP(1.0, [(f, 1)])), F64, inst)
        else:
            out = [s]
        c = IV(32, var(Atom("letter@%s" % loc(inst).split("/")[-1], 0, (1 << 32) - 1, "letter", (), 32)))
        return [(x, c) for x in out]
    return {"passgen_hashmap_lookup": lookup, "passgen_wordlist_parse": parse,
            "passgen_wordlist_parse_markov": parse_markov, "passgen_utf8_decode": decode,
            "passgen_markov_generate": markov}


SCHEMAS = {"literal": S_literal, "repeat": S_repeat, "optrepeat": S_optrepeat, "maybe": S_maybe, "set": S_set, "emptyset": S_emptyset,
           "group": S_group, "sequence": S_sequence, "setrepeat": S_setrepeat, "nested": S_nested, "inner": S_inner, "times": S_times,
           "wordlist": S_special("wordlist"), "markov": S_special("markov"), "preset": S_special("preset")}


def schema(ck, cfg, name, rule, **kw):
    L = ck.layout(P.LAYOUT)
    extra = special_hooks(L) if name in ("wordlist", "markov", "preset") else None
    fn = ck.fn("passgen_generate", cfg)
    where = "%s:passgen_generate on %s patterns (%s)" % (fn.file, name, cfg)
    r = run(ck, cfg, where, SCHEMAS[name](L), extra=extra, setup=deep, rec=2, **kw)
    return (where,) + r


SLOW = ("nested", "group", "setrepeat")
DEEP = ("nested",)      # thorough tier only


def sweep(ck, rule, one, names, cfgs=("Debug", "Release")):
    ck.layout(P.LAYOUT)
    names = [n for n in names if ck.tier != "quick" or n not in DEEP]
    jobs = []
    for cfg in cfgs:
        ck.fn("passgen_generate", cfg)
        for n in sorted(names, key=lambda n: n not in SLOW):
            jobs.append(lambda cfg=cfg, n=n: ck.guarded(rule, "passgen_generate on %s patterns (%s)" % (n, cfg), one, ck, cfg, n))
    ck.parallel(jobs)


# ------------------------------------------------------------------ G01
def G01(ck):
    sweep(ck, "entropy", _g01, list(SCHEMAS))


def seg_of(e, v):
    """segments whose literals a value comes from"""
    out = []
    for a in e.atoms_of(v, set()):
        if a.kind == "ld" and a.args[0].attrs.get("key", ("",))[0] == "elem":
            seg = a.args[0].attrs["key"][1]
            if seg.attrs.get("key", ("",))[0] == "elem" and seg not in out:
                out.append(seg)
    return out


def _weigh(e, s, cp, inst):
    """the letter of a segment is emitted: one of `multiplier` outcomes of its group was taken"""
    for seg in seg_of(e, cp):
        v = e.load(s, PV(seg, num(e.gen.L["segment.multiplier"])), INT[8])[0][1]
        gmul(s, "X", fpof(e.iv(v, 64).l), -1)


def _g01(ck, cfg, name):
    seqs = []
    for want in (True, False):
        def cb(e, g):
            g.want = want
            g.rules = ("entropy-passed",)
        where, rets, e, g = schema(ck, cfg, name, "entropy", entropy=want, ghost=("X", "E"), cb=cb,
                                   on_emit=_weigh if name in ("group", "inner", "times", "nested") else None)
        flush(ck, e)
        ok, bad = split(e, rets)
        ck.judge(bool(ok), "entropy", where, "no path succeeds", g.unknown)
        seqs.append(set((repr(s.ghost["E"]), repr(s.ghost["X"])) for s in ok))
        if not want:
            continue
        for s in ok:
            exp = s.ghost["X"]
            for s1, v in entropy_of(e, s, g):
                imp = g.unknown or e.imprecise(v) or e.imprecise(exp)
                ck.judge(isinstance(v, FP) and v == exp, "entropy", where,
                         "entropy is reported as %r where the choices made give %r" % (v, exp), imp)
    ck.judge(seqs[0] == seqs[1], "same-output", where, "asking for the entropy changes the choices that are made: %r against %r"
             % tuple(list(x - y)[:2] for x, y in ((seqs[0], seqs[1]), (seqs[1], seqs[0]))))


# ------------------------------------------------------------------ G02
def G02(ck):
    sweep(ck, "failure", _g02, list(SCHEMAS))
    sweep(ck, "failure", _g02_nochoice, ["nochoice"])


def _g02(ck, cfg, name):
    where, rets, e, g = schema(ck, cfg, name, "failure", fail=True, ghost=("E",),
                               cb=lambda e, g: setattr(g, "want", True))
    flush(ck, e)
    ok, bad = split(e, rets)
    n = 0
    for s in ok:
        f = s.flags.get("failed")
        ck.judge(not f, "failure", where, "success is returned although %s failed" % f, g.unknown)
    for s in bad:
        n += 1
        ck.judge(bool(s.flags.get("failed")) or name in ("preset", "wordlist", "markov"), "failure", where,
                 "generation fails although nothing failed", True)
    if name not in ("emptyset", "preset"):
        ck.judge(n > 0, "failure", where, "a failure is never reported", g.unknown)


def _g02_nochoice(ck, cfg, name):
    L = ck.layout(P.LAYOUT)
    fn = ck.fn("passgen_generate", cfg)
    where = "%s:passgen_generate without anything to choose (%s)" % (fn.file, cfg)
    rets, e, g = run(ck, cfg, where, S_nogroup(L), setup=deep, ghost=("E",))
    flush(ck, e)
    ok, bad = split(e, rets)
    ck.judge(not ok and bool(bad), "failure", where, "a group without any alternative to choose from succeeds", g.unknown)


def draws(st):
    """the draws that decide anything (a bound of one has a single outcome)"""
    return [x for x in st.events("draw") if not (isinstance(x[1]["max"], Lin) and st.eq(x[1]["max"], num(1)))]


# ------------------------------------------------------------------ G04
def G04(ck):
    sweep(ck, "choice", _g04, ["set", "group", "inner", "nested", "wordlist"])


def _sums(e, st, seg, L):
    """sums of the multipliers of all segments before `seg` that the state talks about"""
    k = seg.attrs["key"]
    idx = k[2]
    out = []
    if st.eq(idx, ZERO):
        out.append(ZERO)
    for c in st.cons.cs:
        for a in c.atoms():
            if a.kind != "sum" or var(a) in out:
                continue
            kat, d, upto = a.args
            want = e.ld_atom(e.keyobj("elem", k[1], var(kat), k[3]), num(L["segment.multiplier"]), 8)
            if d != want and d != -want:
                continue
            sg = 1 if d == want else -1
            z = var(a).scale(sg)
            # sum up to another index of the same sequence
            diff = idx - upto
            if not diff.t and 0 <= diff.c <= 3:
                for j in range(diff.c):
                    z = z + e.rn(d, {kat: upto + j}, {}).scale(sg)
                out.append(z)
    return out


def _lastdraw(e, st, m):
    """the latest draw whose bound is m"""
    for _, ev in reversed(draws(st)):
        if ev["max"] == m or st.eq(ev["max"], m):
            return ev["atom"]
    return None


def _g04(ck, cfg, name):
    seen = [0]

    def on_emit(e, st, cp, inst):
        g = e.gen
        L = g.L
        if st.flags.get("failed"):
            return
        seen[0] += 1
        if name == "set":
            _g04_set(e, st, cp, inst)
        elif name in ("group", "inner", "nested"):
            segs = seg_of(e, cp)
            if len(segs) != 1:
                return g.say(e, False, "choice", "the letter emitted at %s does not come from one segment: %r" % (loc(inst), cp), True)
            seg = segs[0]
            if name in ("inner", "nested") and seg.attrs["key"][1] is g.pat:
                return
            mult = e.ld_atom(seg, num(L["segment.multiplier"]), 8)
            total = _sum_of(e, st, seg, L)
            ds = [ev for _, ev in st.events("draw") if ev["max"] == total] or [ev for _, ev in draws(st)]
            if not ds:
                return g.say(e, False, "choice", "a segment is used at %s without drawing" % loc(inst), g_unknown(e))
            d, m = var(ds[-1]["atom"]), ds[-1]["max"]
            g.say(e, st.eq(m, total), "choice", "the draw at %s has bound %r instead of the sum of multipliers"
                  % (loc(inst), m))
            cands = _sums(e, st, seg, L)
            if not cands:
                return g.say(e, False, "choice", "no relation between the draw and the multipliers at %s" % loc(inst), True)
            good = any(st.entails(d - c) and st.entails(c + mult - d + (-1)) for c in cands)
            g.say(e, good, "choice", "the segment emitted at %s is not the one whose share of the multiplier sum contains the draw"
                  % loc(inst), any(e.imprecise(c) for c in cands) or e.imprecise(cp))
        elif name == "wordlist":
            pass

    where, rets, e, g = schema(ck, cfg, name, "choice", on_emit=on_emit, ghost=("E",), cb=lambda e, g: setattr(
        g, "rules", ("choice",)))
    flush(ck, e)
    L = g.L
    ok, bad = split(e, rets)
    ck.judge(bool(ok), "choice", where, "no path succeeds", g.unknown)
    ck.judge(seen[0] > 0 or name == "wordlist", "choice", where, "nothing is emitted", g.unknown)
    if name == "wordlist":
        for s in ok:
            ds, dr = s.events("decode"), draws(s)
            if len(ds) != 1 or len(dr) != 1:
                ck.judge(False, "choice", where, "%d words are looked up with %d draws" % (len(ds), len(dr)), g.unknown)
                continue
            wl = [o for o in e.objs.values() if o.kind == "deref" and o.attrs["key"][0] == "deref"
                  and o.attrs["key"][1].attrs.get("key", ("",))[0] == "entry"]
            cnt = [e.ld_atom(o, num(L["wl.count"]), 8) for o in wl]
            words = [e.keyobj("deref", o, num(L["wl.words"])) for o in wl]
            m, a = dr[0][1]["max"], var(dr[0][1]["atom"])
            ck.judge(any(s.eq(m, c) for c in cnt), "choice", where, "the word is drawn from %r words, not all of them" % m, e.imprecise(m))
            src = ds[0][1]["src"]
            k = src.obj.attrs.get("key") if src.obj is not None else None
            ck.judge(bool(k) and k[0] == "deref" and k[1] in words and s.eq(k[2], a.scale(8)) and src.off == ZERO, "choice", where,
                     "the word used is %r, not the drawn entry of the list" % (src,), e.imprecise(src))


def g_unknown(e):
    return bool(e.unknown_calls)


def _sum_of(e, st, seg, L):
    """multiplier_sum of the group a segment belongs to"""
    obj, idx, off = seg.attrs["key"][1:]
    o = off + (L["group.sum"] - L["group.segments"])
    v = e.load(st, PV(obj, o), INT[8])
    return e.iv(v[0][1], 64).l


def _g04_set(e, st, cp, inst):
    """emitted letter = start of a range + position of the draw within that range"""
    g = e.gen
    L = g.L
    ranges = []
    for a in cp.l.atoms():
        if a.kind == "ld" and a.args[0].attrs.get("key", ("",))[0] == "elem" and a.args[1] == num(L["range.start"]):
            ranges.append(a.args[0])
    dr = draws(st)
    if len(dr) != 1 or len(ranges) != 1:
        return g.say(e, False, "choice", "letter %r emitted at %s after %d draws" % (cp, loc(inst), len(dr)),
                     e.imprecise(cp) or g_unknown(e) or any(a.kind not in ("ld", "draw") for a in cp.l.atoms()))
    d, m = var(dr[0][1]["atom"]), dr[0][1]["max"]
    r = ranges[0]
    item, j, off = r.attrs["key"][1:]
    lst = e.keyobj("deref", item, off - L["set.items"] + L["set.choices"])
    n = e.iv(e.load(st, PV(item, off + L["stack.len"]), INT[8])[0][1], 64).l
    last = e.ld_atom(lst, n.scale(8) + (-8), 8)
    g.say(e, st.eq(m, last), "choice", "the draw has bound %r instead of the number of choices in the set" % m)
    upper = e.ld_atom(lst, j.scale(8), 8)
    lower = ZERO if st.eq(j, ZERO) else e.ld_atom(lst, j.scale(8) + (-8), 8)
    exp = e.ld_atom(r, num(L["range.start"]), 4) + d - lower
    rest = modnorm(cp.l - exp, 32)
    g.say(e, not rest.t and rest.c == 0, "choice", "range %r emits %r instead of start + (draw - choices before it)" % (j, cp),
          e.imprecise(cp))
    imp = any(a.imprecise for a in j.atoms())
    g.say(e, any(st.entails(x - d + (-1)) for x in _elements(st, lst, j.scale(8), upper)), "choice",
          "range %r is used for a draw beyond its last choice" % j, imp)
    g.say(e, any(st.entails(d - x) for x in ([ZERO] if lower is ZERO else _elements(st, lst, j.scale(8) + (-8), lower))), "choice",
          "range %r is used for a draw before its first choice" % j, imp)


def _elements(st, lst, off, first):
    """the element of a list at an offset, under every name the state has for it"""
    out = [first]
    for c in st.cons.cs:
        for a in c.atoms():
            if a.kind == "ld" and a.args[0] is lst and var(a) not in out and st.eq(a.args[1], off):
                out.append(var(a))
    return out


# ------------------------------------------------------------------ G05
def G05(ck):
    sweep(ck, "structure", _g05, ["literal", "repeat", "optrepeat", "maybe", "sequence", "emptyset", "set", "wordlist", "markov"])


def _g05(ck, cfg, name):
    def on_emit(e, st, cp, inst):
        g = e.gen
        L = g.L
        if st.flags.get("failed"):
            return
        E = st.ghost["E"].l
        if name in ("literal", "repeat", "optrepeat", "maybe", "sequence"):
            seg = e.keyobj("elem", g.pat, ZERO, num(L["pattern.group"] + L["group.segments"]))
            item = e.keyobj("elem", seg, E if name == "sequence" else ZERO, num(L["segment.items"]))
            o = num(L["item.data"] + L["literal.cp"])
            if name == "literal":
                o = o + E.scale(4)
            exp = e.ld_atom(item, o, 4)
            d = modnorm(cp.l - exp, 32)
            same = not d.t and d.c == 0
            if not same:
                for a in cp.l.atoms():      # same element under an index the state proves equal
                    if a.kind == "ld" and cp.l == var(a):
                        k = a.args[0].attrs.get("key", ("",))
                        if k[0] == "elem" and k[1] is item.attrs["key"][1] and k[3] == item.attrs["key"][3] \
                                and st.eq(k[2], item.attrs["key"][2]) and st.eq(a.args[1], o):
                            same = True
            g.say(e, same, "order", "letter number %r emitted at %s is %r instead of %r" % (E, loc(inst), cp, exp), e.imprecise(cp))
        elif name == "wordlist":
            d = st.events("decode")
            if d:
                exp = e.fill_atom(d[-1][1]["draw"], E.scale(4), 4)
                df = modnorm(cp.l - exp, 32)
                g.say(e, not df.t and df.c == 0, "order", "letter number %r of a word emitted at %s is %r" % (E, loc(inst), cp),
                      e.imprecise(cp))

    where, rets, e, g = schema(ck, cfg, name, "structure", on_emit=on_emit, ghost=("E",), cb=lambda e, g: setattr(
        g, "rules", ("order", "lookup-key")))
    L = g.L
    flush(ck, e)
    ok, bad = split(e, rets)
    ck.judge(bool(ok), "structure", where, "no path succeeds", g.unknown)
    seg = e.keyobj("elem", g.pat, ZERO, num(L["pattern.group"] + L["group.segments"]))
    item = e.keyobj("elem", seg, ZERO, num(L["segment.items"]))
    sh = item.attrs.get("shape")
    both = set()
    for s in ok:
        E = s.ghost["E"].l
        imp = g.unknown or any(a.imprecise for a in E.atoms())
        if name == "literal":
            ck.judge(s.eq(E, sh.data.count), "count", where, "a literal of %r letters emits %r" % (sh.data.count, E), imp)
        elif name == "set":
            ck.judge(s.eq(E, num(1)), "count", where, "a set emits %r letters" % E, imp)
        elif name == "emptyset":
            ck.judge(s.eq(E, num(0)), "count", where, "an empty set emits %r letters" % E, imp)
        elif name == "sequence":
            n = seg.attrs["shape"].items
            ck.judge(s.eq(E, n), "count", where, "%r items emit %r letters" % (n, E), imp)
        elif name == "maybe":
            m = [a for a in [e.keyed("ld", (item, num(L["item.maybe"]), 1), 0, 1, "", 8)]][0]
            dr = draws(s)
            if s.entails(-var(m)):
                ck.judge(s.eq(E, num(1)) and not dr, "count", where, "an item that is not optional emits %r letters after %d draws"
                         % (E, len(dr)), imp)
            else:
                okd = len(dr) == 1 and dr[0][1]["max"] == num(2)
                ck.judge(okd, "optional", where, "an optional item is decided by %r" % [str(x[1]["max"]) for x in dr],
                         g.unknown)
                ck.judge(s.entails(E) and s.entails(num(1) - E), "count", where, "an optional item emits %r letters" % E, imp)
                both.add(repr(E))
        elif name in ("repeat", "optrepeat"):
            dr = draws(s)
            mn, mx = sh.min, sh.max
            if name == "optrepeat":
                m = e.keyed("ld", (item, num(L["item.maybe"]), 1), 0, 1, "", 8)
                if not s.entails(-var(m)):
                    if not ck.judge(bool(dr) and dr[0][1]["max"] == num(2), "optional", where,
                                    "an optional item is decided by %r" % [str(x[1]["max"]) for x in dr], g.unknown):
                        continue
                    b = var(dr[0][1]["atom"])
                    dr = dr[1:]
                    taken = s.assume([b + (-1)])
                    if s.assume([-b]) is not None:
                        both.add("skipped")
                        ck.judge(taken is None and not dr and s.eq(E, ZERO), "optional", where,
                                 "an item that is skipped emits %r letters after %d more draws" % (E, len(dr)), imp)
                        continue
                    both.add("taken")
            if not dr:
                ck.judge(s.eq(mn, mx) and s.eq(E, mn), "count", where, "an item with a range of repetitions is repeated %r times without a draw" % E, imp)
            else:
                a, m = var(dr[0][1]["atom"]), dr[0][1]["max"]
                ck.judge(len(dr) == 1 and s.eq(m, mx - mn + 1), "count", where,
                         "the number of repetitions is drawn from %r values" % m, e.imprecise(m))
                ck.judge(s.eq(E, mn + a), "count", where, "%r repetitions for draw %r from {%r,%r}" % (E, a, mn, mx), imp)
        elif name == "wordlist":
            d = s.events("decode")
            if len(d) == 1:
                ck.judge(s.eq(E, var(d[0][1]["n"])), "count", where, "a word of %r letters emits %r" % (d[0][1]["n"], E), imp)
                src, ln = d[0][1]["src"], e.iv(d[0][1]["len"], 64)
                sl = e._slen_for(s, src) if hasattr(e, "_slen_for") else None
    if name == "optrepeat":
        ck.judge(both == {"skipped", "taken"}, "optional", where, "an optional item is not both emitted and skipped: %r" % sorted(both), g.unknown)
    if name == "maybe":
        ck.judge(both == {"0", "1"}, "optional", where, "an optional item is not both emitted and skipped: %r" % sorted(both), g.unknown)


# ------------------------------------------------------------------ G06
def G06(ck):
    sweep(ck, "in-bounds", _g06, ["wordlist", "markov", "literal", "preset"])


def _g06(ck, cfg, name):
    def cb(e, g):
        g.rules = ("in-bounds",)
        e.on_access = _bounds_cb(ck, "in-bounds", "passgen_generate")
        e.on_null = lambda e, st, pv, inst, sure: g.say(e, False, "in-bounds", "NULL is dereferenced at %s" % loc(inst)) \
            if sure else None
    where, rets, e, g = schema(ck, cfg, name, "in-bounds", cb=cb)
    flush(ck, e)
    ok, bad = split(e, rets)
    ck.judge(bool(ok), "in-bounds", where, "no path succeeds", g.unknown)


# ------------------------------------------------------------------ G07
def G07(ck):
    L = ck.layout(P.LAYOUT)
    cases = []
    for n in range(0, 4):
        cases.append(("%d nested groups" % n, n + 1, lambda n=n: nested(L, n, leaf(L))))
    any_ = lambda nm: sym(nm, 1, P.MAXCOUNT)
    cases.append(("any number of adjacent groups", 2, lambda: P.Group(L, 1, 1, lambda i: P.Segment(L, any_("items"), 1, lambda j: P.Item(
        L, "group", P.Group(L, 1, 1, lambda i: P.Segment(L, 1, 1, lambda j: leaf(L))))))))
    n = any_("times")
    cases.append(("a repeated group", 2, lambda: nested(L, 1, leaf(L), min=n, max=n)))
    cases.append(("a group with any number of plain items", 2, lambda: nested(L, 1, leaf(L), items=any_("items"))))
    t2 = any_("times")
    cases.append(("a repeated group of any number of items, or none", 2, lambda: nested(
        L, 1, leaf(L), items=sym("items", 0, P.MAXCOUNT), min=t2, max=t2)))
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_generate", cfg)
        for what, need, mk in cases:
            jobs.append(lambda cfg=cfg, what=what, need=need, mk=mk: ck.guarded("depth", what, _g07, ck, cfg, what, need, mk))
    ck.parallel(jobs)


def _g07(ck, cfg, what, need, mk):
    L = ck.layout(P.LAYOUT)
    fn = ck.fn("passgen_generate", cfg)
    where = "%s:passgen_generate on %s (%s)" % (fn.file, what, cfg)
    lim = sym("depth_limit", 0, 1 << 62)

    def setup(e, st, g):
        g.env.attrs["init"] = lambda e, st, o, off, ty: [(st, IV(64, lim))] if off == num(L["env.depth"]) else None
        return st
    rets, e, g = run(ck, cfg, where, mk(), setup=setup, rec=6, ghost=("E",))
    flush(ck, e)
    ok, bad = split(e, rets)
    ck.judge(bool(ok), "depth", where, "never succeeds", g.unknown)
    ck.judge(bool(bad), "depth", where, "no depth limit is enforced: generation succeeds with limit 0", g.unknown)
    for s in ok:
        ck.judge(s.entails(lim - need), "depth", where, "generation of depth %d succeeds with a lower limit" % need, g.unknown)
    for s in bad:
        ck.judge(s.entails(num(need - 1) - lim), "depth", where, "generation of depth %d fails although the limit allows it" % need,
                 g.unknown)


# ------------------------------------------------------------------ G08
def G08(ck):
    sweep(ck, "read-only", _g08, list(SCHEMAS))


def _g08(ck, cfg, name):
    def cb(e, g):
        g.rules = ("read-only",)

        def owner(o):
            while o is not None:
                if o is g.pat or o is g.env:
                    return o
                k = o.attrs.get("key")
                if not k:
                    return None
                if k[0] == "entry":
                    return None
                o = k[1] if len(k) > 1 and isinstance(k[1], Obj) else None
            return None

        def on_store(e, st, o, off, size, v, inst):
            own = owner(o)
            glob = o.kind == "global"
            g.say(e, own is None and not glob, "read-only", "generation writes to %s at %s" % (
                "static storage " + o.name if glob else "the pattern (%s)" % o.name if own is g.pat else "the environment (%s)" % o.name,
                loc(inst)))
        e.on_store = on_store
    where, rets, e, g = schema(ck, cfg, name, "read-only", cb=cb, fail=True)
    flush(ck, e)
    ck.judge(bool(rets), "read-only", where, "no path returns", g.unknown)


# ------------------------------------------------------------------ G09
WL9 = dict(P.LAYOUT)
WL9.update({"markov.level": "offsetof(passgen_markov, level)"})
LEVELS = {"quick": (1, 2, 3, 6, 9), "thorough": (1, 2, 3, 4, 5, 6, 8, 12, 16, 31)}
ENDS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 32, 33, 64)    # after how many letters a word may end, or never


class Words:
    """a special item, with a word list whose words or chain are known by contract only"""

    def __init__(self, ck, cfg, kind, level):
        self.ck, self.cfg, self.kind, self.level = ck, cfg, kind, level
        # a few letters may be anything, the rest anything but the first 256 (so that conditions on letters stay few)
        self.letters = [Atom("letter%d" % k, 1 if k in (0, 3) else 256, (1 << 32) - 1, width=32) for k in range(700)]

    def setup(self, e, st, g):
        L = g.L = self.ck.layout(WL9)
        st = deep(e, st, g)
        self.wl = e.param("word list", num(L["wl.size"]))
        self.wl.nonnull = True
        self.count = Atom("words", 1, 1 << 40)
        self.word = e.param("the word", None)
        self.word.nonnull = True
        self.wlen = Atom("len(word)", 0, 1 << 30)
        self.word.attrs["strlen"] = var(self.wlen)
        off = {(L["wl.parsed"], 1): ival(8, 1), (L["wl.parsed_markov"], 1): ival(8, 1), (L["wl.count"], 8): IV(64, var(self.count)),
               (L["wl.markov"] + L["markov.level"], 8): ival(64, self.level), (L["wl.markov"] + L["markov.level"], 1): ival(8, self.level & 255)}
        self.wl.attrs["init"] = lambda e, st, o, x, ty: [(st, off[(x.c, ty.size)])] if not x.t and (x.c, ty.size) in off else None
        return st

    def hooks(self, L):
        h = special_hooks(L)
        decode = h["passgen_utf8_decode"]

        def lookup(e, st, args, inst):
            o = e.keyobj("entry", e.aspv(args[0]).obj)
            o.nonnull = True
            o.attrs["init"] = lambda e, st, ob, x, ty: [(st, PV(self.wl, ZERO))] if not x.t and x.c == L["entry.value"] else None
            return [(st, PV(o, ZERO))]

        def pick(e, st, args, inst):
            s = st.copy()
            if e.aspv(args[0]).obj is not self.wl:
                e.gen.say(e, False, "word", "the word is not taken from the list that was looked up", e.imprecise(e.aspv(args[0])))
            s.flags["picked"] = min(s.flags.get("picked", 0) + 1, 2)
            return [(s, PV(self.word, ZERO))]

        def dec(e, st, args, inst):
            n = e.iv(args[4], 64)
            out = []
            for s, src in e.load(st, e.aspv(args[3]), _PTR, inst):
                src = e.aspv(src)
                imp = e.imprecise(src) or e.imprecise(n.l) or bool(e.unknown_calls)
                e.gen.say(e, src.obj is self.word and s.eq(src.off, ZERO), "word", "decoding at %s does not start at the start of the word" % loc(inst), imp)
                e.gen.say(e, s.eq(n.l, var(self.wlen)), "word", "%r bytes of a word of length %r are decoded at %s" % (n.l, self.wlen, loc(inst)), imp)
            return decode(e, st, args, inst)

        def letter(e, st, args, inst):
            g = e.gen
            p, w = e.aspv(args[0]), e.aspv(args[1])
            g.say(e, p.obj is self.wl and st.eq(p.off, num(L["wl.markov"])), "chain", "the letter drawn at %s is not drawn from the chain of the list" % loc(inst), e.imprecise(p))
            k = st.flags.get("k", 0)
            if st.flags.get("end"):
                g.say(e, False, "word", "another letter is drawn at %s after the end of the word" % loc(inst), bool(e.unknown_calls))
                return []
            for j in range(self.level):
                i = k - self.level + j
                want = ZERO if i < 0 else var(self.letters[i])
                keep, e.on_access = e.on_access, None
                r = e.load(st, PV(w.obj, w.off + 4 * j), INT[4], inst)
                e.on_access = keep
                for s2, v in r:
                    v = e.iv(v, 32)
                    unset = any(a.kind == "ld" and a.args[0].kind == "stack" for a in v.l.atoms()) or "uninit" in repr(v)
                    g.say(e, s2.eq(v.l, want), "window", "letter %d of a word (chain length %d) is drawn given %r where %s is due, %d letters before it"
                          % (k, self.level, v.l, "the start of the word" if i < 0 else "letter %d" % i, self.level - j),
                          (e.imprecise(v.l) and not unset) or bool(e.unknown_calls))
            out = []
            if k in ENDS:
                a = st.copy()
                a.flags["end"] = True
                out.append((a, ival(32, 0)))
            b = st.copy()
            b.flags["k"] = k + 1
            out.append((b, IV(32, var(self.letters[k]))))
            return out
        h.update({"passgen_hashmap_lookup": lookup, "passgen_wordlist_random": pick, "passgen_utf8_decode": dec, "passgen_markov_generate": letter})
        return h

    def emit(self, e, st, cp, inst):
        g = e.gen
        if self.kind == "wordlist":
            d = st.events("decode")
            if not d:
                g.say(e, False, "order", "a letter is emitted at %s before a word is decoded" % loc(inst), bool(e.unknown_calls))
                return
            exp = e.fill_atom(d[-1][1]["draw"], st.ghost["E"].l.scale(4), 4)
            df = modnorm(cp.l - exp, 32)
            g.say(e, not df.t and df.c == 0, "order", "letter number %r of a word emitted at %s is %r" % (st.ghost["E"].l, loc(inst), cp), e.imprecise(cp))
            return
        n = st.flags.get("n", 0)
        k = st.flags.get("k", 0)
        right = n < k and st.eq(cp.l, var(self.letters[n]))
        g.say(e, right, "order", "letter %d of a word of %d letters is emitted as %r at %s (chain length %d)"
              % (n, k, cp, loc(inst), self.level), e.imprecise(cp) or bool(e.unknown_calls))
        st.flags["n"] = n + 1
        return None if right else "stop"       # what follows a wrong letter does not matter

    def run(self):
        ck, cfg = self.ck, self.cfg
        L = ck.layout(WL9)
        fn = ck.fn("passgen_generate", cfg)
        where = "%s:passgen_generate of %s (%s)" % (fn.file, "a word" if self.kind == "wordlist" else "a word by a chain of length %d" % self.level, cfg)

        def cb(e, g):
            g.rules = ("order", "word", "window", "chain")
            e.max_steps = 6000000
            if self.kind == "markov":
                e.unroll_outer, e.exit_limit, e.max_unroll = 300, 600, 700
                e.deadline = min(e.deadline, time.time() + 60)
        rets, e, g = run(ck, cfg, where, SCHEMAS[self.kind](L), extra=self.hooks(L), setup=self.setup, rec=2,
                         on_emit=self.emit, ghost=("E",), cb=cb, entropy=False)
        flush(ck, e)
        ok, bad = split(e, rets)
        imp = g.unknown
        ck.judge(bool(ok), "word", where, "no word is ever generated", imp)
        if self.kind == "wordlist":
            for s in ok:
                d = s.events("decode")
                ck.judge(len(d) == 1 and s.flags.get("picked") == 1, "word", where, "%d words are decoded, %d picked" % (len(d), s.flags.get("picked", 0)), imp)
                if len(d) == 1:
                    E = s.ghost["E"].l
                    ck.judge(s.eq(E, var(d[0][1]["n"])), "count", where, "a word of %r letters emits %r" % (d[0][1]["n"], E), imp or any(a.imprecise for a in E.atoms()))
            for s in bad:
                ck.judge(bool(s.flags.get("failed")), "refused", where, "a word that can be decoded is refused", imp)
            return
        lens = set()
        for s in ok:
            k, n = s.flags.get("k", 0), s.flags.get("n", 0)
            lens.add(k)
            ck.judge(bool(s.flags.get("end")), "word", where, "a word ends before its end was drawn, after %d letters" % k, imp)
            ck.judge(n == k, "count", where, "a word of %d letters emits %d" % (k, n), imp)
        for k in sorted(ENDS):
            ck.judge(k in lens, "refused", where, "no word of %d letters can be generated" % k, imp)


def G09(ck):
    ck.layout(WL9)
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_generate", cfg)
        for lv in LEVELS.get(ck.tier, LEVELS["quick"]):
            jobs.append(lambda c=cfg, l=lv: ck.guarded("word", "chains of length %d (%s)" % (l, c), Words(ck, c, "markov", l).run))
        jobs.append(lambda c=cfg: ck.guarded("word", "words (%s)" % c, Words(ck, c, "wordlist", 2).run))
    ck.parallel(jobs)
