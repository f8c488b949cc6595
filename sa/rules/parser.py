"""Parsing: one symbolic step of the parser from every state it can be in (src/parser, src/pattern).

The parser is a state machine over a stack of states.  Each rule analyses one call of
passgen_parse_token with an arbitrary parser that satisfies the representation
invariant (top state points at the last segment, item, range ... of the pattern under
construction), for every class of tokens, and compares the resulting pattern with the
documented meaning of the token; the invariant is shown to hold again afterwards, so
the result holds for token sequences of any length.
"""
from ..terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond
from ..interp import INT, _PTR, State
from ..check import loc, Anchor
from .random import flush
from .. import pattern as P

I1, I4, I8 = INT[1], INT[4], INT[8]
ESC = 1 << 30
MAXCP = 0x10FFFF
SIZE_MAX = (1 << 64) - 1

LAYOUT = dict(P.LAYOUT)
LAYOUT.update({
    "parser.size": "sizeof(passgen_parser)",
    "parser.state": "offsetof(passgen_parser, state)",
    "parser.limit": "offsetof(passgen_parser, limit)",
    "parser.pattern": "offsetof(passgen_parser, pattern)",
    "ps.size": "sizeof(passgen_parser_state)",
    "ps.type": "offsetof(passgen_parser_state, type)",
    "ps.type.size": "sizeof(((passgen_parser_state*)0)->type)",
    "ps.group.group": "offsetof(passgen_parser_state, data.group.group)",
    "ps.group.segment": "offsetof(passgen_parser_state, data.group.segment)",
    "ps.repeat": "offsetof(passgen_parser_state, data.repeat.repeat)",
    "ps.set.set": "offsetof(passgen_parser_state, data.set.set)",
    "ps.set.range": "offsetof(passgen_parser_state, data.set.range)",
    "ps.special": "offsetof(passgen_parser_state, data.special.special)",
    "ps.value": "offsetof(passgen_parser_state, data.multiplier.value)",
    "ps.sum": "offsetof(passgen_parser_state, data.multiplier.sum)",
    "T.group": "PASSGEN_PARSER_GROUP", "T.multiplier": "PASSGEN_PARSER_MULTIPLIER",
    "T.set": "PASSGEN_PARSER_SET", "T.set_range": "PASSGEN_PARSER_SET_RANGE",
    "T.repeat": "PASSGEN_PARSER_REPEAT", "T.repeat_range": "PASSGEN_PARSER_REPEAT_RANGE",
    "T.special": "PASSGEN_PARSER_SPECIAL", "T.special_name": "PASSGEN_PARSER_SPECIAL_NAME",
    "token.size": "sizeof(passgen_token)",
    "token.cp": "offsetof(passgen_token, codepoint)",
    "token.offset": "offsetof(passgen_token, offset)",
    "token.byte": "offsetof(passgen_token, byte_offset)",
    "escbit": "PASSGEN_TOKEN_ESCAPED_BIT",
    "stack.esize": "offsetof(passgen_stack, element_size)",
    "stack.bin": "offsetof(passgen_stack, bin_size)",
    "group.size": "sizeof(passgen_pattern_group)",
    "set.size": "sizeof(passgen_pattern_set)",
    "special.size": "sizeof(passgen_pattern_special)",
    "repeat.size": "sizeof(passgen_pattern_repeat)",
    "repeat.min": "offsetof(passgen_pattern_repeat, min)",
    "repeat.max": "offsetof(passgen_pattern_repeat, max)",
    "literal.max": "sizeof(((passgen_pattern_literal*)0)->codepoints)/sizeof(((passgen_pattern_literal*)0)->codepoints[0])",
})


# ------------------------------------------------------------------ shapes with element sizes
class Sized:
    """wraps a shape: the element size of its containers and the size of the object"""

    def __init__(self, L, inner, size, stacks):
        self.L, self.inner, self.size, self.stacks = L, inner, size, stacks
        self.hi = getattr(inner, "hi", None)

    def field(self, e, st, obj, off, ty):
        for o, esz in self.stacks.items():
            if off == o + self.L["stack.esize"]:
                return esz
            if off == o + self.L["stack.bin"]:
                return 32
        return self.inner.field(e, st, obj, off, ty) if self.inner is not None else None

    def child(self, off, idx):
        c = self.inner.child(off, idx) if self.inner is not None else None
        return c


def sgroup(L, segs, sum, seg):
    return Sized(L, P.Group(L, segs, sum, seg), L["group.size"], {L["group.segments"]: L["segment.size"]})


def sseg(L, items, mult, item):
    return Sized(L, P.Segment(L, items, mult, item), L["segment.size"], {L["segment.items"]: L["item.size"]})


def sitem(L, kind, data, min=1, max=1, maybe=0):
    st = {}
    if kind == "set":
        st = {L["item.data"] + L["set.items"]: L["range.size"]}
    if kind == "group":
        st = {L["item.data"] + L["group.segments"]: L["segment.size"]}
    return Sized(L, P.Item(L, kind, data, min, max, maybe), L["item.size"], st)


def sset(L, n):
    return Sized(L, P.Set(L, n), L["set.size"], {L["set.items"]: L["range.size"]})


class Lit:
    def __init__(self, L, count, tainted):
        self.L, self.count, self.tainted = L, count, tainted

    def field(self, e, st, obj, off, ty):
        if off == self.L["literal.count"]:
            return self.count
        if off == self.L["literal.tainted"]:
            return self.tainted
        return None

    def child(self, off, idx):
        return None


class AnyItem:
    def __init__(self, L):
        self.L, self.size = L, L["item.size"]

    def field(self, e, st, obj, off, ty):
        return None

    def child(self, off, idx):
        return None


class Ptrs:
    """an object of fixed pointer and integer fields"""

    def __init__(self, size, fields):
        self.size, self.fields = size, fields

    def field(self, e, st, obj, off, ty):
        f = self.fields.get(off)
        if isinstance(f, PV):
            return [(st, f)]
        return f

    def child(self, off, idx):
        return None


class ParserShape:
    def __init__(self, L, n, top, limit, pat):
        self.L, self.n, self.top, self.limit, self.pat = L, n, top, limit, pat
        self.size = L["parser.size"]

    def field(self, e, st, obj, off, ty):
        L = self.L
        if off == L["parser.state"] + L["stack.len"]:
            return self.n
        if off == L["parser.state"] + L["stack.esize"]:
            return L["ps.size"]
        if off == L["parser.state"] + L["stack.bin"]:
            return 32
        if off == L["parser.limit"]:
            return self.limit
        if off == L["parser.pattern"]:
            return [(st, self.pat)]
        return None

    def child(self, off, idx):
        if off == self.L["parser.state"]:
            if idx == self.n + (-1):
                return self.n, self.top
            return self.n, Ptrs(self.L["ps.size"], {})
        return None


# ------------------------------------------------------------------ containers by contract
def gen_of(st, o, off):
    return st.flags.get(("gen", o.id, off), 0)


def handle(e, st, o, off, idx):
    """a pointer to element idx of the container at o+off, valid until the container changes"""
    o = e.canonobj(o)
    b = e.keyobj("elem", o, idx, off)
    g = gen_of(st, o, off)
    return e.keyobj("elemg", b, num(g)) if g else b


def newkey(e, o):
    k = o.attrs["key"]
    if k[0] == "elemg":
        b = k[1]
        o.attrs["canon"] = b
        o.nonnull = True
        o.size = b.size
        o.name = b.name
        return
    P.newkey(e, o)
    if k[0] == "elem":
        sh = o.attrs.get("shape")
        sz = getattr(sh, "size", None)
        if sz:
            o.size = num(sz)


def origin_of(o):
    """(element object, generation) of a handle, or None"""
    k = o.attrs.get("key", ("",))
    if k[0] == "elemg":
        return k[1], k[2].c
    if k[0] == "elem":
        return o, 0
    return None


def stale(e, st, o):
    """why a pointer into o is no longer valid, or None"""
    r = origin_of(o)
    if r is None:
        return None
    b, g = r
    stk, idx, off = b.attrs["key"][1:4]
    cur = gen_of(st, stk, off)
    if g != cur:
        return "the container %s changed after the pointer was taken" % _cname(stk)
    return None


def _cname(o):
    return o.name


def bump(st, o, off):
    st.flags[("gen", o.id, off)] = gen_of(st, o, off) + 1


def ld1(e, st, pv, ty=I8, inst=None):
    """[(state, Lin)] of an integer"""
    out = []
    for s, v in e.load(st, pv, ty, inst):
        out += e.canon(s, e.iv(v, ty.width))
    return out


def h_push(e, st, args, inst):
    p = e.aspv(args[0])
    st = e.require_nonnull(st, p, inst)
    if st is None:
        return []
    L, out = e.layout, []
    o = e.canonobj(p.obj)
    for s, n in ld1(e, st, PV(p.obj, p.off + L["stack.len"]), I8, inst):
        for s, es in ld1(e, s, PV(p.obj, p.off + L["stack.esize"]), I8, inst):
            s = s.copy()
            bump(s, o, p.off)
            h = handle(e, s, o, p.off, n)
            b = e.canonobj(h)
            if not es.t:
                b.size = h.size = es
            fresh = e.newobj("uninitialised(%s)" % b.name, "pushed", None)
            s.flags[("pushed", b.id)] = True
            e.put(s, b, ("fill", ZERO, b.size if b.size is not None else es, fresh))
            v = args[1] if len(args) > 1 else NULL
            if isinstance(v, PV) and v.obj is not None:
                s = e.access(s, "load", v, es, inst)
                if s is None:
                    continue
                s = s.copy()
                src = e.canonobj(v.obj)
                e.put(s, b, ("copy", ZERO, es, src, v.off, s.mem.get(src, ())))
            for s2 in e.store(s, PV(p.obj, p.off + L["stack.len"]), IV(64, n + 1), I8, inst):
                out.append((s2, PV(h, ZERO)))
    return out


def h_pop(e, st, args, inst):
    p = e.aspv(args[0])
    st = e.require_nonnull(st, p, inst)
    if st is None:
        return []
    L, out = e.layout, []
    o = e.canonobj(p.obj)
    for s, n in ld1(e, st, PV(p.obj, p.off + L["stack.len"]), I8, inst):
        z = s.assume([-n])
        if z is not None:
            out.append((z, NULL))
        s = s.assume([n + (-1)])
        if s is None:
            continue
        h = handle(e, s, o, p.off, n + (-1))
        d = args[1] if len(args) > 1 else NULL
        if isinstance(d, PV) and d.obj is not None:
            for s1, es in ld1(e, s, PV(p.obj, p.off + L["stack.esize"]), I8, inst):
                s = e.access(s1, "store", d, es, inst)
            if s is None:
                continue
            s = s.copy()
            b = e.canonobj(h)
            e.put(s, e.canonobj(d.obj), ("copy", d.off, es, b, ZERO, s.mem.get(b, ())))
        if e.on_pop:
            e.on_pop(e, s, e.canonobj(h), inst)
        s = s.copy()
        bump(s, o, p.off)
        for s2 in e.store(s, PV(p.obj, p.off + L["stack.len"]), IV(64, n + (-1)), I8, inst):
            out.append((s2, d if isinstance(d, PV) else NULL))
    return out


def h_get(e, st, args, inst):
    p = e.aspv(args[0])
    st = e.require_nonnull(st, p, inst)
    if st is None:
        return []
    out = []
    for s, n in ld1(e, st, PV(p.obj, p.off + e.layout["stack.len"]), I8, inst):
        for s2, i in e.canon(s, e.iv(args[1], 64)):
            a = s2.assume([n - i + (-1)])
            if a is not None:
                out.append((a, PV(handle(e, a, p.obj, p.off, i), ZERO)))
            b = s2.assume([i - n])
            if b is not None:
                out.append((b, NULL))
    return out


def h_top(e, st, args, inst):
    p = e.aspv(args[0])
    st = e.require_nonnull(st, p, inst)
    if st is None:
        return []
    out = []
    for s, n in ld1(e, st, PV(p.obj, p.off + e.layout["stack.len"]), I8, inst):
        a = s.assume([n + (-1)])
        if a is not None:
            out.append((a, PV(handle(e, a, p.obj, p.off, n + (-1)), ZERO)))
        b = s.assume([-n])
        if b is not None:
            out.append((b, NULL))
    return out


def _freer(what, size, stacks):
    """contract of the public release functions: everything the structure owns is released, the
    structure is cleared"""
    def hook(e, st, args, inst):
        p = e.aspv(args[0])
        L = e.layout
        s = e.access(st, "store", p, num(L[size]), inst)
        if s is None:
            return []
        s = s.copy()
        o = e.canonobj(p.obj)
        for k in stacks:
            bump(s, o, p.off + (L[k] if k else 0))
        s.event("release", what=what, obj=o, off=p.off, inst=inst)
        s.flags[("released", o.id, p.off)] = True
        e.put(s, o, ("set", p.off, num(L[size]), ival(8, 0)))
        return [(s, None)]
    return hook


def hooks(extra=None):
    h = {"passgen_stack_push": h_push, "passgen_stack_pop": h_pop, "passgen_stack_get": h_get,
         "passgen_stack_top": h_top,
         "passgen_stack_free": _freer("stack", "stack.size", [None]),
         "passgen_pattern_group_free": _freer("group", "group.size", ["group.segments"]),
         "passgen_pattern_segment_free": _freer("segment", "segment.size", ["segment.items"]),
         "passgen_pattern_item_free": _freer("item", "item.size", []),
         "passgen_pattern_set_free": _freer("set", "set.size", ["set.items"]),
         "passgen_pattern_special_free": _freer("special", "special.size", [])}
    if extra:
        h.update(extra)
    return h


def access_cb(where):
    """bounds and lifetime of every access"""
    def cb(e, st, kind, obj, off, size, inst):
        if kind == "strlen":
            return
        why = stale(e, st, obj)
        at = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        e.journal.append(("bad" if why else "ok", "lifetime", at,
                          "%s through a pointer to %s that is no longer valid: %s [%s]"
                          % (kind, obj.name, why, where) if why else "", False))
        if st.flags.get(("freed", obj.id)):
            e.journal.append(("bad", "lifetime", at, "%s of memory that was released [%s]" % (kind, where), False))
        if obj.size is None:
            return
        if st.entails(off) and st.entails(obj.size - off - size):
            e.journal.append(("ok", "in-bounds", at, "", False))
        else:
            imp = e.imprecise(off) or e.imprecise(size)
            e.journal.append(("und" if imp else "bad", "in-bounds", at,
                              "%s of %r bytes at %s+%r may leave the object (size %r) [%s]"
                              % (kind, size, obj.name, off, obj.size, where), imp))
    return cb


def null_cb(where):
    def cb(e, st, pv, inst, definite):
        at = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        imp = pv.obj is not None and e.imprecise(pv)
        e.journal.append(("und" if imp or not definite else "bad", "null", at,
                          "a pointer that %s NULL is used [%s]" % ("is" if definite else "may be", where), imp))
    return cb


# ------------------------------------------------------------------ token classes
GROUP_SPECIAL = [ord(c) for c in "|)([{?"]
ESC_TEXT = [ord(c) for c in "|(){}[]"]
ESC_SPECIAL = [ord(c) for c in "mpw"]


class Tok:
    """a class of tokens: either one value or an interval with exceptions"""

    def __init__(self, name, val=None, lo=0, hi=0, ne=(), esc=False):
        self.name, self.val, self.lo, self.hi, self.ne, self.esc = name, val, lo, hi, ne, esc

    def make(self, st):
        """(state, Lin of the token's code point field, Lin of the code point)"""
        base = ESC if self.esc else 0
        if self.val is not None:
            return st, num(base + self.val), num(self.val)
        a = var(Atom("codepoint", self.lo, self.hi, width=32))
        for n in self.ne:
            st = st.assume_ne(a - n)
        return st, a + base, a


def tokens(special, esc):
    """partition of all tokens at the given special code points"""
    out = [Tok("'%s'" % chr(c), c) for c in special]
    out.append(Tok("any other code point", None, 0, MAXCP, tuple(special)))
    out += [Tok("escaped '%s'" % chr(c), c, esc=True) for c in esc]
    out.append(Tok("any other escaped code point", None, 0, MAXCP, tuple(esc), esc=True))
    return out


# ------------------------------------------------------------------ one step
class Step:
    """one call of passgen_parse_token from a parser whose top state is `kind`"""

    def __init__(self, ck, cfg, where, rules):
        self.ck, self.cfg, self.where, self.rules = ck, cfg, where, rules
        self.L = ck.layout(LAYOUT)
        self.fn = ck.fn("passgen_parse_token", cfg)
        e = self.e = ck.engine(cfg, hooks())
        e.layout = self.L
        e.on_newkey = newkey
        e.on_pop = self.popped
        e.hooks["passgen_stack_init"] = self.reset
        e.on_access = access_cb(where)
        e.on_null = null_cb(where)
        e.rec_inline = 0
        self.st = State()
        self.n = var(Atom("depth", 1, P.MAXCOUNT))
        self.pat = e.param("pattern", num(self.L["pattern.size"]))
        self.limit = 0

    def obj(self, name, shape):
        o = self.e.param(name, num(shape.size))
        P.attach(o, shape)
        return o

    def top(self, ttype, fields):
        L = self.L
        f = {L["ps.type"]: L["T." + ttype]}
        f.update({L[k]: v for k, v in fields.items()})
        self.parser = self.obj("parser", ParserShape(L, self.n, Ptrs(L["ps.size"], f), self.limit, PV(self.pat, ZERO)))
        self.state = self.e.keyobj("elem", self.parser, self.n + (-1), num(L["parser.state"]))
        return self

    def run(self, tok):
        e, L = self.e, self.L
        st, field, cp = tok.make(self.st)
        self.cp = cp
        if st is None:
            return [], []
        t = self.token = self.obj("token", Ptrs(L["token.size"], {}))
        t.attrs["init"] = lambda e, st, o, off, ty: [(st, IV(32, field))] if off == num(L["token.cp"]) else None
        rets = e.call(st, self.fn, [PV(self.parser, ZERO), PV(t, ZERO)])
        self.ck.note(e)
        for tm, s, inst in e.terminals:
            self.say(False, "abort", "parsing can end in %s at %s" % (tm, loc(inst)))
        ok, bad = [], []
        for s, r in rets:
            self.heap(s)
            self.releasable(s)
            r = e.iv(r, 32)
            ok += e.assume_cond(s, Cond("eq", r, ival(32, 0)), True)
            bad += e.assume_cond(s, Cond("eq", r, ival(32, 0)), False)
        if e.unknown_calls:
            self.imp = True
        return ok, bad

    # -- ownership: what is dropped from the structure owns nothing (any more)
    def gone(self, st, o, *offs):
        return any(st.flags.get(("released", o.id, num(k))) for k in offs)

    def popped(self, e, st, b, inst):
        L = self.L
        if b.attrs["key"][1] is self.__dict__.get("parser") or b.size is None or b.size.t:
            return
        if b.size.c == L["segment.size"]:
            if not self.gone(st, b, 0, L["segment.items"]):
                for s, n in self.ints(st, b, L["segment.items"] + L["stack.len"]):
                    self.say(s.entails(-n), "ownership", "%s: an alternative is dropped without being released" % loc(inst), e.imprecise(n))
            else:
                self.say(True, "ownership", "")
        elif b.size.c == L["item.size"]:
            if not self.gone(st, b, 0, L["item.data"]):
                for s, n in self.ints(st, b, L["item.kind"], I4):
                    self.say(s.eq(n, num(L["kind.literal"])), "ownership", "%s: an item is dropped without being released" % loc(inst), e.imprecise(n))
            else:
                self.say(True, "ownership", "")

    def reset(self, e, st, args, inst):
        p = e.aspv(args[0])
        if p.obj is None:
            return None
        o = e.canonobj(p.obj)
        if not (o.attrs.get("shape") is None or o is self.pat or o is self.__dict__.get("parser") or st.flags.get(("pushed", o.id))
                or st.flags.get(("released", o.id, p.off)) or p.off.t):
            for s, n in self.ints(st, o, p.off + self.L["stack.len"]):
                self.say(s.entails(-n), "ownership", "%s: elements that were not released are forgotten" % loc(inst), e.imprecise(n))
        return None

    def heap(self, s):
        """memory allocated by the step belongs to the structure"""
        live = alive(s)
        if live:
            have = set()
            o = self.__dict__.get("set")
            if o is not None and not isinstance(o, str):
                for s2, v in self.get(s, o, self.L["set.choices"], _PTR):
                    have.add(self.e.aspv(v).obj)
            live = [x for x in live if x not in have]
        self.say(not live, "ownership", "memory allocated by the step (%s) belongs to nothing" % ", ".join(x.name for x in live))

    def releasable(self, s):
        """what the step added can be released, whether it succeeded or failed"""
        L = self.L
        for o in list(s.mem):
            k = o.attrs.get("key", ("",))
            if not s.flags.get(("pushed", o.id)) or k[0] != "elem" or o.size is None or o.size.t or s.flags.get(("released", o.id, ZERO)):
                continue
            stk, idx, off = k[1:4]
            if stk is self.__dict__.get("parser") or any(not s2.entails(n - idx + (-1)) for s2, n in self.ints(s, stk, off + L["stack.len"])):
                continue
            if o.size.c == L["segment.size"]:
                self.filled(s, o, L["segment.items"] + L["stack.len"], "the number of items of a new alternative")
            elif o.size.c == L["item.size"]:
                for s2, kind in self.ints(s, o, L["item.kind"], I4):
                    if not self.say(not kind.t and kind.c in (L["kind.set"], L["kind.literal"], L["kind.special"], L["kind.group"]), "ownership",
                                    "the kind of a new item is %r" % kind):
                        continue
                    d = L["item.data"]
                    if kind.c == L["kind.set"]:
                        self.filled(s2, o, d + L["set.items"] + L["stack.len"], "the number of ranges of a new set")
                        self.nothing(s2, o, d + L["set.choices"], "the list of choices of a new set")
                    elif kind.c == L["kind.special"]:
                        self.nothing(s2, o, d + L["special.parameters"], "the name of a new special item")
                        self.filled(s2, o, d + L["special.cap"], "the capacity of the name of a new special item", I4)
                    elif kind.c == L["kind.group"]:
                        self.filled(s2, o, d + L["group.segments"] + L["stack.len"], "the number of alternatives of a new group")

    def filled(self, s, o, off, what, ty=I8):
        for s2, n in self.ints(s, o, off, ty):
            self.say(not any(a.kind == "fill" for a, _ in n.t), "ownership", "%s is not initialised" % what)

    def nothing(self, s, o, off, what):
        for s2, v in self.get(s, o, off, _PTR):
            v = self.e.aspv(v)
            self.say(v.obj is None or v.obj.kind == "heap", "ownership", "%s is not initialised" % what)

    imp = False

    def say(self, cond, rule, msg, imp=False):
        self.e.journal.append(("ok" if cond else "und" if (imp or self.imp) else "bad", rule, self.where,
                               "" if cond else msg, imp))
        return cond

    def done(self):
        keep = []
        for k, rule, where, msg, imp in self.e.journal:
            if rule in self.rules:
                keep.append((k, rule, where, msg, imp))
        self.e.journal = keep
        flush(self.ck, self.e)

    # -- reading the result
    def get(self, s, obj, off, ty=I8):
        """[(state, value)] without obligations"""
        o = self.e.canonobj(obj)
        off = off if isinstance(off, Lin) else num(off)
        return self.e._load(s, o, s.mem.get(o, ()), off, ty, None)

    def ints(self, s, obj, off, ty=I8):
        out = []
        for s2, v in self.get(s, obj, off, ty):
            out += self.e.canon(s2, self.e.iv(v, ty.width))
        return out

    def isint(self, s, obj, off, want, rule, what, ty=I8):
        """the field holds `want` (int or Lin) on every path"""
        w = want if isinstance(want, Lin) else num(want)
        for s2, v in self.ints(s, obj, off, ty):
            self.say(s2.eq(v, w), rule, "%s is %r, not %r" % (what, v, w), self.e.imprecise(v) or self.e.imprecise(w))

    def isptr(self, s, obj, off, wobj, woff, rule, what):
        """the field points at wobj+woff (wobj None: is NULL); the pointer is valid"""
        woff = woff if isinstance(woff, Lin) else num(woff)
        for s2, v in self.get(s, obj, off, _PTR):
            v = self.e.aspv(v)
            if wobj is None:
                self.say(v.obj is None, rule, "%s is not NULL" % what, self.e.imprecise(v))
                continue
            good = v.obj is not None and self.e.canonobj(v.obj) is wobj and s2.eq(v.off, woff)
            self.say(good, rule, "%s points to %s+%r, not to %s+%r"
                     % (what, v.obj.name if v.obj is not None else "NULL", v.off, wobj.name, woff),
                     v.obj is not None and self.e.imprecise(v))
            if good:
                why = stale(self.e, s2, v.obj)
                self.say(why is None, "lifetime", "%s is kept in the parser but no longer valid: %s" % (what, why))

    def el(self, o, off, idx):
        return self.e.keyobj("elem", self.e.canonobj(o), idx if isinstance(idx, Lin) else num(idx),
                             off if isinstance(off, Lin) else num(off))

    def depth(self, s, n, what):
        self.isint(s, self.parser, self.L["parser.state"] + self.L["stack.len"], n, "nesting", what)

    def frame(self, s, allowed, rule="frame"):
        """nothing that existed before is changed except the fields in `allowed`: [(obj, off, size)]"""
        e, L = self.e, self.L
        for o, recs in s.mem.items():
            if o.kind not in ("param", "deref") or o.attrs.get("imprecise"):
                continue
            if not self.alive(s, o):
                continue
            for r in recs:
                if r[0] == "s":
                    off, size = r[1], num(r[2]) if isinstance(r[2], int) else r[2]
                elif r[1] is None or r[2] is None:
                    off, size = None, None
                else:
                    off, size = r[1], num(r[2]) if isinstance(r[2], int) else r[2]
                if off is None:
                    self.say(False, rule, "all of %s may change" % o.name, True)
                    continue
                if any(a is o and s.entails(off - ao) and s.entails(num(0) + ao + az - off - size)
                       for a, ao, az in allowed):
                    continue
                if r[0] == "s" and not isinstance(r[2], Lin):
                    ty = {1: I1, 4: I4, 8: _PTR if isinstance(r[3], PV) else I8}.get(r[2])
                    if ty is not None and self.unchanged(s, o, off, r[3], ty):
                        continue
                self.say(False, rule, "%s+%r changes (%r)" % (o.name, off, r[3] if r[0] == "s" else r[0]),
                         e.imprecise(off) or (r[0] == "s" and e.imprecise(r[3])))
        self.say(True, rule, "")

    def unchanged(self, s, o, off, v, ty):
        e = self.e
        try:
            ini = e.initial(s, o, off, ty, None)
        except Exception:
            return False
        for s2, w in ini:
            if isinstance(v, PV) or isinstance(w, PV):
                v2, w2 = e.aspv(v), e.aspv(w)
                a = e.canonobj(v2.obj) if v2.obj is not None else None
                b = e.canonobj(w2.obj) if w2.obj is not None else None
                if a is not b or not s2.eq(v2.off, w2.off):
                    return False
            else:
                for s3, x in e.canon(s2, e.iv(v, ty.width)):
                    for s4, y in e.canon(s3, e.iv(w, ty.width)):
                        if not s4.eq(x, y):
                            return False
        return True

    def alive(self, s, o):
        """an element that existed before the step and still exists"""
        k = o.attrs.get("key", ("",))
        if s.flags.get(("pushed", o.id)):
            return False
        if k[0] == "elem":
            stk, idx, off = k[1:4]
            if not self.alive(s, stk):
                return False
            sh = stk.attrs.get("shape")
            if s.flags.get(("released", stk.id, off)) or s.flags.get(("released", stk.id, ZERO)):
                return False
            c = sh.child(off.c, idx) if sh is not None and not off.t else None
            n0 = c[0] if c else None
            if n0 is not None:
                n0 = n0 if isinstance(n0, Lin) else num(n0)
                if s.entails(idx - n0):
                    return False
            for s2, n in self.ints(s, stk, off + self.L["stack.len"]):
                if not s2.entails(idx - n):
                    return True
            return False
        return True


def alive(st):
    """blocks that were allocated and not released"""
    gone = {d["obj"].id for k, d in st.events() if k == "free"}
    return [d["obj"] for k, d in st.events() if k == "malloc" and d["obj"].id not in gone]


# ------------------------------------------------------------------ the group state
def _mult(name="multiplier"):
    return var(Atom(name, 0, SIZE_MAX))


class GroupStep(Step):
    """top state is a group; `last` describes the last item of the current segment:
    none | literal<count>[t] | set | special | group | empty:<what is before it>"""

    def setup(self, last, mult, sumcase, nseg=None, others=None):
        L, e = self.L, self.e
        self.last = last
        before = None
        if last.startswith("empty:"):
            before = last.split(":")[1]
        lo = 0 if last == "none" else 2 if before not in (None, "none") else 1
        exact = last == "none" or before == "none"
        k = num(lo) if exact else var(Atom("items", lo, P.MAXCOUNT))
        self.k = k
        self.nseg = nseg if nseg is not None else var(Atom("segments", 1, P.MAXCOUNT))
        if isinstance(self.nseg, int):
            self.nseg = num(self.nseg)
        self.m = num(0) if mult == "zero" else var(Atom("multiplier", 1, SIZE_MAX))
        if sumcase == "full":
            self.sum = num(SIZE_MAX)
        elif sumcase == "zero":
            self.sum = num(0)
        else:
            self.sum = var(Atom("sum", 0, SIZE_MAX - 1))
        s = self.st.assume([self.sum - self.m])
        if s is None:
            return None
        self.st = s

        def item(i):
            if i == k + (-1):
                return self.item_shape("group0" if before is not None else last)
            if before not in (None, "none") and i == k + (-2):
                return self.item_shape(before)
            return AnyItem(L)

        def seg(i):
            if i == self.nseg + (-1):
                return sseg(L, k, self.m, item)
            n = None
            if others == "empty":
                n = 0
            elif others == "full":
                n = 1
            elif others is not None:
                n = var(Atom("items%r" % i, 0, P.MAXCOUNT))
                self.other = getattr(self, "other", []) + [n]
            return sseg(L, n, None, lambda j: AnyItem(L))

        self.group = self.obj("group", sgroup(L, self.nseg, self.sum, seg))
        self.top("group", {"ps.group.group": PV(self.group, ZERO)})
        self.seg = self.el(self.group, L["group.segments"], self.nseg + (-1))
        f = self.state.attrs["shape"].fields
        f[L["ps.group.segment"]] = PV(self.seg, ZERO)
        # what the step sees after an empty group is dropped
        self.kc = k + (-1) if before is not None else k
        self.lastc = before if before is not None else last
        return self

    def item_shape(self, kind):
        L = self.L
        if kind.startswith("literal"):
            t = 1 if kind.endswith("t") else 0
            c = int(kind[7:].rstrip("t"))
            if t:
                return sitem(L, "literal", Lit(L, c, var(Atom("tainted", 1, 255, width=8))), None, None, None)
            return sitem(L, "literal", Lit(L, c, 0))
        if kind == "set":
            return sitem(L, "set", P.Set(L, None), None, None, None)
        if kind == "special":
            return sitem(L, "special", Ptrs(0, {}), None, None, None)
        if kind in ("group", "group0"):
            return sitem(L, "group", P.Group(L, None, 0 if kind == "group0" else var(Atom("inner_sum", 1, SIZE_MAX)),
                                             lambda i: None), None, None, None)
        raise ValueError(kind)

    # -- frequently checked facts
    def f_len(self, s, n, rule="items"):
        L = self.L
        self.isint(s, self.seg, L["segment.items"] + L["stack.len"], n, rule, "the number of items of the segment")

    def f_same(self, s, depth=True):
        """segment, group and nesting stay"""
        L = self.L
        if depth:
            self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T.group"], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.group.group"], self.group, 0, "nesting", "the current group")
        self.isptr(s, self.state, L["ps.group.segment"], self.seg, 0, "nesting", "the current segment")

    def f_counts(self, s, sum=None, m=None, nseg=None):
        L = self.L
        self.isint(s, self.group, L["group.sum"], self.sum if sum is None else sum, "sum", "the multiplier sum")
        if m is not False:
            self.isint(s, self.seg, L["segment.multiplier"], self.m if m is None else m, "sum",
                       "the multiplier of the segment")
        self.isint(s, self.group, L["group.segments"] + L["stack.len"], self.nseg if nseg is None else nseg,
                   "alternatives", "the number of alternatives")

    def f_item(self, s, it, kind, rule="items", min=1, max=1):
        """a new item without modifiers"""
        L = self.L
        self.isint(s, it, L["item.kind"], L["kind." + kind], rule, "the kind of the new item", I4)
        if min is not None:
            self.isint(s, it, L["item.min"], min, "modifiers", "the minimum repetition of the new item")
            self.isint(s, it, L["item.max"], max, "modifiers", "the maximum repetition of the new item")
        self.isint(s, it, L["item.maybe"], 0, "modifiers", "the optional mark of the new item", I1)

    def stacks(self):
        """fields that may change with containers: their bookkeeping"""
        L = self.L
        z = L["stack.size"]
        return [(self.parser, num(L["parser.state"]), num(z)), (self.seg, num(L["segment.items"]), num(z)),
                (self.group, num(L["group.segments"]), num(z))]

    # -- what each token means
    def t_text(self, s, cp):
        L = self.L
        self.f_same(s)
        self.f_counts(s)
        joins = self.lastc.startswith("literal") and not self.lastc.endswith("t") and int(self.lastc[7:]) < L["literal.max"]
        D = L["item.data"]
        allowed = self.stacks()
        for s2, n in self.ints(s, self.seg, L["segment.items"] + L["stack.len"]):
            if joins and s2.eq(n, self.kc):
                it = self.el(self.seg, L["segment.items"], self.kc + (-1))
                c = int(self.lastc[7:])
                self.isint(s2, it, D + L["literal.count"], c + 1, "text", "the length of the literal", I1)
                self.isint(s2, it, D + L["literal.cp"] + 4 * c, cp, "text", "the character added to the literal", I4)
                self.frame(s2, allowed + [(it, num(D + L["literal.count"]), num(1)),
                                          (it, num(D + L["literal.cp"] + 4 * c), num(4))])
            elif s2.eq(n, self.kc + 1):
                it = self.el(self.seg, L["segment.items"], self.kc)
                self.f_item(s2, it, "literal", "text")
                self.isint(s2, it, D + L["literal.count"], 1, "text", "the length of the new literal", I1)
                self.isint(s2, it, D + L["literal.cp"], cp, "text", "the character of the new literal", I4)
                self.frame(s2, allowed)
            else:
                self.say(False, "text", "the character is not appended: the segment has %r items after %r before" % (n, self.kc),
                         self.e.imprecise(n))

    def t_open(self, s):
        L = self.L
        D = L["item.data"]
        self.f_counts(s)
        self.f_len(s, self.kc + 1)
        it = self.el(self.seg, L["segment.items"], self.kc)
        self.f_item(s, it, "group")
        self.isint(s, it, D + L["group.segments"] + L["stack.len"], 1, "alternatives", "the number of alternatives of the new group")
        self.isint(s, it, D + L["group.sum"], 1, "sum", "the multiplier sum of the new group")
        sg = self.el(it, D + L["group.segments"], 0)
        self.isint(s, sg, L["segment.multiplier"], 1, "sum", "the multiplier of the first alternative")
        self.isint(s, sg, L["segment.items"] + L["stack.len"], 0, "items", "the number of items of the first alternative")
        self.pushed(s, "group")
        ns = self.newstate()
        self.isptr(s, ns, L["ps.group.group"], it, D, "nesting", "the group that is parsed next")
        self.isptr(s, ns, L["ps.group.segment"], sg, 0, "nesting", "the segment that is parsed next")
        self.frame(s, self.stacks())

    def newstate(self):
        return self.el(self.parser, self.L["parser.state"], self.n)

    def pushed(self, s, kind):
        L = self.L
        self.depth(s, self.n + 1, "the nesting depth")
        self.f_same(s, False)
        self.isint(s, self.newstate(), L["ps.type"], L["T." + kind], "nesting", "the new state", INT[L["ps.type.size"]])

    def t_set(self, s):
        L = self.L
        D = L["item.data"]
        self.f_counts(s)
        self.f_len(s, self.kc + 1)
        it = self.el(self.seg, L["segment.items"], self.kc)
        self.f_item(s, it, "set")
        self.isint(s, it, D + L["set.items"] + L["stack.len"], 0, "set", "the number of ranges of the new set")
        self.isptr(s, it, D + L["set.choices"], None, 0, "set", "the list of choices of a new set")
        self.pushed(s, "set")
        self.isptr(s, self.newstate(), L["ps.set.set"], it, D, "nesting", "the set that is parsed next")
        self.isptr(s, self.newstate(), L["ps.set.range"], None, 0, "set", "the range of a new set")
        self.frame(s, self.stacks())

    def t_special(self, s, kind):
        L = self.L
        D = L["item.data"]
        self.f_counts(s)
        self.f_len(s, self.kc + 1)
        it = self.el(self.seg, L["segment.items"], self.kc)
        self.f_item(s, it, "special")
        self.isint(s, it, D + L["special.kind"], L["special." + kind], "special", "the kind of the special item", I4)
        self.isint(s, it, D + L["special.len"], 0, "special", "the length of the new name", I4)
        self.isint(s, it, D + L["special.cap"], 0, "special", "the capacity of the new name", I4)
        self.pushed(s, "special")
        self.isptr(s, self.newstate(), L["ps.special"], it, D, "nesting", "the special item that is parsed next")
        self.frame(s, self.stacks())

    def t_alternative(self, s):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T.group"], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.group.group"], self.group, 0, "nesting", "the current group")
        # an alternative that is never chosen is replaced, any other is kept
        gone = self.m == num(0)
        nseg = self.nseg if gone else self.nseg + 1
        self.f_counts(s, self.sum + 1, False if gone else None, nseg)
        sg = self.el(self.group, L["group.segments"], nseg + (-1))
        self.isint(s, sg, L["segment.multiplier"], 1, "sum", "the multiplier of the new alternative")
        self.isint(s, sg, L["segment.items"] + L["stack.len"], 0, "items", "the number of items of the new alternative")
        self.isptr(s, self.state, L["ps.group.segment"], sg, 0, "nesting", "the current segment")
        if not gone:
            self.f_len(s, self.kc)
        self.frame(s, self.stacks() + [(self.group, num(L["group.sum"]), num(8)),
                                       (self.state, num(L["ps.group.segment"]), num(8))] +
                   ([(self.seg, num(0), num(L["segment.size"]))] if gone else []))

    def t_close(self, s):
        L = self.L
        gone = self.m == num(0)
        self.depth(s, self.n + (-1), "the nesting depth")
        self.isint(s, self.group, L["group.segments"] + L["stack.len"], self.nseg + (-1) if gone else self.nseg,
                   "alternatives", "the number of alternatives")
        lens = list(getattr(self, "other", []))
        if not gone:
            self.f_len(s, self.kc)
            self.isint(s, self.seg, L["segment.multiplier"], self.m, "sum", "the multiplier of the segment")
            lens.append(self.kc)
        for s2, v in self.ints(s, self.group, L["group.sum"]):
            imp = self.e.imprecise(v)
            if s2.eq(v, self.sum):
                if self.others_full:
                    self.say(True, "empty-group", "")
                    continue
                # unchanged: either something is in it or the sum was zero anyway
                z = s2.assume([-x for x in lens] + [self.sum + (-1)])
                self.say(z is None, "empty-group", "a group without any items is not recognised as empty", imp)
            elif s2.eq(v, ZERO):
                good = not self.others_full and all(s2.entails(-x) for x in lens)
                self.say(good, "empty-group", "a group that contains items is treated as empty", imp)
            else:
                self.say(False, "sum", "the multiplier sum is %r, not %r" % (v, self.sum), imp)
        self.frame(s, self.stacks() + [(self.group, num(L["group.sum"]), num(8))])

    others_full = False

    def t_repeat(self, s):
        """{ after an item: its repetition is read next"""
        it = self.modified(s)
        L = self.L
        if it is None:
            return
        self.pushed(s, "repeat")
        self.isptr(s, self.newstate(), L["ps.repeat"], it, L["item.min"], "nesting", "the repetition that is read next")
        self.isint(s, it, L["item.min"], 0, "modifiers",
                   "the minimum before a repetition is read")
        self.frame(s, self.stacks() + self.mod_frame(it, [(it, num(L["item.min"]), num(L["repeat.size"]))]))

    def t_maybe(self, s):
        it = self.modified(s)
        L = self.L
        if it is None:
            return
        self.f_same(s)
        self.isint(s, it, L["item.maybe"], 1, "modifiers", "the optional mark of the item", I1)
        if self.split_literal:
            self.isint(s, it, L["item.min"], 1, "modifiers", "the minimum repetition of the item")
            self.isint(s, it, L["item.max"], 1, "modifiers", "the maximum repetition of the item")
        self.frame(s, self.stacks() + self.mod_frame(it, [(it, num(L["item.maybe"]), num(1))]))

    @property
    def split_literal(self):
        return self.last.startswith("literal") and int(self.last[7:].rstrip("t")) > 1

    def modified(self, s):
        """the item a modifier applies to: the last item, but only the last character of a literal"""
        L = self.L
        D = L["item.data"]
        self.f_counts(s)
        if not self.split_literal:
            self.f_len(s, self.k)
            it = self.el(self.seg, L["segment.items"], self.k + (-1))
        else:
            self.f_len(s, self.k + 1)
            it = self.el(self.seg, L["segment.items"], self.k)
            old = self.el(self.seg, L["segment.items"], self.k + (-1))
            c = int(self.last[7:])
            self.isint(s, it, L["item.kind"], L["kind.literal"], "modifiers", "the kind of the modified item", I4)
            self.isint(s, it, D + L["literal.count"], 1, "modifiers", "the number of characters the modifier applies to", I1)
            want = self.e.ld_atom(old, num(D + L["literal.cp"] + 4 * (c - 1)), 4)
            for s2, v in self.ints(s, it, D + L["literal.cp"], I4):
                for s3, w in self.e.canon(s2, self.e.iv(self.e.initial(s2, old, num(D + L["literal.cp"] + 4 * (c - 1)), I4, None)[0][1], 32)):
                    self.say(s3.eq(v, w), "modifiers", "the modifier applies to %r, not to the last character" % v,
                             self.e.imprecise(v))
            self.isint(s, old, D + L["literal.count"], c - 1, "modifiers", "the length of the literal before the modified character", I1)
        if self.last.startswith("literal"):
            for s2, v in self.ints(s, it, D + L["literal.tainted"], I1):
                self.say(s2.entails(v + (-1)), "modifiers", "characters can still be added to the modified literal",
                         self.e.imprecise(v))
        return it

    def mod_frame(self, it, extra):
        L = self.L
        D = L["item.data"]
        if self.split_literal:
            old = self.el(self.seg, L["segment.items"], self.k + (-1))
            return extra + [(old, num(D + L["literal.count"]), num(1)), (old, num(D + L["literal.tainted"]), num(1))]
        if self.last.startswith("literal"):
            return extra + [(it, num(D + L["literal.tainted"]), num(1))]
        return extra

    def t_multiplier(self, s):
        L = self.L
        self.f_counts(s, self.sum - self.m, 0)
        self.f_len(s, 0)
        self.pushed(s, "multiplier")
        self.isptr(s, self.newstate(), L["ps.value"], self.seg, L["segment.multiplier"], "nesting", "the multiplier that is read next")
        self.isptr(s, self.newstate(), L["ps.sum"], self.group, L["group.sum"], "nesting", "the sum of the multiplier that is read next")
        self.frame(s, self.stacks() + [(self.group, num(L["group.sum"]), num(8)),
                                       (self.seg, num(L["segment.multiplier"]), num(8))])

    def expect(self, tok):
        """(must succeed?, check of the result) for this token in this state"""
        c = chr(tok.val) if tok.val is not None else None
        if tok.esc:
            if c is not None and tok.val in ESC_TEXT:
                return True, lambda s: self.t_text(s, self.cp)
            if c is not None and tok.val in ESC_SPECIAL:
                return True, lambda s: self.t_special(s, {"m": "markov", "p": "preset", "w": "wordlist"}[c])
            return False, None
        if c == "|":
            return (False, None) if self.sum == num(SIZE_MAX) else (True, self.t_alternative)
        if c == ")":
            if self.n == num(1):
                return False, None
            return True, self.t_close
        if c == "(":
            return True, self.t_open
        if c == "[":
            return True, self.t_set
        if c == "{":
            return (True, self.t_multiplier) if self.last == "none" else (True, self.t_repeat)
        if c == "?":
            return (False, None) if self.last == "none" else (True, self.t_maybe)
        return True, lambda s: self.t_text(s, self.cp)


def verdict(st, tok, must, check):
    ok, bad = st.run(tok)
    if must is False:
        for s in ok:
            st.say(False, "grammar", "is accepted although it is not valid here")
        if bad and not ok:
            st.say(True, "grammar", "")
    else:
        for s in bad:
            st.say(False, "grammar", "is refused although it is valid here")
        if ok and not bad:
            st.say(True, "grammar", "")
        for s in ok:
            check(s)
    if not ok and not bad and must is not None:
        st.say(False, "grammar", "has no result")
    st.done()


LASTS = ["none", "literal1", "literal1t", "literal2", "literal6", "literal7", "set", "special", "group",
         "empty:none", "empty:literal1", "empty:literal7", "empty:literal1t", "empty:set"]


def group_jobs(ck, cfg, rules):
    fn = ck.fn("passgen_parse_token", cfg)
    L = ck.layout(LAYOUT)
    jobs = []
    for last in LASTS:
        for tok in tokens(GROUP_SPECIAL, ESC_TEXT + ESC_SPECIAL):
            plain = not tok.esc and tok.val is not None
            if not plain and not (tok.val is None) and last not in ("none", "literal1", "empty:literal1"):
                continue
            cases = [("some", "any", None, None, None)]
            if plain and chr(tok.val) == "|":
                cases += [("zero", "any", None, None, None), ("some", "full", None, None, None), ("zero", "full", None, None, None)]
            if plain and chr(tok.val) == "{" and last == "none":
                cases += [("zero", "any", None, None, None)]
            if plain and chr(tok.val) == ")":
                # with any number of alternatives: all of them empty, or none of them
                cases = [("some", "any", None, "empty" if last in ("none", "empty:none") else "full", None),
                         ("some", "any", 1, "any", 1)]
                for n in (1, 2, 3):
                    cases += [(m, "any", n, "any", None) for m in ("some", "zero")]
                cases += [("zero", "zero", 1, "any", None)]
                if last == "none":
                    cases += [("zero", "any", None, "empty", None), ("zero", "any", None, "full", None)]
            for case in cases:
                jobs.append((cfg, last, tok, case))
    return jobs


def group_step(ck, rules, cfg, last, tok, case):
    m, sumcase, nseg, others, depth = case
    fn = ck.fn("passgen_parse_token", cfg)
    where = "%s:%s: %s in a group after %s (multiplier %s, sum %s%s%s) (%s)" % (
        fn.file, fn.name, tok.name, last, m, sumcase, ", %s segments" % nseg if nseg else "",
        ", others %s" % others if others else "", cfg)
    st = GroupStep(ck, cfg, where, rules)
    if depth:
        st.n = num(depth)
    elif not tok.esc and tok.val == ord(")"):
        st.n = var(Atom("depth", 2, P.MAXCOUNT))
    if st.setup(last, m, sumcase, nseg, others) is None:
        return
    st.others_full = others == "full" and nseg is None
    if st.others_full:
        st.st = st.st.assume([st.nseg + (-2)])
    if others == "empty" and nseg is None:
        st.other = []
    must, check = st.expect(tok)
    verdict(st, tok, must, check)


# ------------------------------------------------------------------ the other states
class RangeShape:
    """a range whose start is not after its end"""

    def __init__(self, L):
        self.L, self.size = L, L["range.size"]
        self.hi = {L["range.start"]: MAXCP, L["range.end"]: MAXCP}

    def field(self, e, st, obj, off, ty):
        L = self.L
        if off == L["range.end"]:
            return e.ld_atom(obj, num(L["range.start"]), 4) + e.ld_atom(obj, num(L["range.end"]), 5)
        return None

    def child(self, off, idx):
        return None


class SetStep(Step):
    """top state is a set or the end of a range; ranges: 'none' or 'some' (one or more)"""

    def setup(self, kind, ranges):
        L, e = self.L, self.e
        self.kind = kind
        self.r = num(0) if ranges == "none" else var(Atom("ranges", 1, P.MAXCOUNT))
        self.start = var(Atom("start", 0, MAXCP, width=32))

        def rng(i):
            if ranges != "none" and i == self.r + (-1):
                # the last range has no end yet: it is a single code point
                return Ptrs(L["range.size"], {L["range.start"]: self.start, L["range.end"]: self.start})
            return RangeShape(L)
        shape = sset(L, self.r)
        shape.child = lambda off, i: (self.r, rng(i)) if off == L["set.items"] else None
        self.set = self.obj("set", shape)
        self.set.attrs["shape"].inner.n = self.r
        old = shape.field
        shape.field = lambda e, st, o, off, ty: [(st, NULL)] if off == L["set.choices"] and ty.kind == "ptr" else old(e, st, o, off, ty)
        self.top(kind, {"ps.set.set": PV(self.set, ZERO), "ps.set.range": NULL})
        if ranges != "none":
            self.last = self.el(self.set, L["set.items"], self.r + (-1))
            self.state.attrs["shape"].fields[L["ps.set.range"]] = PV(self.last, ZERO)
        return self

    def stacks(self):
        L = self.L
        return [(self.parser, num(L["parser.state"]), num(L["stack.size"])),
                (self.set, num(L["set.items"]), num(L["stack.size"]))]

    def f_state(self, s, kind, depth=None):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T." + kind], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.set.set"], self.set, 0, "nesting", "the current set")

    def t_member(self, s, cp):
        """a code point is added as a range of its own"""
        L = self.L
        self.f_state(s, "set")
        self.isint(s, self.set, L["set.items"] + L["stack.len"], self.r + 1, "ranges", "the number of ranges")
        it = self.el(self.set, L["set.items"], self.r)
        self.isint(s, it, L["range.start"], cp, "ranges", "the start of the new range", I4)
        self.isint(s, it, L["range.end"], cp, "ranges", "the end of the new range", I4)
        self.isptr(s, self.state, L["ps.set.range"], it, 0, "ranges", "the range a dash would extend")
        self.frame(s, self.stacks() + [(self.state, num(L["ps.set.range"]), num(8))])

    def t_dash(self, s):
        L = self.L
        self.f_state(s, "set_range")
        self.isint(s, self.set, L["set.items"] + L["stack.len"], self.r, "ranges", "the number of ranges")
        self.isptr(s, self.state, L["ps.set.range"], self.last, 0, "ranges", "the range that is completed next")
        self.frame(s, self.stacks() + [(self.state, num(L["ps.type"]), num(L["ps.type.size"]))])

    def t_end(self, s):
        """the end of the range"""
        L = self.L
        self.f_state(s, "set")
        self.isint(s, self.set, L["set.items"] + L["stack.len"], self.r, "ranges", "the number of ranges")
        self.isint(s, self.last, L["range.start"], self.start, "ranges", "the start of the range", I4)
        self.isint(s, self.last, L["range.end"], self.cp, "ranges", "the end of the range", I4)
        for s2, v in self.get(s, self.state, L["ps.set.range"], _PTR):
            v = self.e.aspv(v)
            if v.obj is not None:
                self.isptr(s2, self.state, L["ps.set.range"], self.last, 0, "ranges", "the range a dash would extend")
        self.frame(s, self.stacks() + [(self.state, num(L["ps.type"]), num(L["ps.type.size"])),
                                       (self.state, num(L["ps.set.range"]), num(8)),
                                       (self.last, num(L["range.end"]), num(4))])

    def t_close(self, s):
        """the choices of the ranges are accumulated in order"""
        L, e = self.L, self.e
        self.depth(s, self.n + (-1), "the nesting depth")
        self.isint(s, self.set, L["set.items"] + L["stack.len"], self.r, "ranges", "the number of ranges")
        for s2, v in self.get(s, self.set, L["set.choices"], _PTR):
            v = e.aspv(v)
            if self.r == num(0):
                continue
            if not self.say(v.obj is not None and v.obj.kind == "heap" and v.off == ZERO, "choices",
                            "the list of choices is not allocated", e.imprecise(v)):
                continue
            o = e.canonobj(v.obj)
            self.say(o.size is not None and s2.entails(o.size - self.r.scale(8)), "choices",
                     "the list of choices has room for %r bytes, not for 8 per range" % o.size,
                     o.size is None or e.imprecise(o.size))
            nx = s2.ghost.get("next")
            self.say(nx is not None and s2.eq(nx.l, self.r), "choices",
                     "only %r of %r entries of the list of choices are written" % (nx.l if nx is not None else 0, self.r),
                     nx is not None and e.imprecise(nx.l))
        self.frame(s, self.stacks() + [(self.set, num(L["set.choices"]), num(8))])

    def watch(self):
        """every entry written to a list of choices is the previous one plus the size of its range"""
        e, L = self.e, self.L
        st = self.st = self.st.copy()
        st.ghost["next"] = ival(64, 0)
        st.ghost["prefix"] = ival(64, 0)

        def on_store(e, s, o, off, size, v, inst):
            if o.kind != "heap" or size != 8:
                return
            i, pre = s.ghost["next"].l, s.ghost["prefix"].l
            rg = e.keyobj("elem", self.set, i, num(L["set.items"]))
            self.say(s.eq(off, i.scale(8)), "choices", "at %s the entry at byte %r is written, entry %r is next"
                     % (loc(inst), off, i), e.imprecise(off))
            a = e._load(s, rg, s.mem.get(rg, ()), num(L["range.start"]), I4, None)[0][1]
            b = e._load(s, rg, s.mem.get(rg, ()), num(L["range.end"]), I4, None)[0][1]
            want = pre + e.iv(b, 32).l - e.iv(a, 32).l + 1
            for s2, x in e.canon(s, e.iv(v, 64)):
                self.say(s2.eq(x, want), "choices", "entry %r of the list of choices is %r, not %r [%s]"
                         % (i, x, want, loc(inst)), e.imprecise(x))
            s.ghost["next"] = IV(64, i + 1)
            s.ghost["prefix"] = IV(64, want)
        e.on_store = on_store

    def expect(self, tok):
        c = tok.val
        if self.kind == "set":
            if tok.esc:
                return (True, lambda s: self.t_member(s, self.cp)) if c in (ord("-"), ord("]")) else (None, None)
            if c == ord("]"):
                return True, self.t_close
            if c == ord("-") and self.r != num(0):
                return True, self.t_dash
            return True, lambda s: self.t_member(s, self.cp)
        if not tok.esc and c == ord("]"):
            return None, None
        if tok.esc and c not in (ord("-"), ord("]")):
            return None, None
        return True, self.t_end


def set_jobs(cfg):
    jobs = []
    for tok in tokens([ord("]"), ord("-")], [ord("-"), ord("]")]):
        for kind in ("set", "set_range"):
            for ranges in ("none", "some") if kind == "set" else ("some",):
                if kind == "set_range":
                    for order in ("below", "above"):
                        jobs.append((cfg, kind, ranges, tok, order))
                else:
                    jobs.append((cfg, kind, ranges, tok, None))
    return jobs


def set_step(ck, rules, cfg, kind, ranges, tok, order):
    fn = ck.fn("passgen_parse_token", cfg)
    where = "%s:%s: %s %s%s (%s)" % (fn.file, fn.name, tok.name,
                                     "in a set with %s ranges" % ranges if kind == "set" else "as the end of a range",
                                     " that is %s the start" % order if order else "", cfg)
    st = SetStep(ck, cfg, where, rules)
    st.setup(kind, ranges)
    must, check = st.expect(tok)
    if order:
        # the code point of the token, related to the start of the range
        s, field, cp = tok.make(st.st)
        tok = Fixed(tok, field, cp)
        rel = [st.start - cp + (-1)] if order == "below" else [cp - st.start]
        st.st = s.assume(rel)
        if st.st is None:
            return
        if must and order == "below":
            must, check = False, None
    st.watch()
    if must is None:
        ok, bad = st.run(tok)
        st.done()
        return
    verdict(st, tok, must, check)


class Fixed(Tok):
    """a token whose code point was already chosen"""

    def __init__(self, tok, field, cp):
        Tok.__init__(self, tok.name, tok.val, tok.lo, tok.hi, tok.ne, tok.esc)
        self.field, self.codept = field, cp

    def make(self, st):
        return st, self.field, self.codept


DIGITS = [ord(c) for c in "0123456789"]


class NumberStep(Step):
    """top state reads a number: multiplier, repeat or repeat_range"""

    def setup(self, kind, tok, big):
        L = self.L
        self.kind = kind
        s = self.st
        self.v = var(Atom("value", 0, SIZE_MAX))
        self.other = var(Atom("other", 0, SIZE_MAX))
        if kind == "multiplier":
            # other: the sum
            self.seg = self.obj("segment", sseg(L, None, self.v, lambda i: AnyItem(L)))
            self.group = self.obj("group", sgroup(L, None, self.other, lambda i: None))
            self.top(kind, {"ps.value": PV(self.seg, num(L["segment.multiplier"])), "ps.sum": PV(self.group, num(L["group.sum"]))})
            self.cell = (self.seg, num(L["segment.multiplier"]))
        else:
            mn, mx = (self.v, self.other) if kind == "repeat" else (self.other, self.v)
            self.mn, self.mx = mn, mx
            self.item = self.obj("item", sitem(L, "literal", None, mn, mx, None))
            self.top(kind, {"ps.repeat": PV(self.item, num(L["item.min"]))})
            self.cell = (self.item, num(L["item.min"] + L["repeat.min" if kind == "repeat" else "repeat.max"]))
        if tok.val in DIGITS and not tok.esc:
            d = tok.val - 48
            lim = (SIZE_MAX - d) // 10
            s = s.assume([num(lim) - self.v] if not big else [self.v - lim + (-1)])
        elif tok.val == ord("}") and not tok.esc:
            if kind == "multiplier":
                s = s.assume([num(SIZE_MAX) - self.v - self.other] if not big else [self.v + self.other - SIZE_MAX + (-1)])
            elif kind == "repeat_range":
                if big == "full":
                    s = s.assume([self.v - self.other - SIZE_MAX])
                else:
                    s = s.assume([self.v - self.other, num(SIZE_MAX - 1) - self.v + self.other] if not big
                                 else [self.other - self.v + (-1)])
        self.st = s
        return self

    def t_digit(self, s, d):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T." + self.kind], "nesting", "the state", INT[L["ps.type.size"]])
        self.isint(s, self.cell[0], self.cell[1], self.v.scale(10) + d, "number", "the number after the digit")
        self.frame(s, [(self.cell[0], self.cell[1], num(8))])

    def t_close(self, s):
        L = self.L
        self.depth(s, self.n + (-1), "the nesting depth")
        fr = [(self.parser, num(L["parser.state"]), num(L["stack.size"]))]
        if self.kind == "multiplier":
            self.isint(s, self.seg, L["segment.multiplier"], self.v, "number", "the multiplier")
            self.isint(s, self.group, L["group.sum"], self.v + self.other, "sum", "the multiplier sum")
            fr.append((self.group, num(L["group.sum"]), num(8)))
        elif self.kind == "repeat":
            self.isint(s, self.item, L["item.min"], self.v, "number", "the minimum")
            self.isint(s, self.item, L["item.max"], self.v, "number", "the maximum")
            fr.append((self.item, num(L["item.max"]), num(8)))
        else:
            self.isint(s, self.item, L["item.min"], self.mn, "number", "the minimum")
            self.isint(s, self.item, L["item.max"], self.mx, "number", "the maximum")
        self.frame(s, fr)

    def t_comma(self, s):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T.repeat_range"], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.repeat"], self.item, L["item.min"], "nesting", "the repetition that is read")
        self.isint(s, self.item, L["item.min"], self.v, "number", "the minimum")
        self.isint(s, self.item, L["item.max"], 0, "number", "the maximum before it is read")
        self.frame(s, [(self.state, num(L["ps.type"]), num(L["ps.type.size"])), (self.item, num(L["item.max"]), num(8))])

    def expect(self, tok, big):
        if tok.esc or tok.val is None:
            return False, None
        if tok.val in DIGITS:
            return (False, None) if big else (True, lambda s: self.t_digit(s, tok.val - 48))
        if tok.val == ord("}"):
            return (False, None) if big else (True, self.t_close)
        if tok.val == ord(",") and self.kind == "repeat":
            return True, self.t_comma
        return False, None


def number_jobs(cfg):
    jobs = []
    for tok in tokens(DIGITS + [ord("}"), ord(",")], DIGITS + [ord("}"), ord(",")]):
        for kind in ("multiplier", "repeat", "repeat_range"):
            if tok.esc and tok.val is not None and tok.val not in (ord("1"), ord("}"), ord(",")):
                continue
            bigs = (False,)
            if not tok.esc and (tok.val in DIGITS or (tok.val == ord("}") and kind == "multiplier")):
                bigs = (False, True)
            if not tok.esc and tok.val == ord("}") and kind == "repeat_range":
                bigs = (False, True, "full")
            jobs += [(cfg, kind, tok, b) for b in bigs]
    return jobs


def number_step(ck, rules, cfg, kind, tok, big):
    fn = ck.fn("passgen_parse_token", cfg)
    what = {"multiplier": "a multiplier", "repeat": "a repetition", "repeat_range": "the maximum of a repetition"}[kind]
    extra = ""
    if big:
        extra = " where the value would overflow" if tok.val in DIGITS or kind == "multiplier" or big == "full" \
            else " that is below the minimum"
    where = "%s:%s: %s in %s%s (%s)" % (fn.file, fn.name, tok.name, what, extra, cfg)
    st = NumberStep(ck, cfg, where, rules)
    st.setup(kind, tok, big)
    if st.st is None:
        return
    must, check = st.expect(tok, big)
    verdict(st, tok, must, check)


class SpecialStep(Step):
    """top state is a special item, before or inside its name"""

    def setup(self, kind, named):
        L, e = self.L, self.e
        self.kind = kind
        ln = num(0) if not named else var(Atom("name_length", 1, 1 << 29, width=32))
        self.special = self.obj("special", Ptrs(L["special.size"], {L["special.len"]: ln}))
        self.top(kind, {"ps.special": PV(self.special, ZERO)})
        self.pushed = []

        def push(e, st, args, inst):
            p = e.aspv(args[0])
            s = e.access(st, "store", p, num(L["special.size"]), inst)
            if s is None:
                return []
            s = s.copy()
            s.event("name", obj=p, cp=e.iv(args[1], 32), inst=inst)
            return [(s, None)]
        e.hooks["passgen_pattern_special_push"] = push
        return self

    def t_open(self, s):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T.special_name"], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.special"], self.special, 0, "nesting", "the special item that is named")
        self.named(s, None)
        self.frame(s, [(self.state, num(L["ps.type"]), num(L["ps.type.size"]))])

    def named(self, s, cp):
        ev = s.events("name")
        if cp is None:
            self.say(not ev, "special", "a character is added to the name")
            return
        if not self.say(len(ev) == 1, "special", "the character is added to the name %d times" % len(ev)):
            return
        d = ev[0][1]
        self.say(d["obj"].obj is self.special and d["obj"].off == ZERO, "special", "the name of %r is changed" % d["obj"],
                 self.e.imprecise(d["obj"]))
        for s2, v in self.e.canon(s, d["cp"]):
            self.say(s2.eq(v, cp), "special", "the name gets %r, not %r" % (v, cp), self.e.imprecise(v))

    def t_char(self, s):
        L = self.L
        self.depth(s, self.n, "the nesting depth")
        self.isint(s, self.state, L["ps.type"], L["T.special_name"], "nesting", "the state", INT[L["ps.type.size"]])
        self.isptr(s, self.state, L["ps.special"], self.special, 0, "nesting", "the special item that is named")
        self.named(s, self.cp)
        self.frame(s, [])

    def t_close(self, s):
        L = self.L
        self.depth(s, self.n + (-1), "the nesting depth")
        self.named(s, None)
        self.frame(s, [(self.parser, num(L["parser.state"]), num(L["stack.size"]))])


def special_jobs(cfg):
    ts = [Tok("'{'", ord("{")), Tok("'}'", ord("}")), Tok("'\\0'", 0), Tok("a surrogate", None, 0xD800, 0xDFFF),
          Tok("any other code point below the surrogates", None, 1, 0xD7FF, (ord("{"), ord("}"))),
          Tok("any code point above the surrogates", None, 0xE000, MAXCP)]
    ts += [Tok("escaped '{'", ord("{"), esc=True), Tok("escaped '}'", ord("}"), esc=True),
           Tok("an escaped surrogate", None, 0xD800, 0xDFFF, esc=True),
           Tok("any other escaped code point", None, 1, 0xD7FF, (ord("{"), ord("}")), esc=True)]
    return [(cfg, k, n, t) for t in ts for k, n in (("special", False), ("special_name", False), ("special_name", True))]


def special_step(ck, rules, cfg, kind, named, tok):
    fn = ck.fn("passgen_parse_token", cfg)
    where = "%s:%s: %s %s%s (%s)" % (fn.file, fn.name, tok.name,
                                     "before the name of a special item" if kind == "special" else "in the name of a special item",
                                     "" if kind == "special" else " that has characters" if named else " that is empty", cfg)
    st = SpecialStep(ck, cfg, where, rules)
    st.setup(kind, named)
    c = tok.val if not tok.esc else None
    if kind == "special":
        must, check = (True, st.t_open) if c == ord("{") else (False, None)
    elif c == ord("}"):
        must, check = (True, st.t_close) if named else (False, None)
    elif tok.val == 0 or tok.lo == 0xD800:
        must, check = False, None
    else:
        must, check = True, st.t_char
    verdict(st, tok, must, check)


def limit_jobs(cfg):
    return [(cfg, Tok("'%s'" % c, ord(c))) for c in "([{"] + [(cfg, Tok("escaped 'w'", ord("w"), esc=True))]


def limit_step(ck, rules, cfg, tok):
    """with a limit, states are not nested deeper than it"""
    fn = ck.fn("passgen_parse_token", cfg)
    where = "%s:%s: %s with a nesting limit (%s)" % (fn.file, fn.name, tok.name, cfg)
    st = GroupStep(ck, cfg, where, rules)
    st.limit = var(Atom("limit", 1, P.MAXCOUNT))
    st.setup("none", "some", "any")
    ok, bad = st.run(tok)
    for s in ok:
        for s2, n in st.ints(s, st.parser, st.L["parser.state"] + st.L["stack.len"]):
            st.say(s2.entails(st.limit - n), "limit", "states can be nested %r deep, the limit is %r" % (n, st.limit),
                   st.e.imprecise(n))
    st.done()


def start_jobs(cfg):
    return [(cfg, "init"), (cfg, "finish")]


def start_step(ck, rules, cfg, what):
    L = ck.layout(LAYOUT)
    if what == "init":
        fn = ck.fn("passgen_parser_init", cfg)
        where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
        st = GroupStep(ck, cfg, where, rules)
        st.parser = st.e.param("parser", num(L["parser.size"]))
        rets = st.e.call(st.st, fn, [PV(st.parser, ZERO), PV(st.pat, ZERO)])
        ck.note(st.e)
        st.say(bool(rets), "abort", "never returns")
        for s, _ in rets:
            st.depth(s, 1, "the nesting depth")
            st.isint(s, st.parser, L["parser.limit"], 0, "limit", "the nesting limit")
            st.isptr(s, st.parser, L["parser.pattern"], st.pat, 0, "nesting", "the pattern")
            top = st.el(st.parser, L["parser.state"], 0)
            G = L["pattern.group"]
            sg = st.el(st.pat, G + L["group.segments"], 0)
            st.isint(s, top, L["ps.type"], L["T.group"], "nesting", "the state", INT[L["ps.type.size"]])
            st.isptr(s, top, L["ps.group.group"], st.pat, G, "nesting", "the current group")
            st.isptr(s, top, L["ps.group.segment"], sg, 0, "nesting", "the current segment")
            st.isint(s, st.pat, G + L["group.segments"] + L["stack.len"], 1, "alternatives", "the number of alternatives")
            st.isint(s, st.pat, G + L["group.sum"], 1, "sum", "the multiplier sum")
            st.isint(s, sg, L["segment.multiplier"], 1, "sum", "the multiplier of the first alternative")
            st.isint(s, sg, L["segment.items"] + L["stack.len"], 0, "items", "the number of items")
        st.done()
        return
    fn = ck.fn("passgen_parse_finish", cfg)
    for kind in ("group", "multiplier", "set", "set_range", "repeat", "repeat_range", "special", "special_name"):
        for depth in ("one", "more"):
            if kind != "group" and depth == "one":
                continue            # the bottom state is always a group
            for last in LASTS if kind == "group" and depth == "one" else ("literal1",):
                where = "%s:%s at depth %s, state %s after %s (%s)" % (fn.file, fn.name, depth, kind, last, cfg)
                st = GroupStep(ck, cfg, where, rules)
                st.n = num(1) if depth == "one" else var(Atom("depth", 2, P.MAXCOUNT))
                st.setup(last, "some", "any")
                st.state.attrs["shape"].fields[L["ps.type"]] = L["T." + kind]
                rets = st.e.call(st.st, fn, [PV(st.parser, ZERO)])
                ck.note(st.e)
                st.say(bool(rets), "abort", "never returns")
                for s, r in rets:
                    r = st.e.iv(r, 32)
                    for s2 in st.e.assume_cond(s, Cond("eq", r, ival(32, 0)), True):
                        if not st.say(kind == "group" and depth == "one", "complete", "an unfinished pattern is accepted"):
                            continue
                        st.f_len(s2, st.kc)
                        st.f_counts(s2)
                        st.frame(s2, st.stacks())
                    for s2 in st.e.assume_cond(s, Cond("eq", r, ival(32, 0)), False):
                        st.say(not (kind == "group" and depth == "one"), "complete", "a complete pattern is refused")
                st.done()


def sweep(ck, rules, jobs, step):
    """jobs in chunks over the workers"""
    ck.layout(LAYOUT)
    chunks = [jobs[i::24] for i in range(24)]

    def work(chunk):
        for j in chunk:
            ck.guarded("step", "%s" % (j,), step, ck, rules, *j)
    ck.parallel([lambda c=c: work(c) for c in chunks if c])


STEPS = {"group": group_step, "set": set_step, "number": number_step, "special": special_step, "limit": limit_step,
         "start": start_step}


def any_step(ck, rules, kind, *job):
    STEPS[kind](ck, rules, *job)


def all_jobs(ck, kinds):
    jobs = []
    for cfg in ("Debug", "Release"):
        for n in ("passgen_parse_token", "passgen_parser_init", "passgen_parse_finish"):
            ck.fn(n, cfg)
        if "group" in kinds:
            jobs += [("group",) + j for j in group_jobs(ck, cfg, None)]
        for k, f in (("set", set_jobs), ("number", number_jobs), ("special", special_jobs), ("limit", limit_jobs),
                     ("start", start_jobs)):
            if k in kinds:
                jobs += [(k,) + j for j in f(cfg)]
    return jobs


GRAMMAR = ("grammar", "text", "items", "modifiers", "alternatives", "nesting", "special", "empty-group", "frame",
           "complete", "limit", "abort", "step")


def P01(ck):
    sweep(ck, GRAMMAR, all_jobs(ck, ("group", "special", "limit", "start")), any_step)


def P03(ck):
    sweep(ck, ("grammar", "ranges", "set", "choices", "frame", "abort", "nesting", "step"), all_jobs(ck, ("set",)), any_step)


def P05(ck):
    sweep(ck, ("grammar", "number", "sum", "frame", "abort", "nesting", "step"), all_jobs(ck, ("number", "group", "start")),
          any_step)


def P04(ck):
    jobs = all_jobs(ck, ("group", "set", "number", "special", "start"))
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_pattern_special_push", cfg)
        jobs += [("name", cfg, "push")] + [("token",) + j for j in token_jobs(cfg)]
    ck.layout(TOKEN)
    sweep(ck, ("in-bounds", "lifetime", "null", "name", "abort", "step"), jobs, any_step)


def L02(ck):
    jobs = all_jobs(ck, ("group", "set", "number", "special", "start"))
    for cfg in ("Debug", "Release"):
        jobs.append(("name", cfg, "push"))
    sweep(ck, ("ownership", "abort", "step"), jobs, any_step)


# ------------------------------------------------------------------ tokens
TOKEN = {
    "token.size": LAYOUT["token.size"], "token.cp": LAYOUT["token.cp"], "token.offset": LAYOUT["token.offset"],
    "token.byte": LAYOUT["token.byte"],
    "tp.size": "sizeof(passgen_token_parser)",
    "tp.state": "offsetof(passgen_token_parser, state)",
    "tp.state.size": "sizeof(((passgen_token_parser*)0)->state)",
    "tp.offset": "offsetof(passgen_token_parser, offset)",
    "tp.byte": "offsetof(passgen_token_parser, byte_offset)",
    "tp.len": "offsetof(passgen_token_parser, data.unicode_payload.length)",
    "tp.cp": "offsetof(passgen_token_parser, data.unicode_payload.codepoint)",
    "S.init": "PASSGEN_TOKEN_INIT", "S.escaped": "PASSGEN_TOKEN_ESCAPED", "S.unicode": "PASSGEN_TOKEN_UNICODE",
    "S.payload": "PASSGEN_TOKEN_UNICODE_PAYLOAD",
    "S.e1": "-(long)PASSGEN_TOKEN_ERROR_UNICODE_START", "S.e2": "-(long)PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD",
    "S.e3": "-(long)PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD_LEN",
    "escbit": "PASSGEN_TOKEN_ESCAPED_BIT",
}
SIMPLE = {"a": 7, "b": 8, "e": 27, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92}


class TokenStep(Step):
    def __init__(self, ck, cfg, where, rules):
        self.ck, self.cfg, self.where, self.rules = ck, cfg, where, rules
        self.L = ck.layout(TOKEN)
        self.fn = ck.fn("passgen_token_parse", cfg)
        e = self.e = ck.engine(cfg)
        e.layout = self.L
        e.on_access = access_cb(where)
        e.on_null = null_cb(where)
        self.st = State()

    def start(self, state, ln=0):
        L = self.L
        self.pos, self.bpos = var(Atom("offset", 0, 1 << 40)), var(Atom("byte_offset", 0, 1 << 40))
        self.acc = var(Atom("payload", 0, (1 << (4 * ln)) - 1, width=32)) if ln else num(0)
        f = {L["tp.state"]: state, L["tp.offset"]: self.pos, L["tp.byte"]: self.bpos}
        if state == L["S.payload"]:
            f.update({L["tp.len"]: num(ln), L["tp.cp"]: self.acc})
        self.tp = self.obj("token_parser", Ptrs(L["tp.size"], f))
        self.token = self.obj("token", Ptrs(L["token.size"], {}))
        self.width = var(Atom("width", 1, 4, width=8))
        return self

    def go(self, tok):
        e = self.e
        st, _, cp = tok.make(self.st)
        self.cp = cp
        rets = e.call(st, self.fn, [PV(self.tp, ZERO), PV(self.token, ZERO), IV(8, self.width), IV(32, cp)])
        self.ck.note(e)
        for tm, s, inst in e.terminals:
            self.say(False, "abort", "can end in %s at %s" % (tm, loc(inst)))
        self.say(bool(rets), "abort", "never returns")
        return rets

    def alive(self, s, o):
        return True

    def moved(self, s):
        L = self.L
        self.isint(s, self.tp, L["tp.offset"], self.pos + 1, "position", "the offset of the next token")
        self.isint(s, self.tp, L["tp.byte"], self.bpos + self.width, "position", "the byte offset of the next token")

    def state_is(self, s, want):
        L = self.L
        self.isint(s, self.tp, L["tp.state"], want, "state", "the state", INT[L["tp.state.size"]])


def token_jobs(cfg):
    bs = ord("\\")
    hexd = [ord(c) for c in "0123456789abcdefABCDEF"]
    jobs = []
    for tok in tokens([bs], [])[:2]:
        jobs.append((cfg, "init", 0, tok))
    for tok in tokens([ord(c) for c in SIMPLE] + [ord("u")], []):
        if not tok.esc:
            jobs.append((cfg, "escaped", 0, tok))
    for tok in tokens([ord("{")], []):
        if not tok.esc:
            jobs.append((cfg, "unicode", 0, tok))
    for ln in range(7):
        for tok in tokens(hexd + [ord("}")], []):
            if not tok.esc:
                jobs.append((cfg, "payload", ln, tok))
    for st in ("e1", "e2", "e3"):
        jobs.append((cfg, st, 0, Tok("any code point", None, 0, MAXCP)))
    return jobs


def token_step(ck, rules, cfg, state, ln, tok):
    L = ck.layout(TOKEN)
    fn = ck.fn("passgen_token_parse", cfg)
    where = "%s:%s: %s in state %s%s (%s)" % (fn.file, fn.name, tok.name, state, " after %d digits" % ln if state == "payload" else "", cfg)
    st = TokenStep(ck, cfg, where, rules)
    sv = L["S." + state] if not state.startswith("e") or state == "escaped" else (1 << 32) - L["S." + state]
    st.start(sv, ln)
    rets = st.go(tok)
    c = chr(tok.val) if tok.val is not None else None
    tsz, psz = L["token.size"], L["tp.size"]
    move = [(st.tp, num(L["tp.offset"]), num(8)), (st.tp, num(L["tp.byte"]), num(8)), (st.tp, num(L["tp.state"]), num(L["tp.state.size"]))]
    payload = [(st.tp, num(L["tp.len"]), num(8)), (st.tp, num(L["tp.cp"]), num(4))]
    # what must happen: ('token', value) | ('in', state) | 'error' | None
    if state == "init":
        want = ("in", "escaped") if c == "\\" else ("token", st.cp)
    elif state == "escaped":
        want = ("token", num(SIMPLE[c])) if c in SIMPLE else ("in", "unicode") if c == "u" else ("token", st.cp + ESC)
    elif state == "unicode":
        want = ("in", "payload") if c == "{" else "error"
    elif state == "payload":
        if c == "}":
            want = "payload" if ln else None
        elif c is not None and c in "0123456789abcdefABCDEF":
            want = ("digit", int(c, 16)) if ln < 6 else "error"
        else:
            want = "error"
    else:
        want = "error"
    for s, r in rets:
        for s2, rv in st.e.canon(s, st.e.iv(r, 32)):
            if want is None:
                continue
            if want == "error":
                neg = s2.entails(-rv + (-1)) or s2.entails(rv - (1 << 31))
                st.say(neg, "state", "is accepted although the escape is not valid (result %r)" % rv, st.e.imprecise(rv))
                continue
            if want == "payload":
                big = s2.assume([st.acc - MAXCP + (-1)])
                if big is not None:
                    neg = big.entails(-rv + (-1)) or big.entails(rv - (1 << 31))
                    st.say(neg, "state", "is accepted although the value is not a code point", st.e.imprecise(rv))
                s2 = s2.assume([num(MAXCP) - st.acc])
                if s2 is None:
                    continue
                w = ("token", st.acc)
            else:
                w = want
            st.moved(s2)
            if w[0] == "token":
                st.say(s2.eq(rv, num(0)), "state", "the token is not complete (result %r)" % rv, st.e.imprecise(rv))
                st.state_is(s2, L["S.init"])
                st.isint(s2, st.token, L["token.cp"], w[1], "value", "the token", I4)
            elif w[0] == "in":
                st.say(s2.eq(rv, num(L["S." + w[1]])), "state", "the result is %r, not %r" % (rv, L["S." + w[1]]), st.e.imprecise(rv))
                st.state_is(s2, L["S." + w[1]])
                if w[1] == "payload":
                    st.isint(s2, st.tp, L["tp.len"], 0, "value", "the number of digits")
                    st.isint(s2, st.tp, L["tp.cp"], 0, "value", "the value before any digit", I4)
            else:
                st.say(s2.eq(rv, num(L["S.payload"])), "state", "the result is %r, not %r" % (rv, L["S.payload"]), st.e.imprecise(rv))
                st.state_is(s2, L["S.payload"])
                st.isint(s2, st.tp, L["tp.len"], ln + 1, "value", "the number of digits")
                st.isint(s2, st.tp, L["tp.cp"], st.acc.scale(16) + w[1], "value", "the value after the digit", I4)
            if state == "init":
                st.isint(s2, st.token, L["token.offset"], st.pos, "position", "the offset of the token")
                st.isint(s2, st.token, L["token.byte"], st.bpos, "position", "the byte offset of the token")
            tok_ok = [(st.token, num(L["token.cp"]), num(4))] if w[0] == "token" else []
            if state == "init":
                tok_ok = tok_ok + [(st.token, num(L["token.offset"]), num(8)), (st.token, num(L["token.byte"]), num(8))]
            st.frame(s2, move + payload + tok_ok)
    st.done()


def P02(ck):
    rules = ("state", "value", "position", "frame", "in-bounds", "null", "abort", "step")
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_token_parse", cfg)
        jobs += token_jobs(cfg)
    ck.layout(TOKEN)
    sweep(ck, rules, jobs, token_step)


# ------------------------------------------------------------------ driving the parser
FEED = {
    "tp.size": TOKEN["tp.size"], "tp.state": TOKEN["tp.state"], "token.size": TOKEN["token.size"],
    "tp.state.size": TOKEN["tp.state.size"],
    "parser.size": LAYOUT["parser.size"], "pattern.size": LAYOUT["pattern.size"],
    "error.size": "sizeof(passgen_error)", "error.message": "offsetof(passgen_error, message)",
    "error.cp": "offsetof(passgen_error, offset.codepoint)", "error.byte": "offsetof(passgen_error, offset.byte)",
    "token.offset": TOKEN["token.offset"], "token.byte": LAYOUT["token.byte"],
    "utf8.success": "PASSGEN_UTF8_SUCCESS",
}


class Feed:
    """observes how a driver hands its input to the tokenizer and the tokens to the parser"""

    def __init__(self, ck, cfg, where, rules, L):
        self.ck, self.where, self.rules, self.L = ck, where, rules, L
        self.e = None
        self.chunks = False        # the pattern is decoded in at most two pieces

    def say(self, cond, rule, msg, imp=False):
        if self.rules is not None and rule not in self.rules:
            return cond
        self.e.journal.append(("ok" if cond else "und" if imp else "bad", rule, self.where, "" if cond else msg, imp))
        return cond

    def stopped(self, s, what, inst):
        if s.flags.get("failed"):
            self.say(False, "stops", "%s at %s after %s" % (what, loc(inst), s.flags["failed"]))
        if s.flags.get("pending"):
            self.say(False, "tokens", "%s at %s before the last complete token was parsed" % (what, loc(inst)))

    def all_fed(self, s, inst, what):
        n, fed = s.ghost["n"].l, s.ghost["fed"].l
        self.say(s.eq(n, fed), "order", "%s at %s when %r of %r code points were handed to the tokenizer" % (what, loc(inst), fed, n),
                 self.e.imprecise(n) or self.e.imprecise(fed))

    def decode(self, e, st, args, inst):
        outp, widths, inp = e.aspv(args[0]), e.aspv(args[2]), e.aspv(args[3])
        res = []
        self.stopped(st, "decoding continues", inst)
        for s, cap in e.canon(st, e.iv(args[1], 64)):
            for s, buf in e.load(s, outp, _PTR, inst):
                for s, src in e.load(s, inp, _PTR, inst):
                    for s, ln in e.canon(s, e.iv(args[4], 64)):
                        buf, src = e.aspv(buf), e.aspv(src)
                        self.all_fed(s, inst, "decoding continues")
                        used = s.ghost["used"].l
                        good = src.obj is self.string and s.eq(src.off, used)
                        self.say(good, "order", "decoding at %s starts at byte %r, not at byte %r of the pattern"
                                 % (loc(inst), src.off, used), e.imprecise(src.off) or e.imprecise(used))
                        total = self.string.attrs["strlen"]
                        self.say(s.eq(ln, total - used), "order", "%r bytes are decoded at %s, %r are left"
                                 % (ln, loc(inst), total - used), e.imprecise(ln))
                        s = e.access(s, "store", buf, cap.scale(4), inst)
                        if s is not None and widths is not NULL and widths.obj is not None:
                            s = e.access(s, "store", widths, cap, inst)
                        if s is None:
                            continue
                        s = s.copy()
                        s.flags["chunks"] = min(s.flags.get("chunks", 0) + 1, 2) if self.chunks else 0
                        for kind in ("done", "more", "bad"):
                            if kind == "more" and s.flags["chunks"] > 1:
                                continue
                            n = var(Atom("decoded", 0, 1 << 40))
                            m = var(Atom("consumed", 0, 1 << 40))
                            cons = [cap - n, m - n, n.scale(4) - m, ln - m]
                            if kind == "done":
                                cons += [m - ln]
                                r = ival(32, self.L["utf8.success"])
                            elif kind == "more":
                                # the output is full, input is left
                                cons += [n - cap, ln - m + (-1)]
                                r = IV(32, var(Atom("decode_more", 1, 255)))
                            else:
                                r = IV(32, var(Atom("decode_error", -255, -1)))
                            s2 = s.assume(cons)
                            if s2 is None:
                                continue
                            s2 = s2.copy()
                            d = e.newobj("decoded", "draw", n.scale(4))
                            w = e.newobj("widths", "draw", n)
                            d.attrs["role"], w.attrs["role"] = "code point", "width"
                            e.put(s2, e.canonobj(buf.obj), ("fill", buf.off, n.scale(4), d))
                            if widths is not NULL and widths.obj is not None:
                                e.put(s2, e.canonobj(widths.obj), ("fill", widths.off, n, w))
                            s2.ghost["n"] = IV(64, n)
                            s2.ghost["fed"] = ival(64, 0)
                            s2.ghost["used"] = IV(64, used + m)
                            if "total" in s2.ghost:
                                s2.ghost["total"] = IV(64, s2.ghost["total"].l + n)
                            s2.flags["more"] = kind == "more"
                            s2.flags["at"] = "end"
                            if kind == "bad":
                                s2.flags["failed"] = "the pattern is not valid UTF-8"
                                s2.ghost["n"] = ival(64, 0)
                            for s3 in e.store(s2, outp, PV(buf.obj, buf.off + n.scale(4)), _PTR, inst):
                                for s4 in e.store(s3, inp, PV(src.obj, src.off + m), _PTR, inst):
                                    res.append((s4, r))
        return res

    def token(self, e, st, args, inst):
        self.stopped(st, "the tokenizer continues", inst)
        tp, tk = e.aspv(args[0]), e.aspv(args[1])
        self.tk = tk
        res = []
        for s, cp in e.canon(st, e.iv(args[3], 32)):
            for s, w in e.canon(s, e.iv(args[2], 8)):
                n, fed = s.ghost["n"].l, s.ghost["fed"].l
                self.say(s.entails(n - fed + (-1)), "order", "more code points than the pattern has are handed to the tokenizer at %s"
                         % loc(inst), e.imprecise(fed))
                self.provenance(s, cp, fed, "code point", 4, inst)
                if self.widths:
                    self.provenance(s, w, fed, "width", 1, inst)
                s = e.access(s, "store", tp, num(self.L["tp.size"]), inst)
                s = e.access(s, "store", tk, num(self.L["token.size"]), inst) if s is not None else None
                if s is None:
                    continue
                for kind, lo, hi in (("token", 0, 0), ("in", 1, 3), ("bad", -3, -1)):
                    s2 = s.copy()
                    s2.ghost["fed"] = IV(64, fed + 1)
                    v = ival(32, 0) if lo == hi else IV(32, var(Atom("token_" + kind, lo, hi)))
                    if kind == "token":
                        s2.flags["pending"] = True
                    if kind == "bad":
                        s2.flags["failed"] = "an escape that is not valid"
                    s2.flags["inside"] = kind == "in"
                    s2.flags["at"] = "end" if kind == "in" else "token"
                    e.put(s2, e.canonobj(tk.obj), ("havoc", tk.off, num(self.L["token.size"]), 900 + inst.seq if hasattr(inst, "seq") else 900))
                    if self.err is not None:
                        s2 = [s2]
                        for k in ("token.offset", "token.byte"):
                            s2 = [x for y in s2 for x in e.store(y, PV(tk.obj, tk.off + self.L[k]), IV(64, var(Atom(k, 0, 1 << 40))), INT[8], inst)]
                        if not s2:
                            continue
                        s2 = s2[0]
                    for s3 in e.store(s2, PV(tp.obj, tp.off + self.L["tp.state"]), v, INT[self.L["tp.state.size"]], inst):
                        s3 = s3.copy()
                        s3.flags["token"] = (tk.obj.id, repr(tk.off))
                        s3.flags["tp"] = (tp.obj.id, repr(tp.off))
                        res.append((s3, v))
        return res

    def provenance(self, s, v, fed, role, size, inst):
        e = self.e
        a = v.t[0][0] if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
        good = False
        if a is not None and a.kind == "fill" and a.args[0].attrs.get("role") == role:
            good = s.eq(a.args[1], fed.scale(size))
        elif a is not None and a.kind == "ld" and a.args[0] is getattr(self, "data", None) and role == "code point":
            good = s.eq(a.args[1], fed.scale(size))
        self.say(good, "order", "the %s handed to the tokenizer at %s is %r, not the one at position %r" % (role, loc(inst), v, fed),
                 e.imprecise(v) or e.imprecise(fed))

    def parse(self, e, st, args, inst):
        if st.flags.get("failed"):
            self.say(False, "stops", "parsing continues at %s after %s" % (loc(inst), st.flags["failed"]))
        self.say(bool(st.flags.get("pending")), "tokens", "a token is parsed at %s that is not complete or was parsed before" % loc(inst))
        p, t = e.aspv(args[0]), e.aspv(args[1])
        self.say(p.obj is not None and st.flags.get("parser") == (p.obj.id, repr(p.off)), "tokens",
                 "the token is given to a parser that was not set up at %s" % loc(inst), e.imprecise(p))
        self.say(t.obj is not None and st.flags.get("token") == (t.obj.id, repr(t.off)), "tokens",
                 "the token parsed at %s is not the one of the tokenizer" % loc(inst), e.imprecise(t))
        res = []
        for kind, lo, hi in (("ok", 0, 0), ("bad", 1, (1 << 31) - 1), ("bad", -(1 << 31), -1)):
            s = st.copy()
            s.flags["pending"] = False
            s.flags["at"] = "token" if kind == "bad" else "end"
            if kind == "bad":
                s.flags["failed"] = "a token that is not valid"
            res.append((s, ival(32, 0) if kind == "ok" else IV(32, var(Atom("parse_error", lo, hi)))))
        return res

    def init(self, e, st, args, inst):
        p, pat = e.aspv(args[0]), e.aspv(args[1])
        s = e.access(st, "store", p, num(self.L["parser.size"]), inst)
        if s is None:
            return []
        s = s.copy()
        self.say(pat.obj is self.output and pat.off == ZERO, "tokens", "the parser set up at %s does not build the caller's pattern"
                 % loc(inst), e.imprecise(pat))
        s.flags["parser"] = (p.obj.id, repr(p.off))
        s.flags["parsers"] = s.flags.get("parsers", 0) + 1
        return [(s, None)]

    def finish(self, e, st, args, inst):
        self.stopped(st, "parsing is finished", inst)
        res = []
        for kind, lo, hi in (("ok", 0, 0), ("bad", 1, (1 << 31) - 1), ("bad", -(1 << 31), -1)):
            s = st.copy()
            s.flags["finished"] = kind == "ok"
            if kind == "bad":
                s.flags["failed"] = "the pattern is not complete"
            res.append((s, ival(32, 0) if kind == "ok" else IV(32, var(Atom("finish_error", lo, hi)))))
        return res

    def release(self, e, st, args, inst):
        s = st.copy()
        s.flags["parsers"] = s.flags.get("parsers", 0) - 1
        return [(s, PV(self.output, ZERO))]

    def error(self, e, st, args, inst):
        p = e.aspv(args[0])
        s = e.access(st, "store", p, num(self.L["error.size"]), inst)
        if s is None:
            return []
        s = s.copy()
        if p.obj is self.err and p.off == ZERO:
            s.flags["reported"] = True
        out = [s]
        for k in ("error.cp", "error.byte"):
            out = [x for s in out for x in e.store(s, PV(p.obj, p.off + self.L[k]), ival(64, 0), INT[8], inst)]
        return [(s, None) for s in out]

    def position(self, s):
        """a failure is reported at the token at fault, or as far as the pattern was decoded"""
        e, L = self.e, self.L
        keep, e.on_access = e.on_access, None
        try:
            at = s.flags.get("at", "end")
            for k, what, g, t in (("error.cp", "code point", "total", "token.offset"), ("error.byte", "byte", "used", "token.byte")):
                for s2, got in e.load(s, PV(self.err, num(L[k])), INT[8], None):
                    got = e.iv(got, 64).l
                    if at == "token":
                        for s3, want in e.load(s2, PV(self.tk.obj, self.tk.off + L[t]), INT[8], None):
                            want = e.iv(want, 64).l
                            self.say(s3.eq(got, want), "position", "a failure is reported at %s %r, not at the token at fault (%s)"
                                     % (what, got, s.flags.get("failed")), e.imprecise(got) or e.imprecise(want))
                    else:
                        want = s2.ghost[g].l
                        self.say(s2.eq(got, want), "position", "a failure is reported at %s %r when %r were decoded (%s)"
                                 % (what, got, want, s.flags.get("failed") or "the pattern ends in an escape"), e.imprecise(got) or e.imprecise(want))
        finally:
            e.on_access = keep

    def hooks(self):
        h = {"passgen_utf8_decode": self.decode, "passgen_token_parse": self.token, "passgen_parse_token": self.parse,
             "passgen_parser_init": self.init, "passgen_parse_finish": self.finish, "passgen_parser_free": self.release,
             "passgen_error_init_raw": self.error}

        def text(e, st, args, inst):
            o = e.keyobj("text", e.gobj_text if hasattr(e, "gobj_text") else self.string)
            o.nonnull = True
            return [(st, PV(o, ZERO))]
        for n in ("passgen_utf8_error", "passgen_token_parse_error_str", "passgen_token_state_string"):
            h[n] = text
        h["passgen_error_source_set"] = lambda e, st, a, i: [(st, None)]
        return h


def P06(ck):
    L = ck.layout(FEED)
    jobs = []
    for name, f in (("passgen_parse", _p06_parse), ("passgen_parse", _p06_chunks), ("passgen_parser_unicode", _p06_unicode)):
        for cfg in ("Debug", "Release"):
            fn = ck.fn(name, cfg)
            where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
            jobs.append(lambda f=f, cfg=cfg, fn=fn, where=where: ck.guarded("feed", where, f, ck, cfg, L, fn, where))
    ck.parallel(jobs)


def _p06_chunks(ck, cfg, L, fn, where):
    # widening forgets how positions relate to what was decoded before; two pieces are followed exactly
    _p06_parse(ck, cfg, L, fn, where, True)


def _p06_parse(ck, cfg, L, fn, where, chunks=False):
    f = Feed(ck, cfg, where, ("position",) if chunks else None, L)
    f.widths = True
    f.chunks = chunks
    e = f.e = ck.engine(cfg, f.hooks())
    if chunks:
        e.unroll_outer = 4
    e.on_access = access_cb(where)
    e.on_null = null_cb(where)
    st = State()
    f.output = e.param("output", num(L["pattern.size"]))
    f.err = e.param("error", num(L["error.size"]))
    f.string = e.string("pattern", 1 << 32)
    for g in ("n", "fed", "used", "total"):
        st.ghost[g] = ival(64, 0)
    rets = e.call(st, fn, [PV(f.output, ZERO), PV(f.err, ZERO), PV(f.string, ZERO)])
    ck.note(e)
    _p06_end(ck, e, f, rets, True)
    flush(ck, e)


def _p06_end(ck, e, f, rets, whole):
    for tm, s, inst in e.terminals:
        f.say(False, "abort", "can end in %s at %s" % (tm, loc(inst)))
    f.say(bool(rets), "abort", "never returns")
    for s, r in rets:
        r = e.iv(r, 32)
        for s2 in e.assume_cond(s, Cond("eq", r, ival(32, 0)), True):
            fl = s2.flags
            f.say(not fl.get("failed"), "result", "success is reported after %s" % fl.get("failed"))
            f.say(not fl.get("pending"), "tokens", "success is reported before the last token was parsed")
            f.say(not fl.get("inside"), "result", "success is reported in the middle of an escape")
            f.all_fed(s2, None, "success is reported")
            if whole:
                f.say(fl.get("more") is False, "result", "success is reported before all of the pattern was decoded")
                f.say(fl.get("finished") is True, "result", "success is reported although the end of the pattern was not checked")
                t, u = f.string.attrs["strlen"], s2.ghost["used"].l
                f.say(s2.eq(t, u), "order", "success is reported after %r of %r bytes" % (u, t), e.imprecise(u))
        for s2 in e.assume_cond(s, Cond("eq", r, ival(32, 0)), False):
            fl = s2.flags
            f.say(bool(fl.get("failed")) or bool(fl.get("inside")), "result", "a failure is reported although nothing failed")
            if whole:
                f.say(bool(fl.get("reported")), "report", "a failure is reported without filling in the error")
                f.position(s2)
        if whole:
            f.say(s.flags.get("parsers") == 0, "release", "%s parsers are left behind" % s.flags.get("parsers"))


def _p06_unicode(ck, cfg, L, fn, where):
    f = Feed(ck, cfg, where, None, L)
    f.widths = False
    e = f.e = ck.engine(cfg, f.hooks())
    e.on_access = access_cb(where)
    e.on_null = null_cb(where)
    st = State()
    n = var(Atom("length", 0, 1 << 40))
    f.parser = e.param("parser", num(L["parser.size"]))
    f.data = e.param("data", n.scale(4))
    f.string = f.output = f.err = None
    st.ghost["n"] = IV(64, n)
    st.ghost["fed"] = ival(64, 0)
    st.flags["parser"] = (f.parser.id, repr(ZERO))
    rets = e.call(st, fn, [PV(f.parser, ZERO), PV(f.data, ZERO), IV(64, n)])
    ck.note(e)
    _p06_end(ck, e, f, rets, False)
    flush(ck, e)


# ------------------------------------------------------------------ the name of a special item
def name_step(ck, rules, cfg, what=None):
    """passgen_pattern_special_push appends one encoded code point, terminates the name and stays in its buffer"""
    L = ck.layout(LAYOUT)
    fn = ck.fn("passgen_pattern_special_push", cfg)
    least = None
    for first in (True, False):
        where = "%s:%s on %s name (%s)" % (fn.file, fn.name, "an empty" if first else "any", cfg)
        e = ck.engine(cfg)
        e.on_access = access_cb(where)
        e.on_null = null_cb(where)

        def say(cond, rule, msg, imp=False):
            e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where, "" if cond else msg, imp))
            return cond
        st = State()
        ln = num(0) if first else var(Atom("length", 1, 1 << 28, width=32))
        cap = num(0) if first else var(Atom("capacity", least, 1 << 29, width=32))
        if not first:
            st = st.assume([cap - ln + (-1)])
        buf = NULL
        if not first:
            b = e.param("name", cap)
            buf = PV(b, ZERO)
        sp = e.param("special", num(L["special.size"]))
        P.attach(sp, Ptrs(L["special.size"], {L["special.len"]: ln, L["special.cap"]: cap, L["special.parameters"]: buf}))

        def encode(e, st, args, inst):
            out = []
            for k in (1, 2, 3, 4):
                s = e.access(st, "store", e.aspv(args[0]), num(k), inst)
                if s is None:
                    continue
                s = s.copy()
                p = e.aspv(args[0])
                d = e.newobj("encoded", "draw", num(k))
                e.put(s, e.canonobj(p.obj), ("fill", p.off, num(k), d))
                s.flags["enc"] = k
                s.event("encode", draw=d, cp=e.iv(args[1], 32), inst=inst)
                out.append((s, ival(32, k)))
            return out
        e.hooks["passgen_utf8_encode_codepoint"] = encode
        cp = var(Atom("codepoint", 1, 0xD7FF, width=32))
        rets = e.call(st, fn, [PV(sp, ZERO), IV(32, cp)])
        ck.note(e)
        for tm, s, inst in e.terminals:
            say(False, "abort", "can end in %s at %s" % (tm, loc(inst)))
        say(bool(rets), "abort", "never returns")
        caps = []
        for s, _ in rets:
            get = lambda off, ty: e._load(s, sp, s.mem.get(sp, ()), num(off), ty, None)[0][1]
            k = s.flags.get("enc")
            ev = s.events("encode")
            if not say(len(ev) == 1, "name", "the code point is encoded %d times" % len(ev)):
                continue
            for s1, v in e.canon(s, ev[0][1]["cp"]):
                say(s1.eq(v, cp), "name", "%r is added, not the code point" % v, e.imprecise(v))
            nl = e.canon(s, e.iv(get(L["special.len"], I4), 32))[0][1]
            nc = e.canon(s, e.iv(get(L["special.cap"], I4), 32))[0][1]
            p = e.aspv(get(L["special.parameters"], _PTR))
            say(s.eq(nl, ln + k), "name", "the length of the name is %r, not %r" % (nl, ln + k), e.imprecise(nl))
            if not say(p.obj is not None and p.off == ZERO, "name", "the name is %r" % p, e.imprecise(p)):
                continue
            o = e.canonobj(p.obj)
            say(o.size is not None and s.eq(o.size, nc), "in-bounds", "the capacity %r is not the size %r of the buffer" % (nc, o.size),
                e.imprecise(nc) or o.size is None)
            say(s.entails(nc - nl + (-1)), "in-bounds", "the name fills its whole buffer (%r of %r)" % (nl, nc), e.imprecise(nc))
            say(not s.flags.get(("freed", p.obj.id)), "lifetime", "the name kept was released")
            lost = [x.name for x in alive(s) if x is not p.obj]
            if not first and p.obj is not b and not s.flags.get(("freed", b.id)):
                lost.append("the old buffer")
            say(not lost, "ownership", "memory (%s) is forgotten when the name grows" % ", ".join(lost))
            z = e._load(s, o, s.mem.get(o, ()), nl, I1, None)[0][1]
            say(isinstance(z, IV) and z.const and z.u == 0, "name", "the name is not terminated (%r)" % z, e.imprecise(z))
            d = ev[0][1]["draw"]
            for i in range(k):
                for s2, v in e._load(s, o, s.mem.get(o, ()), ln + i, I1, None):
                    a = v.l.t[0][0] if isinstance(v, IV) and len(v.l.t) == 1 else None
                    say(a is not None and a.kind == "fill" and a.args[0] is d and s2.eq(a.args[1], num(i)), "name",
                        "byte %d of the code point is %r in the name" % (i, v), e.imprecise(v))
            if not first:
                x = var(Atom("x", 0, 1 << 30))
                s3 = s.assume([ln - x + (-1)])
                for s4, v in e._load(s3, o, s3.mem.get(o, ()), x, I1, None):
                    a = v.l.t[0][0] if isinstance(v, IV) and len(v.l.t) == 1 else None
                    say(a is not None and a.kind == "ld" and a.args[0] is b and s4.eq(a.args[1], x), "name",
                        "what the name was before is lost (%r)" % v, e.imprecise(v))
            if not nc.t:
                caps.append(nc.c)
        if first:
            least = min(caps) if caps else 16
        keep = [j for j in e.journal if j[1] in rules]
        e.journal = keep
        flush(ck, e)


STEPS["name"] = name_step
STEPS["token"] = token_step
