"""Abstract patterns: the memory of a parsed pattern as a schema of symbolic fields.

A shape says which fields of a group, segment, item, set or literal are fixed and
which are arbitrary.  The containers that hold children are modelled by contract
(passgen_stack_get returns the element with the given index, or NULL past the end);
the container code itself is the subject of the L rules.
"""
from .terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond
from .interp import INT, _PTR, State

LAYOUT = {
    "pattern.size": "sizeof(passgen_pattern)",
    "pattern.group": "offsetof(passgen_pattern, group)",
    "group.segments": "offsetof(passgen_pattern_group, segments)",
    "group.sum": "offsetof(passgen_pattern_group, multiplier_sum)",
    "segment.size": "sizeof(passgen_pattern_segment)",
    "segment.items": "offsetof(passgen_pattern_segment, items)",
    "segment.multiplier": "offsetof(passgen_pattern_segment, multiplier)",
    "item.size": "sizeof(passgen_pattern_item)",
    "item.kind": "offsetof(passgen_pattern_item, kind)",
    "item.data": "offsetof(passgen_pattern_item, data)",
    "item.min": "offsetof(passgen_pattern_item, repeat.min)",
    "item.max": "offsetof(passgen_pattern_item, repeat.max)",
    "item.maybe": "offsetof(passgen_pattern_item, maybe)",
    "kind.set": "PASSGEN_PATTERN_SET", "kind.literal": "PASSGEN_PATTERN_LITERAL",
    "kind.special": "PASSGEN_PATTERN_SPECIAL", "kind.group": "PASSGEN_PATTERN_GROUP",
    "special.markov": "PASSGEN_PATTERN_SPECIAL_MARKOV", "special.wordlist": "PASSGEN_PATTERN_SPECIAL_WORDLIST",
    "special.preset": "PASSGEN_PATTERN_SPECIAL_PRESET",
    "special.kind": "offsetof(passgen_pattern_special, kind)",
    "special.parameters": "offsetof(passgen_pattern_special, parameters)",
    "special.len": "offsetof(passgen_pattern_special, parameters_len)",
    "special.cap": "offsetof(passgen_pattern_special, parameters_cap)",
    "stack.len": "offsetof(passgen_stack, len)",
    "stack.size": "sizeof(passgen_stack)",
    "set.items": "offsetof(passgen_pattern_set, items)",
    "set.choices": "offsetof(passgen_pattern_set, choices_list)",
    "literal.count": "offsetof(passgen_pattern_literal, count)",
    "literal.tainted": "offsetof(passgen_pattern_literal, tainted)",
    "literal.cp": "offsetof(passgen_pattern_literal, codepoints)",
    "literal.size": "sizeof(passgen_pattern_literal)",
    "range.size": "sizeof(passgen_pattern_range)",
    "range.start": "offsetof(passgen_pattern_range, start)",
    "range.end": "offsetof(passgen_pattern_range, end)",
    "env.size": "sizeof(passgen_env)",
    "env.depth": "offsetof(passgen_env, depth_limit)",
    "env.wordlists": "offsetof(passgen_env, wordlists)",
    "env.presets": "offsetof(passgen_env, presets)",
    "env.random": "offsetof(passgen_env, random)",
    "entry.key": "offsetof(passgen_hashmap_entry, key)",
    "entry.value": "offsetof(passgen_hashmap_entry, value)",
    "wl.size": "sizeof(passgen_wordlist)",
    "wl.parsed": "offsetof(passgen_wordlist, parsed)",
    "wl.parsed_markov": "offsetof(passgen_wordlist, parsed_markov)",
    "wl.words": "offsetof(passgen_wordlist, words)",
    "wl.count": "offsetof(passgen_wordlist, count)",
    "wl.markov": "offsetof(passgen_wordlist, markov)",
    "markov.level": "offsetof(passgen_markov, level)",
}

MAXCOUNT = (1 << 31) - 1
MAXMULT = (1 << 31) - 1


def attach(obj, shape, base=0):
    obj.attrs["shape"] = shape
    obj.attrs["base"] = base
    obj.attrs["init"] = _init
    h = getattr(shape, "hi", None)
    if h:
        obj.attrs["hi"] = h
    return obj


def _init(e, st, obj, off, ty):
    sh = obj.attrs.get("shape")
    if sh is None or off.t:
        return None
    f = sh.field(e, st, obj, off.c, ty)
    if f is None:
        return None
    if isinstance(f, int):
        return [(st, ival(ty.width, f))]
    if isinstance(f, Lin):
        return [(st, IV(ty.width, f))]
    return f


class Group:
    """segments: an int or a Lin; sum: int or Lin; seg(idx) -> Segment"""

    def __init__(self, L, segs, sum, seg, base=0):
        self.L, self.segs, self.sum, self.seg, self.base = L, segs, sum, seg, base

    def field(self, e, st, obj, off, ty, base=None):
        b = self.base if base is None else base
        if off == b + self.L["group.segments"] + self.L["stack.len"]:
            return self.segs
        if off == b + self.L["group.sum"]:
            return self.sum
        return None

    def child(self, off, idx, base=None):
        b = self.base if base is None else base
        if off == b + self.L["group.segments"]:
            return self.segs, self.seg(idx)
        return None


class Segment:
    def __init__(self, L, items, mult, item):
        self.L, self.items, self.mult, self.item = L, items, mult, item
        self.hi = {L["segment.multiplier"]: MAXMULT}

    def field(self, e, st, obj, off, ty):
        if off == self.L["segment.items"] + self.L["stack.len"]:
            return self.items
        if off == self.L["segment.multiplier"]:
            if self.mult is None:
                return None
            return self.mult
        return None

    def child(self, off, idx):
        if off == self.L["segment.items"]:
            return self.items, self.item(idx)
        return None


class Item:
    """kind: layout name; min/max: int, Lin or None (arbitrary); maybe: 0, 1 or None; data: payload shape"""

    def __init__(self, L, kind, data, min=1, max=1, maybe=0):
        self.L, self.kind, self.data, self.min, self.max, self.maybe = L, kind, data, min, max, maybe

    def field(self, e, st, obj, off, ty):
        L = self.L
        if off == L["item.kind"]:
            return L["kind." + self.kind]
        if off == L["item.min"]:
            return self.min
        if off == L["item.max"]:
            return self.max
        if off == L["item.maybe"]:
            if self.maybe is None:
                a = var(e.keyed("ld", (obj, num(off), 1), 0, 1, "%s.maybe" % obj.name, 8))
                return [(st, IV(8, a))]
            return self.maybe
        return self.data.field(e, st, obj, off - L["item.data"], ty) if self.data is not None else None

    def child(self, off, idx):
        return self.data.child(off - self.L["item.data"], idx) if self.data is not None else None


class Set:
    def __init__(self, L, n, fixed=None):
        self.L, self.n, self.fixed = L, n, fixed

    def field(self, e, st, obj, off, ty):
        if off == self.L["set.items"] + self.L["stack.len"]:
            return self.n
        return None

    def child(self, off, idx):
        if off == self.L["set.items"]:
            return self.n, None
        return None


class Literal:
    """count: int or Lin"""

    def __init__(self, L, count):
        self.L, self.count = L, count

    def field(self, e, st, obj, off, ty):
        if off == self.L["literal.count"]:
            return self.count
        return None

    def child(self, off, idx):
        return None


class Special:
    def __init__(self, L, kind):
        self.L, self.kind = L, kind

    def field(self, e, st, obj, off, ty):
        if off == self.L["special.kind"]:
            return self.L["special." + self.kind]
        if off == self.L["special.parameters"]:
            o = e.keyobj("parameters", obj)
            o.nonnull = True
            o.attrs.setdefault("strlen", var(e.keyed("plen", (obj,), 0, 1 << 31, "len(%s.parameters)" % obj.name)))
            return [(st, PV(o, ZERO))]
        return None

    def child(self, off, idx):
        return None


def hook_stack_get(e, st, args, inst):
    """passgen_stack_get(stack, i): element i, NULL when i >= len"""
    p = e.aspv(args[0])
    L = e.layout
    st = e.require_nonnull(st, p, inst)
    if st is None:
        return []
    out = []
    for s, n in e.load(st, PV(p.obj, p.off + L["stack.len"]), INT[8], inst):
        n = e.iv(n, 64)
        for s1, ln in e.canon(s, n):
            for s2, i in e.canon(s1, e.iv(args[1], 64)):
                a = s2.assume([ln - i + (-1)])
                if a is not None:
                    out.append((a, PV(elem(e, p.obj, p.off, i), ZERO)))
                b = s2.assume([i - ln])
                if b is not None:
                    out.append((b, NULL))
    return out


def elem(e, obj, off, idx):
    return e.keyobj("elem", obj, idx, off)


def newkey(e, o):
    k = o.attrs["key"]
    if k[0] == "elem":
        obj, idx, off = k[1:]
        o.nonnull = True
        sh = obj.attrs.get("shape")
        c = sh.child(off.c, idx) if sh is not None and not off.t else None
        if c is not None and c[1] is not None:
            attach(o, c[1])


def hook_stack_top(e, st, args, inst):
    p = e.aspv(args[0])
    L = e.layout
    out = []
    for s, n in e.load(st, PV(p.obj, p.off + L["stack.len"]), INT[8], inst):
        n = e.iv(n, 64)
        for s1, ln in e.canon(s, n):
            a = s1.assume([ln + (-1)])
            if a is not None:
                out.append((a, PV(elem(e, p.obj, p.off, ln + (-1)), ZERO)))
            b = s1.assume([-ln])
            if b is not None:
                out.append((b, NULL))
    return out
