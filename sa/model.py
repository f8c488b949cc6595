"""Shared models: the randomness source, public struct layouts."""
from .terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond
from .check import loc

RANDOM = {
    "random.size": "sizeof(passgen_random)",
    "random.buffer": "offsetof(passgen_random, buffer)",
    "random.buflen": "sizeof(((passgen_random*)0)->buffer)",
    "random.pos": "offsetof(passgen_random, pos)",
    "random.context": "offsetof(passgen_random, context)",
    "random.read": "offsetof(passgen_random, read)",
    "random.close": "offsetof(passgen_random, close)",
}


def mkdraw(e, st, name, size=None):
    o = e.newobj(name, "draw", size)
    return o


def hook_random_read(e, st, args, inst):
    """passgen_random_read(random, data, n): n fresh unconsumed bytes land in data"""
    p = e.aspv(args[1])
    out = []
    for s, n in e.canon(st, e.iv(args[2], 64)):
        if not n.t and n.c == 0:
            out.append((s, None))
            continue
        s2 = e.access(s, "store", p, n, inst)
        if s2 is None:
            continue
        if e.on_draw:
            e.on_draw(e, s2, inst)
        s2 = s2.copy()
        d = mkdraw(e, s2, "draw@%s" % loc(inst).split("/")[-1], n)
        e.put(s2, e.canonobj(p.obj), ("fill", p.off, n, d))
        s2.event("draw", draw=d, n=n, inst=inst)
        out.append((s2, None))
    return out
