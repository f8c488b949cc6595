"""Output buffers and encodings (src/generate.c fill functions, src/util/utf8.c)."""
import json

from ..terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond, modnorm
from ..interp import INT, _PTR, State
from ..check import loc
from .random import flush

MAX = 0x10FFFF
KINDS = {"unicode": 4, "utf8": 1, "json_utf8": 1}


def scalars():
    """(lo, hi, bytes) of the ranges of scalar values"""
    return [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xe000, 0xffff, 3), (0x10000, MAX, 4)]


def cases(kind):
    """(lo, hi, how) partition of all 32-bit values; how: None invalid, 'raw', n bytes of UTF-8 or 'escape'"""
    if kind == "unicode":
        return [(0, (1 << 32) - 1, "raw")]
    out = [(0xd800, 0xdfff, None), (MAX + 1, (1 << 32) - 1, None)] + scalars()[1:]
    if kind == "utf8":
        return out + [(0, 0x7f, 1)]
    esc = sorted(list(range(0x20)) + [0x22, 0x5c])
    out += [(c, c, "escape") for c in esc]
    return out + [(0x20, 0x21, 1), (0x23, 0x5b, 1), (0x5d, 0x7f, 1)]


def utf8_bits(n):
    """bit layout of an n-byte UTF-8 sequence: per byte, bits from 0 up; int = bit of the code point, 'x' constants"""
    if n == 1:
        return [[0, 1, 2, 3, 4, 5, 6, "0"]]
    lead = {2: [6, 7, 8, 9, 10, "0", "1", "1"], 3: [12, 13, 14, 15, "0", "1", "1", "1"],
            4: [18, 19, 20, "0", "1", "1", "1", "1"]}[n]
    return [lead] + [[6 * k + i for i in range(6)] + ["0", "1"] for k in range(n - 2, -1, -1)]


def known_bits(e, s, cp):
    b = e.bits(s, IV(32, cp))
    return b


def same_byte(e, s, v, want, cp):
    """True / False / None (cannot tell): byte value v equals the wanted layout of code point cp"""
    kb = known_bits(e, s, cp)
    got = None
    for s2, l in e.canon(s, e.iv(v, 8)):
        got = e.bits(s2, IV(8, l))
        break
    if got is None or kb is None:
        return None
    a = cp.t[0][0] if len(cp.t) == 1 and cp.c == 0 and cp.t[0][1] == 1 else None
    res = True
    for g, w in zip(got, want):
        if isinstance(g, tuple) and g[0] is a:
            g = kb[g[1]] if g[1] < len(kb) else 0
        w = int(w) if isinstance(w, str) else (kb[w] if w < len(kb) else 0)
        if g == w:
            continue
        if isinstance(g, tuple) and isinstance(w, tuple) or isinstance(g, int) and isinstance(w, int) \
                or isinstance(g, tuple) and g[0] is a or isinstance(w, tuple) and isinstance(g, int):
            if isinstance(g, tuple) and (g[0] is not a) and g[0].imprecise:
                res = None
                continue
            return False
        res = None
    return res


def read_bytes(e, s, obj, off, n):
    """n byte values at obj+off; [(state, [values])]"""
    acc = [(s, [])]
    for j in range(n):
        nxt = []
        for s1, vs in acc:
            for s2, v in e._load(s1, obj, s1.mem.get(obj, ()), off + j, INT[1], None):
                nxt.append((s2, vs + [v]))
        acc = nxt
    return acc


def check_units(e, s, obj, off, kind, how, lo, cp):
    """does the buffer hold the encoding of cp at off: (verdict, n units, text); n when known"""
    if how == "raw":
        out = []
        for s2, v in e._load(s, obj, s.mem.get(obj, ()), off.scale(1), INT[4], None):
            d = modnorm(e.iv(v, 32).l - cp, 32)
            out.append((True if not d.t and d.c == 0 else None if e.imprecise(v) else False, repr(v)))
        bad = [x for x in out if x[0] is not True]
        return bad[0] if bad else (True, "")
    if how == "escape":
        return None, "escape"
    res = (True, "")
    for s2, vs in read_bytes(e, s, obj, off, how):
        for v, want in zip(vs, utf8_bits(how)):
            r = same_byte(e, s2, v, want, cp)
            if r is not True:
                return (r, "byte %r" % (v,))
    return res


# ------------------------------------------------------------------ G03
def G03(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        for kind in KINDS:
            fn = ck.fn("passgen_generate_fill_" + kind, cfg)
            jobs.append(lambda cfg=cfg, kind=kind, fn=fn: ck.guarded(
                "output", "%s:%s (%s)" % (fn.file, fn.name, cfg), _g03, ck, cfg, kind, fn))
    ck.parallel(jobs)


def _escape_len(e, s, obj, off):
    """length and bytes of a constant JSON escape at off, or None"""
    out = []
    for n in (2, 6):
        for s2, vs in read_bytes(e, s, obj, off, n):
            if all(isinstance(v, IV) and v.const for v in vs):
                out.append(bytes(v.u & 0xff for v in vs))
    return out


def _g03(ck, cfg, kind, fn):
    unit = KINDS[kind]
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    ck.fn("passgen_generate", cfg)
    e = ck.engine(cfg)
    ln = var(Atom("len", 0, 1 << 60))
    buf = e.param("buffer", ln.scale(unit))
    pat, env, ent = e.param("pattern"), e.param("env"), e.param("entropy")
    calls = [0]
    esclen = {}         # length of the escape the writer uses for a code point

    def say(cond, rule, msg, imp=False):
        e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where, "" if cond else msg, imp))

    def generate(e, st, args, inst):
        calls[0] += 1
        for i, (o, what) in enumerate(((pat, "pattern"), (env, "environment"), (ent, "entropy"))):
            v = e.aspv(args[i])
            say(v.obj is o and v.off == ZERO, "arguments", "generation at %s does not get the caller's %s but %r"
                % (loc(inst), what, v), e.imprecise(v))
        out = []
        for s, r in e.call(st, e.m.fns["__sa_emits"], [args[4], args[3]], inst):
            r = e.iv(r, 32)
            for ok in (True, False):
                for s2 in e.assume_cond(s, Cond("eq", r, ival(32, 0)), ok):
                    s2 = s2.copy()
                    s2.flags["ret0"] = ok
                    out.append((s2, r))
        return out

    def sa_int(e, st, args, inst):
        return [(st, IV(32, var(Atom("any", -(1 << 31), (1 << 31) - 1))))]

    def sa_u32(e, st, args, inst):
        return [(st, IV(32, var(Atom("codepoint", 0, (1 << 32) - 1))))]

    def call(e, st, args, inst):
        cp = e.iv(args[2], 32).l
        W = st.ghost["W"].l
        out = []
        for lo, hi, how in cases(kind):
            s0 = st.assume([cp - lo, num(hi) - cp])
            if s0 is None:
                continue
            if lo == hi:
                c = num(lo)
            else:
                c = cp
            f = args[0]
            callee = f.fn if isinstance(f, FV) else None
            if callee is None:
                e.unknown_calls.add("*callback*")
                return [(st, ival(32, 0))]
            rr = e.call(s0, callee, [args[1], IV(32, c)], inst)
            for s1, r in rr:
                r = e.iv(r, 32)
                for s2 in e.assume_cond(s1, Cond("eq", r, ival(32, 0)), True):
                    good(e, s2, cp, c, lo, hi, how, W, out)
            for s1, r in rr:
                r = e.iv(r, 32)
                for s2 in e.assume_cond(s1, Cond("eq", r, ival(32, 0)), False):
                    s2 = s2.copy()
                    fails(e, s2, cp, lo, hi, how, W)
                    s2.flags["failed"] = "a code point that was refused"
                    out.append((s2, r))
        return out

    def name(lo, hi):
        return "U+%04X" % lo if lo == hi else "U+%04X..U+%04X" % (lo, hi)

    def good(e, s, cp, c, lo, hi, how, W, out):
        s = s.copy()
        if how is None:
            say(False, "valid", "%s is accepted although it has no encoding" % name(lo, hi))
            return
        off = W.scale(unit)
        if how == "escape":
            n = None
            for b in _escape_len(e, s, e.canonobj(buf), off):
                try:
                    if json.loads('"' + b.decode("ascii") + '"', strict=True) == chr(lo):
                        n = len(b)
                except ValueError:
                    pass
            imp = False
            if n is None:
                for s2, vs in read_bytes(e, s, e.canonobj(buf), off, 2):
                    imp = imp or any(e.imprecise(v) for v in vs)
            say(n is not None, "encoding", "%s is not written as a JSON escape for it" % name(lo, hi), imp or g_unknown(e))
            if n is None:
                n = 1
            else:
                esclen[lo] = n
        else:
            v, text = check_units(e, s, e.canonobj(buf), off, kind, how, lo, cp)
            n = 1 if how == "raw" else how
            say(v is True, "encoding", "%s is not written as its encoding at position %r: %s" % (name(lo, hi), W, text),
                v is None or g_unknown(e))
        s.ghost["W"] = IV(64, W + n)
        say(s.entails(ln - W - n), "fits", "%s is accepted without room for it" % name(lo, hi),
            any(a.imprecise for a in W.atoms()) or g_unknown(e))
        out.append((s, ival(32, 0)))

    def fails(e, s, cp, lo, hi, how, W):
        if how is None:
            return
        n = {"raw": 1}.get(how, how)
        if how == "escape":
            n = esclen.get(lo, 2)
        say(s.entails(W + n - ln + (-1)), "refused", "%s is refused although its encoding fits the buffer" % name(lo, hi),
            g_unknown(e) or any(a.imprecise for a in W.atoms()))

    def on_access(e, st, k, obj, off, n, inst):
        if obj is buf:
            say(st.entails(off) and st.entails(ln.scale(unit) - off - n), "in-bounds",
                "%s of %s bytes at %s of the buffer at %s may leave it" % (k, n, off, loc(inst)),
                any(a.imprecise for a in list(off.atoms()) + list(n.atoms())) or g_unknown(e))
    e.on_access = on_access
    e.hooks.update({"passgen_generate": generate, "__sa_int": sa_int, "__sa_u32": sa_u32, "__sa_call": call})
    st = State()
    st.ghost["W"] = ival(64, 0)
    rets = e.call(st, fn, [PV(pat, ZERO), PV(env, ZERO), PV(ent, ZERO), PV(buf, ZERO), IV(64, ln)])
    ck.note(e)
    flush(ck, e)
    unk = g_unknown(e)
    ck.judge(calls[0] > 0, "output", where, "the pattern is never generated", unk)
    ck.judge(bool(rets), "output", where, "no path returns", unk)
    n = [0, 0]
    for s, r in rets:
        r = e.iv(r, 64)
        W = s.ghost["W"].l
        imp = unk or e.imprecise(r)
        # the generator's own result: an error of the callback or of anything else
        if s.flags.get("failed") or not _success(e, s):
            n[0] += 1
            ck.judge(s.eq(r.l, ZERO), "result", where, "%r is returned although generation failed" % (r.l,), imp)
        else:
            n[1] += 1
            ck.judge(s.eq(r.l, W), "result", where, "%r is returned after writing %r" % (r.l, W), imp)
    ck.judge(n[0] > 0 and n[1] > 0, "output", where, "success and failure are not both possible", unk)


def _success(e, s):
    return s.flags.get("ret0", False)


def g_unknown(e):
    return bool(e.unknown_calls)


# ------------------------------------------------------------------ U01
def U01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        fn = ck.fn("passgen_utf8_encode_codepoint", cfg)
        jobs.append(lambda cfg=cfg, fn=fn: ck.guarded("encode", fn.name + cfg, _u01_one, ck, cfg, fn))
        fn = ck.fn("passgen_utf8_encode", cfg)
        jobs.append(lambda cfg=cfg, fn=fn: ck.guarded("encode", fn.name + cfg, _u01_many, ck, cfg, fn))
    ck.parallel(jobs)


def _u01_one(ck, cfg, fn):
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    for lo, hi, how in [(0xd800, 0xdfff, None), (MAX + 1, (1 << 32) - 1, None)] + scalars():
        e = ck.engine(cfg)
        out = e.param("out", num(4 if how is None else how))
        cp = var(Atom("codepoint", lo, hi))
        bad = []
        e.on_access = lambda e, st, k, obj, off, n, inst: bad.append((k, off, n, inst)) if obj is out and not (
            st.entails(off) and st.entails(obj.size - off - n)) else None
        nm = "U+%04X..U+%04X" % (lo, hi)
        rets = e.call(State(), fn, [PV(out, ZERO), IV(32, cp)])
        ck.note(e)
        flush(ck, e)
        unk = g_unknown(e)
        ck.judge(not bad, "length", where, "%s: %s beyond the %s bytes of its encoding" % (nm, bad[0][0] if bad else "", how), unk)
        ck.judge(bool(rets), "encode", where, "%s: never returns" % nm, unk)
        for s, r in rets:
            r = e.iv(r, 32)
            imp = unk or e.imprecise(r)
            l = None
            for s2, x in e.canon(s, r, True):
                l = x
            if how is None:
                ck.judge(s.entails(-l + (-1)), "invalid", where, "%s: returns %r instead of an error" % (nm, l), imp)
                continue
            if not ck.judge(s.eq(l, num(how)), "length", where, "%s: returns %r instead of %d" % (nm, l, how), imp):
                continue
            v, text = check_units(e, s, out, ZERO, "utf8", how, lo, cp)
            ck.judge(v is True, "encode", where, "%s: %s is not UTF-8" % (nm, text), v is None or unk)


def _u01_many(ck, cfg, fn):
    """passgen_utf8_encode: positions, bounds, order and status; single code points by contract (checked above)"""
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    for small in (True, False):
        _u01_many1(ck, cfg, fn, where, small)


def _u01_many1(ck, cfg, fn, where, small):
    e = ck.engine(cfg)
    ol = var(Atom("out_len", 0, 3)) if small else var(Atom("out_len", 4, 1 << 60))
    il = var(Atom("in_len", 0, 1 << 58))
    op0, ip0 = var(Atom("out_pos0", 0, 1 << 60)), var(Atom("in_pos0", 0, 1 << 58))
    out, inp = e.param("out", ol), e.param("in", il.scale(4))
    pos = {}
    for nm, v in (("out_pos", op0), ("in_pos", ip0)):
        o = pos[nm] = e.param(nm, num(8))
        o.attrs["init"] = (lambda v: lambda e, st, o, off, ty: [(st, IV(64, v))])(v)
    st = State().assume([ol - op0, il - ip0])
    st.ghost["W"] = IV(64, op0)
    st.ghost["N"] = IV(64, ip0)

    def say(cond, rule, msg, imp=False):
        e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where, "" if cond else msg, imp))
    used = [0]

    def one(e, st, args, inst):
        used[0] += 1
        p, cp = e.aspv(args[0]), e.iv(args[1], 32)
        W, N = st.ghost["W"].l, st.ghost["N"].l
        say(p.obj is out and st.eq(p.off, W), "order", "code point is written at %r and not after the %r bytes before it" % (p, W),
            e.imprecise(p))
        want = e.ld_atom(inp, N.scale(4), 4)
        d = modnorm(cp.l - want, 32)
        same = not d.t and d.c == 0
        for a in cp.l.atoms():
            if a.kind == "ld" and a.args[0] is inp and cp.l == var(a) and st.eq(a.args[1], N.scale(4)):
                same = True
        say(same, "order", "code point number %r is encoded as %r" % (N, cp), e.imprecise(cp))
        res = []
        for n in (1, 2, 3, 4):
            s = e.access(st, "store", p, num(n), inst)
            if s is not None:
                s = s.copy()
                e.put(s, e.canonobj(p.obj), ("fill", p.off, num(n), e.newobj("encoded", "draw", num(n))))
                s.ghost["W"] = IV(64, W + n)
                s.ghost["N"] = IV(64, N + 1)
                res.append((s, ival(32, n)))
        f = st.copy()
        f.flags["invalid"] = True
        res.append((f, IV(32, var(Atom("encode_error", -100, -1)))))
        return res
    e.hooks["passgen_utf8_encode_codepoint"] = one

    def on_access(e, st, k, obj, off, n, inst):
        if obj in (out, inp):
            say(st.entails(off) and st.entails(obj.size - off - n), "in-bounds", "%s of %s at %s of %s at %s may leave it"
                % (k, n, off, obj.name, loc(inst)), any(a.imprecise for a in list(off.atoms()) + list(n.atoms())))
    e.on_access = on_access
    rets = e.call(st, fn, [PV(out, ZERO), IV(64, ol), PV(pos["out_pos"], ZERO), PV(inp, ZERO), IV(64, il), PV(pos["in_pos"], ZERO)])
    ck.note(e)
    flush(ck, e)
    unk = g_unknown(e)
    ck.judge(bool(rets), "encode", where, "never returns", unk)
    if not small:
        ck.judge(used[0] > 0, "encode", where, "no code point is encoded", True)
    for s, r in rets:
        imp = unk or e.imprecise(r) or not used[0]
        for nm, gh in (("out_pos", "W"), ("in_pos", "N")):
            for s2, v in e._load(s, pos[nm], s.mem.get(pos[nm], ()), ZERO, INT[8], None):
                ck.judge(s2.eq(e.iv(v, 64).l, s2.ghost[gh].l), "position", where, "%s is %r at the end where %r is right"
                         % (nm, v, s2.ghost[gh]), imp or e.imprecise(v))
        for s2, l in e.canon(s, e.iv(r, 32), True):
            N = s2.ghost["N"].l
            if s2.flags.get("invalid"):
                ck.judge(s2.entails(-l + (-1)), "status", where, "%r is returned for an invalid code point" % l, imp)
                continue
            z = s2.assume([l, -l])
            if z is not None:
                ck.judge(z.eq(N, il), "status", where, "success is returned after %r of %r code points" % (N, il), imp)
            for pos_, ex in ((True, [l + (-1)]), (False, [-l + (-1)])):
                z = s2.assume(ex)
                if z is not None:
                    ck.judge(pos_ and z.entails(il - N + (-1)), "status", where,
                             "%r is returned after %r of %r code points" % (l, N, il), imp)


# ------------------------------------------------------------------ U02
CLASSES = [(0, 0x7f), (0x80, 0x8f), (0x90, 0x9f), (0xa0, 0xbf), (0xc0, 0xc1), (0xc2, 0xdf), (0xe0, 0xe0), (0xe1, 0xec),
           (0xed, 0xed), (0xee, 0xef), (0xf0, 0xf0), (0xf1, 0xf3), (0xf4, 0xf4), (0xf5, 0xff)]
# well-formed UTF-8 byte sequences (Unicode, table 3-7): state -> [(lo, hi, next state, payload bits)]
DFA = {0: [(0, 0x7f, 0, 7), (0xc2, 0xdf, 1, 5), (0xe0, 0xe0, 4, 4), (0xe1, 0xec, 2, 4), (0xed, 0xed, 5, 4), (0xee, 0xef, 2, 4),
           (0xf0, 0xf0, 6, 3), (0xf1, 0xf3, 3, 3), (0xf4, 0xf4, 7, 3)],
       1: [(0x80, 0xbf, 0, 6)], 2: [(0x80, 0xbf, 1, 6)], 3: [(0x80, 0xbf, 2, 6)], 4: [(0xa0, 0xbf, 1, 6)],
       5: [(0x80, 0x9f, 1, 6)], 6: [(0x90, 0xbf, 2, 6)], 7: [(0x80, 0x8f, 2, 6)]}


def U02(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        fn = ck.fn("passgen_utf8_decode", cfg)
        for widths in (True, False):
            jobs.append(lambda cfg=cfg, fn=fn, widths=widths: ck.guarded("decode", fn.name + cfg, _u02, ck, cfg, fn, widths))
    ck.parallel(jobs)


def _u02(ck, cfg, fn, widths):
    where = "%s:%s %s widths (%s)" % (fn.file, fn.name, "with" if widths else "without", cfg)
    e = ck.engine(cfg)
    e.chain_limit = 200
    ol, il = var(Atom("output_len", 0, 1 << 58)), var(Atom("input_len", 0, 1 << 60))
    out, inp, wid = e.param("output", ol.scale(4)), e.param("input", il), e.param("widths", ol)
    outp, inpp = e.param("outputp", num(8)), e.param("inputp", num(8))
    outp.attrs["init"] = lambda e, st, o, off, ty: [(st, PV(out, ZERO))]
    inpp.attrs["init"] = lambda e, st, o, off, ty: [(st, PV(inp, ZERO))]

    def say(cond, rule, msg, imp=False):
        e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where, "" if cond else msg, imp))

    def byte(e, st, o, off, ty):
        if ty.kind != "int" or ty.width != 8:
            return None
        N = st.ghost["N"].l
        if st.eq(off, N + (-1)):
            return None
        say(st.eq(off, N), "order", "byte %r is read where byte %r is next" % (off, N), True)
        if st.flags.get("invalid"):
            say(False, "rejected", "input is read beyond an invalid byte", False)
        say(st.eq(st.ghost["S"].l, st.ghost["C"].l), "output", "byte %r is read before the code point before it is stored" % N)
        res = []
        a = e.ld_atom(inp, off, 1)
        gq = st.ghost["q"].l
        for q, (lo, hi) in [(q, c) for q in DFA for c in CLASSES]:
            s = st.assume([gq - q, num(q) - gq, a - lo, num(hi) - a])
            if s is None:
                continue
            s = s.copy()
            s.ghost["N"] = IV(64, N + 1)
            step = [x for x in DFA[q] if x[0] <= lo and hi <= x[1]]
            if not step:
                s.flags["invalid"] = True
            else:
                _, _, nq, bits = step[0]
                b = e.bits(s, IV(8, a))
                old = e.bits(s, IV(32, s.ghost["cp"].l)) if q else [0] * 32
                s.ghost["cp"] = e.from_bits(b[:bits] + old[:32 - bits]) if old else \
                    IV(32, var(e.fresh("cp", 32, imprecise=True)))
                s.ghost["q"] = ival(8, nq)
                s.ghost["n"] = IV(8, s.ghost["n"].l + 1) if q else ival(8, 1)
                if nq == 0:
                    s.ghost["C"] = IV(64, s.ghost["C"].l + 1)
            res.append((s, IV(8, a)))
        return res
    inp.attrs["init"] = byte

    def on_store(e, st, o, off, size, v, inst):
        if o is out:
            C = st.ghost["C"].l
            if st.flags.get("invalid"):
                say(False, "rejected", "a code point is stored at %s after invalid input" % loc(inst))
                return
            say(st.ghost["q"].l.c == 0 and st.eq(off, (C + (-1)).scale(4)) and st.eq(st.ghost["S"].l, C + (-1)), "output",
                "code point stored at %r at %s where %r code points are complete" % (off, loc(inst), C), e.imprecise(v))
            x = e.bits(st, e.iv(v, 32))
            y = e.bits(st, IV(32, st.ghost["cp"].l))
            same = x is not None and x == y
            if not same:
                d = modnorm(e.iv(v, 32).l - st.ghost["cp"].l, 32)
                same = not d.t and d.c == 0
            say(same, "codepoint", "code point stored at %s is %r instead of %r" % (loc(inst), v, st.ghost["cp"]),
                e.imprecise(v) or x is None)
            st.ghost["S"] = IV(64, st.ghost["S"].l + 1)
            st.ghost["cp"] = ival(32, 0)
        elif o is wid:
            C = st.ghost["C"].l
            n = st.ghost["n"].l
            say(st.ghost["q"].l.c == 0 and st.eq(off, C + (-1)), "width", "width stored at %r at %s where %r code points are complete"
                % (off, loc(inst), C), False)
            l = e.iv(v, 8).l
            say(st.eq(l, n), "width", "width of a code point of %r bytes is stored as %r at %s" % (n, l, loc(inst)), e.imprecise(v))
            st.ghost["V"] = IV(64, st.ghost["V"].l + 1)

    def on_access(e, st, k, obj, off, n, inst):
        if obj in (out, inp, wid):
            say(st.entails(off) and st.entails(obj.size - off - n), "in-bounds", "%s of %s at %s of %s at %s may leave it"
                % (k, n, off, obj.name, loc(inst)), any(a.imprecise for a in list(off.atoms()) + list(n.atoms())))
    e.on_store, e.on_access = on_store, on_access

    def positions(z, C, N, imp):
        for p, o, want in ((outp, out, C.scale(4)), (inpp, inp, N)):
            for z2, v in e._load(z, p, z.mem.get(p, ()), ZERO, _PTR, None):
                v = e.aspv(v)
                ck.judge(v.obj is o and z2.eq(v.off, want), "position", where, "%s is left at %r instead of %r" % (o.name, v, want),
                         imp or e.imprecise(v))
    st = State()
    for g, v in (("N", ival(64, 0)), ("C", ival(64, 0)), ("S", ival(64, 0)), ("V", ival(64, 0)), ("q", ival(8, 0)), ("cp", ival(32, 0)),
                 ("n", ival(8, 0))):
        st.ghost[g] = v
    rets = e.call(st, fn, [PV(outp, ZERO), IV(64, ol), PV(wid, ZERO) if widths else NULL, PV(inpp, ZERO), IV(64, il)])
    ck.note(e)
    flush(ck, e)
    unk = g_unknown(e)
    ck.judge(bool(rets), "decode", where, "never returns", unk)
    seen = set()
    for s, r in rets:
        imp = unk or e.imprecise(r)
        for s2, l in e.canon(s, e.iv(r, 32), True):
            N, C, q = s2.ghost["N"].l, s2.ghost["C"].l, s2.ghost["q"].l
            inval = s2.flags.get("invalid")
            for ex, kind in (([l, -l], "success"), ([l + (-1)], "more"), ([-l + (-1)], "error")):
                z = s2.assume(ex)
                if z is None:
                    continue
                seen.add(kind)
                if kind == "error":
                    ck.judge(inval or (q.c != 0 and z.eq(N, il)), "status", where, "an error is returned for well-formed input", imp)
                    if inval or q.c != 0:
                        positions(z, C, N + (-1) if inval else N, imp)
                    continue
                ck.judge(not inval, "status", where, "%s is returned for input that is not UTF-8" % kind, imp)
                if inval:
                    continue
                ck.judge(q.c == 0, "status", where, "%s is returned in the middle of a sequence" % kind, imp)
                ck.judge(z.eq(N, il) if kind == "success" else z.entails(il - N + (-1)) and z.eq(C, ol), "status", where,
                         "%s is returned after %r of %r bytes and %r of %r code points" % (kind, N, il, C, ol), imp)
                ck.judge(z.eq(z.ghost["S"].l, C), "output", where, "%r code points stored of %r" % (z.ghost["S"], C), imp)
                if widths:
                    ck.judge(z.eq(z.ghost["V"].l, C), "width", where, "%r widths stored of %r" % (z.ghost["V"], C), imp)
                positions(z, C, N, imp)
    ck.judge(seen == {"success", "more", "error"}, "status", where, "not every outcome is possible: %s" % sorted(seen), unk)
