"""R01..R08: the randomness layer."""
from ..check import loc, Anchor
from ..interp import State, INT, _PTR, _I8, _I64
from ..model import RANDOM, hook_random_read
from ..terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, Cond, Obj


# ---------------------------------------------------------------- R01
def R01(ck):
    jobs = []
    for w in (8, 16, 32, 64):
        ck.fn("passgen_random_u%d_max" % w)
        ck.fn("passgen_random_u%d" % w)
        cfgs = ("Debug", "Release")
        ck.mod("Debug"), ck.mod("Release")
        for cfg in cfgs:
            step = 4
            for p0 in range(0, w, step):
                jobs.append(lambda w=w, cfg=cfg, p0=p0: _u_max(ck, w, cfg, range(p0, min(w, p0 + step))))
            jobs.append(lambda w=w, cfg=cfg: _u_raw(ck, w, cfg))
    for cfg in ("Debug", "Release"):
        jobs.append(lambda cfg=cfg: _u_bool(ck, cfg))
    ck.fn("passgen_random_bool")
    ck.parallel(jobs)


def _rnd_param(e):
    return e.param("random")


def _draws_of(e, v):
    """draw objects a value depends on"""
    out = set()

    def visit(a, seen):
        if a in seen:
            return
        seen.add(a)
        for x in a.args:
            if isinstance(x, Obj) and x.kind == "draw":
                out.add(x)
            else:
                for b in e.atoms_of(x, set()):
                    visit(b, seen)
    seen = set()
    for a in e.atoms_of(v, set()):
        visit(a, seen)
    return out


def _u_max(ck, w, cfg, ps):
    name = "passgen_random_u%d_max" % w
    fn = ck.fn(name, cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    for p in ps:
        saved, ck.results = ck.results, {}
        ck.guarded("uniform", where, _u_max1, ck, w, cfg, p, fn, where)
        mine, ck.results = ck.results, saved
        if not any(r[2] for r in mine.values()) or any(r[1] for r in mine.values()):
            ck.merge((mine, set(), {}))
            continue
        # the highest bit alone does not decide this bound: split by the second highest set bit as well
        for q in range(-1, p):
            ck.guarded("uniform", where, _u_max1, ck, w, cfg, p, fn, where, q)


def _u_max1(ck, w, cfg, p, fn, where, q=None):
    e = ck.engine(cfg, {"passgen_random_read": hook_random_read})
    if q is None:
        mx = Atom("max", 1 << p, (2 << p) - 1, width=w)
    elif q < 0:
        mx = Atom("max", 1 << p, 1 << p, width=w)
    else:
        mx = Atom("max", (1 << p) + (1 << q), (1 << p) + (2 << q) - 1, width=w)
    rejects = []          # (state, candidates draws)

    def on_draw(e, st, inst):
        prev = [ev[1]["draw"] for ev in st.events("draw")]
        if prev:
            rejects.append((st, prev[-1], inst))
        else:
            cur = set()
            for c in st.cons.cs:
                for d in _draws_of(e, c):
                    if d.name.startswith("cur"):
                        cur.add(d)
            for d in cur:
                rejects.append((st, d, inst))
    e.on_draw = on_draw

    def loop_hook(e, fr, lp, edge):
        prev = [ev[1]["draw"] for ev in edge.st.events("draw")]
        if prev:
            phis = [edge.env[i] for i in lp.header.insts if i.op == "phi" and i in edge.env]
            if prev[-1] not in _draws_of(e, tuple(phis)):
                rejects.append((edge.st, prev[-1], lp.header.insts[0]))
    e.loop_hook = loop_hook
    r = _rnd_param(e)
    rets = e.call(State(), fn, [PV(r, ZERO), IV(w, var(mx))])
    ck.note(e)
    for t, st, inst in e.terminals:
        ck.judge(False, "bound-accepted", where, "max in [2^%d, 2^%d) can end in %s at %s" % (p, p + 1, t, loc(inst)))
    ck.judge(bool(rets), "returns", where, "no path returns for max in [2^%d, 2^%d)" % (p, p + 1),
             bool(e.unknown_calls))
    template = None
    for st, v in rets:
        if not isinstance(v, IV):
            ck.und("uniform", where, "returned value not an integer: %r" % (v,))
            continue
        bits = e.bits(State(), v) or e.bits(st, v)
        ds = _draws_of(e, v)
        imp = e.imprecise(v)
        if not ds:
            if v.const or not imp:
                # a value that does not depend on a draw is only right when max is 1
                ok = st.entails(num(1) - var(mx))
                ck.judge(ok, "uniform", where, "a path returns %r without drawing (max in [2^%d,2^%d))" % (v, p, p + 1))
            else:
                ck.und("uniform", where, "value %r" % (v,))
            continue
        nz = [b for b in bits if b != 0] if bits else None
        pure = bits is not None and all(isinstance(b, tuple) and b[0].kind == "fill" for b in nz) \
            and len(set(nz)) == len(nz) and len(ds) == 1
        if not pure:
            cyc = [a for a in e.atoms_of(v, set()) if a.kind in ("op", "div", "wrap", "trunc")]
            rejecting = any(_draws_of(e, c) & ds for c in st.cons.cs)
            if cyc and not imp and not rejecting:
                ck.bad("uniform", where, "result %r is folded from a draw without rejection (biased)" % (v,))
            elif bits is not None and not imp and all(isinstance(b, (tuple, int)) and b is not None for b in nz) \
                    and (len(set(nz)) != len(nz) or any(b == 1 for b in nz)):
                ck.bad("uniform", where, "result bits are not independent draw bits: %r" % (v,))
            else:
                ck.und("uniform", where, "result %r is not a plain bit selection of one draw" % (v,))
            continue
        nb = max(i for i, b in enumerate(bits) if b != 0) + 1
        full = len(nz) == nb
        ck.judge(full and st.entails(num(1 << nb) - var(mx)), "uniform", where,
                 "result has only %d of %d random bits for max in [2^%d, 2^%d): some values can never be drawn"
                 % (len(nz), nb, p, p + 1))
        for s, l in e.canon(st, v):
            ck.judge(s.entails(var(mx) - l + (-1)), "in-range", where,
                     "a path returns %r which may be >= max (max in [2^%d, 2^%d))" % (v, p, p + 1),
                     False)
        template = (v, list(ds)[0])
        # the only condition on the accepted draw is value < max
        z = [s for s, l in e.canon(st, v) if s.assume([-l]) is not None]
        t = [s for s, l in e.canon(st, v) if s.assume([l - var(mx) + 1]) is not None]
        if st.entails(-var(Atom("iter", 0, 0))):
            ck.judge(bool(z) and bool(t), "uniform", where, "lowest or highest value excluded")
    if template is not None:
        v, d = template
        for st, dp, inst in rejects:
            vv = e.rn(v, {d: dp}, {})
            for s, l in e.canon(st, vv):
                ck.judge(s.entails(l - var(mx)), "reject-only-out-of-range", where,
                         "a draw below max can be thrown away at %s (max in [2^%d, 2^%d))" % (loc(inst), p, p + 1),
                         False)


def _u_raw(ck, w, cfg):
    fn = ck.fn("passgen_random_u%d" % w, cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg, {"passgen_random_read": hook_random_read})
        rets = e.call(State(), fn, [PV(_rnd_param(e), ZERO)])
        ck.note(e)
        for st, v in rets:
            b = e.bits(st, v) if isinstance(v, IV) else None
            ok = b is not None and all(isinstance(x, tuple) and x[0].kind == "fill" for x in b) and len(set(b)) == w
            ck.judge(ok, "raw-width", where, "result is not %d distinct bits of one draw: %r" % (w, v),
                     b is None or e.imprecise(v))
            ck.judge(not [c for c in st.cons.cs if _draws_of(e, c)], "raw-width", where,
                     "draw constrained before it is returned")
        ck.judge(bool(rets), "returns", where, "never returns")
    ck.guarded("raw-width", where, go)


def _bool_table(ck, cfg, fn, where):
    """the outcome for each value of the one byte that is drawn, by constant propagation"""
    cnt = {True: 0, False: 0}
    for c in range(256):
        drawn = []

        def read(e, st, args, inst):
            n, p = e.iv(args[2], 64), e.aspv(args[1])
            drawn.append(n.const and n.u == 1)
            return [(s, None) for s in e.store(st, p, ival(8, c), INT[1], inst)]
        e = ck.engine(cfg, {"passgen_random_read": read})
        got = set()
        for st, v in e.call(State(), fn, [PV(_rnd_param(e), ZERO)]):
            for tr in (True, False):
                if list(e.assume_cond(st, v, tr)):
                    got.add(tr)
        if not drawn:
            ck.bad("fair", where, "a path decides the result without looking at a draw")
            return
        if drawn != [True] or len(got) != 1:
            ck.und("fair", where, "decision depends on several draw quantities")
            return
        cnt[got.pop()] += 1
    ck.judge(cnt[True] == cnt[False], "fair", where, "of 256 equally likely bytes %d give true and %d give false" % (cnt[True], cnt[False]))


def _u_bool(ck, cfg):
    fn = ck.fn("passgen_random_bool", cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg, {"passgen_random_read": hook_random_read})
        rets = e.call(State(), fn, [PV(_rnd_param(e), ZERO)])
        ck.note(e)
        cnt = {True: 0, False: 0}
        N = None
        for st, v in rets:
            for tr in (True, False):
                c = v
                for s in e.assume_cond(st, c, tr):
                    ats = set()
                    for l in s.cons.cs:
                        for a, _ in l.t:
                            if _draws_of(e, var(a)):
                                ats.add(a)
                    for l in s.ne:
                        for a, _ in l.t:
                            if _draws_of(e, var(a)):
                                ats.add(a)
                    if len(ats) != 1:
                        _bool_table(ck, cfg, fn, where)
                        return
                    a = ats.pop()
                    if a.hi is None or (a.hi & (a.hi + 1)) or a.lo != 0:
                        _bool_table(ck, cfg, fn, where)
                        return
                    lo, hi = s.cons.box([a])[a]
                    n = hi - lo + 1
                    for q in s.ne:
                        if len(q.t) == 1 and q.t[0][0] is a and lo <= -q.c // q.t[0][1] <= hi:
                            n -= 1
                    if N is not None and N != a.hi + 1:
                        _bool_table(ck, cfg, fn, where)
                        return
                    N = a.hi + 1
                    cnt[tr] += n
        ck.judge(N is not None and cnt[True] + cnt[False] == N and cnt[True] == cnt[False], "fair", where,
                 "of %s equally likely draws %d give true and %d give false" % (N, cnt[True], cnt[False]))
    ck.guarded("fair", where, go)


# ---------------------------------------------------------------- R02 / R03 common
def _random_state(e, L, with_buffer=True):
    r = e.param("random", num(L["random.size"]))
    pos = Atom("pos0", 0, L["random.buflen"])
    st = State()
    e.put(st, r, ("s", num(L["random.pos"]), 8, IV(64, var(pos))))
    return r, pos, st


def _source_icall(e, r, L, full):
    """model of random->read(context, dest, size)"""
    from ..libc import source_fill
    key = ("deref", r, num(L["random.read"]))

    def icall(e, st, callee, args, inst):
        if not (isinstance(callee, PV) and callee.obj is not None and callee.obj.attrs.get("key") == key):
            return None
        p = e.aspv(args[1])
        out = []
        for s, n in e.canon(st, e.iv(args[2], 64)):
            if n.t or n.c:
                s = e.access(s, "store", p, n, inst)
                if s is None:
                    continue
            if full:
                out += source_fill(e, s, p, n, n, "srcread", n, inst, ctx=args[0])
                continue
            got = Atom("got@%s" % loc(inst), 0, (1 << 64) - 1)
            a = s.assume([n - var(got)])
            if a is not None:
                out += source_fill(e, a, p, n, var(got), "srcread", var(got), inst, ctx=args[0])
            b = s.assume([var(got) - n + (-1)])
            if b is not None:
                b = b.copy()
                b.event("srcread", p=p, n=n, got=ZERO, ret=var(got), draw=None, inst=inst, ctx=args[0])
                out.append((b, IV(64, var(got))))
        return out
    return icall


def _bounds_cb(ck, rule, rootwhere):
    """on_access: every access lies inside the object it goes to"""
    def cb(e, st, kind, obj, off, size, inst):
        if obj.size is None or kind == "strlen":
            return
        where = "%s:%s" % (loc(inst), inst.fn.name if inst is not None else "?")
        if st.entails(off) and st.entails(obj.size - off - size):
            e.journal.append(("ok", rule, where, "", False))
        else:
            imp = e.imprecise(off) or e.imprecise(size)
            e.journal.append(("und" if imp else "bad", rule, where,
                              "%s of %r bytes at %s+%r may leave the object (size %r) [%s]"
                              % (kind, size, obj.name, off, obj.size, rootwhere), imp))
    return cb


def flush(ck, e):
    for k, rule, where, msg, imp in e.journal:
        if k == "ok":
            ck.ok(rule, where)
        elif k == "und":
            ck.und(rule, where, msg)
        else:
            ck.bad(rule, where, msg)
    e.journal = []


def R02(ck):
    L = ck.layout(RANDOM)
    for cfg in ("Debug", "Release"):
        fn = ck.fn("passgen_random_read", cfg)
        where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
        ck.guarded("stream", where, _r02, ck, cfg, L, fn, where)
        fr = ck.fn("passgen_random_reload", cfg)
        where = "%s:%s (%s)" % (fr.file, fr.name, cfg)
        ck.guarded("reload", where, _r02_reload, ck, cfg, L, fr, where)
    _r02_encapsulation(ck, L)


def _byte(e, st, obj, off):
    return e._load(st, e.canonobj(obj), st.mem.get(e.canonobj(obj), ()), off, _I8, None)


def _classify(e, v, r, data):
    """('buf', off) initial buffer byte, ('draw', obj, off), ('stale',), ('other', v)"""
    if isinstance(v, IV) and len(v.l.t) == 1 and v.l.c == 0 and v.l.t[0][1] == 1:
        a = v.l.t[0][0]
        if a.kind == "ld" and a.args[0] is r:
            return ("buf", a.args[1])
        if a.kind == "ld" and a.args[0] is data:
            return ("stale", a.args[1])
        if a.kind == "fill":
            return ("draw", a.args[0], a.args[1])
    return ("other", v)


def _r02(ck, cfg, L, fn, where):
    e = ck.engine(cfg)
    e.rec_inline = 3
    r, pos, st = _random_state(e, L)
    e.icall = _source_icall(e, r, L, True)
    n = Atom("bytes", 0, 1 << 40)
    data = e.param("data", var(n))
    e.on_access = _bounds_cb(ck, "in-bounds", fn.name)
    B, BL = L["random.buffer"], L["random.buflen"]
    rets = e.call(st, fn, [PV(r, ZERO), PV(data, ZERO), IV(64, var(n))])
    ck.note(e)
    flush(ck, e)
    for t, s, inst in e.terminals:
        ck.judge(False, "stream", where, "a full read from the source can end in %s at %s" % (t, loc(inst)))
    ck.judge(bool(rets), "stream", where, "never returns")
    for s, _ in rets:
        # final position
        for s1, pv in e._load(s, r, s.mem.get(r, ()), num(L["random.pos"]), _I64, None):
            for s2, pl in e.canon(s1, pv):
                ck.judge(s2.entails(num(BL) - pl), "position", where, "position may end beyond the buffer: %r" % pl,
                         e.imprecise(pl))
                x = Atom("x", 0, 1 << 40)
                y = Atom("y", 0, 1 << 40)
                s3 = s2.assume([var(n) - var(x) + (-1)])
                if s3 is None:
                    ck.ok("stream", where)
                    continue
                for s4, v in _byte(e, s3, data, var(x)):
                    c = _classify(e, v, r, data)
                    if c[0] == "stale":
                        ck.bad("stream", where, "output byte %r is never written" % var(x))
                        continue
                    if c[0] == "other":
                        (ck.und if e.imprecise(v) else ck.bad)("stream", where, "output byte is %r, not a source byte" % (v,))
                        continue
                    # where does this byte live afterwards
                    if c[0] == "buf":
                        ck.judge(s4.entails(c[1] - B - var(pos)) and s4.entails(num(B + BL) - c[1] + (-1)),
                                 "no-reuse", where,
                                 "output takes buffer byte %r although the unread part starts at %r" % (c[1] - B, var(pos)),
                                 e.imprecise(c[1]))
                        idx = c[1]
                    else:
                        ev = [x1[1] for x1 in s4.events("srcread") if x1[1]["draw"] is c[1]]
                        if not ev:
                            ck.und("stream", where, "source of byte unknown")
                            continue
                        idx = None
                        if ev[0]["p"].obj is r:
                            idx = ev[0]["p"].off + c[2]
                    if idx is not None:
                        for s5, v5 in _byte(e, s4, r, idx):
                            if v5 == v:
                                ck.judge(s5.entails(pl + B - idx + (-1)), "no-reuse", where,
                                         "buffer byte at index %r was handed out but the position stays at %r"
                                         % (idx - B, pl), e.imprecise(idx) or e.imprecise(pl))
                    # two different output bytes never come from the same source byte
                    s6 = s4.assume([var(y) - var(x) + (-1), var(n) - var(y) + (-1)])
                    if s6 is None:
                        continue
                    for s7, w in _byte(e, s6, data, var(y)):
                        d = _classify(e, w, r, data)
                        if d[0] == c[0] == "buf":
                            q = d[1] - c[1]
                        elif d[0] == c[0] == "draw" and d[1] is c[1]:
                            q = d[2] - c[2]
                        else:
                            continue
                        ck.judge(s7.entails(q + (-1)) or s7.entails((-q) + (-1)), "no-reuse", where,
                                 "two output bytes can come from the same source byte", e.imprecise(q))
        ck.ok("stream", where)


def _r02_reload(ck, cfg, L, fn, where):
    e = ck.engine(cfg)
    r, pos, st = _random_state(e, L)
    e.icall = _source_icall(e, r, L, True)
    e.on_access = _bounds_cb(ck, "in-bounds", fn.name)
    rets = e.call(st, fn, [PV(r, ZERO)])
    ck.note(e)
    flush(ck, e)
    ck.judge(bool(rets), "reload", where, "never returns")
    for s, _ in rets:
        for s1, pv in e._load(s, r, s.mem.get(r, ()), num(L["random.pos"]), _I64, None):
            for s2, pl in e.canon(s1, pv):
                x = Atom("x", 0, L["random.buflen"] - 1)
                s3 = s2.assume([var(x) - pl])
                if s3 is None:
                    continue
                for s4, v in _byte(e, s3, r, num(L["random.buffer"]) + var(x)):
                    c = _classify(e, v, r, None)
                    ck.judge(c[0] == "draw", "reload", where,
                             "byte %r of the buffer is available after reload but is not a fresh source byte" % var(x),
                             e.imprecise(v))
                # the whole buffer is usable
                ck.judge(s2.entails(-pl), "reload", where, "position after a reload is %r, not 0" % pl, e.imprecise(pl))


def _r02_encapsulation(ck, L):
    """no other function reads or advances the buffer behind passgen_random_read's back"""
    m = ck.mod("Debug")
    # struct type by name: GEPs into passgen_random fields
    allowed = set()
    B, BL, P = L["random.buffer"], L["random.buflen"], L["random.pos"]
    for f in m.fns.values():
        if f.decl:
            continue
        for b in f.blocks:
            for i in b.insts:
                if i.op == "gep" and i.srcty.kind == "struct" and i.srcty.size == L["random.size"] \
                        and getattr(i.srcty, "name", None) and "random" in i.srcty.name and len(i.ops) >= 3 \
                        and hasattr(i.ops[2], "value"):
                    off = i.srcty.offsets[i.ops[2].value]
                    if off == P or B <= off < B + BL:
                        allowed.add((f.file, f.name))
    files = set(x[0] for x in allowed)
    ck.judge(len(files) <= 1, "encapsulation", "passgen_random.buffer/pos",
             "buffer or position touched from several files: %s" % sorted(files), True)
    ck.stats["buffer_accessors"] = sorted(x[1] for x in allowed)


# ---------------------------------------------------------------- R03
def R03(ck):
    L = ck.layout(RANDOM)
    ck.mod("Debug"), ck.mod("Release")
    jobs = []
    for cfg in ("Debug", "Release"):
        for name in ("passgen_random_read", "passgen_random_reload"):
            ck.fn(name, cfg)
            jobs.append(lambda cfg=cfg, name=name: _r03(ck, cfg, L, name))
        for name in ("passgen_random_system_open", "passgen_random_file_open", "passgen_random_path_open",
                     "passgen_random_xorshift_open", "passgen_random_zero_open"):
            jobs.append(lambda cfg=cfg, name=name: _r03_open(ck, cfg, L, name))
        jobs.append(lambda cfg=cfg: _r03_chacha(ck, cfg, L))
    ck.parallel(jobs)


def _r03(ck, cfg, L, name):
    fn = ck.fn(name, cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg)
        e.rec_inline = 3
        r, pos, st = _random_state(e, L)
        e.icall = _source_icall(e, r, L, False)
        args = [PV(r, ZERO)]
        data = None
        if name == "passgen_random_read":
            n = Atom("bytes", 0, 1 << 40)
            data = e.param("data", var(n))
            args += [PV(data, ZERO), IV(64, var(n))]
        rets = e.call(st, fn, args)
        ck.note(e)
        ck.judge(bool(rets), "short-read", where, "never returns normally")
        for s, _ in rets:
            srcs = s.events("srcread")
            line = ", ".join(sorted(set(loc(x[1]["inst"]) for x in srcs)))
            # data handed to the caller
            if data is not None:
                x = Atom("x", 0, 1 << 40)
                s2 = s.assume([var(n) - var(x) + (-1)])
                for s3, v in (_byte(e, s2, data, var(x)) if s2 is not None else []):
                    c = _classify(e, v, r, data)
                    if c[0] == "buf":
                        continue        # a byte that was already buffered (R02 decides which)
                    ck.judge(c[0] == "draw", "short-read", where,
                             "returns normally although the source (read at %s) did not deliver every byte: "
                             "an output byte is %r" % (line, v), e.imprecise(v) and c[0] != "stale")
            if srcs:
                for s1, pv in e._load(s, r, s.mem.get(r, ()), num(L["random.pos"]), _I64, None):
                    for s2, pl in e.canon(s1, pv):
                        touched = [x for x in srcs if x[1]["p"].obj is r]
                        if not touched:
                            continue
                        x = Atom("x", 0, L["random.buflen"] - 1)
                        s3 = s2.assume([var(x) - pl])
                        if s3 is None:
                            continue
                        for s4, v in _byte(e, s3, r, num(L["random.buffer"]) + var(x)):
                            c = _classify(e, v, r, data)
                            ck.judge(c[0] == "draw", "short-read", where,
                                     "the source read at %s may deliver fewer bytes than asked and the function "
                                     "still returns with stale bytes in the buffer" % line, e.imprecise(v))
    ck.guarded("short-read", where, go)


def _track_fill(e, dest):
    """ghost: number of bytes written contiguously from the start of dest"""
    def on_store(e, st, obj, off, size, v, inst):
        if obj is not dest:
            return
        ln = num(size) if isinstance(size, int) else size
        if isinstance(v, tuple) and v[0] == "set":
            if st.eq(off, ZERO):
                st.ghost["cleared"] = ln
            return
        f = st.ghost["filled"]
        if not st.eq(off, f):
            st.flags["hole"] = (loc(inst), e.imprecise(off) or e.imprecise(f))
        st.ghost["filled"] = f + ln
    return on_store


def _openargs(e, name):
    s = e.string("desc")
    if "path_open" in name:
        return [PV(s, ZERO)]
    if "file_open" in name:
        f = e.newobj("FILE", "heap", None, True, opaque=True, file=True)
        return [PV(f, ZERO)]
    if "xorshift" in name:
        return [IV(64, var(Atom("seed", 1, (1 << 64) - 1)))]
    return []


def _r03_open(ck, cfg, L, name):
    fn = ck.fn(name, cfg, required=False)
    if fn is None:
        raise Anchor("function %s not found" % name)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        # 1. the open function itself may not succeed on a short read
        e = ck.engine(cfg)
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        rets = e.call(State(), fn, [PV(r, ZERO)] + _openargs(e, name))
        ck.note(e)
        cbs = {}
        good = 0
        for s, v in rets:
            if not isinstance(v, PV) or v.obj is None:
                continue
            good += 1
            for kind in ("getrandom", "fread"):
                for _, ev in s.events(kind):
                    ck.judge(s.eq(ev["got"], ev["n"]), "short-read", where,
                             "succeeds although %s at %s delivered %r of %r bytes" %
                             (kind, loc(ev["inst"]), ev["got"], ev["n"]))
            for s1, f in e._load(s, r, s.mem.get(r, ()), num(L["random.read"]), _PTR, None):
                for s2, c in e._load(s1, r, s1.mem.get(r, ()), num(L["random.context"]), _PTR, None):
                    if isinstance(f, FV):
                        cbs.setdefault(f.fn.name, (f, c, s2))
                    else:
                        ck.bad("callback", where, "random->read is not set: %r" % (f,))
        ck.judge(good > 0, "callback", where, "no successful open", bool(e.unknown_calls))
        # 2. the callback reports exactly what it wrote
        for f, ctx, s in cbs.values():
            _callback(ck, cfg, e, f.fn, ctx, s)
    ck.guarded("short-read", where, go)


def _callback(ck, cfg, e, f, ctx, s):
    w2 = "%s:%s (%s)" % (f.file, f.name, cfg)

    def go():
        n = Atom("size", 0, 1 << 40)
        dest = e.param("dest", var(n))
        s2 = s.copy()
        s2.ev = None
        s2.ghost["filled"] = ZERO
        s2.ghost["cleared"] = ZERO
        e.on_store = _track_fill(e, dest)
        e.on_access = _bounds_cb(ck, "in-bounds", f.name)
        rets = e.call(s2, f, [ctx, PV(dest, ZERO), IV(64, var(n))])
        e.on_store = e.on_access = None
        ck.note(e)
        flush(ck, e)
        ck.judge(bool(rets), "callback", w2, "never returns")
        for st, v in rets:
            for s3, l in e.canon(st, e.iv(v, 64)):
                # reported bytes beyond the request mean failure
                s4 = s3.assume([var(n) - l])
                if s4 is None:
                    ck.ok("callback", w2)
                    continue
                got, c = s4.ghost["filled"], s4.ghost["cleared"]
                hole = s4.flags.get("hole")
                if got == ZERO:
                    got, hole = c, None
                if hole:
                    ck.judge(False, "callback", w2, "bytes written at %s do not continue the bytes written before" % hole[0],
                             hole[1])
                    continue
                ck.judge(s4.entails(got - l), "callback", w2,
                         "reports %r bytes but only %r bytes were written" % (l, got),
                         e.imprecise(l) or e.imprecise(got))
    ck.guarded("callback", w2, go)


def hook_stream(e, st, args, inst):
    """chacha20 keystream (text, plain, size, key, nonce, ctr): writes size bytes"""
    p = e.aspv(args[0])
    out = []
    for s, n in e.canon(st, e.iv(args[2], 64)):
        if not n.t and n.c == 0:
            s = s.copy()
            s.event("keystream", p=p, n=n, args=args, inst=inst, draw=None)
            out.append((s, ival(64, 0)))
            continue
        s = e.access(s, "store", p, n, inst)
        if s is None:
            continue
        s = s.copy()
        d = e.newobj("keystream@%s" % loc(inst), "draw", n)
        o = e.canonobj(p.obj)
        if e.on_store:
            e.on_store(e, s, o, p.off, n, ("fill", d), inst)
        e.put(s, o, ("fill", p.off, n, d))
        s.event("keystream", p=p, n=n, args=args, inst=inst, draw=d)
        out.append((s, IV(64, var(e.fresh("ctr", 64)))))
    return out


def _r03_chacha(ck, cfg, L):
    fn = ck.fn("passgen_random_chacha20_open", cfg, required=False)
    if fn is None:
        return
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg, {"passgen_chacha20_djb": hook_stream})
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        key = e.param("key", num(32))
        iv = e.param("iv", num(8))
        rets = e.call(State(), fn, [PV(r, ZERO), PV(key, ZERO), PV(iv, ZERO)])
        ck.note(e)
        for s, v in rets:
            for s1, f in e._load(s, r, s.mem.get(r, ()), num(L["random.read"]), _PTR, None):
                if not isinstance(f, FV):
                    continue
                for s2, c in e._load(s1, r, s1.mem.get(r, ()), num(L["random.context"]), _PTR, None):
                    # any later position of the stream
                    if isinstance(c, PV) and c.obj is not None:
                        s3 = s2.copy()
                        _anyoffset(e, s3, c.obj)
                        _callback(ck, cfg, e, f.fn, c, s3)
                break
            break
    ck.guarded("callback", where, go)


def _anyoffset(e, st, obj):
    """integer cells of the private context take arbitrary values (later stream positions)"""
    recs = st.mem.get(obj, ())
    for rec in recs:
        if rec[0] == "s" and rec[2] == 8 and isinstance(rec[3], IV):
            e.put(st, obj, ("s", rec[1], 8, IV(64, var(Atom("offset", 0, 1 << 60)))))


# ---------------------------------------------------------------- R04
def _facts(st, o, n=24):
    """what a path knows about the descriptor: set of literals it equals / starts with"""
    eq, pre = None, b""
    for k, v in st.flags.items():
        if k[0] == "str" and k[1][0] == o.id and k[1][1] == ZERO:
            for f in v:
                if f[0] == "eq":
                    eq = f[1]
                elif f[0] == "pre" and len(f[1]) > len(pre):
                    pre = f[1]
    return eq, pre


def _prefix_of(e, st, o):
    """longest literal prefix of the string that the path has established"""
    eq, pre = _facts(st, o)
    if eq is not None:
        return eq, True
    r = bytearray(pre)
    i = len(r)
    L = o.attrs["strlen"]
    while i < 64:
        a = e.ld_atom(o, num(i), 1).t[0][0]
        lo, hi = st.cons.box([a])[a]
        if lo is not None and lo == hi and lo > 0 and st.entails(L - i + (-1)):
            r.append(lo)
            i += 1
        else:
            break
    return bytes(r), st.entails(num(i) - L)


def _classify_source(ck, e, s, r, L):
    """what random->read draws from: name -> set of primitive sources"""
    for s1, f in e._load(s, r, s.mem.get(r, ()), num(L["random.read"]), _PTR, None):
        if not isinstance(f, FV):
            return "unknown", None, s1
        for s2, c in e._load(s1, r, s1.mem.get(r, ()), num(L["random.context"]), _PTR, None):
            n = Atom("size", 1, 1 << 20)
            dest = e.param("dest", var(n))
            s3 = s2.copy()
            s3.ev = None
            rets = e.call(s3, f.fn, [c, PV(dest, ZERO), IV(64, var(n))])
            kinds = set()
            for s4, v in rets:
                ev = [x for x in s4.events() if x[0] in ("getrandom", "fread", "keystream")]
                if not ev:
                    kinds.add("deterministic")
                for k, x in ev:
                    kinds.add(k)
                    if k == "getrandom":
                        fl = x["flags"]
                        if not (isinstance(fl, IV) and fl.const and fl.u in (0, 2)):
                            kinds.add("getrandom with flags %r" % (fl,))
                        if not (x["p"].obj is dest and x["p"].off == ZERO and s4.eq(x["n"], var(n))):
                            kinds.add("partial getrandom")
            return "+".join(sorted(kinds)), c, s2
    return "unknown", None, s


SOURCES = ((b"zero", True, "deterministic"), (b"system", True, "getrandom"),
           (b"xorshift:", False, "deterministic"), (b"file:", False, "fread"),
           (b"chacha20:", False, "keystream"), (b"chacha20-argon2:", False, "keystream"))


ACCEPTED = (((b"file:", 1), None), ((b"file:", 2), None), ((b"xorshift:", 1), None), ((b"chacha20:", 1), (32, 1)), ((b"chacha20:", 2), (32, 1)),
            ((b"chacha20-argon2:", 1), (127, 3)), ((b"chacha20-argon2:", 2), (127, 3)), ((b"chacha20-argon2:", 3), (127, 3)))


def R04(ck):
    L = ck.layout(RANDOM)
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_random_open", cfg)
        jobs.append(lambda cfg=cfg: _r04_default(ck, cfg, L))
        jobs.append(lambda cfg=cfg: _r04_desc(ck, cfg, L))
        for form, limit in ACCEPTED:
            jobs.append(lambda cfg=cfg, form=form, limit=limit: _r04_accept(ck, cfg, L, form, limit))
    ck.parallel(jobs)


def _openhooks(e):
    def argon(e, st, a, i):
        s = st.copy()
        p = e.aspv(a[0])
        if p.obj is not None:
            d = e.newobj("argon2", "draw", num(32))
            n = e.iv(a[1], 64).l
            e.put(s, e.canonobj(p.obj), ("fill", p.off, n, d))
            s.event("argon2", args=a, inst=i, dest=p, n=n, draw=d, mem=dict(s.mem))
        return [(s, None)]

    def atoll(e, st, a, i):
        p = e.aspv(a[0])
        v = e.keyed("user", ("atoll", (p.obj, p.off), -(1 << 63), (1 << 63) - 1, 64), -(1 << 63), (1 << 63) - 1,
                    "number(%r)" % (p,))
        return [(st, IV(64, var(v)))]
    return {"passgen_chacha20_djb": hook_stream, "passgen_argon2": argon, "atoll": atoll}


def _r04_default(ck, cfg, L):
    fn = ck.fn("passgen_random_open", cfg)
    where = "%s:%s(NULL) (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg, _openhooks(None))
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        rets = e.call(State(), fn, [PV(r, ZERO), NULL])
        good = 0
        for s, v in rets:
            if isinstance(v, PV) and v.obj is None:
                continue
            good += 1
            k, _, _ = _classify_source(ck, e, s, r, L)
            ck.judge(k == "getrandom", "default-is-system", where,
                     "without a descriptor the bytes come from: %s" % k, k == "unknown")
            for x, ev in s.events():
                if x in ("srcread", "fread", "keystream"):
                    ck.bad("default-is-system", where, "opening the default source uses %s" % x)
        ck.judge(good > 0, "default-is-system", where, "the default source cannot be opened")
        ck.note(e)
    ck.guarded("default-is-system", where, go)


def _r04_accept(ck, cfg, L, form, limit):
    """what the descriptor names is opened, whatever it is, unless it does not fit or the system refuses it"""
    fn = ck.fn("passgen_random_open", cfg)
    if form[0].startswith(b"chacha20") and "passgen_random_chacha20_open" not in ck.mod(cfg).fns:
        return
    label = "%s<%d fields>" % (form[0].decode(), form[1])
    where = "%s:%s(%s) (%s)" % (fn.file, fn.name, label, cfg)

    def go():
        h = _openhooks(None)

        def fopen(e, st, a, i):
            o = e.newobj("FILE@%s" % i.loc, "heap", None, True, opaque=True, file=True)
            s = st.copy()
            s.event("fopen", obj=o, path=a[0], mode=a[1], inst=i)
            return [(s, PV(o, ZERO))]
        h["fopen"] = fopen
        e = ck.engine(cfg, h)
        e.rec_inline = 2
        e.alloc_fail = False
        r = e.param("random", num(L["random.size"]))
        st, d, fs = e.fields(State(), "desc", form[0], form[1], ":")
        if limit:
            st = st.assume([num(limit[0]) - l for _, l in fs[:limit[1]]])
        rets = e.call(st, fn, [PV(r, ZERO), PV(d, ZERO)])
        n = 0
        for s, v in rets:
            if not (isinstance(v, PV) and v.obj is None):
                n += 1
                continue
            if form[0] == b"xorshift:":
                # nothing but zero or nothing at all is no seed
                at = [a for a in e.cache.values() if a.kind == "user" and a.args[0] == "atoll"]
                c = s.assume([fs[0][1] + (-1)])
                for a in at:
                    for k in (1, -1):
                        x = c.assume([var(a).scale(k) + (-1)]) if c is not None else None
                        ck.judge(x is None, "accepted", where, "a seed that is not zero is refused", e.doubtful(s) or bool(e.unknown_calls))
                if not at:
                    ck.judge(c is None, "accepted", where, "a seed is refused unseen", e.doubtful(s) or bool(e.unknown_calls))
                continue
            ck.judge(False, "accepted", where, "a descriptor of this form is refused", e.doubtful(s) or bool(e.unknown_calls))
        ck.judge(n > 0, "accepted", where, "no descriptor of this form is accepted", True)
        ck.note(e)
    ck.guarded("accepted", where, go)


def _r04_desc(ck, cfg, L):
    fn = ck.fn("passgen_random_open", cfg)
    where = "%s:%s(desc) (%s)" % (fn.file, fn.name, cfg)

    def go():
        e = ck.engine(cfg, _openhooks(None))
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        d = e.string("desc")
        rets = e.call(State(), fn, [PV(r, ZERO), PV(d, ZERO)])
        seen = set()
        for s, v in rets:
            if isinstance(v, PV) and v.obj is None:
                continue
            if isinstance(v, PV) and v.obj is not r and not v.obj.nonnull:
                ck.und("descriptor", where, "returned %r" % (v,))
                continue
            p, exact = _prefix_of(e, s, d)
            k, ctx, s2 = _classify_source(ck, e, s, r, L)
            m = [x for x in SOURCES if (p == x[0] and exact if x[1] else p.startswith(x[0]))]
            if not m:
                ck.judge(False, "descriptor", where,
                         "a descriptor known only to start with %r selects source %s" % (p.decode("latin1"), k),
                         k == "unknown")
                continue
            x = m[-1]
            seen.add(x[0])
            ck.judge(k == x[2], "descriptor", where, "descriptor %r selects source %s instead of %s"
                     % (x[0].decode(), k, x[2]), k == "unknown")
            if x[0] == b"file:":
                fo = s.events("fopen")
                ck.judge(len(fo) >= 1 and fo[-1][1]["path"] == PV(d, num(5)), "descriptor", where,
                         "file: opens %r instead of the path after the colon" % (fo and fo[-1][1]["path"],))
                ck.judge(bool(fo) and isinstance(ctx, PV) and ctx.obj is fo[-1][1]["obj"], "descriptor", where,
                         "file: reads from another stream than the one opened")
            if x[0] == b"xorshift:":
                _xorshift_seed(ck, e, s, ctx, d, where)
        for x in SOURCES:
            if x[0].startswith(b"chacha20") and "passgen_random_chacha20_open" not in ck.mod(cfg).fns:
                continue
            ck.judge(x[0] in seen, "descriptor", where, "no path opens %r" % x[0].decode(), True)
        ck.note(e)
    ck.guarded("descriptor", where, go)


def _xorshift_seed(ck, e, s, ctx, d, where):
    if not (isinstance(ctx, PV) and ctx.obj is not None):
        return
    # the state before the first output is produced was the seed; the seed is never zero
    at = [a for a in e.cache.values() if a.kind == "user" and a.args[0] == "atoll"]
    if not at:
        return
    for a in at:
        if a.args[1][0] is d:
            ck.judge(a.args[1][1] == num(9), "descriptor", where, "seed parsed from %r" % (a.args[1],))
            nz = s.assume([var(a), -var(a)]) is None
            ck.judge(nz, "seed-nonzero", where, "xorshift: opens with seed 0 (constant output)")


# ---------------------------------------------------------------- R05
def R05(ck):
    L = ck.layout(RANDOM)
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_random_open", cfg)
        jobs.append(lambda cfg=cfg: _r05(ck, cfg, L, None))
        for pre, sep, n in ((b"chacha20:", ":", 1), (b"chacha20:", ":", 2), (b"chacha20:", ":", 3),
                            (b"chacha20-argon2:", ":", 1), (b"chacha20-argon2:", ":", 2),
                            (b"chacha20-argon2:", ":", 3), (b"chacha20-argon2:", ":", 4),
                            (b"xorshift:", ":", 1), (b"file:", ":", 1)):
            jobs.append(lambda cfg=cfg, a=(pre, sep, n): _r05(ck, cfg, L, a))
    ck.parallel(jobs)


def _r05(ck, cfg, L, form):
    fn = ck.fn("passgen_random_open", cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    label = "any descriptor" if form is None else "%s<%d fields>" % (form[0].decode(), form[2])

    def go():
        e = ck.engine(cfg, _openhooks(None))
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        st = State()
        if form is None:
            d = e.string("desc")
        else:
            st, d, _ = e.fields(st, "desc", form[0], form[2], form[1])
        e.on_access = _bounds_cb(ck, "descriptor-bounds", label)

        def on_null(e, st, pv, inst, definite):
            w = "%s:%s" % (loc(inst), inst.fn.name)
            e.journal.append(("bad", "null", w, "null pointer used (%s)" % label, False))
        e.on_null = on_null
        rets = e.call(st, fn, [PV(r, ZERO), PV(d, ZERO)])
        ck.note(e)
        flush(ck, e)
        ck.judge(bool(rets), "descriptor-bounds", where, "no path returns for %s" % label, True)
    ck.guarded("descriptor-bounds", where, go)


# ---------------------------------------------------------------- R06
def R06(ck):
    L = ck.layout(RANDOM)
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_random_chacha20_open", cfg)
        ck.fn("passgen_random_chacha20_seek", cfg)
        ck.guarded("position", "passgen_random_chacha20_open (%s)" % cfg, _r06, ck, cfg, L)


def _cells(e, st, obj):
    return {(r[1].c, r[2]): r[3] for r in st.mem.get(obj, ()) if r[0] == "s" and not r[1].t}


def _r06(ck, cfg, L):
    fn = ck.fn("passgen_random_chacha20_open", cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    e = ck.engine(cfg, {"passgen_chacha20_djb": hook_stream})
    e.rec_inline = 2
    r = e.param("random", num(L["random.size"]))
    key = e.param("key", num(32))
    iv = e.param("iv", num(8))
    # open without the first reload: find the callback and the private context
    st = State()
    rets = e.call(st, fn, [PV(r, ZERO), PV(key, ZERO), PV(iv, ZERO)])
    rets = [(s, v) for s, v in rets if isinstance(v, PV) and v.obj is not None]
    ck.judge(bool(rets), "position", where, "open never succeeds")
    for s, v in rets:
        cb = e._load(s, r, s.mem.get(r, ()), num(L["random.read"]), _PTR, None)[0][1]
        cx = e._load(s, r, s.mem.get(r, ()), num(L["random.context"]), _PTR, None)[0][1]
        if not isinstance(cb, FV) or not isinstance(cx, PV):
            ck.und("position", where, "callback %r" % (cb,))
            return
        # first reload: keystream bytes 0..buflen, from the given key and nonce
        _stream_is(ck, e, s, r, num(L["random.buffer"]), num(L["random.buflen"]), ZERO, key, iv, where, "open")
        # generic later read
        f = cb.fn
        w2 = "%s:%s (%s)" % (f.file, f.name, cfg)
        # the position cell: the one integer cell of the context that the read advances
        offs = [k for k, x in _cells(e, s, cx.obj).items() if k[1] == 8 and isinstance(x, IV)]
        if len(offs) != 1:
            ck.und("position", w2, "position cell not identified: %s" % offs)
            return
        off = offs[0][0]
        for m in (0, None):
            q = Atom("block", 0, 1 << 40)
            rem = Atom("rem", 1, 63)
            o = var(q).scale(64) + (var(rem) if m is None else ZERO)
            n = Atom("size", 0, 1 << 40)
            dest = e.param("dest", var(n))
            s2 = s.copy()
            s2.ev = None
            e.put(s2, cx.obj, ("s", num(off), 8, IV(64, o)))
            e.on_access = _bounds_cb(ck, "in-bounds", f.name)
            rr = e.call(s2, f, [cx, PV(dest, ZERO), IV(64, var(n))])
            e.on_access = None
            flush(ck, e)
            ck.judge(bool(rr), "position", w2, "read never returns")
            for s3, rv in rr:
                _stream_is(ck, e, s3, dest, ZERO, var(n), o, key, iv, w2, "read")
                nv = e._load(s3, cx.obj, s3.mem.get(cx.obj, ()), num(off), _I64, None)
                for s4, x in nv:
                    ck.judge(s4.eq(e.iv(x, 64).l, o + var(n)), "position", w2,
                             "after reading size bytes at %r the position is %r" % (o, x.l), e.imprecise(x))
        # seek
        fs = ck.fn("passgen_random_chacha20_seek", cfg)
        w3 = "%s:%s (%s)" % (fs.file, fs.name, cfg)
        for m in (0, None):
            q = Atom("block", 0, 1 << 40)
            rem = Atom("rem", 1, 63)
            o = var(q).scale(64) + (var(rem) if m is None else ZERO)
            s2 = s.copy()
            s2.ev = None
            # somewhere in the stream, with part of the buffer used
            e.put(s2, cx.obj, ("s", num(off), 8, IV(64, var(Atom("oldpos", 0, 1 << 50)))))
            e.put(s2, r, ("s", num(L["random.pos"]), 8, IV(64, var(Atom("pos", 0, L["random.buflen"])))))
            rr = e.call(s2, fs, [PV(r, ZERO), IV(64, o)])
            ck.judge(bool(rr), "seek", w3, "seek never returns")
            for s3, _ in rr:
                for s4, pv in e._load(s3, r, s3.mem.get(r, ()), num(L["random.pos"]), _I64, None):
                    for s5, pl in e.canon(s4, pv):
                        _stream_is(ck, e, s5, r, num(L["random.buffer"]) + pl, num(L["random.buflen"]) - pl, o,
                                   key, iv, w3, "seek")
    ck.note(e)


def _stream_is(ck, e, st, obj, base, n, position, key, iv, where, what):
    """bytes [base, base+n) of obj are keystream bytes position.. under key/iv"""
    x = Atom("x", 0, 1 << 41)
    s = st.assume([n - var(x) + (-1)])
    if s is None:
        ck.ok("keystream", where)
        return
    evs = {ev["draw"]: ev for _, ev in st.events("keystream") if ev["draw"] is not None}
    for s1, v in _byte(e, s, obj, base + var(x)):
        c = _classify(e, v, obj, obj)
        if c[0] != "draw" or c[1] not in evs:
            ck.judge(False, "keystream", where, "%s: byte %r is %r, not keystream" % (what, var(x), v), e.imprecise(v))
            continue
        ev = evs[c[1]]
        a = ev["args"]
        ctr = e.iv(a[5], 64).l
        got = ctr.scale(64) + c[2]
        ck.judge(s1.eq(got, position + var(x)), "keystream", where,
                 "%s: byte %r at stream position %r is keystream byte %r" % (what, var(x), position, got),
                 e.imprecise(got))
        if isinstance(a[1], PV) and a[1].obj is not None:
            ck.bad("keystream", where, "%s: keystream is combined with a plaintext" % what)
        y = Atom("y", 0, 31)
        for nm, arg, ref, ln in (("key", a[3], key, 32), ("nonce", a[4], iv, 8)):
            s2 = s1.assume([num(ln - 1) - var(y)])
            p = e.aspv(arg)
            for s3, b in _byte(e, s2, p.obj, p.off + var(y)):
                good = isinstance(b, IV) and s3.eq(b.l, e.ld_atom(ref, var(y), 1))
                ck.judge(good, "keystream", where, "%s: %s byte %r is %r" % (what, nm, var(y), b), e.imprecise(b))


# ---------------------------------------------------------------- R07
ARGON = {
    "in.pass": "offsetof(passgen_argon2_inputs, pass)",
    "in.pass_size": "offsetof(passgen_argon2_inputs, pass_size)",
    "in.salt": "offsetof(passgen_argon2_inputs, salt)",
    "in.salt_size": "offsetof(passgen_argon2_inputs, salt_size)",
    "ex.key": "offsetof(passgen_argon2_extras, key)",
    "ex.key_size": "offsetof(passgen_argon2_extras, key_size)",
    "ex.ad": "offsetof(passgen_argon2_extras, ad)",
    "ex.ad_size": "offsetof(passgen_argon2_extras, ad_size)",
    "cfg.size": "sizeof(passgen_argon2_config)",
    "cfg.nb_blocks": "offsetof(passgen_argon2_config, nb_blocks)",
    "cfg.nb_passes": "offsetof(passgen_argon2_config, nb_passes)",
    "cfg.nb_lanes": "offsetof(passgen_argon2_config, nb_lanes)",
    "cfg.algorithm": "offsetof(passgen_argon2_config, algorithm)",
    "ALG_ID": "CRYPTO_ARGON2_ID",
}


def R07(ck):
    L = ck.layout(dict(RANDOM, **ARGON))
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_random_open", cfg)
        ck.fn("passgen_random_chacha20_argon2_open", cfg)
        for n in (1, 2):
            jobs.append(lambda cfg=cfg, n=n: _r07_chacha(ck, cfg, L, n))
        for n in (1, 2, 3):
            jobs.append(lambda cfg=cfg, n=n: _r07_argon(ck, cfg, L, n))
        jobs.append(lambda cfg=cfg: _r07_api(ck, cfg, L))
    ck.parallel(jobs)


def _content_is(ck, e, st, obj, base, src, sstart, slen, where, what, rule="derivation", pad=None):
    """obj[base..base+slen) equals src[sstart..sstart+slen); with pad: zero up to pad bytes"""
    x = Atom("x", 0, 1 << 32)
    lim = num(pad) if pad is not None else slen
    s = st.assume([lim - var(x) + (-1)])
    if s is None:
        ck.ok(rule, where)
        return
    parts = []
    a = s.assume([slen - var(x) + (-1)])
    if a is not None:
        parts.append((a, True))
    b = s.assume([var(x) - slen])
    if b is not None:
        parts.append((b, False))
    for s1, inside in parts:
        for s2, v in _byte(e, s1, obj, base + var(x)):
            if inside:
                ref = e.ld_atom(src, sstart + var(x), 1)
                good = isinstance(v, IV) and (v.l == ref or s2.eq(v.l, ref))
                ck.judge(good, rule, where, "%s: byte %r is %r instead of %r" % (what, var(x), v, ref), e.imprecise(v))
            else:
                good = isinstance(v, IV) and v.const and v.u == 0
                ck.judge(good, rule, where, "%s: padding byte %r is %r" % (what, var(x), v), e.imprecise(v) and "uninit(" not in repr(v))


def _r07_chacha(ck, cfg, L, nf):
    fn = ck.fn("passgen_random_open", cfg)
    where = "%s:%s(chacha20:, %d fields) (%s)" % (fn.file, fn.name, nf, cfg)

    def go():
        e = ck.engine(cfg, _openhooks(None))
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        st, d, fs = e.fields(State(), "desc", b"chacha20:", nf, ":")
        fits = [num(32) - fs[0][1]]
        st = st.assume(fits)
        rets = e.call(st, fn, [PV(r, ZERO), PV(d, ZERO)])
        ck.note(e)
        n = 0
        for s, v in rets:
            if isinstance(v, PV) and v.obj is None:
                continue
            ks = [x for _, x in s.events("keystream")]
            if not ks:
                ck.und("derivation", where, "no keystream use seen")
                continue
            n += 1
            a = ks[0]["args"]
            k, i = e.aspv(a[3]), e.aspv(a[4])
            _content_is(ck, e, s, k.obj, k.off, d, fs[0][0], fs[0][1], where, "key", pad=32)
            if nf == 2:
                for lo, hi in ((0, 8), (9, None)):
                    s2 = s.assume([fs[1][1] - lo] + ([num(hi) - fs[1][1]] if hi is not None else []))
                    if s2 is not None:
                        _content_is(ck, e, s2, i.obj, i.off, d, fs[1][0], fs[1][1] if hi is not None else num(8),
                                    where, "nonce", pad=8)
            else:
                lit = b"passgen\0"
                for j in range(8):
                    for s2, b in _byte(e, s, i.obj, i.off + j):
                        ck.judge(isinstance(b, IV) and b.const and b.u == lit[j], "derivation", where,
                                 "default nonce byte %d is %r" % (j, b), e.imprecise(b))
        ck.judge(n > 0, "derivation", where, "a key of at most 32 bytes is never accepted")
    ck.guarded("derivation", where, go)


def _r07_argon(ck, cfg, L, nf):
    fn = ck.fn("passgen_random_open", cfg)
    where = "%s:%s(chacha20-argon2:, %d fields) (%s)" % (fn.file, fn.name, nf, cfg)

    def go():
        e = ck.engine(cfg, _openhooks(None))
        e.rec_inline = 2
        r = e.param("random", num(L["random.size"]))
        st, d, fs = e.fields(State(), "desc", b"chacha20-argon2:", nf, ":")
        st = st.assume([num(127) - l for _, l in fs])
        rets = e.call(st, fn, [PV(r, ZERO), PV(d, ZERO)])
        ck.note(e)
        n = 0
        for s, v in rets:
            if isinstance(v, PV) and v.obj is None:
                continue
            ar = [x for _, x in s.events("argon2")]
            if len(ar) != 1:
                ck.judge(False, "derivation", where, "argon2 is run %d times" % len(ar), not ar)
                continue
            n += 1
            _argon_args(ck, e, s, ar[0], d, (fs + [(None, ZERO)] * 3)[:3], L, where)
            _argon_key(ck, e, s, ar[0], where)
        ck.judge(n > 0, "derivation", where, "no descriptor of this form is accepted")
    ck.guarded("derivation", where, go)


def _argon_args(ck, e, s, ev, d, fs, L, where, checkcfg=True):
    a = ev["args"]
    s = s.copy()
    s.mem = dict(ev["mem"])
    inp, ext = e.aspv(a[-2]), e.aspv(a[-1])
    for nm, st_, po, so, (start, ln) in (("passphrase", inp, "in.pass", "in.pass_size", fs[0]),
                                         ("domain", ext, "ex.key", "ex.key_size", fs[1]),
                                         ("token", ext, "ex.ad", "ex.ad_size", fs[2])):
        for s1, p in e.load(s, PV(st_.obj, st_.off + L[po]), _PTR):
            for s2, z in e.load(s1, PV(st_.obj, st_.off + L[so]), INT[4]):
                for s3, zl in e.canon(s2, e.iv(z, 32)):
                    ck.judge(s3.eq(zl, ln), "derivation", where, "argon2 %s length is %r instead of %r" % (nm, zl, ln),
                             e.imprecise(zl))
                    if start is not None and isinstance(p, PV) and p.obj is not None:
                        _content_is(ck, e, s3, e.canonobj(p.obj), p.off, d, start, ln, where, "argon2 " + nm)
    for s1, p in e.load(s, PV(inp.obj, inp.off + L["in.salt"]), _PTR):
        from ..libc import conststr
        b = conststr(e, p) if isinstance(p, PV) else None
        for s2, z in e.load(s1, PV(inp.obj, inp.off + L["in.salt_size"]), INT[4]):
            ck.judge(b == b"passgen" and z.const and z.u == 7, "derivation", where,
                     "argon2 salt is %r (%r bytes)" % (b, z), b is None and e.imprecise(z))
    if checkcfg:
        for f, want in (("cfg.algorithm", L["ALG_ID"]), ("cfg.nb_blocks", 8), ("cfg.nb_passes", 8), ("cfg.nb_lanes", 1)):
            for s1, z in _cfg_field(e, s, a, L[f]):
                ck.judge(isinstance(z, IV) and z.const and z.u == want, "derivation", where,
                         "argon2 parameter %s is %r instead of %d" % (f, z, want), e.imprecise(z))
    ck.judge(s.eq(ev["n"], num(32)), "derivation", where, "argon2 derives %r bytes, the key has 32" % ev["n"])


def _cfg_field(e, s, a, off):
    """32-bit field of the configuration, passed in registers or by reference"""
    if isinstance(a[3], PV):
        return e.load(s, PV(a[3].obj, a[3].off + off), INT[4])
    w = e.iv(a[3 + off // 8], 64)
    out = []
    for s1, v in e._lshr(s, w, 8 * (off % 8)):
        out += e.trunc(s1, v, 32)
    return out


def _argon_key(ck, e, s, ev, where):
    ks = [x for _, x in s.events("keystream")]
    if not ks:
        ck.und("derivation", where, "no keystream use seen")
        return
    k = e.aspv(ks[0]["args"][3])
    y = Atom("y", 0, 31)
    for s1, b in _byte(e, s, k.obj, k.off + var(y)):
        good = isinstance(b, IV) and b.l == e.fill_atom(ev["draw"], var(y), 1)
        ck.judge(good, "derivation", where, "cipher key byte %r is %r, not the argon2 output" % (var(y), b), e.imprecise(b))
    i = e.aspv(ks[0]["args"][4])
    lit = b"passgen\0"
    for j in range(8):
        for s2, b in _byte(e, s, i.obj, i.off + j):
            ck.judge(isinstance(b, IV) and b.const and b.u == lit[j], "derivation", where,
                     "argon2 source nonce byte %d is %r" % (j, b), e.imprecise(b))


def _r07_api(ck, cfg, L):
    fn = ck.fn("passgen_random_chacha20_argon2_open", cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)

    def go():
        for withcfg in (False, True):
            e = ck.engine(cfg, _openhooks(None))
            e.rec_inline = 2
            r = e.param("random", num(L["random.size"]))
            ss = [e.string(n, 1 << 20) for n in ("pass", "domain", "token")]
            cp = e.param("config", num(L["cfg.size"]))
            nb = var(Atom("nb_blocks", 8, 1 << 20))
            st = State()
            e.put(st, cp, ("s", num(L["cfg.nb_blocks"]), 4, IV(32, nb)))
            e.on_access = _bounds_cb(ck, "work-area", fn.name)
            rets = e.call(st, fn, [PV(r, ZERO)] + [PV(x, ZERO) for x in ss] + [PV(cp, ZERO) if withcfg else NULL])
            e.on_access = None
            flush(ck, e)
            ck.note(e)
            n = 0
            for s, v in rets:
                if isinstance(v, PV) and v.obj is None:
                    continue
                ar = [x for _, x in s.events("argon2")]
                if len(ar) != 1:
                    ck.und("derivation", where, "argon2 run %d times" % len(ar))
                    continue
                n += 1
                # each C string is one input; fields are identified by their own object
                for (nm, base, po, so), o in zip((("passphrase", -2, "in.pass", "in.pass_size"),
                                                  ("domain", -1, "ex.key", "ex.key_size"),
                                                  ("token", -1, "ex.ad", "ex.ad_size")), ss):
                    s1 = s.copy()
                    s1.mem = dict(ar[0]["mem"])
                    p0 = e.aspv(ar[0]["args"][base])
                    for s2, p in e.load(s1, PV(p0.obj, p0.off + L[po]), _PTR):
                        for s3, z in e.load(s2, PV(p0.obj, p0.off + L[so]), INT[4]):
                            for s4, zl in e.canon(s3, e.iv(z, 32)):
                                ck.judge(s4.eq(zl, o.attrs["strlen"]), "derivation", where,
                                         "argon2 %s length is %r" % (nm, zl), e.imprecise(zl))
                        _content_is(ck, e, s2, e.canonobj(p.obj), p.off, o, ZERO, o.attrs["strlen"], where, "argon2 " + nm)
                _argon_key(ck, e, s, ar[0], where)
                # the work area is as large as the configuration asks for
                wa = e.aspv(ar[0]["args"][2])
                need = nb.scale(1024) if withcfg else num(8 * 1024)
                sz = wa.obj.size if wa.obj is not None else None
                for s1, l in (e.canon(s, IV(64, sz)) if sz is not None else []):
                    ck.judge(s1.entails(l - need), "work-area", where,
                             "argon2 work area has %r bytes, %r needed" % (l, need), e.imprecise(l))
            ck.judge(n > 0, "derivation", where, "never succeeds")
    ck.guarded("derivation", where, go)


# ---------------------------------------------------------------- R08
def R08(ck):
    L = ck.layout(RANDOM)
    for cfg in ("Debug", "Release"):
        ck.guarded("wipe", "passgen_wipe (%s)" % cfg, _r08_wipe, ck, cfg)
        for name in ("passgen_random_xorshift_open", "passgen_random_chacha20_open",
                     "passgen_random_chacha20_argon2_open", "passgen_random_system_open",
                     "passgen_random_zero_open"):
            if name not in ck.mod(cfg).fns:
                raise Anchor("function %s not found" % name)
            ck.guarded("wipe-before-free", "%s (%s)" % (name, cfg), _r08_source, ck, cfg, L, name)


def hook_wipe(e, st, args, inst):
    from ..libc import h_memset
    out = []
    for s, _ in h_memset(e, st, [args[0], ival(8, 0), args[1]], inst):
        s = s.copy()
        p = e.aspv(args[0])
        s.event("wipe", p=p, obj=e.canonobj(p.obj) if p.obj is not None else None, n=e.iv(args[1], 64).l, inst=inst)
        out.append((s, None))
    return out


def _r08_wipe(ck, cfg):
    fn = ck.fn("passgen_wipe", cfg, required=False)
    if fn is None:
        return
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    e = ck.engine(cfg)
    n = Atom("size", 0, 1 << 30)
    d = e.param("secret", var(n))
    st = State()
    st.ghost["filled"] = ZERO
    st.ghost["cleared"] = ZERO

    def on_store(e, s, obj, off, size, v, inst):
        if obj is not d:
            return
        z = v[1] if isinstance(v, tuple) else v
        if not (isinstance(z, IV) and z.const and z.u == 0):
            s.flags["nonzero"] = loc(inst)
        if not isinstance(v, tuple) and not getattr(inst, "volatile", True):
            s.flags["removable"] = loc(inst)
        if not s.eq(off, s.ghost["filled"]):
            s.flags["hole"] = loc(inst)
        s.ghost["filled"] = s.ghost["filled"] + (num(size) if isinstance(size, int) else size)
    e.on_store = on_store
    e.on_access = _bounds_cb(ck, "in-bounds", fn.name)
    rets = e.call(st, fn, [PV(d, ZERO), IV(64, var(n))])
    ck.note(e)
    flush(ck, e)
    for s, _ in rets:
        for f, m in (("nonzero", "stores a non-zero value at %s"), ("hole", "skips bytes at %s"),
                     ("removable", "store at %s is not volatile: the compiler may drop it before free")):
            ck.judge(f not in s.flags, "wipe", where, m % s.flags.get(f))
        ck.judge(s.eq(s.ghost["filled"], var(n)), "wipe", where, "overwrites %r of size bytes" % s.ghost["filled"],
                 e.imprecise(s.ghost["filled"]))


def _zeroed(ck, e, st, obj, size, where, what, rule="wipe-before-free"):
    x = Atom("x", 0, 1 << 32)
    s = st.assume([size - var(x) + (-1)])
    if s is None:
        return
    try:
        vals = _byte(e, s, obj, var(x))
    except Exception:
        vals = []
    for s1, v in vals:
        good = isinstance(v, IV) and v.const and v.u == 0
        ck.judge(good, rule, where, "%s still holds %r at byte %r" % (what, v, var(x)), False)


def _r08_source(ck, cfg, L, name):
    fn = ck.fn(name, cfg)
    where = "%s:%s (%s)" % (fn.file, fn.name, cfg)
    hooks = dict(_openhooks(None))
    hooks["passgen_wipe"] = hook_wipe
    e = ck.engine(cfg, hooks)
    e.rec_inline = 2
    args = {"passgen_random_chacha20_open": lambda: [PV(e.param("key", num(32)), ZERO), PV(e.param("iv", num(8)), ZERO)],
            "passgen_random_chacha20_argon2_open": lambda: [PV(e.string(x, 1 << 20), ZERO) for x in ("p", "d", "t")] + [NULL],
            "passgen_random_xorshift_open": lambda: [IV(64, var(Atom("seed", 1, (1 << 64) - 1)))]}
    rets = e.call(State(), fn, [NULL] + args.get(name, lambda: [])())
    rets = [(s, v) for s, v in rets if isinstance(v, PV) and v.obj is not None]
    ck.judge(bool(rets), "wipe-before-free", where, "never opens")
    for s, v in rets:
        # secrets on the stack of functions that have returned
        for x, ev in s.events():
            if x in ("argon2", "keystream"):
                p = ev["p"] if x == "keystream" else ev["dest"]
                if p.obj is not None and p.obj.kind == "stack":
                    _zeroed(ck, e, s, p.obj, p.obj.size, where, "%s output buffer %s left on the stack" % (x, p.obj.name),
                            "stack-secret")
        cx = e._load(s, v.obj, s.mem.get(v.obj, ()), num(L["random.context"]), _PTR, None)[0][1]
        ff = ck.fn("passgen_random_free", cfg)
        s2 = s.copy()
        s2.ev = None
        for s3, _ in e.call(s2, ff, [PV(v.obj, ZERO)]):
            frees = s3.events("free")
            for _, ev in frees:
                s4 = s3.copy()
                s4.mem = dict(s4.mem)
                s4.mem[ev["obj"]] = ev["mem"]
                what = "block freed at %s (from %s)" % (loc(ev["inst"]), loc(ev["obj"].site))
                _zeroed(ck, e, s4, ev["obj"], ev["obj"].size, where, what)
                ck.judge(any(w["obj"] is ev["obj"] and s3.entails(w["n"] - ev["obj"].size) for _, w in s3.events("wipe")),
                         "wipe-kept", where, "%s is cleared by plain stores or memset, which the compiler may drop "
                         "before free" % what, "passgen_wipe" not in ck.mod(cfg).fns)
            freed = [ev["obj"] for _, ev in frees]
            ck.judge(v.obj in freed, "release", where, "passgen_random_free does not release the source")
            if isinstance(cx, PV) and cx.obj is not None and cx.obj.kind == "heap" and not cx.obj.attrs.get("file"):
                ck.judge(cx.obj in freed, "release", where, "context allocated at %s never released" % loc(cx.obj.site))
            ck.judge(len(set(o.id for o in freed)) == len(freed), "release", where, "released twice")
        # closing in place clears the caller's struct
        fc = ck.fn("passgen_random_close", cfg)
        for s3, _ in e.call(s2, fc, [PV(v.obj, ZERO)]):
            _zeroed(ck, e, s3, v.obj, num(L["random.size"]), "%s (%s)" % (fc.name, cfg), "passgen_random after close")
        # short keystream reads use a block on the stack
        cb = e._load(s, v.obj, s.mem.get(v.obj, ()), num(L["random.read"]), _PTR, None)[0][1]
        if isinstance(cb, FV) and "chacha" in name:
            s4 = s.copy()
            s4.ev = None
            _anyoffset(e, s4, cx.obj)
            n = Atom("size", 1, 1 << 20)
            dest = e.param("dest", var(n))
            for s5, _ in e.call(s4, cb.fn, [cx, PV(dest, ZERO), IV(64, var(n))]):
                for _, ev in s5.events("keystream"):
                    p = ev["p"]
                    if p.obj is not None and p.obj.kind == "stack":
                        _zeroed(ck, e, s5, p.obj, p.obj.size, "%s:%s (%s)" % (cb.fn.file, cb.fn.name, cfg),
                                "keystream block %s left on the stack" % p.obj.name, "stack-secret")
    ck.note(e)
