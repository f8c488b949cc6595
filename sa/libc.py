"""Contracts of the libc functions and compiler intrinsics the code base calls.

Each contract states the memory effect and the relation between arguments and
result; nothing is executed.  `install(engine)` registers them.
"""
from . import ir
from .terms import Atom, Lin, num, var, ZERO, IV, ival, PV, NULL, FV, UNDEF, FP, Cond
from .interp import INT, _PTR, _I8


def install(eng, alloc_fail=False):
    eng.alloc_fail = alloc_fail
    H = eng.hooks
    for n in list(eng.m.fns):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            H.setdefault(n, h_memcpy)
        elif n.startswith("llvm.memset"):
            H.setdefault(n, h_memset)
        elif n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.stackrestore"):
            H.setdefault(n, h_nop)
        elif n.startswith("llvm.stacksave"):
            H.setdefault(n, lambda e, st, a, i: [(st, NULL)])
        elif n.startswith("llvm.bswap"):
            H.setdefault(n, h_unknown)
        elif n.startswith("llvm.umul.with.overflow") or n.startswith("llvm.uadd.with.overflow"):
            H.setdefault(n, h_ovf)
        elif n.startswith("llvm.umin") or n.startswith("llvm.umax"):
            H.setdefault(n, h_minmax)
    for n, f in TABLE.items():
        H.setdefault(n, f)


def h_nop(e, st, a, i):
    return [(st, None)]


def h_unknown(e, st, a, i):
    return [(st, e.unknown(i.ty, i.callee.name) if i is not None and i.ty.kind != "void" else None)]


def h_minmax(e, st, a, i):
    out = []
    lt = e.assume_cond(st, Cond("ult", a[0], a[1]), True)
    ge = e.assume_cond(st, Cond("ult", a[0], a[1]), False)
    mn = "umin" in i.callee.name
    return [(s, a[0] if mn else a[1]) for s in lt] + [(s, a[1] if mn else a[0]) for s in ge]


def h_ovf(e, st, a, i):
    from .terms import AggV
    w = a[0].w
    out = []
    if "umul" in i.callee.name:
        for s, x in e.canon(st, e.iv(a[0], w)):
            for s2, y in e.canon(s, e.iv(a[1], w)):
                if not y.t or not x.t:
                    l = x.scale(y.c) if not y.t else y.scale(x.c)
                    lim = num((1 << w) - 1)
                    t = s2.assume([lim - l])
                    if t is not None:
                        out.append((t, AggV([IV(w, l), Cond("ne", ival(8, 0), ival(8, 0))])))
                    f = s2.assume([l - lim + (-1)])
                    if f is not None:
                        out.append((f, AggV([IV(w, l), Cond("eq", ival(8, 0), ival(8, 0))])))
                else:
                    z = e.opaque("mul", x, y, w)
                    out.append((s2.copy(), AggV([IV(w, z), Cond("ne", ival(8, 0), ival(8, 0))])))
                    out.append((s2.copy(), AggV([IV(w, z), Cond("eq", ival(8, 0), ival(8, 0))])))
        return out
    l = a[0].l + a[1].l
    for s, x in e.canon(st, a[0]):
        for s2, y in e.canon(s, a[1]):
            lim = num((1 << w) - 1)
            t = s2.assume([lim - x - y])
            if t is not None:
                out.append((t, AggV([IV(w, x + y), Cond("ne", ival(8, 0), ival(8, 0))])))
            f = s2.assume([x + y - lim + (-1)])
            if f is not None:
                out.append((f, AggV([IV(w, l), Cond("eq", ival(8, 0), ival(8, 0))])))
    return out


def sizes(e, st, v):
    return e.canon(st, e.iv(v, 64))


def h_memcpy(e, st, a, i):
    out = []
    d, s_ = e.aspv(a[0]), e.aspv(a[1])
    for s, n in sizes(e, st, a[2]):
        if not n.t and n.c == 0:
            out.append((s, a[0]))
            continue
        # a zero length copy touches nothing
        z = s.assume([n, -n]) if n.t else None
        if z is not None and not z.entails(n + (-1)):
            nz = s.assume([n + (-1)])
            if not (z.entails(-n)):
                pass
            if nz is None:
                out.append((z, a[0]))
                continue
            if d.obj is None or s_.obj is None or not d.obj.nonnull or not s_.obj.nonnull:
                out.append((z, a[0]))
                s = nz
        s2 = e.access(s, "load", s_, n, i)
        if s2 is None:
            continue
        s2 = e.access(s2, "store", d, n, i)
        if s2 is None:
            continue
        s3 = s2.copy()
        do, so = e.canonobj(d.obj), e.canonobj(s_.obj)
        if e.on_store:
            e.on_store(e, s3, do, d.off, n, ("copy", so, s_.off), i)
        copyrec(e, s3, do, d.off, n, so, s_.off)
        out.append((s3, a[0]))
    return out


def copyrec(e, st, do, doff, n, so, soff):
    snap = st.mem.get(so, ())
    e.put(st, do, ("copy", doff, n, so, soff, snap))


def h_memset(e, st, a, i):
    out = []
    d = e.aspv(a[0])
    for s, n in sizes(e, st, a[2]):
        if not n.t and n.c == 0:
            out.append((s, a[0]))
            continue
        s2 = e.access(s, "store", d, n, i)
        if s2 is None:
            continue
        s3 = s2.copy()
        do = e.canonobj(d.obj)
        b = a[1]
        if isinstance(b, IV) and b.w != 8:
            b = IV(8, b.l)
        if e.on_store:
            e.on_store(e, s3, do, d.off, n, ("set", b), i)
        e.put(s3, do, ("set", d.off, n, b))
        out.append((s3, a[0]))
    return out


# ------------------------------------------------------------------ heap
def h_malloc(e, st, a, i, zero=False):
    out = []
    for s, n in sizes(e, st, a[0]):
        o = e.newobj("heap@%s:%s" % (i.fn.name if i is not None else "?", i.loc if i is not None else "?"),
                     "heap", n, not e.alloc_fail, site=i)
        if zero:
            o.attrs["zero"] = True
        s = s.copy()
        s.event("malloc", obj=o, size=n, inst=i)
        if e.alloc_fail:
            f = s.assume([-var(e.nullatom(o))])
            if f is not None:
                out.append((f, PV(o, ZERO)))
            out.append((st, NULL))
        else:
            out.append((s, PV(o, ZERO)))
    return out


def h_calloc(e, st, a, i):
    out = []
    for s, v in e.binop(st, "mul", e.iv(a[0], 64), e.iv(a[1], 64), 64):
        out += h_malloc(e, s, [v], i, True)
    return out


def h_strdup(e, st, a, i):
    p = e.aspv(a[0])
    out = []
    for s, n in strlen_of(e, st, p, i):
        for s2, r in h_malloc(e, s, [IV(64, n + 1)], i):
            r = e.aspv(r)
            if r.obj is None:
                out.append((s2, r))
                continue
            out += [(s3, r) for s3, _ in h_memcpy(e, s2, [r, p, IV(64, n + 1)], i)]
    return out


def h_strndup(e, st, a, i):
    p = e.aspv(a[0])
    out = []
    for s, n in sizes(e, st, a[1]):
        for s1, L in strlen_of(e, s, p, i):
            for c, m in ((L - n, n), (n - L + (-1), L)):
                s2 = s1.assume([c])
                if s2 is None:
                    continue
                for s3, r in h_malloc(e, s2, [IV(64, m + 1)], i):
                    r = e.aspv(r)
                    if r.obj is None:
                        out.append((s3, r))
                        continue
                    for s4, _ in h_memcpy(e, s3, [r, p, IV(64, m)], i):
                        s4 = s4.copy()
                        e.put(s4, e.canonobj(r.obj), ("s", r.off + m, 1, ival(8, 0)))
                        out.append((s4, r))
    return out


def h_realloc(e, st, a, i):
    p = e.aspv(a[0])
    if p.obj is None:
        return h_malloc(e, st, [a[1]], i)
    outs = []
    sts = [(st, p)]
    if not p.obj.nonnull:
        at = e.nullatom(p.obj)
        sts = []
        n = st.assume([var(at) + (-1)])
        if n is not None:
            outs += h_malloc(e, n, [a[1]], i)
        k = st.assume([-var(at)])
        if k is not None:
            sts.append((k, p))
    for s, p in sts:
        for s2, r in h_malloc(e, s, [a[1]], i):
            if r is NULL or r.obj is None:
                outs.append((s2, r))
                continue
            s3 = s2.copy()
            o = e.canonobj(p.obj)
            new = r.obj.size
            old = o.size
            if old is not None and s3.entails(new - old):
                ln = old
            elif old is not None and s3.entails(old - new):
                ln = new
            else:
                ln = None
            s3.event("realloc", obj=p.obj, new=r.obj, size=new, inst=i)
            if ln is None:
                # contents kept up to min(old, new): describe all of the new block that way
                ln = new
                r.obj.attrs["realloc_of"] = (o, old)
            e.put(s3, r.obj, ("copy", ZERO, ln, o, ZERO, s3.mem.get(o, ())))
            markfreed(e, s3, p, i)
            outs.append((s3, r))
    return outs


def markfreed(e, st, p, i):
    st.event("free", obj=p.obj, off=p.off, inst=i, mem=st.mem.get(e.canonobj(p.obj), ()))
    if e.canonobj(p.obj).kind != "heap" or True:
        st.flags[("freed", p.obj.id)] = True


def h_free(e, st, a, i):
    p = e.aspv(a[0])
    if p.obj is None:
        return [(st, None)]
    s = st.copy()
    if e.on_free:
        e.on_free(e, s, p, i)
    markfreed(e, s, p, i)
    return [(s, None)]


# ------------------------------------------------------------------ strings
def conststr(e, p):
    """bytes of a constant string object from p (up to NUL) or None"""
    if not isinstance(p, PV) or p.obj is None or p.off.t:
        return None
    o = p.obj
    if o.kind == "global" and o.origin is not None and o.origin.init is not None and o.origin.const:
        r = bytearray()
        k = p.off.c
        while 0 <= k < o.origin.size:
            v = e.initload(o.origin.init, o.origin.ty, k, _I8)
            if not isinstance(v, IV) or not v.const:
                return None
            if v.u == 0:
                return bytes(r)
            r.append(v.u)
            k += 1
    b = o.attrs.get("literal")
    if b is not None:
        return b[p.off.c:]
    return None


def strlen_of(e, st, p, i):
    """[(st, Lin)]"""
    b = conststr(e, p)
    if b is not None:
        return [(st, num(len(b)))]
    st = e.access(st, "strlen", p, num(1), i)
    if st is None:
        return []
    return _slen(e, st, e.canonobj(p.obj), st.mem.get(e.canonobj(p.obj), ()), p.off, 0)


def _slen(e, st, obj, recs, off, depth):
    # walk records newest first: find what covers `off`
    if depth > 12:
        return [(st, var(Atom("strlen(?)", 0, 1 << 40, imprecise=True)))]
    L = obj.attrs.get("strlen")
    if not recs and L is not None:
        s = st.assume([L - off])
        return [(s, L - off)] if s is not None else []
    if not recs and obj.attrs.get("zero"):
        return [(st, ZERO)]
    if not recs and obj.kind not in ("stack", "heap"):
        return [(st, e.strlen_atom(obj, off, 0))]
    for n in range(len(recs) - 1, -1, -1):
        r = recs[n]
        if r[0] == "havoc" and r[1] is None:
            break
        rl = num(r[2]) if isinstance(r[2], int) else r[2]
        d = off - r[1]
        if st.entails(d - rl) or st.entails(-d + (-1)):
            continue
        if not (st.entails(d) and st.entails(rl - d + (-1))):
            # maybe inside: split
            out = []
            s = st.assume([d, rl - d + (-1)])
            if s is not None:
                out += _slen(e, s, obj, recs, off, depth + 1)
            for ex in ([d - rl], [-d + (-1)]):
                s = st.assume(ex)
                if s is not None:
                    out += _slen(e, s, obj, recs[:n] + recs[n + 1:] if n + 1 < len(recs) else recs[:n], off, depth + 1)
            return out
        if r[0] == "set" and isinstance(r[3], IV) and r[3].const and r[3].u == 0:
            return [(st, ZERO)]
        if r[0] == "s" and isinstance(r[3], IV) and r[3].const and r[2] == 1 and r[3].u == 0:
            return [(st, ZERO)]
        if r[0] == "copy":
            out = []
            rest = rl - d
            for s, ln in _slen(e, st, r[3], r[5], r[4] + d, depth + 1):
                a = s.assume([rest - ln + (-1)])
                if a is not None:
                    out.append((a, ln))
                b = s.assume([ln - rest])
                if b is not None:
                    for s2, l2 in _slen(e, b, obj, recs, off + rest, depth + 1):
                        out.append((s2, rest + l2))
            return out
        break
    return [(st, var(Atom("strlen(%s+%r)" % (obj.name, off), 0, 1 << 40, imprecise=True)))]


def h_strlen(e, st, a, i):
    p = e.aspv(a[0])
    if p.obj is None:
        e.require_nonnull(st, p, i)
        return []
    return [(s, IV(64, l)) for s, l in strlen_of(e, st, p, i)]


def h_strnlen(e, st, a, i):
    out = []
    for s, l in h_strlen(e, st, a, i):
        for s1, n in e.canon(s, e.iv(a[1], 64)):
            for c, v in ((n - l.l, l.l), (l.l - n + (-1), n)):
                s2 = s1.assume([c])
                if s2 is not None:
                    out.append((s2, IV(64, v)))
    return out


def facts(st, key):
    return st.flags.get(("str", key), ())


def addfact(st, key, f):
    s = st.copy()
    s.flags[("str", key)] = tuple(sorted(set(facts(st, key)) | {f}))
    return s


def consistent(fs):
    eq = [f[1] for f in fs if f[0] == "eq"]
    pre = [f[1] for f in fs if f[0] == "pre"]
    neq = [f[1] for f in fs if f[0] == "neq"]
    npre = [f[1] for f in fs if f[0] == "npre"]
    if len(set(eq)) > 1:
        return False
    for x in eq:
        if x in neq or any(not x.startswith(p) for p in pre) or any(x.startswith(p) for p in npre):
            return False
    for p in pre:
        if any(p.startswith(q) for q in npre):
            return False
        for q in pre:
            if not (p.startswith(q) or q.startswith(p)):
                return False
    return True


def okey(p):
    return (p.obj.id, p.off)


def h_strcmp(e, st, a, i, limit=None, prefix=False):
    p, q = e.aspv(a[0]), e.aspv(a[1])
    for x in (p, q):
        if x.obj is None:
            e.require_nonnull(st, x, i)
            return []
    cp, cq = conststr(e, p), conststr(e, q)
    if cp is not None and cq is not None:
        if limit is not None:
            cp, cq = cp[:limit], cq[:limit]
        r = (cp > cq) - (cp < cq)
        return [(st, ival(32, r))]
    if cp is not None:
        p, q, cp, cq = q, p, cq, cp
    out = []
    s0 = e.access(st, "strlen", p, num(1), i)
    if s0 is None:
        return []
    if cq is None:
        s0 = e.access(s0, "strlen", q, num(1), i)
        if s0 is None:
            return []
    s0.event("strcmp", p=p, q=q, lit=cq, inst=i, limit=limit)
    if cq is None:
        s1 = s0.copy()
        return [(s0, ival(32, 0)), (s1, ival(32, 1))]
    L = p.obj.attrs.get("strlen")
    if limit is not None and limit < len(cq) + 1:
        kind, lit = "pre", cq[:limit]
    else:
        kind, lit = "eq", cq
    for pos in (True, False):
        f = (kind if pos else "n" + kind, lit)
        s = addfact(s0, okey(p), f)
        if not consistent(facts(s, okey(p))):
            continue
        if pos and p.obj.kind == "param":
            eqs = []
            for j, ch in enumerate(lit):
                b = e.ld_atom(p.obj, p.off + j, 1)
                eqs += [b + (-ch), num(ch) - b]
            s = s.assume(eqs)
            if s is None:
                continue
        if pos and L is not None:
            ln = L - p.off
            s = s.assume([ln - len(lit)] + ([num(len(lit)) - ln] if kind == "eq" else []))
            if s is None:
                continue
        out.append((s, ival(32, 0 if pos else 1)))
    return out


def h_strncmp(e, st, a, i):
    if isinstance(a[2], IV) and a[2].const:
        return h_strcmp(e, st, a, i, limit=a[2].u)
    out = [(st.copy(), ival(32, 0)), (st.copy(), ival(32, 1))]
    return out


def h_memcmp(e, st, a, i):
    p, q = e.aspv(a[0]), e.aspv(a[1])
    out = []
    for s, n in sizes(e, st, a[2]):
        if not n.t and n.c == 0:
            out.append((s, ival(32, 0)))
            continue
        s = e.access(s, "load", p, n, i)
        if s is None:
            continue
        s = e.access(s, "load", q, n, i)
        if s is None:
            continue
        if p.obj is q.obj and p.off == q.off:
            out.append((s, ival(32, 0)))
            continue
        cp, cq = conststr(e, p), conststr(e, q)
        if not n.t and (cp is not None) != (cq is not None):
            lit = (cp if cp is not None else cq)
            if n.c <= len(lit):
                t = q if cp is not None else p
                for pos in (True, False):
                    s2 = addfact(s, okey(t), ("pre" if pos else "npre", lit[:n.c]))
                    if consistent(facts(s2, okey(t))):
                        out.append((s2, ival(32, 0 if pos else 1)))
                continue
        s.event("memcmp", p=p, q=q, n=n, inst=i)
        at = e.keyed("user", ("memeq", (p.obj, p.off, q.obj, q.off, n), 0, 1, 32), 0, 1,
                     "memeq(%r,%r,%r)" % (p, q, n))
        t = s.assume([var(at) + (-1)])
        if t is not None:
            out.append((t, ival(32, 0)))
        f = s.assume([-var(at)])
        if f is not None:
            out.append((f, ival(32, 1)))
    return out


def h_strchr(e, st, a, i):
    p = e.aspv(a[0])
    if p.obj is None:
        e.require_nonnull(st, p, i)
        return []
    st = e.access(st, "strlen", p, num(1), i)
    if st is None:
        return []
    out = []
    c = a[1]
    L = p.obj.attrs.get("strlen")
    recs = st.mem.get(e.canonobj(p.obj), ())
    if L is None and len(recs) == 1 and recs[0][0] == "copy" and not recs[0][5] and st.eq(p.off, recs[0][1]):
        # an untouched copy of a string
        _, do, n, so, soff, _ = recs[0]
        sl = so.attrs.get("strlen")
        if sl is not None and st.eq(soff, ZERO) and st.entails(n - sl + (-1)):
            return [(s, PV(p.obj, v.off + do) if isinstance(v, PV) and v.obj is not None else v)
                    for s, v in h_strchr(e, st, [PV(so, ZERO), c], i)]
    marks = p.obj.attrs.get("marks")
    if marks is not None and isinstance(c, IV) and c.const and c.u & 255 in p.obj.attrs["special"] \
            and not st.mem.get(e.canonobj(p.obj)) and not any(
                (c.u & 255) in p.obj.attrs.get("prefix", b"")[k:] for k in
                [len(p.obj.attrs.get("prefix", b"")) if st.entails(p.off - len(p.obj.attrs.get("prefix", b"")))
                 else 0 if p.off.t else p.off.c]):
        cur = st
        for pos, ch in marks:
            if cur is None:
                break
            hit = cur.assume([pos - p.off])
            if hit is not None:
                out.append((hit, PV(p.obj, pos)))
            cur = cur.assume([p.off - pos + (-1)])
        if cur is not None:
            out.append((cur, NULL))
        return out
    s = st.copy()
    s.event("strchr", p=p, c=c, found=None, inst=i)
    out.append((s, NULL))
    pos = e.user_atom("strchr", (p.obj, p.off, c), 0, 1 << 40, 64)
    ex = [pos - p.off]
    if L is not None:
        ex.append(L - pos + (-1))
    s = st.assume(ex)
    if s is not None:
        s = s.copy()
        s.event("strchr", p=p, c=c, found=pos, inst=i)
        if L is not None and isinstance(c, IV) and c.const:
            b = e.ld_atom(p.obj, pos, 1)
            s = s.assume([b + (-(c.u & 255)), num(c.u & 255) - b])
        if s is not None:
            out.append((s, PV(p.obj, pos)))
    return out


def h_strstr(e, st, a, i):
    n = conststr(e, e.aspv(a[1]))
    if n is not None and len(n) == 1:
        return e.hooks["strchr"](e, st, [a[0], ival(32, n[0])], i)
    return [(st.copy(), NULL), (st.copy(), e.unknown(_PTR, "strstr"))]


# ------------------------------------------------------------------ stdio / system
def h_fopen(e, st, a, i):
    o = e.newobj("FILE@%s" % i.loc, "heap", None, True, opaque=True, file=True)
    s = st.copy()
    s.event("fopen", obj=o, path=a[0], mode=a[1], inst=i)
    return [(s, PV(o, ZERO)), (st.copy(), NULL)]


def h_fclose(e, st, a, i):
    p = e.aspv(a[0])
    s = e.require_nonnull(st, p, i)
    if s is None:
        return []
    s = s.copy()
    s.event("fclose", obj=p.obj, inst=i)
    return [(s, ival(32, 0))]


_n = [0]


def h_fread(e, st, a, i):
    p = e.aspv(a[0])
    out = []
    for s, v in e.binop(st, "mul", e.iv(a[1], 64), e.iv(a[2], 64), 64):
        for s2, n in e.canon(s, v):
            for s3, cnt in e.canon(s2, e.iv(a[2], 64)):
                esz = e.iv(a[1], 64)
                if n.t or n.c:
                    s4 = e.access(s3, "store", p, n, i)
                    if s4 is None:
                        continue
                else:
                    s4 = s3
                r = Atom("fread@%s" % i.loc, 0, (1 << 63) - 1)
                s5 = s4.assume([cnt - var(r)])
                if s5 is None:
                    continue
                got = var(r).scale(esz.s) if esz.const else n
                out += source_fill(e, s5, p, n, got, "fread", var(r), i, file=a[3])
    return out


def source_fill(e, st, p, n, got, name, ret, i, **kw):
    """`got` fresh bytes of source `name` written at p; returns [(st, ret)]"""
    s = st.copy()
    d = e.newobj("%s@%s" % (name, str(i.loc).split("/")[-1]), "draw", n)
    if p.obj is not None and (got.t or got.c):
        o = e.canonobj(p.obj)
        if e.on_store:
            e.on_store(e, s, o, p.off, got, ("fill", d), i)
        e.put(s, o, ("fill", p.off, got, d))
    s.event(name, p=p, n=n, got=got, ret=ret, draw=d, inst=i, **kw)
    return [(s, IV(64, ret))]


def h_getrandom(e, st, a, i):
    p = e.aspv(a[0])
    out = []
    for s, n in sizes(e, st, a[1]):
        if n.t or n.c:
            s2 = e.access(s, "store", p, n, i)
            if s2 is None:
                continue
        else:
            s2 = s
        r = Atom("getrandom@%s" % i.loc, 0, (1 << 63) - 1)
        s3 = s2.assume([n - var(r)])
        if s3 is not None:
            out += source_fill(e, s3, p, n, var(r), "getrandom", var(r), i, flags=a[2])
        s4 = s2.copy()
        s4.event("getrandom", p=p, n=n, got=ZERO, ret=num(-1), draw=None, inst=i, flags=a[2])
        out.append((s4, ival(64, -1)))
    return out


def h_ftell(e, st, a, i):
    r = Atom("ftell@%s" % i.loc, -1, (1 << 62))
    return [(st, IV(64, var(r)))]


def h_int(e, st, a, i):
    r = e.fresh("%s@%s" % (i.callee.name, i.loc), i.ty.width, True)
    return [(st, IV(i.ty.width, var(r)))]


def h_getenv(e, st, a, i):
    o = e.string("getenv(%s)" % (conststr(e, e.aspv(a[0])) or b"?").decode("latin1"), 1 << 20)
    s = st.copy()
    s.event("getenv", obj=o, name=conststr(e, e.aspv(a[0])), inst=i)
    return [(s, PV(o, ZERO)), (st.copy(), NULL)]


def parse_format(fmt):
    """[(kind, text)] kind: 'lit' or conversion letters with flags"""
    out = []
    k = 0
    lit = b""
    while k < len(fmt):
        c = fmt[k:k + 1]
        if c != b"%":
            lit += c
            k += 1
            continue
        j = k + 1
        while j < len(fmt) and fmt[j:j + 1] in b"-+ #0123456789.*hlLjzt" and fmt[j:j + 1]:
            j += 1
        conv = fmt[k:j + 1]
        if conv == b"%%":
            lit += b"%"
        else:
            if lit:
                out.append(("lit", lit))
                lit = b""
            out.append(("conv", conv))
        k = j + 1
    if lit:
        out.append(("lit", lit))
    return out


def fmt_len(e, st, fmt, args, i):
    """[(st, Lin upper bound of the formatted length or None)]"""
    acc = [(st, num(0))]
    k = 0
    for kind, t in parse_format(fmt):
        if kind == "lit":
            acc = [(s, None if l is None else l + len(t)) for s, l in acc]
            continue
        arg = args[k] if k < len(args) else None
        k += 1
        nxt = []
        for s, l in acc:
            if t.endswith(b"s"):
                p = e.aspv(arg) if arg is not None else NULL
                if p.obj is None:
                    e.require_nonnull(s, p, i)
                    continue
                prec = t[t.index(b".") + 1:-1] if b"." in t else None
                if prec is not None and prec.isdigit():
                    nxt.append((s, None if l is None else l + int(prec)))
                    continue
                for s2, n in strlen_of(e, s, p, i):
                    nxt.append((s2, None if l is None else l + n))
            elif t.endswith(b"c"):
                nxt.append((s, None if l is None else l + 1))
            elif t[-1:] in b"diuxXo":
                nxt.append((s, None if l is None else l + 24))
            else:
                nxt.append((s, None))
        acc = nxt
    return acc


def h_printf(skip):
    def f(e, st, a, i):
        fmt = conststr(e, e.aspv(a[skip])) if len(a) > skip else None
        s = st.copy()
        s.event("printf", fn=i.callee.name, fmt=fmt, args=a, inst=i, skip=skip)
        if e.on_printf:
            e.on_printf(e, s, i.callee.name, fmt, a, skip, i)
        if fmt is not None:
            acc = [s2 for s2, _ in fmt_len(e, s, fmt, a[skip + 1:], i)]
        else:
            acc = [s]
        r = e.fresh(i.callee.name, 32, True)
        return [(x, IV(32, var(r)) if i.ty.kind != "void" else None) for x in acc]
    return f


def h_sprintf(e, st, a, i):
    fmt = conststr(e, e.aspv(a[1]))
    p = e.aspv(a[0])
    out = []
    for s, l in (fmt_len(e, st, fmt, a[2:], i) if fmt is not None else [(st, None)]):
        n = l + 1 if l is not None else var(Atom("formatted length", 0, 1 << 40, imprecise=True))
        s2 = e.access(s, "store", p, n, i)
        if s2 is None:
            continue
        s2 = s2.copy()
        s2.event("sprintf", p=p, fmt=fmt, args=a[2:], inst=i)
        _n[0] += 1
        e.put(s2, e.canonobj(p.obj), ("fill", p.off, n, "sprintf%d" % _n[0]))
        out.append((s2, IV(32, n + (-1))))
    return out


def h_snprintf(e, st, a, i):
    fmt = conststr(e, e.aspv(a[2]))
    p = e.aspv(a[0])
    out = []
    for s, l in (fmt_len(e, st, fmt, a[3:], i) if fmt is not None else [(st, None)]):
        for s1, cap in e.canon(s, e.iv(a[1], 64)):
            n = l if l is not None else var(Atom("formatted length", 0, 1 << 30))
            fit = s1.assume([cap - n + (-1)])
            cut = s1.assume([n - cap])
            for s2, ln in ((fit, n + 1), (cut, cap)):
                if s2 is None:
                    continue
                if ln.t or ln.c:
                    s2 = e.access(s2, "store", p, ln, i)
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    s2.event("sprintf", p=p, fmt=fmt, args=a[3:], inst=i)
                    _n[0] += 1
                    e.put(s2, e.canonobj(p.obj), ("fill", p.off, ln, "snprintf%d" % _n[0]))
                out.append((s2, IV(32, n)))
    return out


def h_log(e, st, a, i):
    at = e.keyed("fop", ("log", a[0]), None, None, "%s(%r)" % (i.callee.name, a[0]))
    return [(st, FP(1.0, [(at, 1)]))]


TABLE = {
    "strdup": h_strdup, "strndup": h_strndup, "__strdup": h_strdup, "__strndup": h_strndup,
    "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset,
    "strlen": h_strlen, "strnlen": h_strnlen, "strcmp": h_strcmp, "strncmp": h_strncmp, "memcmp": h_memcmp,
    "strchr": h_strchr, "strstr": h_strstr,
    "malloc": h_malloc, "calloc": h_calloc, "realloc": h_realloc, "free": h_free,
    "fopen": h_fopen, "fclose": h_fclose, "fread": h_fread, "ftell": h_ftell, "fseek": h_int,
    "getrandom": h_getrandom, "getenv": h_getenv,
    "printf": h_printf(0), "fprintf": h_printf(1), "puts": h_int, "putchar": h_int, "fputs": h_int,
    "fputc": h_int, "fwrite": h_int, "fflush": h_int,
    "sprintf": h_sprintf, "snprintf": h_snprintf,
    "atoi": h_int, "atoll": h_int, "atol": h_int, "strtol": h_int, "strtoul": h_int,
    "strtoll": h_int, "strtoull": h_int,
    "log": h_log, "log2": h_log, "pow": h_log,
    "mlockall": h_int,
}
