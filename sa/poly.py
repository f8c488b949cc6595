"""Integer-tightened polyhedra by Fourier-Motzkin elimination.

A constraint is a Lin read as `lin >= 0`.  `infeasible` is sound (True means no
integer point); incomplete otherwise.
"""
from math import gcd
from .terms import Lin, num, mk

MAXC = 700


def tighten(l):
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
        if g == 1:
            return l
    if g > 1:
        return Lin(tuple((a, k // g) for a, k in l.t), l.c // g)
    return l


def closure(cons, seeds, limit=80):
    """constraints connected to the seed atoms, with definitions and ranges."""
    seen = set(seeds)
    work = list(seen)
    by = {}
    for c in cons:
        for a, _ in c.t:
            by.setdefault(a, []).append(c)
    out = set()
    while work:
        a = work.pop()
        for c in by.get(a, ()):
            if c not in out:
                out.add(c)
                for b, _ in c.t:
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
        for c in a.defs:
            if c not in out:
                out.add(c)
                for b, _ in c.t:
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
    return list(out), seen


def ranges(atoms):
    r = []
    for a in atoms:
        if a.lo is not None:
            r.append(Lin(((a, 1),), -a.lo))
        if a.hi is not None:
            r.append(Lin(((a, -1),), a.hi))
    return r


def propagate(cons, box, rounds=6):
    """Interval constraint propagation over box {atom: [lo, hi]}; False when empty."""
    for _ in range(rounds):
        changed = False
        for c in cons:
            # sum k*a + c >= 0
            hi = c.c
            infs = 0
            infa = None
            for a, k in c.t:
                b = box[a]
                v = b[1] if k > 0 else b[0]
                if v is None:
                    infs += 1
                    infa = a
                    if infs > 1:
                        break
                else:
                    hi += k * v
            if infs > 1:
                continue
            if infs == 0 and hi < 0:
                return False
            for a, k in c.t:
                b = box[a]
                if infs == 1:
                    if a is not infa:
                        continue
                    rest = hi
                else:
                    v = b[1] if k > 0 else b[0]
                    rest = hi - k * v
                # k*a + rest >= 0
                if k > 0:
                    nb = -(rest // k)      # ceil(-rest/k)
                    if b[0] is None or nb > b[0]:
                        b[0] = nb
                        changed = True
                else:
                    nb = rest // (-k)
                    if b[1] is None or nb < b[1]:
                        b[1] = nb
                        changed = True
                if b[0] is not None and b[1] is not None and b[0] > b[1]:
                    return False
        if not changed:
            break
    return True


def box_of(atoms):
    return {a: [a.lo, a.hi] for a in atoms}


_CACHE = {}


def infeasible(cons):
    key = frozenset(cons)
    r = _CACHE.get(key)
    if r is None:
        if len(_CACHE) > 20000:
            _CACHE.clear()
        r = _CACHE[key] = _infeasible(cons)
    return r


def _infeasible(cons):
    """True if the conjunction of cons (with atom ranges and defs) has no integer point."""
    cs = []
    atoms = set()
    for c in cons:
        if not c.t:
            if c.c < 0:
                return True
            continue
        cs.append(tighten(c))
        for a, _ in c.t:
            atoms.add(a)
    if not cs:
        return False
    extra, atoms = closure(cs, atoms)
    cs = set(tighten(c) for c in extra) | set(cs)
    box = box_of(atoms)
    if not propagate(cs, box):
        return True
    # full elimination
    work = {}

    def put(c):
        if not c.t:
            return c.c >= 0
        c = tighten(c)
        key = c.t
        o = work.get(key)
        if o is None or c.c < o:
            work[key] = c.c
        return True
    for c in cs:
        if not put(c):
            return True
    for a in atoms:
        lo, hi = box[a]
        if lo is not None:
            put(Lin(((a, 1),), -lo))
        if hi is not None:
            put(Lin(((a, -1),), hi))
    # detect equalities with unit coefficient and substitute
    return _fm(work)


def _eqs(work):
    """Eliminate equalities with a unit coefficient; None when contradictory."""
    occ = {}
    for t in work:
        for a, _ in t:
            occ.setdefault(a, set()).add(t)
    queue = list(work)
    while queue:
        t = queue.pop()
        c = work.get(t)
        if c is None:
            continue
        nt = tuple((a, -k) for a, k in t)
        o = work.get(nt)
        if o is None:
            continue
        if o + c < 0:
            return None
        if o + c > 0:
            continue
        best = None
        for a, k in t:
            if k == 1 or k == -1:
                n = len(occ.get(a, ()))
                if best is None or (n, a.id) < best[0]:
                    best = ((n, a.id), a, k)
        if best is None:
            continue
        _, a, k = best
        val = Lin(tuple((b, n) for b, n in t if b is not a), c).scale(-k)
        m = {a: val}
        for t2 in list(occ.pop(a, ())):
            c2 = work.pop(t2, None)
            if c2 is None:
                continue
            for b, _ in t2:
                if b is not a:
                    occ[b].discard(t2)
            l = Lin(t2, c2).subst(m)
            if not l.t:
                if l.c < 0:
                    return None
                continue
            l = tighten(l)
            o = work.get(l.t)
            if o is None:
                work[l.t] = l.c
                for b, _ in l.t:
                    occ.setdefault(b, set()).add(l.t)
                queue.append(l.t)
            elif l.c < o:
                work[l.t] = l.c
                queue.append(l.t)
    return work


def _fm(work):
    work = _eqs(dict(work))
    if work is None:
        return True
    while work:
        # choose variable with least growth
        pos, neg = {}, {}
        for t in work:
            for a, k in t:
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best = None
        drop = set()
        for a in set(pos) | set(neg):
            p, n = pos.get(a, 0), neg.get(a, 0)
            if p == 0 or n == 0:
                drop.add(a)
                continue
            cost = p * n - p - n
            if best is None or (cost, a.id) < best[:2]:
                best = (cost, a.id, a)
        if drop:
            work = {t: c for t, c in work.items() if not any(a in drop for a, _ in t)}
            continue
        a = best[2]
        P, N, R = [], [], {}
        for t, c in work.items():
            k = 0
            for b, n in t:
                if b is a:
                    k = n
                    break
            if k > 0:
                P.append((k, Lin(t, c)))
            elif k < 0:
                N.append((-k, Lin(t, c)))
            else:
                R[t] = c
        neweq = False
        for kp, lp in P:
            for kn, ln in N:
                g = gcd(kp, kn)
                l = lp.scale(kn // g).add(ln, kp // g)
                if not l.t:
                    if l.c < 0:
                        return True
                    continue
                l = tighten(l)
                o = R.get(l.t)
                if o is None or l.c < o:
                    R[l.t] = l.c
                    o = R.get(tuple((b, -n) for b, n in l.t))
                    if o is not None:
                        if o + l.c < 0:
                            return True
                        if o + l.c == 0:
                            neweq = True
        if len(R) > MAXC:
            return False
        work = R
        if neweq:
            work = _eqs(dict(work))
            if work is None:
                return True
    return False


class Cons:
    """Immutable conjunction of constraints with caching."""
    __slots__ = ("cs", "_set", "_cache", "_box", "_min")

    def __init__(self, cs=()):
        self.cs = tuple(cs)
        self._set = None
        self._cache = {}
        self._box = None
        self._min = None

    def add(self, new):
        if self._set is None:
            self._set = set(self.cs)
        add = []
        for n in new:
            n = tighten(n)
            if not n.t and n.c >= 0:
                continue
            if n not in self._set and n not in add:
                add.append(n)
        if not add:
            return self
        return Cons(self.cs + tuple(add))

    def box(self, atoms):
        """refined interval of each atom."""
        if self._box is None:
            self._box = {}
        if all(a in self._box for a in atoms):
            return self._box
        cs, at = closure(self.cs, list(atoms))
        b = box_of(at)
        propagate(cs, b)
        self._box.update({a: tuple(v) for a, v in b.items()})
        return self._box

    def bounds(self, l):
        if not l.t:
            return l.c, l.c
        box = self.box(l.atoms())
        lo = hi = l.c
        for a, k in l.t:
            b = box[a]
            x, y = (b[0], b[1]) if k > 0 else (b[1], b[0])
            lo = None if (lo is None or x is None) else lo + k * x
            hi = None if (hi is None or y is None) else hi + k * y
        return lo, hi

    def entails(self, l):
        """cons |= l >= 0"""
        if not l.t:
            return l.c >= 0
        l = tighten(l)
        r = self._cache.get(l)
        if r is not None:
            return r
        if self._min is None:
            self._min = m = {}
            for c in self.cs:
                o = m.get(c.t)
                if o is None or c.c < o:
                    m[c.t] = c.c
        o = self._min.get(l.t)
        if o is not None and o <= l.c:
            self._cache[l] = True
            return True
        lo, _ = self.bounds(l)
        if lo is not None and lo >= 0:
            r = True
        else:
            r = self._infeasible_with([(-l) + (-1)])
        self._cache[l] = r
        return r

    def entails_eq(self, l):
        if not l.t:
            return l.c == 0
        return self.entails(l) and self.entails(-l)

    def _infeasible_with(self, extra):
        seeds = set()
        for e in extra:
            seeds.update(e.atoms())
        cs, _ = closure(self.cs, seeds)
        return infeasible(cs + list(extra))

    def feasible_with(self, extra):
        ex = []
        for e in extra:
            if not e.t:
                if e.c < 0:
                    return False
                continue
            ex.append(e)
        if not ex:
            return True
        if self._set is None:
            self._set = set(self.cs)
        if all(tighten(e) in self._set for e in ex):
            return True
        return not self._infeasible_with(ex)
