"""Word lists (W01, W02): src/wordlist.c.

W01 follows a word list through its life: initialised with a file of any length, parsed, released.
The file, the tokens of strtok_r and the array of words are modelled; the array is one abstract block
whose capacity is tracked, so that the obligations hold for any number of words.
"""
from ..interp import State, INT
from ..interp import _PTR as PTR
from ..terms import Atom, num, var, ZERO, IV, ival, PV, NULL
from .cli import sayer, at_start, conststr, at, modnorm
from .container import Sink, watch, drain, alive, loc

I8, I32, I64 = INT[1], INT[4], INT[8]
WL = {"size": "sizeof(passgen_wordlist)", "parsed": "offsetof(passgen_wordlist,parsed)",
      "parsed_markov": "offsetof(passgen_wordlist,parsed_markov)", "close": "offsetof(passgen_wordlist,should_close_file)",
      "file": "offsetof(passgen_wordlist,file)", "data": "offsetof(passgen_wordlist,data)", "len": "offsetof(passgen_wordlist,size)",
      "words": "offsetof(passgen_wordlist,words)", "count": "offsetof(passgen_wordlist,count)",
      "markov": "offsetof(passgen_wordlist,markov)"}


class Life:
    """a word list from its initialisation to its release"""

    def __init__(self, ck, cfg, close):
        self.ck, self.cfg, self.close = ck, cfg, close
        self.where = "src/wordlist.c:passgen_wordlist_parse"
        self.what = "%s, %s" % (cfg, "file owned" if close else "file not owned")
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.L = ck.layout(WL, cfg)
        self.wl = e.param("wordlist", num(self.L["size"]))
        self.file = e.param("file", None)
        self.n = Atom("size of the file", 0, 1 << 40)
        self.words = e.newobj("words", "heap", None, True)
        watch(e, Sink(ck, self.what))
        self.access0, self.free0 = e.on_access, e.on_free
        e.on_access = self.access
        e.on_store = self.stored
        self.malloc0, self.realloc0, self.release0 = e.hooks["malloc"], e.hooks["realloc"], e.hooks["free"]
        e.hooks.update({"fseek": self.fseek, "ftell": self.ftell, "rewind": self.rewind, "fread": self.fread, "fclose": self.fclose,
                        "strtok_r": self.strtok, "passgen_markov_init": self.minit, "passgen_markov_free": self.mfree})
        e.hooks.update({"malloc": self.malloc, "realloc": self.realloc, "free": self.free})

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.what), imp, where)

    # -- the array of words
    def access(self, e, st, kind, obj, off, size, inst):
        if obj is not self.words or obj is None:
            return self.access0(e, st, kind, obj, off, size, inst)
        w = at(inst) if inst is not None else self.where
        self.say(st.flags.get("words") == "live", "lifetime", "%s of the array of words, which is %s" % (kind, st.flags.get("words")), where=w)
        cap = st.ghost["capacity"].l.scale(8)
        imp = e.imprecise(off) or e.imprecise(size) or e.imprecise(cap)
        self.say(st.entails(off) and st.entails(cap - off - size), "in-bounds", "%s of %r bytes at %r leaves the array of words of %r bytes"
                 % (kind, size, off, cap), imp, w)

    def stored(self, e, st, obj, off, size, v, i):
        """words go into the array one after the other, as they are found"""
        if "read" not in st.ghost or obj is not self.words:
            return
        k = st.ghost["stored"].l
        w = at(i)
        ok = size == 8 and st.eq(off, k.scale(8))
        self.say(ok, "words", "word number %r is stored at %r" % (k, off), e.imprecise(off) or e.imprecise(k), w)
        t = self.token(next((num(c) for c in range(4) if st.eq(k, num(c))), k))
        ok = isinstance(v, PV) and v.obj is st.flags.get("data") and v.obj is not None and st.eq(v.off, t)
        self.say(ok, "words", "%r is stored instead of word number %r" % (v, k), e.imprecise(v) or e.imprecise(k), w)
        st.ghost["stored"] = IV(64, k + 1)

    def malloc(self, e, st, a, i):
        if "read" not in st.ghost or "words" in st.flags:
            return self.malloc0(e, st, a, i)
        return self.room(st, e.iv(a[0], 64), i)

    def room(self, st, n, i):
        out = []
        for s, l in self.e.canon(st, n):
            s = s.assume([num(1 << 48) - l, l])
            if s is None:
                continue
            s = s.copy()
            s.flags["words"] = "live"
            if l.c % 8 or any(c % 8 for _, c in l.t):
                n = Atom("room for words", 0, 1 << 45)
                s = s.assume([l - var(n).scale(8), var(n).scale(8) - l + 7])
                if s is None:
                    continue
                s.ghost["capacity"] = IV(64, var(n))
            else:
                s.ghost["capacity"] = IV(64, num(l.c // 8) + sum((var(a).scale(c // 8) for a, c in l.t), ZERO))
            out.append((s, PV(self.words, ZERO)))
        return out

    def realloc(self, e, st, a, i):
        p = e.aspv(a[0])
        if p.obj is not self.words:
            return self.realloc0(e, st, a, i)
        self.say(st.flags.get("words") == "live" and st.eq(p.off, ZERO), "lifetime", "the array of words is reallocated but is %s"
                 % st.flags.get("words"), e.imprecise(p), at(i))
        out = []
        for s, l in self.e.canon(st, e.iv(a[1], 64)):
            z = s.assume([-l, l])
            if z is not None:
                z = z.copy()
                z.flags["words"] = "released"
                out.append((z, NULL))
            s = s.assume([l + (-1)])
            if s is not None:
                out += self.room(s, IV(64, l), i)
        return out

    def free(self, e, st, a, i):
        p = e.aspv(a[0])
        if p.obj is not self.words:
            return self.release0(e, st, a, i)
        self.say(st.flags.get("words") == "live" and st.eq(p.off, ZERO), "release", "the array of words is released but is %s"
                 % st.flags.get("words"), e.imprecise(p), at(i))
        s = st.copy()
        s.flags["words"] = "released"
        return [(s, None)]

    # -- the file
    def mine(self, st, p, what, i):
        p = self.e.aspv(p)
        self.say(p.obj is self.file and "closed" not in st.flags, "file", "%s %s" % (what, "a closed file" if p.obj is self.file else "something that is not the file"),
                 p.obj is not self.file and self.e.imprecise(p), at(i))

    def fseek(self, e, st, a, i):
        self.mine(st, a[0], "seeking in", i)
        off, wh = e.iv(a[1], 64), e.iv(a[2], 32)
        s = st.copy()
        s.flags["at"] = {0: "start", 2: "end"}.get(wh.u if wh.const else None) if off.const and off.u == 0 else None
        return [(s, ival(32, 0))]

    def rewind(self, e, st, a, i):
        self.mine(st, a[0], "seeking in", i)
        s = st.copy()
        s.flags["at"] = "start"
        return [(s, None)]

    def ftell(self, e, st, a, i):
        self.mine(st, a[0], "asking for the position in", i)
        f = st.copy()
        f.flags["trouble"] = "the size of the file cannot be told"
        l = {"start": ZERO, "end": var(self.n)}.get(st.flags.get("at"))
        if l is None:
            return [(st, e.unknown(i.ty)), (f, ival(64, -1))]
        return [(st, IV(64, l)), (f, ival(64, -1))]

    def fread(self, e, st, a, i):
        self.mine(st, a[3], "reading", i)
        p = e.aspv(a[0])
        out = []
        for s, k in e.canon(st, e.iv(a[1], 64)):
            for s1, m in e.canon(s, e.iv(a[2], 64)):
                n = m.scale(k.c) if not k.t else k.scale(m.c) if not m.t else None
                if n is None:
                    self.say(False, "file", "how much is read cannot be told", True, at(i))
                    continue
                s1 = e.access(s1, "store", p, n, i)
                if s1 is None:
                    continue
                self.say(s1.flags.get("at") == "start", "file", "the file is not read from its start", s1.flags.get("at") is None, at(i))
                got = Atom("bytes read", 0, 1 << 40)
                g = s1.assume([n - var(got), var(self.n) - var(got)])
                if g is None:
                    continue
                for full in (True, False):
                    x = g.assume([var(got) - var(self.n)]) if full else g.assume([var(self.n) - var(got) - 1])
                    if x is None:
                        continue
                    x = x.copy()
                    d = e.newobj("contents", "draw", n)
                    if p.obj is not None:
                        e.put(x, e.canonobj(p.obj), ("fill", p.off, var(got), d))
                    x.ghost["read"] = IV(64, var(got))
                    x.flags["data"] = p.obj
                    x.flags["at"] = None
                    if not full:
                        x.flags["trouble"] = "the file is not read completely"
                    for y, items in ((x, var(got)),) if not k.t and k.c == 1 else ((x, var(Atom("items read", 0, 1 << 40))),):
                        if not (not k.t and k.c == 1):
                            y = y.assume([m - items] + ([m - items, items - m] if full else [m - items - 1]))
                        if y is not None:
                            out.append((y, IV(64, items)))
        return out

    def fclose(self, e, st, a, i):
        self.mine(st, a[0], "closing", i)
        s = st.copy()
        s.flags["closed"] = True
        return [(s, ival(32, 0))]

    # -- the words
    def token(self, k):
        return self.e.user_atom("token", (k,), 0, 1 << 40, 64)

    def strtok(self, e, st, a, i):
        p, d = e.aspv(a[0]), conststr(e, e.aspv(a[1]))
        w = at(i)
        data = st.flags.get("data")
        if data is None or d is None:
            return [(st, e.unknown(i.ty))]
        self.say(d == b"\n", "words", "words are separated by any of %r" % d, where=w)
        ph = st.flags.get("tokens")
        if p.obj is not None:
            self.say(ph is None and p.obj is data and st.eq(p.off, ZERO), "words", "the search for words starts %s at %r"
                     % ("over" if ph else "", p), e.imprecise(p), w)
            for s, v in e.load(st, PV(data, st.ghost["read"].l), I8, i):
                self.say(isinstance(v, IV) and v.const and v.u == 0, "terminator", "the contents of the file are searched although they are not terminated",
                         False, w)
        else:
            self.say(ph == "some", "words", "the search for words goes on after its end", where=w)
        out = []
        k = st.ghost["searches"].l
        t = self.token(k)
        st = st.copy()
        st.ghost["searches"] = IV(64, k + 1)
        s = st.assume([st.ghost["read"].l - t - 1, st.ghost["read"].l - k - 1])
        if s is not None:
            s = s.copy()
            s.flags["tokens"] = "some"
            out.append((s, PV(data, t)))
        s = st.copy()
        s.flags["tokens"] = "end"
        out.append((s, NULL))
        return out

    # -- the markov chain
    def markov(self, st, p, i):
        p = self.e.aspv(p)
        self.say(p.obj is self.wl and st.eq(p.off, num(self.L["markov"])), "markov", "another markov chain is used", self.e.imprecise(p), at(i))

    def minit(self, e, st, a, i):
        self.markov(st, a[0], i)
        l = e.iv(a[1], 8)
        d = modnorm(l.l - self.level.l, 8)
        self.say(not d.t and d.c == 0, "markov", "the markov chain is made with length %r" % l, e.imprecise(l), at(i))
        s = st.copy()
        s.flags["chain"] = s.flags.get("chain", 0) + 1
        return [(s, None)]

    def mfree(self, e, st, a, i):
        self.markov(st, a[0], i)
        s = st.copy()
        s.flags["chain"] = s.flags.get("chain", 0) - 1
        return [(s, None)]

    # -- life
    def run(self):
        e, L = self.e, self.L
        at_start(e)
        e.chain_limit, e.const_limit = 2, 1
        self.level = IV(64, var(Atom("length of the chain", 1, 255)))
        fn = [self.ck.fn("passgen_wordlist_" + x, self.cfg) for x in ("init", "parse", "free")]
        st = State()
        st.ghost["searches"] = ival(64, 0)
        st.ghost["stored"] = ival(64, 0)
        w = PV(self.wl, ZERO)
        kinds = set()
        for s, _ in e.call(st, fn[0], [w, PV(self.file, ZERO), self.level]):
            self.say(s.flags.get("chain") == 1, "markov", "initialising a word list makes %d markov chains" % s.flags.get("chain", 0))
            self.fresh(s)
            if not self.close:
                for s in e.store(s, PV(self.wl, num(L["close"])), ival(8, 0), I8):
                    pass
            for s1, r in e.call(s, fn[1], [w]):
                for s2, l in e.canon(s1, e.iv(r, 32)):
                    for s3 in (s2.assume([l, -l]), s2.assume([l + (-1)]), s2.assume([-l + (-1)])):
                        if s3 is not None:
                            kinds.add(s3.eq(l, ZERO))
                            self.parsed(s3, s3.eq(l, ZERO))
                            for s4, _ in e.call(s3, fn[2], [w]):
                                self.gone(s4)
            for s4, _ in e.call(s, fn[2], [w]):
                self.gone(s4)
        self.say(kinds == {True, False}, "status", "parsing a word list ends with outcomes %s" % sorted(kinds), bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)

    def field(self, s, name, ty):
        r = self.e.load(s, PV(self.wl, num(self.L[name])), ty)
        return r[0][1] if len(r) == 1 else self.e.unknown(ty)

    def isv(self, s, name, ty, l):
        v = self.field(s, name, ty)
        x = self.e.canon(s, self.e.iv(v, ty.width))
        ok = len(x) == 1 and x[0][0].eq(x[0][1], l)
        return ok, v

    def fresh(self, s):
        for n, ty in (("parsed", I8), ("parsed_markov", I8), ("count", I64), ("len", I64)):
            ok, v = self.isv(s, n, ty, ZERO)
            self.say(ok, "state", "%s of a fresh word list is %r" % (n, v), self.e.imprecise(v))
        ok, v = self.isv(s, "close", I8, num(1))
        self.say(ok, "state", "a fresh word list does not own its file", self.e.imprecise(v))
        p = self.e.aspv(self.field(s, "file", PTR))
        self.say(p.obj is self.file, "state", "a fresh word list does not hold the file", self.e.imprecise(p))

    def parsed(self, s, ok):
        e = self.e
        imp = bool(e.unknown_calls)
        if not ok:
            self.say(s.flags.get("trouble") is not None, "status", "parsing fails although the file was read", imp)
            self.say(s.flags.get("closed") is None, "file", "the file is closed although parsing failed; it is closed again when released", imp)
            y, v = self.isv(s, "parsed", I8, ZERO)
            self.say(y, "state", "a word list counts as parsed although parsing failed", e.imprecise(v))
            self.say(not alive(s) and s.flags.get("words") != "live", "leak", "memory is held after parsing failed", imp)
            return
        self.say(s.flags.get("trouble") is None, "status", "parsing succeeds although %s" % s.flags.get("trouble"), imp)
        y, v = self.isv(s, "parsed", I8, num(1))
        self.say(y, "state", "a word list does not count as parsed afterwards", e.imprecise(v))
        self.say(s.flags.get("tokens") == "end", "words", "not all words are looked for", s.flags.get("tokens") is None and imp)
        self.say(bool(s.flags.get("closed")) == self.close, "file", "the file is %sclosed" % ("" if s.flags.get("closed") else "not "), imp)
        p = e.aspv(self.field(s, "file", PTR))
        self.say(p.obj is None, "file", "the word list keeps the file after reading it", e.imprecise(p))
        k = s.ghost["searches"].l - 1        # the last one finds nothing
        y, v = self.isv(s, "count", I64, k)
        self.say(y, "words", "the word list has %r words, but the file %r" % (v, k), e.imprecise(v) or e.imprecise(k) or s.flags.get("tokens") is None)
        y, v = self.isv(s, "len", I64, var(self.n))
        self.say(y, "words", "the size of the word list is %r" % v, e.imprecise(v))
        p = e.aspv(self.field(s, "words", PTR))
        d = s.ghost["stored"].l
        self.say(s.eq(d, k), "words", "%r of %r words are stored" % (d, k), e.imprecise(d) or e.imprecise(k))
        if s.entails(k + (-1)):
            self.say(s.eq(p.off, ZERO) and p.obj is self.words, "words",
                     "the array of words is %r" % p, e.imprecise(p))
            cap = s.ghost.get("capacity")
            self.say(cap is not None and s.entails(cap.l - k), "words", "the array has room for %r of %r words" % (cap, k),
                     cap is None or e.imprecise(cap) or e.imprecise(k))

    def gone(self, s):
        imp = bool(self.e.unknown_calls)
        left = [o.name for o in alive(s)] + (["the array of words"] if s.flags.get("words") == "live" else [])
        self.say(not left, "leak", "%s is not released" % ", ".join(left[:3]), imp)
        self.say(s.flags.get("chain") == 0, "leak", "the markov chain is released %d times" % (1 - s.flags.get("chain", 1)), imp)
        self.say(bool(s.flags.get("closed")) == self.close, "file", "the file is %sclosed when the word list is released"
                 % ("" if s.flags.get("closed") else "not "), imp)


def W01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(WL, cfg)
        for close in (True, False):
            jobs.append(lambda c=cfg, o=close: ck.guarded("life", "%s %s" % (c, o), Life(ck, c, o).run))
    ck.parallel(jobs)


class Use:
    """what is done with the words of a parsed list"""

    def __init__(self, ck, cfg, what):
        self.ck, self.cfg, self.what = ck, cfg, what
        self.where = "src/wordlist.c:passgen_wordlist_" + what
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.L = L = ck.layout(WL, cfg)
        watch(e, Sink(ck, cfg))
        self.count = var(Atom("number of words", 0, 1 << 40))
        self.words = e.param("words", self.count.scale(8))
        self.wl = e.param("wordlist", num(L["size"]))
        self.rand = e.param("random", None)
        self.lens = {}

        def word(e_, st, obj, off, ty):
            if ty is not PTR and ty.kind != "ptr":
                return None
            if off.c % 8 or any(c % 8 for _, c in off.t):
                return None
            return [(st, PV(self.word(num(off.c // 8) + sum((var(a).scale(c // 8) for a, c in off.t), ZERO)), ZERO))]
        self.words.attrs["init"] = word

    def word(self, k):
        o = self.e.keyobj("word", k)
        if "strlen" not in o.attrs:
            n = self.e.user_atom("strlen", (k,), 0, 1 << 30, 64)
            o.attrs["strlen"] = n
            o.size = n + 1
            o.nonnull = True
            o.attrs["index"] = k
        return o

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.cfg), imp, where)

    def state(self, parsed, markov, count=None):
        """a word list in the given state"""
        e, L, st = self.e, self.L, State()
        for n, v, ty in (("parsed", ival(8, int(parsed)), I8), ("parsed_markov", ival(8, int(markov)), I8),
                         ("count", IV(64, (self.count if count is None else count) if parsed else ZERO), I64),
                         ("words", PV(self.words, ZERO) if parsed else NULL, PTR)):
            r = e.store(st, PV(self.wl, num(L[n])), v, ty)
            assert len(r) == 1
            st = r[0]
        return st

    def drawn(self, e, st, a, i):
        d = st.flags.get("draws", 0)
        w = at(i)
        self.say(d == 0, "uniform", "more than one number is drawn", where=w)
        self.say(e.aspv(a[0]).obj is self.rand, "uniform", "another source of randomness is used", e.imprecise(a[0]), w)
        out = []
        for s, l in e.canon(st, e.iv(a[1], 64)):
            self.say(s.eq(l, self.count), "uniform", "the number drawn is below %r instead of the number of words" % l, e.imprecise(l), w)
            x = Atom("drawn", 0, 1 << 40)
            s = s.assume([l - var(x) - 1])
            if s is None:
                continue
            s = s.copy()
            s.flags["draws"] = d + 1
            s.ghost["drawn"] = IV(64, var(x))
            out.append((s, IV(64, var(x))))
        return out

    def run_random(self):
        e = self.e
        at_start(e)
        fn = self.ck.fn("passgen_wordlist_random", self.cfg)
        e.hooks["passgen_random_u64_max"] = self.drawn
        for n in ("bool", "read", "u8_max", "u16_max", "u32_max"):
            e.hooks["passgen_random_" + n] = self.other
        for n in ("u8", "u16", "u32", "u64"):
            e.hooks["passgen_random_" + n] = self.raw
        for parsed, some in ((False, False), (True, False), (True, True)):
            st = self.state(parsed, False).assume([self.count - 1] if some else [-self.count] if parsed else [])
            n = 0
            for s, r in e.call(st, fn, [PV(self.wl, ZERO), PV(self.rand, ZERO)]):
                n += 1
                p = e.aspv(r)
                imp = e.imprecise(p) or bool(e.unknown_calls)
                if not some:
                    self.say(p.obj is None and s.flags.get("draws", 0) == 0, "empty", "%r is returned and %d numbers drawn for a list %s"
                             % (p, s.flags.get("draws", 0), "without words" if parsed else "that is not parsed"), imp)
                    continue
                k = p.obj.attrs.get("index") if p.obj is not None else None
                if s.flags.get("raw"):
                    # the remainder of a raw number favours some words; anything more elaborate is not judged
                    ats = list(k.atoms()) if k is not None else []
                    rem = len(ats) == 1 and (ats[0].kind == "op" and ats[0].args[0] == "urem" or ats[0].name.startswith("raw number"))
                    self.say(False, "uniform", "the word is chosen by %r" % (k,), not rem)
                    continue
                self.say(s.flags.get("draws") == 1, "uniform", "%d numbers are drawn for a word" % s.flags.get("draws", 0), imp)
                ok = k is not None and "drawn" in s.ghost and s.eq(k, s.ghost["drawn"].l) and s.eq(p.off, ZERO)
                self.say(ok, "uniform", "word %r is returned for the number %r" % (k if k is not None else p, s.ghost.get("drawn")), imp)
            self.say(n > 0, "uniform", "choosing a word never returns", bool(e.unknown_calls))
        self.count_fn()
        drain(self.ck, e)
        self.ck.note(e)

    def other(self, e, st, a, i):
        e.unknown_calls.add("another draw")
        return [(st, e.unknown(i.ty))]

    def raw(self, e, st, a, i):
        s = st.copy()
        s.flags["raw"] = s.flags.get("raw", 0) + 1
        return [(s, IV(i.ty.width, var(Atom("raw number", 0, (1 << i.ty.width) - 1, width=i.ty.width))))]

    def count_fn(self):
        e = self.e
        fn = self.ck.fn("passgen_wordlist_count", self.cfg)
        for parsed in (True, False):
            st = self.state(parsed, False)
            for s, r in e.call(st, fn, [PV(self.wl, ZERO)]):
                for s1, l in e.canon(s, e.iv(r, 64)):
                    self.say(s1.eq(l, self.count if parsed else ZERO), "count", "the number of words is %r" % l, e.imprecise(l),
                             "src/wordlist.c:passgen_wordlist_count")

    # -- words go into the markov chain
    def decode(self, e, st, a, i):
        outp, inp = e.aspv(a[0]), e.aspv(a[3])
        w = at(i)
        res = []
        for s, cap in e.canon(st, e.iv(a[1], 64)):
            for s1, buf in e.load(s, outp, PTR, i):
                for s2, src in e.load(s1, inp, PTR, i):
                    buf, src = e.aspv(buf), e.aspv(src)
                    for s3, n in e.canon(s2, e.iv(a[4], 64)):
                        k = src.obj.attrs.get("index") if src.obj is not None else None
                        self.say(k is not None and s3.eq(src.off, ZERO), "words", "%r is decoded, which is no word" % src, e.imprecise(src), w)
                        if k is None:
                            continue
                        self.say(s3.eq(n, src.obj.attrs["strlen"]), "words", "%r of the %r bytes of a word are decoded"
                                 % (n, src.obj.attrs["strlen"]), e.imprecise(n), w)
                        self.say(not s3.entails(num(255) - cap), "words", "only %r code points of a word are decoded" % cap, e.imprecise(cap), w)
                        self.say(s3.flags.get("decoded") != "whole", "words", "a word is decoded but not added", where=w)
                        s4 = e.access(s3, "store", buf, cap.scale(4), i)
                        if s4 is None:
                            continue
                        for ok in (True, False):
                            m = Atom("code points", 0, 1 << 40)
                            u = Atom("consumed", 0, 1 << 40)
                            s5 = s4.assume([cap - var(m), n - var(u), n - var(m)] + ([var(u) - n] if ok else []))
                            if s5 is None:
                                continue
                            s5 = s5.copy()
                            d = e.newobj("decoded", "draw", var(m))
                            e.put(s5, e.canonobj(buf.obj), ("fill", buf.off, var(m).scale(4), d))
                            s5.flags["decoded"] = "whole" if ok else "part"
                            s5.flags["buffer"] = buf.obj
                            s5.ghost["word"] = IV(64, k)
                            if not ok:      # such a word may be left out
                                s5.ghost["added"] = IV(64, s5.ghost["added"].l + 1)
                            s5.ghost["length"] = IV(64, var(m))
                            for s6 in e.store(s5, outp, PV(buf.obj, buf.off + var(m).scale(4)), PTR, i):
                                for s7 in e.store(s6, inp, PV(src.obj, src.off + var(u)), PTR, i):
                                    res.append((s7, ival(32, 0) if ok else IV(32, var(Atom("decoding error", -255, -1)))))
        return res

    def add(self, e, st, a, i):
        p, buf = e.aspv(a[0]), e.aspv(a[1])
        w = at(i)
        self.say(p.obj is self.wl and st.eq(p.off, num(self.L["markov"])), "words", "another markov chain is used", e.imprecise(p), w)
        d = st.flags.get("decoded")
        self.say(d is not None and buf.obj is st.flags.get("buffer") and st.eq(buf.off, ZERO), "words",
                 "%r is added although no word was decoded there" % buf, e.imprecise(buf), w)
        out = []
        for s, n in e.canon(st, e.iv(a[2], 64)):
            for s1, wt in e.canon(s, e.iv(a[3], 32)):
                self.say(s1.eq(wt, num(1)), "words", "a word is added with weight %r" % wt, e.imprecise(wt), w)
                if d is not None:
                    self.say(s1.eq(n, s1.ghost["length"].l), "words", "%r of %r code points of a word are added" % (n, s1.ghost["length"].l),
                             e.imprecise(n), w)
                    k = s1.ghost["added"].l
                    x = s1.ghost["word"].l
                    k = k if d == "whole" else k - 1
                    self.say(s1.eq(k, x), "words", "word %r is added after %r words" % (x, k), e.imprecise(k) or e.imprecise(x), w)
                s1 = s1.copy()
                s1.flags.pop("decoded", None)
                if d == "whole":
                    s1.ghost["added"] = IV(64, s1.ghost["added"].l + 1)
                out.append((s1, None))
        return out

    def run_parse_markov(self):
        e = self.e
        at_start(e)
        e.hooks.update({"passgen_utf8_decode": self.decode, "passgen_markov_add": self.add})
        fn = self.ck.fn("passgen_wordlist_parse_markov", self.cfg)
        st = self.state(True, False)
        st.ghost["added"] = ival(64, 0)
        st.ghost["word"] = ival(64, 0)
        st.ghost["length"] = ival(64, 0)
        n = 0
        for s, _ in e.call(st, fn, [PV(self.wl, ZERO)]):
            n += 1
            imp = bool(e.unknown_calls)
            k = s.ghost["added"].l
            self.say(s.flags.get("decoded") != "whole", "words", "a word is decoded but not added", imp)
            self.say(s.eq(k, self.count), "words", "%r of the %r words are added" % (k, self.count), imp or e.imprecise(k))
            for f, want, ty in (("parsed_markov", num(1), I8), ("parsed", num(1), I8), ("count", self.count, I64)):
                for s1, v in e.load(s, PV(self.wl, num(self.L[f])), ty):
                    for s2, l in e.canon(s1, e.iv(v, ty.width)):
                        self.say(s2.eq(l, want), "state", "%s is %r afterwards" % (f, l), e.imprecise(l))
        self.say(n > 0, "words", "adding the words never ends", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)

    # -- loading
    def run_load(self):
        e = self.e
        at_start(e)
        f = e.param("file", None)
        level = IV(64, var(Atom("length of the chain", 1, 255)))

        def step(name, outcomes):
            def h(e_, st, a, i):
                self.say(e.aspv(a[0]).obj is self.wl, "load", "%s is done with another word list" % name, e.imprecise(a[0]), at(i))
                if name == "init":
                    self.say(e.aspv(a[1]).obj is f, "load", "another file is used", e.imprecise(a[1]), at(i))
                    self.say(st.eq(e.iv(a[2], 64).l, level.l), "load", "the chain has length %r" % a[2], e.imprecise(a[2]), at(i))
                out = []
                for o in outcomes:
                    s = st.copy()
                    s.flags["steps"] = st.flags.get("steps", ()) + ((name, o),)
                    out.append((s, ival(32, o) if o is not None else None))
                return out
            return h
        e.hooks.update({"passgen_wordlist_init": step("init", [None]), "passgen_wordlist_parse": step("parse", [0, 1]),
                        "passgen_wordlist_parse_markov": step("markov", [None])})
        fn = self.ck.fn("passgen_wordlist_load", self.cfg)
        want = {(("init", None), ("parse", 0), ("markov", None)), (("init", None), ("parse", 1))}
        got = set()
        for s, _ in e.call(State(), fn, [PV(self.wl, ZERO), PV(f, ZERO), level]):
            t = s.flags.get("steps", ())
            got.add(t)
            self.say(t in want, "load", "loading a word list takes the steps %s" % (t,), bool(e.unknown_calls))
        self.say(got == want, "load", "loading a word list has %d outcomes" % len(got), bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)


def W02(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(WL, cfg)
        for what in ("random", "parse_markov", "load"):
            u = lambda c=cfg, w=what: (lambda o: ck.guarded(w, "src/wordlist.c:passgen_wordlist_%s, %s" % (w, c), getattr(o, "run_" + w)))(Use(ck, c, w))
            jobs.append(u)
    ck.parallel(jobs)
