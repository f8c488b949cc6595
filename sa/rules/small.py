"""The small parts of the library: arrays (A01), errors (E01), allocation functions of a context (K01) and versions (V01)."""
from ..interp import State, INT, Unsupported
from ..interp import _PTR as PTR
from ..terms import Atom, num, var, ZERO, IV, ival, PV, NULL
from ..libc import h_memset, conststr
from .cli import sayer, at_start, at, Streams
from .container import Sink, watch, drain, alive

I8, I32, I64 = INT[1], INT[4], INT[8]
BIG = 1 << 40


def fields(prefix, ty, names):
    d = {prefix + ".size": "sizeof(%s)" % ty}
    for n in names:
        d["%s.%s" % (prefix, n)] = "offsetof(%s, %s)" % (ty, n)
    return d


ARRAY = fields("array", "passgen_array", ("data", "capacity", "items"))
ERROR = dict(ARRAY)
ERROR.update(fields("error", "passgen_error", ("message", "offset", "end", "source", "causes", "offset.codepoint", "offset.byte",
                                               "source.file", "source.line")))
CONTEXT = fields("context", "passgen_context", ("malloc", "calloc", "realloc", "free", "alloc_state"))
VERSION = fields("version", "passgen_version", ("major", "minor", "patch", "build", "prerelease"))


class Base:
    def __init__(self, ck, cfg, what, where, layout):
        self.ck, self.cfg, self.what, self.where = ck, cfg, what, where
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, where)
        self.L = ck.layout(layout, cfg)
        at_start(e)
        watch(e, Sink(ck, "%s, %s" % (what, cfg)))
        e.hooks["passgen_wipe"] = lambda e, st, a, i: h_memset(e, st, [a[0], ival(32, 0), a[1]], i)
        e.hooks["passgen_assert_fail"] = self.aborted
        e.hooks["__assert_fail"] = self.aborted

    def aborted(self, e, st, a, i):
        self.say(False, "assert", "an assertion fails on proper use", bool(e.unknown_calls), at(i))
        return []

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s, %s]" % (msg, self.what, self.cfg), imp, where)

    def raw(self, st, obj, off, ty):
        """what a place holds, looked at by the rule and not the code"""
        e = self.e
        keep, e.on_access = e.on_access, None
        r = e.load(st, PV(obj, off if not isinstance(off, int) else num(off)), ty)
        e.on_access = keep
        return r

    def value(self, st, obj, off, ty):
        r = self.raw(st, obj, off, ty)
        if len(r) != 1:
            raise Unsupported("several values are possible at %s+%r" % (obj.name, off))
        return r[0][1]

    def same(self, st, a, b):
        """two values are the same"""
        e = self.e
        if isinstance(b, (int, type(ZERO))):
            if not isinstance(a, IV):
                return False
            return st.eq(a.l, b if not isinstance(b, int) else num(b))
        if isinstance(a, IV) and isinstance(b, IV):
            return st.eq(a.l, b.l)
        if isinstance(a, IV):
            a = e.aspv(a)
        if isinstance(b, IV):
            b = e.aspv(b)
        if a is NULL or a.obj is None or b is NULL or b.obj is None:
            return (a is NULL or a.obj is None) and (b is NULL or b.obj is None)
        return a.obj is b.obj and st.eq(a.off, b.off)

    def vague(self, v):
        e = self.e
        if e.unknown_calls:
            return True
        if isinstance(v, PV) and v.obj is not None and v.obj.name.startswith("uninit("):
            return False        # what a fresh block holds is certainly not what was stored elsewhere
        return isinstance(v, IV) and e.imprecise(v.l) or isinstance(v, PV) and v.obj is not None and e.imprecise(v)

    def holds(self, st, obj, off, ty, want, rule, msg):
        v = self.value(st, obj, off, ty)
        return self.say(self.same(st, v, want), rule, msg, self.vague(v))

    def zeroed(self, st, obj, size, rule, msg):
        ok, imp = True, False
        for o in range(0, size, 8):
            v = self.value(st, obj, o, I64)
            ok, imp = ok and self.same(st, v, ZERO), imp or self.vague(v)
        return self.say(ok, rule, msg, imp)

    def done(self):
        drain(self.ck, self.e)
        self.ck.note(self.e)


# ---------------------------------------------------------------------------------------------------------------- arrays
class Array(Base):
    """an array of any length, seen from one arbitrary entry of it"""

    def __init__(self, ck, cfg, case):
        Base.__init__(self, ck, cfg, {"empty": "a fresh array", "new": "an uninitialised array", "same": "any array that has the new entry"}.get(case, "any array"),
                      "src/container/array.c", ARRAY)
        same, case = case == "same", "any" if case == "same" else case
        self.case = case
        e, L = self.e, self.L
        self.o = e.param("array", num(L["array.size"]))
        self.o.nonnull = True
        self.w = Atom("w", 0, BIG)
        self.cap, self.items = Atom("capacity", 1, BIG), Atom("items", 0, BIG)
        self.thing = e.param("the entry", None)
        self.thing.nonnull = False
        self.pushed = self.thing if same else e.param("the new entry", None)
        self.pushed.nonnull = False
        if case == "any":
            self.d = e.param("data", var(self.cap).scale(8))
            self.d.nonnull = True
            self.d.attrs["init"] = self.entry
            self.o.attrs["init"] = self.header

    def header(self, e, st, obj, off, ty):
        if off.t:
            return None
        L = self.L
        if off.c == L["array.data"]:
            return [(st, PV(self.d, ZERO))]
        if off.c == L["array.capacity"] and ty.size == 8:
            return [(st, IV(64, var(self.cap)))]
        if off.c == L["array.items"] and ty.size == 8:
            return [(st, IV(64, var(self.items)))]
        return None

    def entry(self, e, st, obj, off, ty):
        if off.c % 8 or any(c % 8 for _, c in off.t):
            return None
        k = num(off.c // 8) + sum((var(a).scale(c // 8) for a, c in off.t), ZERO)
        out = []
        s = st.assume([k - var(self.w), var(self.w) - k])
        if s is not None:
            out.append((s, PV(self.thing, ZERO)))
        s = st.assume_ne(k - var(self.w))
        if s is not None:
            o = e.keyobj("entry", k)
            o.nonnull = False
            out.append((s, PV(o, ZERO)))
        return out

    def begin(self):
        """[state, number of entries]"""
        st = State()
        if self.case == "any":
            st = st.assume([var(self.cap) - var(self.items)])
            return [(st, var(self.items))]
        out = []
        for s, _ in self.e.call(st, self.fn("init"), [PV(self.o, ZERO), ival(64, 0)]):
            out.append((s, ZERO))
        return out

    def fn(self, name):
        return self.ck.fn("passgen_array_" + name, self.cfg)

    def get(self, st, off, ty):
        return self.value(st, self.o, self.L["array." + off], ty)

    def sound(self, st, n, rule):
        """n entries, room for as many as it says, at least"""
        items, cap, d = self.get(st, "items", I64), self.get(st, "capacity", I64), self.get(st, "data", PTR)
        self.say(self.same(st, items, n), rule, "the number of entries is %r instead of %r" % (items, n), self.vague(items))
        d = self.e.aspv(d)
        if d.obj is None:
            self.say(st.eq(n, ZERO) and self.same(st, cap, 0), rule, "an array with entries or capacity has no memory", self.vague(cap))
            return None
        self.say(not st.flags.get(("freed", d.obj.id)) and st.eq(d.off, ZERO), rule, "the memory of the array was released", self.vague(d))
        self.say(st.entails(d.obj.size - self.e.iv(cap, 64).l.scale(8)), rule, "there is less memory than the capacity says", self.vague(cap))
        self.say(st.entails(self.e.iv(cap, 64).l - n), rule, "the capacity is less than the number of entries", self.vague(cap))
        return d

    def keeps(self, st, d, n, rule):
        """the entry is where it was"""
        s = st.assume([n - var(self.w) + (-1)])
        if s is None or d is None:
            return
        for s2, v in self.raw(s, d.obj, var(self.w).scale(8), PTR):
            if s2.assume([n - var(self.w) + (-1)]) is None:
                continue
            self.say(self.same(s2, v, PV(self.thing, ZERO)), rule, "an entry is lost or replaced", self.vague(v))

    def run(self):
        e = self.e
        if self.case == "new":
            c = Atom("requested", 0, BIG)
            for z in (True, False):
                m = 0
                st = State().assume([-var(c)] if z else [var(c) + (-1)])
                for s, _ in e.call(st, self.fn("init"), [PV(self.o, ZERO), IV(64, ZERO if z else var(c))]):
                    m += 1
                    d = self.sound(s, ZERO, "init")
                    v = self.get(s, "capacity", I64)
                    if d is not None:
                        self.say(s.entails(e.iv(v, 64).l - var(c)), "init", "less capacity than asked for", self.vague(v))
                    else:
                        self.say(z, "init", "no memory although capacity was asked for")
                    self.say(len(alive(s)) == (0 if d is None else 1), "release", "memory is lost")
                self.say(m > 0, "init", "initialisation does not return", bool(e.unknown_calls))
            return self.done()
        for s0, n in self.begin():
            some = s0.assume([n + (-1)])
            # push
            m = 0
            for s, _ in e.call(s0, self.fn("push"), [PV(self.o, ZERO), PV(self.pushed, ZERO)]):
                m += 1
                d = self.sound(s, n + 1, "push")
                self.keeps(s, d, n, "push")
                if d is not None:
                    v = self.value(s, d.obj, n.scale(8), PTR)
                    self.say(self.same(s, v, PV(self.pushed, ZERO)), "push", "the last entry is not the one that was pushed", self.vague(v))
                    self.owns(s, d)
            self.say(m > 0, "push", "pushing does not return", bool(e.unknown_calls))
            # get
            if some is not None:
                p = some.assume([n - var(self.w) + (-1)])
                m = 0
                for s, v in e.call(p, self.fn("get"), [PV(self.o, ZERO), IV(64, var(self.w))]):
                    m += 1
                    self.say(self.same(s, v, PV(self.thing, ZERO)), "get", "getting an entry returns something else", self.vague(v))
                    self.keeps(s, self.sound(s, n, "get"), n, "get")
                self.say(m > 0, "get", "getting an entry does not return", bool(e.unknown_calls))
            # pop
            for empty in (True, False):
                p = s0.assume([-n] if empty else [n + (-1), n - var(self.w) + (-1), var(self.w) - n + 1])
                if p is None:
                    continue
                m = 0
                for s, v in e.call(p, self.fn("pop"), [PV(self.o, ZERO)]):
                    m += 1
                    if empty:
                        self.say(self.same(s, v, NULL), "pop", "popping from an empty array does not return NULL", self.vague(v))
                    else:
                        self.say(self.same(s, v, PV(self.thing, ZERO)), "pop", "popping does not return the last entry", self.vague(v))
                    d = self.sound(s, n if empty else n + (-1), "pop")
                    if d is not None:
                        self.owns(s, d)
                self.say(m > 0, "pop", "popping does not return", bool(e.unknown_calls))
            # the entries before the last stay
            p = some and some.assume([n - var(self.w) + (-2)])
            if p is not None:
                for s, v in e.call(p, self.fn("pop"), [PV(self.o, ZERO)]):
                    self.keeps(s, self.sound(s, n + (-1), "pop"), n + (-1), "pop")
            # room for more
            c = Atom("requested", 1, BIG)
            p = s0.assume([var(c) - n])
            for s, _ in e.call(p, self.fn("realloc"), [PV(self.o, ZERO), IV(64, var(c))]):
                d = self.sound(s, n, "realloc")
                self.keeps(s, d, n, "realloc")
                v = self.get(s, "capacity", I64)
                self.say(s.entails(e.iv(v, 64).l - var(c)), "realloc", "less capacity than asked for", self.vague(v))
                if d is not None:
                    self.owns(s, d)
            # release
            m = 0
            for s, _ in e.call(s0, self.fn("free"), [PV(self.o, ZERO)]):
                m += 1
                self.owns(s, None)
                self.say(not s.flags.get(("freed", self.o.id)), "release", "the array itself is released, which its owner does")
                self.zeroed(s, self.o, self.L["array.size"], "release", "a released array still refers to what was released")
            self.say(m > 0, "release", "releasing does not return", bool(e.unknown_calls))
        self.done()

    def owns(self, s, d):
        """all memory but the current one is released, nothing else is"""
        left = [o for o in alive(s) if d is None or o is not d.obj]
        self.say(not left, "release", "memory is lost: %s" % ", ".join(o.name for o in left[:3]))
        if self.case == "any":
            if d is None or d.obj is not self.d:
                self.say(s.flags.get(("freed", self.d.id)), "release", "the memory used before is not released")
        for o in (self.thing, self.pushed):
            self.say(not s.flags.get(("freed", o.id)), "release", "an entry is released, which its owner does")


def A01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        for n in ("init", "push", "get", "pop", "free", "realloc"):
            ck.fn("passgen_array_" + n, cfg)
        ck.layout(ARRAY, cfg)
        for case in ("new", "empty", "any", "same"):
            jobs.append(lambda c=cfg, k=case: ck.guarded("array", "%s array, %s" % (k, c), Array(ck, c, k).run))
    ck.parallel(jobs)


# ---------------------------------------------------------------------------------------------------------------- errors
class Error(Base):
    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any error", "src/error.c", ERROR)
        e = self.e
        self.o = e.param("error", num(self.L["error.size"]))
        self.o.nonnull = True
        self.msg = e.param("message", None)
        self.file = e.param("file", None)
        self.pat = e.param("pattern", None)
        for o in (self.msg, self.file, self.pat):
            o.nonnull = True
            o.attrs["strlen"] = var(Atom("len(%s)" % o.name, 0, BIG))

    def fn(self, name):
        return self.ck.fn("passgen_error_" + name, self.cfg)

    def call(self, st, name, *args):
        r = self.e.call(st, self.fn(name), [PV(self.o, ZERO)] + [a if isinstance(a, IV) else PV(a, ZERO) for a in args])
        self.say(len(r) > 0, name, "%s does not return" % name, bool(self.e.unknown_calls))
        return [s for s, _ in r]

    def run(self):
        e, L = self.e, self.L
        size = L["error.size"]
        line, cp, byte = (Atom(x, 0, BIG) for x in ("line", "code point", "byte"))
        p = lambda o: PV(o, ZERO)

        def intact(a, b, skip, what):
            for o in range(0, size, 8):
                if any(x <= o < x + n for x, n in skip):
                    continue
                v, w = self.value(a, self.o, o, I64), self.value(b, self.o, o, I64)
                self.say(self.same(b, w, v), what, "setting one part of an error changes another (offset %d)" % o, self.vague(w))
        for s in self.call(State(), "init_raw", self.msg):
            self.holds(s, self.o, L["error.message"], PTR, p(self.msg), "message", "a new error does not have the message it was given")
            for o in range(0, size, 8):
                if o != L["error.message"]:
                    v = self.value(s, self.o, o, I64)
                    self.say(self.same(s, v, ZERO), "init", "a new error has a location, position or cause (offset %d)" % o, self.vague(v))
            for s2 in self.call(s, "source_set", self.file, IV(64, var(line))):
                self.holds(s2, self.o, L["error.source.file"], PTR, p(self.file), "source", "the file of an error is not the one set")
                self.holds(s2, self.o, L["error.source.line"], I64, var(line), "source", "the line of an error is not the one set")
                intact(s, s2, [(L["error.source"], 16)], "source")
                for s3 in self.call(s2, "offset_set", IV(64, var(cp)), IV(64, var(byte))):
                    self.holds(s3, self.o, L["error.offset.codepoint"], I64, var(cp), "offset", "the code point offset of an error is not the one set")
                    self.holds(s3, self.o, L["error.offset.byte"], I64, var(byte), "offset", "the byte offset of an error is not the one set")
                    intact(s2, s3, [(L["error.offset"], 16)], "offset")
                    self.causes(s3, intact)
            for s2 in self.call(s, "free"):
                self.zeroed(s2, self.o, size, "release", "a released error still refers to something")
        self.done()

    def causes(self, st, intact):
        e, L = self.e, self.L
        sts, cs = [st], []
        for k in range(6):
            c = e.param("cause%d" % k, None)
            c.nonnull = True
            cs.append(c)
            new = []
            for s in sts:
                for s2 in self.call(s, "cause_add", c):
                    intact(s, s2, [(L["error.causes"], L["array.size"])], "causes")
                    self.holds(s2, self.o, L["error.causes"] + L["array.items"], I64, num(k + 1), "causes", "the number of causes is not that of those added")
                    d = e.aspv(self.value(s2, self.o, L["error.causes"] + L["array.data"], PTR))
                    if self.say(d.obj is not None, "causes", "causes are not kept", self.vague(d)):
                        for j, x in enumerate(cs):
                            self.holds(s2, d.obj, d.off + 8 * j, PTR, PV(x, ZERO), "causes", "cause %d of %d is not the one added" % (j, k + 1))
                    new.append(s2)
            sts = new
        for s in sts:
            for s2 in self.call(s, "free"):
                self.say(not alive(s2), "release", "the list of causes is not released with the error")
                self.say(not any(s2.flags.get(("freed", x.id)) for x in cs + [self.msg, self.file, self.o]), "release", "something the error does not own is released")
                self.zeroed(s2, self.o, L["error.size"], "release", "a released error still refers to something")


class Print(Base):
    """what is printed of an error; columns are counted as a terminal shows them"""

    def __init__(self, ck, cfg, source):
        Base.__init__(self, ck, cfg, "an error with%s a location" % ("" if source else "out"), "src/error.c:passgen_error_print", ERROR)
        e, L = self.e, self.L
        self.source = source
        self.byte = Atom("byte", 0, 1 << 30)
        self.line = Atom("line", 0, BIG)
        self.o = e.param("error", num(L["error.size"]))
        self.o.nonnull = True
        self.msg, self.file, self.pat = (e.param(x, None) for x in ("message", "file", "pattern"))
        for o in (self.msg, self.file, self.pat):
            o.nonnull = True
            o.attrs["strlen"] = var(Atom("len(%s)" % o.name, 0, BIG))
        self.o.attrs["init"] = self.header
        self.out = Streams(e, self.token)

    def header(self, e, st, obj, off, ty):
        L = self.L
        if off.t:
            return None
        return {L["error.message"]: lambda: [(st, PV(self.msg, ZERO))],
                L["error.source.file"]: lambda: [(st, PV(self.file, ZERO) if self.source else NULL)],
                L["error.source.line"]: lambda: [(st, IV(64, var(self.line)))],
                L["error.offset.byte"]: lambda: [(st, IV(64, var(self.byte)))]}.get(off.c, lambda: None)()

    def token(self, st, stream, t, i):
        e = self.e
        st = st.copy()
        f = st.flags
        if stream != "stderr":
            self.say(stream != "stdout", "stream", "errors are printed to standard output", where=at(i))
            return [st]
        if t[0] == "chv":
            v = e.iv(t[1], 32)
            if not v.const:
                raise Unsupported("a character that is printed cannot be told")
            t = ("ch", v.u)
        if t[0] == "str":
            o = t[1].obj
            if o in (self.msg, self.file, self.pat):
                if not st.eq(t[1].off, ZERO):
                    self.say(False, "text", "%s is not printed from its start" % o.name, e.imprecise(t[1]), at(i))
                n = {self.msg: "message", self.file: "file", self.pat: "pattern"}[o]
                f[("seen", n)] = min(f.get(("seen", n), 0) + 1, 2)
                if n == "pattern":
                    c = st.ghost["col"].l
                    if c.t:
                        raise Unsupported("where the pattern starts cannot be told")
                    f["start"] = c.c
                f["open"] = n
                return [st]
            b = conststr(e, t[1])
            if b is None:
                self.say(False, "text", "something else than message, file and pattern is printed", True, at(i))
                return [st]
            for c in b:
                st = self.ch(st, c, i)
            return [st]
        if t[0] == "ch":
            if not isinstance(t[1], int):
                raise Unsupported("a character that is printed cannot be told")
            return [self.ch(st, t[1], i)]
        if t[0] == "num":
            if b"*" in t[1]:
                raise Unsupported("widths from arguments are not modelled")
            v = t[2]
            ok = isinstance(v, IV) and st.eq(v.l, var(self.line))
            self.say(ok and self.source, "location", "a number is printed that is not the line", bool(e.unknown_calls) or isinstance(v, IV) and e.imprecise(v.l), at(i))
            f[("seen", "line")] = 1
            return [st]
        raise Unsupported("what is printed is not modelled")

    def ch(self, st, c, i):
        st = st.copy()
        f = st.flags
        esc = f.get("esc", 0)
        if esc:
            f["esc"] = 2 if esc == 1 and c == 91 else 0 if esc == 2 and 64 <= c <= 126 else esc
            return st
        if c == 27:
            f["esc"] = 1
            return st
        if c == 10:
            st.ghost["col"] = ival(64, 0)
            f["open"] = None
            return st
        if f.get("open") == "message" or f.get("open") == "pattern":
            self.say(False, "text", "the line of the %s continues after it" % f["open"], where=at(i))
        if c == 94 and f.get(("seen", "pattern")):
            f["marks"] = min(f.get("marks", 0) + 1, 2)
            col = st.ghost["col"].l
            imp = bool(self.e.unknown_calls) or self.e.imprecise(col)
            zero = st.assume([-var(self.byte)])
            if zero is not None:
                self.say(zero.eq(col, num(f["start"])), "marker", "an error without position is not marked at the start of the pattern", imp, at(i))
            some = st.assume([var(self.byte) + (-1)])
            if some is not None:
                self.say(some.eq(col, var(self.byte) + (f["start"] - 1)), "marker",
                         "the marker is not below byte %r of the pattern: column %r with the pattern at column %d" % (self.byte, col, f["start"]), imp, at(i))
        elif f.get("start") is not None and not f.get("open") and c != 32 and f.get("marks", 0) == 0:
            self.say(False, "text", "there is something else before the marker", where=at(i))
        st.ghost["col"] = IV(64, st.ghost["col"].l + 1)
        return st

    def run(self):
        e = self.e
        st = self.out.start(State())
        st.ghost["col"] = ival(64, 0)
        n = 0
        for s, _ in e.call(st, self.ck.fn("passgen_error_print", self.cfg), [PV(self.o, ZERO), PV(self.pat, ZERO)]):
            n += 1
            imp = bool(e.unknown_calls)
            f = s.flags
            for x in ("message", "pattern") + (("file", "line") if self.source else ()):
                self.say(f.get(("seen", x)) == 1, "text", "the %s is not printed exactly once" % x, imp)
            if not self.source:
                self.say(not f.get(("seen", "file")), "text", "a location is printed although there is none", imp)
            self.say(f.get("marks") == 1, "marker", "the position is not marked exactly once", imp)
            self.say(s.eq(s.ghost["col"].l, ZERO) and not f.get("open"), "text", "the output does not end with a line break", imp)
            self.say(not f.get("esc"), "text", "the output ends within an escape sequence", imp)
        self.say(n > 0, "text", "printing an error does not return", bool(e.unknown_calls))
        self.done()


def E01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        for n in ("init_raw", "free", "print", "cause_add", "offset_set", "source_set"):
            ck.fn("passgen_error_" + n, cfg)
        ck.layout(ERROR, cfg)
        jobs.append(lambda c=cfg: ck.guarded("error", "errors, %s" % c, Error(ck, c).run))
        for source in (True, False):
            jobs.append(lambda c=cfg, k=source: ck.guarded("print", "printing, %s" % c, Print(ck, c, k).run))
    ck.parallel(jobs)


# -------------------------------------------------------------------------------------------------------------- contexts
class Context(Base):
    """allocation by the functions of a context"""
    NAMES = ("malloc", "calloc", "realloc", "free")

    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any context", "src/context.c", CONTEXT)
        e, L = self.e, self.L
        self.o = e.param("context", num(L["context.size"]))
        self.o.nonnull = True
        self.state = e.param("state", None)
        self.state.nonnull = False
        self.mem = e.param("block", None)
        self.mem.nonnull = False
        self.res = e.param("result", None)
        self.res.nonnull = False
        self.earlier = e.newobj("something set earlier", "function", None)
        self.f = {n: e.newobj(n + " of the context", "function", None) for n in self.NAMES}
        e.icall = self.icall
        for n in self.NAMES:
            e.hooks[n] = self.libc(n)

    def done_call(self, st, who, args):
        s = st.copy()
        s.flags["calls"] = s.flags.get("calls", ()) + ((who, tuple(args)),)
        return [(s, PV(self.res, ZERO))]

    def icall(self, e, st, v, args, inst):
        if v is NULL or isinstance(v, PV) and v.obj is None:
            self.say(False, "forward", "a function that is not set is called", where=at(inst))
            return []
        n = next((n for n, o in self.f.items() if isinstance(v, PV) and v.obj is o), None)
        return self.done_call(st, ("own", n), args) if n is not None else None

    def libc(self, n):
        return lambda e, st, a, i: self.done_call(st, ("libc", n), a)

    def run(self):
        e, L, ck = self.e, self.L, self.ck
        n, c = IV(64, var(Atom("size", 0, (1 << 64) - 1, width=64))), IV(64, var(Atom("count", 0, (1 << 64) - 1, width=64)))
        fn = lambda x: ck.fn("passgen_" + x, self.cfg)
        P = lambda o: PV(o, ZERO)
        for s, _ in e.call(State(), fn("context_init"), [P(self.o)]):
            self.zeroed(s, self.o, L["context.size"], "init", "a new context does not start without functions")
        # every combination of functions set or not
        args = {"malloc": [n], "calloc": [c, n], "realloc": [P(self.mem), n], "free": [P(self.mem)]}
        for mask in range(16):
            st = State()
            sts = [s for s, _ in e.call(st, fn("context_init"), [P(self.o)])]
            have = set()
            for k, name in enumerate(self.NAMES + ("alloc_state",)):
                if name != "alloc_state" and not mask >> k & 1:
                    continue
                have.add(name)
                # what was set before does not matter
                for v in (P(self.earlier), NULL, P(self.earlier), P(self.state) if name == "alloc_state" else P(self.f[name])):
                    new = []
                    for s in sts:
                        r = e.call(s, fn("context_set_" + name), [P(self.o), v])
                        self.say(len(r) > 0, "set", "context_set_%s does not return" % name, bool(e.unknown_calls))
                        for x, _ in r:
                            new.append(x)
                            w = self.value(x, self.o, L["context." + name], PTR)
                            self.say(self.same(x, w, v), "set", "the context's %s is not what was set last" % name, self.vague(w))
                    sts = new
            for s in sts:
                for name in self.NAMES:
                    v = self.value(s, self.o, L["context." + name], PTR)
                    self.say(self.same(s, v, P(self.f[name]) if name in have else NULL), "set",
                             "the context's %s is not what was set" % name, self.vague(v))
                    m = 0
                    for s2, r in e.call(s, fn(name), [P(self.o)] + args[name]):
                        m += 1
                        calls = s2.flags.get("calls", ())
                        imp = bool(e.unknown_calls)
                        want = ("own", name) if name in have else ("libc", name)
                        wargs = ([P(self.state)] if name in have else []) + args[name]
                        text = "passgen_%s with%s a function set" % (name, "" if name in have else "out")
                        if not self.say(len(calls) == 1, "forward", "%s allocates %d times" % (text, len(calls)), imp):
                            continue
                        self.say(calls[0][0] == want, "forward", "%s calls %s of %s" % (text, calls[0][0][1], {"own": "the context", "libc": "the C library"}[calls[0][0][0]]), imp)
                        got = calls[0][1]
                        self.say(len(got) == len(wargs) and all(self.same(s2, x, y) for x, y in zip(got, wargs)), "forward",
                                 "%s does not pass on the state and arguments it was given" % text, imp or any(self.vague(x) for x in got))
                        if name != "free":
                            self.say(r is not None and self.same(s2, r, P(self.res)), "forward", "%s does not return what it got" % text, imp)
                    self.say(m > 0, "forward", "passgen_%s does not return" % name, bool(e.unknown_calls))
        self.done()


def K01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        for n in ("malloc", "calloc", "realloc", "free", "context_init", "context_set_malloc", "context_set_calloc",
                  "context_set_realloc", "context_set_free", "context_set_alloc_state"):
            ck.fn("passgen_" + n, cfg)
        ck.layout(CONTEXT, cfg)
        jobs.append(lambda c=cfg: ck.guarded("context", "contexts, %s" % c, Context(ck, c).run))
    ck.parallel(jobs)


# -------------------------------------------------------------------------------------------------------------- versions
class Version(Base):
    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any two versions", "src/version.c.in:passgen_version_compatible", VERSION)

    def parts(self, name):
        return tuple(Atom("%s of %s" % (x, name), 0, 255, width=8) for x in ("major", "minor", "patch"))

    def obj(self, name, parts):
        e, L = self.e, self.L
        o = e.param(name, num(L["version.size"]))
        o.nonnull = True
        offs = {L["version.major"]: 0, L["version.minor"]: 1, L["version.patch"]: 2}

        def load(e, st, obj, off, ty):
            if off.t or off.c not in offs or ty.size != 1:
                return None
            return [(st, IV(8, var(parts[offs[off.c]])))]
        o.attrs["init"] = load
        return o

    def run(self):
        e, L, ck = self.e, self.L, self.ck
        get = ck.fn("passgen_version_get", self.cfg)
        compat = ck.fn("passgen_version_compatible", self.cfg)
        # the version of this library
        o = e.param("version", num(L["version.size"]))
        o.nonnull = True
        own = []
        for s, _ in e.call(State(), get, [PV(o, ZERO)]):
            own = [self.value(s, o, L["version." + x], I8) for x in ("major", "minor", "patch")]
        if len(own) != 3 or not all(isinstance(x, IV) and x.const for x in own):
            raise Unsupported("the version cannot be told")
        import re
        want = None
        try:
            import os
            from .. import build
            with open(os.path.join(build.REPO, "CMakeLists.txt")) as f:
                m = re.search(r"project\s*\([^)]*?VERSION\s+(\d+)\.(\d+)\.(\d+)", f.read(), re.S)
                want = m and tuple(int(x) for x in m.groups())
        except OSError:
            pass
        if want:
            for k, x in enumerate(("major", "minor", "patch")):
                self.say(own[k].u == want[k], "version", "the %s version is %d, that of the project is %d" % (x, own[k].u, want[k]),
                         where="src/version.c.in:passgen_version_get")
        have = self.parts("this library")
        asked = self.parts("the request")
        cur = self.obj("the version of this library", have)

        def hook(e, st, a, i):
            st = st.copy()
            st.flags["own"] = True
            for k, x in enumerate(("major", "minor", "patch")):
                st = e.store(st, PV(e.aspv(a[0]).obj, e.aspv(a[0]).off + L["version." + x]), IV(8, var(have[k])), I8)[0]
            return [(st, None)]
        e.hooks["passgen_version_get"] = hook
        req = self.obj("the request", asked)
        n = 0
        for s, r in e.call(State(), compat, [PV(req, ZERO)]):
            sym = s.flags.get("own")
            h = [var(x) for x in have] if sym else [num(x.u) for x in own]
            a = [var(x) for x in asked]
            for val in (True, False):
                for s2 in self.decided(s, r, val):
                    n += 1
                    imp = self.vague(r)
                    # the cases in which the verdict would be wrong
                    bad = []
                    if val:
                        s3 = s2.assume_ne(h[0] - a[0])
                        bad.append((s3, "another major version is accepted"))
                        bad.append((s2.assume([a[1] - h[1] + (-1)]), "a newer minor version is accepted"))
                        bad.append((s2.assume([a[1] - h[1], h[1] - a[1], a[2] - h[2] + (-1)]), "a newer patch version is accepted"))
                    else:
                        eq = [h[0] - a[0], a[0] - h[0]]
                        bad.append((s2.assume(eq + [h[1] - a[1] + (-1)]), "an older minor version is refused"))
                        bad.append((s2.assume(eq + [h[1] - a[1], a[1] - h[1], h[2] - a[2]]), "the same or an older patch version is refused"))
                    for b, msg in bad:
                        self.say(b is None, "compatible", msg, imp)
        self.say(n > 0, "compatible", "the question is not answered", bool(e.unknown_calls))
        del e.hooks["passgen_version_get"]
        for s, r in e.call(State(), ck.fn("passgen_is_debug", self.cfg), []):
            v = e.iv(r, 8)
            self.say(v.const and bool(v.u & 1) == (self.cfg == "Debug"), "debug", "the library does not tell whether it is a debug build",
                     self.vague(v), "src/version.c.in:passgen_is_debug")
        self.done()

    def decided(self, s, r, val):
        e = self.e
        if not isinstance(r, IV):
            return e.assume_cond(s, r, val)
        out = []
        for s2, v in e.canon(s, r):
            t = s2.assume([v + (-1)]) if val else s2.assume([-v])
            if t is not None:
                out.append(t)
        return out


def V01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        for n in ("version_get", "version_compatible", "is_debug"):
            ck.fn("passgen_" + n, cfg)
        ck.layout(VERSION, cfg)
        jobs.append(lambda c=cfg: ck.guarded("version", "versions, %s" % c, Version(ck, c).run))
    ck.parallel(jobs)
