"""Life cycles of the objects of the library (L01).

Releasing a pattern is analysed once per kind of item for an arbitrary item of an arbitrary segment (the witness) among
arbitrarily many others, whose contents are arbitrary but for owning nothing.  The containers are modelled by contract
(S01 and H01 decide what they do), and so is the release of a nested group, which is the claim itself for a smaller one.
"""
from ..interp import State, INT, Unsupported
from ..interp import _PTR as PTR
from ..terms import Atom, num, var, ZERO, IV, ival, PV, NULL, FV
from ..libc import h_memset
from .. import pattern as P
from .cli import sayer, at_start, at
from .container import Sink, watch, drain, alive

I8, I32, I64 = INT[1], INT[4], INT[8]
LL = dict(P.LAYOUT)
LL.update({"parser.size": "sizeof(passgen_parser)", "parser.state": "offsetof(passgen_parser, state)",
           "parser.pattern": "offsetof(passgen_parser, pattern)", "entry.size": "sizeof(passgen_hashmap_entry)",
           "special.size": "sizeof(passgen_pattern_special)", "set.size": "sizeof(passgen_pattern_set)",
           "hashmap.size": "sizeof(passgen_hashmap)"})
OL = {"opts.size": "sizeof(passgen_cli_opts)", "opts.presets": "offsetof(passgen_cli_opts, presets)", "opts.env": "offsetof(passgen_cli_opts, env)"}


class Base:
    def __init__(self, ck, cfg, what, where):
        self.ck, self.cfg, self.what, self.where = ck, cfg, what, where
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, where)
        self.L = e.layout = ck.layout(LL, cfg)
        at_start(e)
        watch(e, Sink(ck, "%s, %s" % (what, cfg)))
        e.hooks["passgen_wipe"] = self.wipe
        e.hooks["passgen_stack_free"] = self.stack_free

    def wipe(self, e, st, a, i):
        return h_memset(e, st, [a[0], ival(32, 0), a[1]], i)

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s, %s]" % (msg, self.what, self.cfg), imp, where)

    def once(self, st, what, key, i):
        """something is released, which may be done once"""
        st = st.copy()
        k = ("gone",) + key
        self.say(not st.flags.get(k), "release", "%s is released twice" % what, where=at(i))
        st.flags[k] = True
        return st

    def stack_free(self, e, st, a, i):
        p = e.aspv(a[0])
        st = e.require_nonnull(st, p, i)
        if st is None:
            return []
        name = self.owned(st, p, i)
        if name is not None:
            st = self.once(st, name, ("stack", name), i)
        return [(st, None)]

    def owned(self, st, p, i):
        return None

    def done(self):
        drain(self.ck, self.e)
        self.ck.note(self.e)


class Pattern(Base):
    """releasing a pattern, seen from one arbitrary item of it"""

    def __init__(self, ck, cfg, kind, fn):
        Base.__init__(self, ck, cfg, kind and "any pattern with a %s" % kind or "a pattern without alternatives", "src/pattern/pattern.c:" + fn)
        e, L = self.e, self.L
        self.kind, self.fn = kind, fn
        self.seg = Atom("segment", 0, P.MAXCOUNT)
        self.item = Atom("item", 0, P.MAXCOUNT)
        self.segs = Atom("segments", 1, P.MAXCOUNT)
        self.items = Atom("items", 1, P.MAXCOUNT)
        e.hooks.update({"passgen_stack_get": self.get, "passgen_stack_top": self.refuse, "passgen_stack_pop": self.refuse,
                        "passgen_pattern_group_free": self.group, "passgen_stack_foreach": self.refuse})
        self.root = e.param("group", num(L["pattern.size"]))
        self.root.attrs["init"] = self.load
        self.wseg = e.param("the segment", num(L["segment.size"]))
        self.wseg.attrs["init"] = self.load
        self.witem = e.param("the item", num(L["item.size"]))
        self.witem.attrs["init"] = self.load
        for o in (self.root, self.wseg, self.witem):
            o.attrs["sink"] = self.sink(o)
        self.mem = e.param("memory", num(64))
        self.mem.nonnull = True
        self.body = {"set": L["set.choices"], "special": L["special.parameters"]}
        self.entered = False

    def refuse(self, e, st, a, i):
        raise Unsupported("how the elements are reached is not modelled")

    def sink(self, obj):
        """what is overwritten is remembered apart, as loops forget what they write to"""
        def put(st, rec):
            n = rec[2] if isinstance(rec[2], int) else rec[2].c if not rec[2].t else None
            if rec[0] == "set" and not rec[1].t and n is not None:
                a, b, v = rec[1].c, rec[1].c + n, rec[3]
                zero = st.eq(v.l if isinstance(v, IV) else v if not isinstance(v, int) else num(v), ZERO)
            elif rec[0] == "s" and not rec[1].t and n is not None:
                a, b, v = rec[1].c, rec[1].c + n, rec[3]
                zero = isinstance(v, IV) and st.eq(v.l, ZERO) or isinstance(v, PV) and v.obj is None
            else:
                raise Unsupported("what is written to %s cannot be told" % obj.name)
            if not zero:
                raise Unsupported("%s is changed while it is released" % obj.name)
            k = ("zero", obj.id)
            st.flags[k] = tuple(sorted(set(st.flags.get(k, ())) | {(a, b)}))
        return put

    def stack(self, p, st):
        """which stack this is: (name, length, child)"""
        L = self.L
        if p.obj is self.root and st.eq(p.off, num(L["pattern.group"] + L["group.segments"])):
            return "segments", var(self.segs) if self.kind else ZERO
        if p.obj is self.wseg and st.eq(p.off, num(L["segment.items"])):
            return "items", var(self.items)
        if p.obj is self.witem and self.kind == "set" and st.eq(p.off, num(L["item.data"] + L["set.items"])):
            return "ranges", None
        return None, None

    def other(self, obj):
        """what an element other than the witness is"""
        return obj.attrs["key"][1] if obj.attrs.get("key", ("",))[0] == "other" else None

    def owned(self, st, p, i):
        name, _ = self.stack(p, st)
        if name is None:
            o = self.other(p.obj)
            kind = "segment" if o == "segment" else "item"
            self.say(o is not None or p.obj.kind == "param" and p.obj not in (self.root, self.wseg, self.witem), "release",
                     "%r is released as a stack, which it is not" % p, self.e.imprecise(p) or p.obj not in (self.root, self.wseg, self.witem), at(i))
        return name

    def load(self, e, st, obj, off, ty):
        L = self.L
        if off.t:
            return None
        o = off.c
        if any(a <= o and o + ty.size <= b for a, b in st.flags.get(("zero", obj.id), ())):
            return [(st, NULL if ty.kind == "ptr" else ival(ty.width, 0))]
        if obj is self.root:
            if o == L["pattern.group"] + L["group.segments"] + L["stack.len"]:
                return [(st, IV(64, var(self.segs) if self.kind else ZERO))]
            return None
        if obj is self.wseg:
            if o == L["segment.items"] + L["stack.len"]:
                return [(st, IV(64, var(self.items)))]
            return None
        if obj is self.witem:
            if o == L["item.kind"]:
                return [(st, IV(ty.width, num(L["kind." + self.kind])))]
            d = o - L["item.data"]
            if d == self.body.get(self.kind):
                return [(st, PV(self.mem, ZERO))]
            if self.kind == "special" and d == L["special.len"]:
                return [(st, IV(ty.width, var(e.keyed("ld", (obj, off, ty.size), 1, 1 << 30, "length", ty.width))))]
            return None
        k = self.other(obj)
        if k == "segment" and o == L["segment.items"] + L["stack.len"]:
            return [(st, IV(64, var(e.keyed("ld", (obj, off, 8), 0, P.MAXCOUNT, "items", 64))))]
        if k == "item":
            if o == L["item.kind"]:
                return [(st, IV(ty.width, var(e.keyed("ld", (obj, off, ty.size), 0, 3, "kind", ty.width))))]
            if ty.kind == "ptr":
                return [(st, NULL)]
        return None

    def get(self, e, st, a, i):
        p = e.aspv(a[0])
        st = e.require_nonnull(st, p, i)
        if st is None:
            return []
        name, n = self.stack(p, st)
        o = self.other(p.obj) if p.obj is not None else None
        if name in ("segments", "items"):
            self.say(not st.flags.get(("gone", "stack", name)), "lifetime", "the %s are looked at after they were released" % name, where=at(i))
            child, w, wo = ("segment", self.seg, self.wseg) if name == "segments" else ("item", self.item, self.witem)
        elif o == "segment":
            child, w, wo = "item", None, None
            n = var(e.keyed("ld", (p.obj, num(self.L["segment.items"] + self.L["stack.len"]), 8), 0, P.MAXCOUNT, "items", 64))
        else:
            return [(st, PV(e.keyobj("element", p.obj, p.off), ZERO))]
        out = []
        for s, k in e.canon(st, e.iv(a[1], 64)):
            b = s.assume([k - n])
            if b is not None:
                out.append((b, NULL))
            s = s.assume([n - k + (-1)])
            if s is None:
                continue
            if w is not None:
                h = s.assume([k - var(w), var(w) - k])
                if h is not None:
                    h = h.copy()
                    h.flags["seen", child] = True
                    out.append((h, PV(wo, ZERO)))
                s = s.assume_ne(k - var(w))
                if s is None:
                    continue
            obj = e.keyobj("other", child, p.obj, k)
            obj.nonnull = True
            obj.attrs["init"] = self.load
            obj.attrs["sink"] = lambda st, rec: True
            out.append((s, PV(obj, ZERO)))
        return out

    def group(self, e, st, a, i):
        p = e.aspv(a[0])
        if p.obj is self.root:
            if i is None or not self.entered:
                self.entered = True
                return None
            return None
        st = e.require_nonnull(st, p, i)
        if st is None:
            return []
        if p.obj is self.witem:
            self.say(self.kind == "group" and st.eq(p.off, num(self.L["item.data"])), "release", "a %s is released as a group" % self.kind, e.imprecise(p), at(i))
            st = self.once(st, "a nested group", ("group",), i)
        return [(st, None)]

    def run(self):
        e, L = self.e, self.L
        st = State()
        if self.kind:
            st = st.assume([var(self.segs) - var(self.seg) + (-1), var(self.items) - var(self.item) + (-1)])
        fn = self.ck.fn(self.fn, self.cfg)
        n = 0
        for s, _ in e.call(st, fn, [PV(self.root, num(L["pattern.group"] if "group" in self.fn else 0))]):
            n += 1
            imp = bool(e.unknown_calls)
            want = ["segments"] + (["items"] if self.kind else []) + (["ranges"] if self.kind == "set" else [])
            for w in want:
                self.say(s.flags.get(("gone", "stack", w)), "leak", "the %s are never released" % {"segments": "segments of a group",
                         "items": "items of a segment", "ranges": "ranges of a set"}[w], imp)
            if self.kind == "group":
                self.say(s.flags.get(("gone", "group")), "leak", "a nested group is never released", imp)
            if self.kind in self.body:
                self.say(s.flags.get(("freed", self.mem.id)), "leak", "the %s is never released" % {"set": "list of choices of a set",
                         "special": "name of a special item"}[self.kind], imp)
            for o in (self.root, self.wseg, self.witem):
                self.say(not s.flags.get(("freed", o.id)), "release", "%s is released on its own" % o.name)
        self.say(n > 0, "release", "releasing a pattern never returns", bool(e.unknown_calls))
        self.done()


class Env(Base):
    """releasing an environment, or the options that hold one"""

    def __init__(self, ck, cfg, fn, where):
        Base.__init__(self, ck, cfg, "any environment", where)
        e, L = self.e, self.L
        self.fn = fn
        self.opts = fn == "passgen_cli_opts_free"
        if self.opts:
            self.O = ck.layout(OL, cfg)
        self.base = self.O["opts.env"] if self.opts else 0
        self.env = e.param("opts" if self.opts else "env", num(self.O["opts.size"] if self.opts else L["env.size"]))
        self.env.attrs["init"] = self.load
        self.random = e.param("random", num(1 << 20))
        self.random.nonnull = False
        self.entry = e.param("entry", num(L["entry.size"]))
        self.entry.attrs["init"] = self.load
        self.key = e.param("name", None)
        self.key.nonnull = True
        self.value = e.param("wordlist", num(L["wl.size"]))
        self.value.nonnull = True
        e.hooks.update({"passgen_random_free": self.random_free, "passgen_hashmap_foreach": self.foreach, "passgen_hashmap_free": self.map_free,
                        "passgen_wordlist_free": self.wl_free})

    def load(self, e, st, obj, off, ty):
        L = self.L
        if off.t:
            return None
        if obj is self.env and off.c == self.base + L["env.random"]:
            return [(st, PV(self.random, ZERO))]
        if obj is self.entry and off.c == L["entry.key"]:
            return [(st, PV(self.key, ZERO))]
        if obj is self.entry and off.c == L["entry.value"]:
            return [(st, PV(self.value, ZERO))]
        return None

    def map(self, st, p):
        if p.obj is not self.env:
            return None
        for n in ("wordlists", "presets"):
            if st.eq(p.off, num(self.base + self.L["env." + n])):
                return n
        if self.opts and st.eq(p.off, num(self.O["opts.presets"])):
            return "option presets"
        return None

    def random_free(self, e, st, a, i):
        p = e.aspv(a[0])
        self.say(p.obj is self.random and st.eq(p.off, ZERO), "release", "%r is released as the random source" % p, e.imprecise(p), at(i))
        return [(self.once(st, "the random source", ("random",), i), None)]

    def foreach(self, e, st, a, i):
        name = self.map(st, e.aspv(a[0]))
        if name != "wordlists" or st.flags.get(("gone", "stack", name)):
            self.say(name is not None and name != "wordlists", "release", "%r is gone through as a map" % e.aspv(a[0]), name is None, at(i))
            return [(st, ival(32, 0))]
        if not isinstance(a[2], FV):
            self.say(False, "release", "what is called for each word list cannot be told", True, at(i))
            return [(st, ival(32, 0))]
        out = []
        for s, r in e.call(st, a[2].fn, [a[1], PV(self.entry, ZERO)], i):
            for s2, l in e.canon(s, e.iv(r, 32)):
                self.say(s2.eq(l, ZERO), "leak", "going through the word lists ends with %r after the first" % l, e.imprecise(l) or bool(e.unknown_calls), at(i))
            s = s.copy()
            self.say(not s.flags.get("visited"), "release", "the word lists are gone through twice", where=at(i))
            s.flags["visited"] = True
            out.append((s, ival(32, 0)))
        return out

    def map_free(self, e, st, a, i):
        p = e.aspv(a[0])
        name = self.map(st, p)
        self.say(name is not None, "release", "%r is released as a map" % p, e.imprecise(p), at(i))
        if name is None:
            return [(st, None)]
        return [(self.once(st, "the map of %s" % name, ("stack", name), i), None)]

    def wl_free(self, e, st, a, i):
        p = e.aspv(a[0])
        self.say(p.obj is self.value and st.eq(p.off, ZERO), "release", "%r is released as a word list" % p, e.imprecise(p), at(i))
        self.say(not st.flags.get(("freed", self.value.id)), "lifetime", "the memory of a word list is released before what it holds", where=at(i))
        return [(self.once(st, "a word list", ("wordlist",), i), None)]

    def run(self):
        e, L = self.e, self.L
        n = 0
        for s, _ in e.call(State(), self.ck.fn(self.fn, self.cfg), [PV(self.env, ZERO)]):
            n += 1
            imp = bool(e.unknown_calls)
            null = var(e.nullatom(self.random))
            self.say(s.flags.get(("gone", "random")) or s.entails(null + (-1)), "leak", "the random source is not released", imp)
            for w in ["wordlists", "presets"] + (["option presets"] if self.opts else []):
                self.say(s.flags.get(("gone", "stack", w)), "leak", "the map of %s is not released" % w, imp)
            self.say(s.flags.get(("gone", "wordlist")), "leak", "a word list does not release what it holds", imp)
            self.say(s.flags.get(("freed", self.value.id)), "leak", "the memory of a word list is not released", imp)
            self.say(s.flags.get(("freed", self.key.id)), "leak", "the name of a word list is not released", imp)
            self.say(not s.flags.get(("freed", self.env.id)), "release", "the environment itself is released, which belongs to the caller")
        self.say(n > 0, "release", "releasing never returns", bool(e.unknown_calls))
        self.done()


class Parser(Base):
    """releasing a parser hands back the pattern and releases the states"""

    def __init__(self, ck, cfg):
        Base.__init__(self, ck, cfg, "any parser", "src/parser/parser.c:passgen_parser_free")
        e, L = self.e, self.L
        self.parser = e.param("parser", num(L["parser.size"]))
        self.parser.attrs["init"] = self.load
        self.pattern = e.param("pattern", num(L["pattern.size"]))
        e.hooks["passgen_pattern_free"] = self.pattern_free

    def load(self, e, st, obj, off, ty):
        if obj is self.parser and not off.t and off.c == self.L["parser.pattern"] and ty.kind == "ptr":
            return [(st, PV(self.pattern, ZERO))]
        return None

    def owned(self, st, p, i):
        good = p.obj is self.parser and st.eq(p.off, num(self.L["parser.state"]))
        self.say(good, "release", "%r is released as the states of the parser" % p, self.e.imprecise(p), at(i))
        return "states" if good else None

    def pattern_free(self, e, st, a, i):
        self.say(False, "release", "the pattern is released, which belongs to the caller", where=at(i))
        return [(st, None)]

    def run(self):
        e = self.e
        n = 0
        for s, r in e.call(State(), self.ck.fn("passgen_parser_free", self.cfg), [PV(self.parser, ZERO)]):
            n += 1
            imp = bool(e.unknown_calls)
            self.say(s.flags.get(("gone", "stack", "states")), "leak", "the states of a parser are not released", imp)
            p = e.aspv(r)
            self.say(p.obj is self.pattern and s.eq(p.off, ZERO), "release", "%r is handed back instead of the pattern" % p, imp or e.imprecise(p))
            for o in (self.parser, self.pattern):
                self.say(not s.flags.get(("freed", o.id)), "release", "the %s is released, which belongs to the caller" % o.name)
        self.say(n > 0, "release", "releasing a parser never returns", bool(e.unknown_calls))
        self.done()


def L01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(LL, cfg)
        ck.layout(OL, cfg)
        for k in ("set", "group", "special", "literal", None):
            for fn in ("passgen_pattern_free", "passgen_pattern_group_free"):
                jobs.append(lambda c=cfg, a=(k, fn): ck.guarded("release", "pattern with %s, %s" % (a[0], c), Pattern(ck, c, *a).run))
        jobs.append(lambda c=cfg: ck.guarded("release", "environment, %s" % c, Env(ck, c, "passgen_env_free", "src/env.c:passgen_env_free").run))
        jobs.append(lambda c=cfg: ck.guarded("release", "options, %s" % c, Env(ck, c, "passgen_cli_opts_free", "src/cli/passgen.c:passgen_cli_opts_free").run))
        jobs.append(lambda c=cfg: ck.guarded("release", "parser, %s" % c, Parser(ck, c).run))
    ck.parallel(jobs)
