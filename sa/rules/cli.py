"""The command-line tool (src/cli): output, options, presets, configuration, sandbox."""
from ..interp import State, INT, Budget, _PTR as PTR, _DBL as DBL
from ..terms import Atom, modnorm, num, var, ZERO, IV, ival, PV, NULL, FP, FV
from ..libc import conststr, parse_format, strlen_of
from .. import pattern as P
from .parser import Ptrs
from .container import loc, drain, watch, alive, Sink

I8, I32, I64 = INT[1], INT[4], INT[8]
OPTS = {k: "offsetof(passgen_cli_opts, %s)" % k for k in
        ("amount", "pattern", "null", "json", "entropy", "depth", "markov_length", "presets", "env",
         "master_passphrase", "master_domain", "master_token")}
OPTS["size"] = "sizeof(passgen_cli_opts)"
OPTS["random"] = "offsetof(passgen_cli_opts, env) + offsetof(passgen_env, random)"
OPTS["depth_limit"] = "offsetof(passgen_cli_opts, env) + offsetof(passgen_env, depth_limit)"
OPTS["env.random"] = "offsetof(passgen_env, random)"
OPTS["env.size"] = "sizeof(passgen_env)"


def sayer(e, default):
    def say(cond, rule, msg, imp=False, where=None):
        e.journal.append(("ok" if cond else "und" if imp else "bad", rule, where or default, "" if cond else msg, imp))
        return cond
    return say


def at(inst, fallback="?"):
    return "%s:%s" % (loc(inst), inst.fn.name) if inst is not None else fallback


def at_start(e):
    """variables of the program have their initial values"""
    for g in e.m.globals.values():
        if g.init is not None:
            e.gobj(g).attrs["static"] = True


class Streams:
    """stdout and stderr: every writer becomes a sequence of tokens handed to on_token(st, stream, token, inst) -> [st]

    tokens: ("ch", int or Lin), ("str", PV), ("mem", PV, Lin), ("num", conversion, value)
    """
    NAMES = ("printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "write")

    def __init__(self, e, on_token):
        self.e, self.on_token = e, on_token
        self.files = {}
        for n in ("stdout", "stderr"):
            self.files[e.newobj(n, "param", None)] = n
        for n in self.NAMES:
            if n in e.m.fns and e.m.fns[n].decl:
                e.hooks[n] = self.writer(n)

    def start(self, st):
        for o, n in self.files.items():
            g = self.e.m.globals.get(n)
            if g is not None:
                st = self.e.store(st, PV(self.e.gobj(g), ZERO), PV(o, ZERO), PTR)[0]
        return st

    def file(self, v):
        v = self.e.aspv(v)
        return self.files.get(v.obj, "file")

    def format(self, fmt, args):
        if fmt is None:
            return None
        out = []
        k = 0
        for kind, t in parse_format(fmt):
            if kind == "lit":
                out += [("ch", c) for c in t]
                continue
            a = args[k] if k < len(args) else None
            k += 1
            if t == b"%c":
                out.append(("chv", a))
            elif t == b"%s":
                out.append(("str", self.e.aspv(a)))
            elif t.endswith(b"s") and b".*" in t:
                out.append(("mem", self.e.aspv(args[k]) if k < len(args) else NULL, a))
                k += 1
            else:
                out.append(("num", t, a))
        return out

    def writer(self, name):
        e = self.e

        def f(e_, st, a, i):
            which = "stdout"
            if name in ("printf",):
                toks = self.format(conststr(e, e.aspv(a[0])), a[1:])
            elif name == "fprintf":
                which = self.file(a[0])
                toks = self.format(conststr(e, e.aspv(a[1])), a[2:])
            elif name in ("puts", "fputs"):
                toks = [("str", e.aspv(a[0]))]
                if name == "puts":
                    toks.append(("ch", 10))
                else:
                    which = self.file(a[1])
            elif name in ("putchar", "fputc", "putc"):
                toks = [("chv", a[0])]
                if name != "putchar":
                    which = self.file(a[1])
            elif name == "fwrite":
                which = self.file(a[3])
                ok = isinstance(a[1], IV) and a[1].const
                toks = [("mem", e.aspv(a[0]), a[2] if ok and a[1].u == 1 else a[1])]
            else:
                fd = e.iv(a[0], 32)
                which = {1: "stdout", 2: "stderr"}.get(fd.s if fd.const else None, "file")
                toks = [("mem", e.aspv(a[1]), a[2])]
            if toks is None:
                toks = [("unknown",)]
            acc = [st.copy()]
            for t in toks:
                nxt = []
                for s in acc:
                    nxt += self.expand(s, which, t, i)
                acc = nxt
            r = e.fresh(name, i.ty.width, True) if i is not None and i.ty.kind == "int" else None
            return [(s, IV(i.ty.width, var(r)) if r is not None else None) for s in acc]
        return f

    def expand(self, s, which, t, i):
        e = self.e
        if t[0] == "str":
            c = conststr(e, t[1])
            if c is not None:
                acc = [s]
                for ch in c:
                    acc = [y for x in acc for y in self.on_token(x, which, ("ch", ch), i)]
                return acc
        if t[0] == "mem" and isinstance(t[2], IV):
            out = []
            for s2, n in e.canon(s, t[2]):
                out += self.on_token(s2, which, ("mem", t[1], n), i)
            return out
        if t[0] == "chv":
            out = []
            for s2, l in e.canon(s, e.iv(t[1], 32)):
                if not l.t:
                    out += self.on_token(s2, which, ("ch", l.c & 255), i)
                else:
                    out += self.on_token(s2, which, ("ch", l), i)
            return out
        return self.on_token(s, which, t, i)


# ------------------------------------------------------------------ X01: what is printed
def log2_of(v, ent):
    """is v the base-2 logarithm of ent"""
    if not isinstance(v, FP):
        return False
    if abs(v.k - 1.0) > 1e-12:
        return False
    fs = {}
    for f, n in v.f:
        if f.kind != "fop":
            return False
        a = f.args
        if not isinstance(a[1], FP):
            return False
        fs[(a[0], a[1])] = n
    ln2 = FP(2.0)
    return fs in ({("log", ent): 1, ("log", ln2): -1}, {("log2", ent): 1}, {("log10", ent): 1, ("log10", ln2): -1})


class Printed:
    def __init__(self, ck, cfg, null, json, entropy):
        self.ck, self.cfg = ck, cfg
        self.null, self.json, self.entropy = null, json, entropy
        self.where = "src/cli/passgen.c:passgen_cli_run"
        self.mode = "%s%s%s (%s)" % ("json" if json else "text", ", null" if null else "", ", entropy" if entropy else "", cfg)
        self.L = L = ck.layout(OPTS, cfg)
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.amount = Atom("amount", 1, (1 << 31) - 1)
        self.opts = e.param("opts", num(L["size"]))
        self.pat = e.string("pattern text", 1 << 20)
        self.random = e.param("random", None)
        self.limit = Atom("depth limit", 0, 1 << 40)
        P.attach(self.opts, Ptrs(L["size"], {
            L["amount"]: var(self.amount), L["null"]: int(null), L["json"]: int(json), L["entropy"]: int(entropy),
            L["pattern"]: PV(self.pat, ZERO), L["random"]: PV(self.random, ZERO), L["depth_limit"]: var(self.limit)}))
        self.draw = e.newobj("password", "draw", None)
        self.ent = FP(1.0, [(Atom("entropy of the password", 0, 1 << 60), 1)])
        self.streams = Streams(e, self.token)
        watch(e, Sink(ck, self.mode))
        e.hooks.update({"passgen_parse": self.parse, "passgen_pattern_free": self.pattern_free,
                        "passgen_error_print": lambda e_, st, a, i: self.errprint(st),
                        "passgen_generate_fill_utf8": self.fill(False), "passgen_generate_fill_json_utf8": self.fill(True),
                        "log2": self.fop("log2"), "log10": self.fop("log10")})

    def fop(self, n):
        return lambda e, st, a, i: [(st, FP(1.0, [(e.keyed("fop", (n, a[0]), None, None, "%s(%r)" % (n, a[0])), 1)]))]

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.mode), imp, where)

    # -- library calls
    def parse(self, e, st, a, i):
        p = e.aspv(a[2])
        self.say(p.obj is self.pat and st.eq(p.off, ZERO), "pattern", "the text that is parsed is %r, not the pattern" % p, e.imprecise(p))
        s = st.copy()
        s.flags["parsed"] = e.aspv(a[0]).obj
        f = st.copy()
        f.flags["failed"] = True
        r = self.e.user_atom("parse error", (), -(1 << 31), -1, 32)
        return [(s, ival(32, 0)), (f, IV(32, r))]

    def errprint(self, st):
        s = st.copy()
        s.flags["reported"] = True
        return [(s, None)]

    def pattern_free(self, e, st, a, i):
        s = st.copy()
        self.say(s.flags.get("parsed") is e.aspv(a[0]).obj and not s.flags.get("released"), "pattern",
                 "a pattern is released that was not parsed or already is")
        s.flags["released"] = True
        return [(s, None)]

    def fill(self, json):
        name = "passgen_generate_fill_json_utf8" if json else "passgen_generate_fill_utf8"

        def f(e, st, a, i):
            w = at(i)
            self.say(json == self.json, "escape", "%s is used" % name, where=w)
            pat, env, ent, buf = (e.aspv(x) for x in a[:4])
            self.say(st.flags.get("parsed") is pat.obj and pat.obj is not None and not st.flags.get("released"), "pattern",
                     "something else than the parsed pattern is generated", e.imprecise(pat), w)
            ok = env.obj is not None
            for off, want, ty in ((self.L["env.random"], PV(self.random, ZERO), PTR),):
                for s1, v in e.load(st, PV(env.obj, env.off + off), ty) if ok else []:
                    self.say(v == want, "environment", "generation uses %r as source of randomness" % v, e.imprecise(v), w)
            dl = self.L["depth_limit"] - self.L["env"]
            for s1, v in e.load(st, PV(env.obj, env.off + dl), I64) if ok else []:
                self.say(isinstance(v, IV) and s1.eq(v.l, var(self.limit)), "environment", "generation uses the depth limit %r" % v,
                         e.imprecise(v), w)
            out = []
            for s, ln in e.canon(st, e.iv(a[4], 64)):
                if buf.obj is None or buf.obj.size is None:
                    self.say(False, "buffer", "the buffer is %r" % buf, True, w)
                    continue
                self.say(s.entails(buf.off) and s.entails(buf.obj.size - buf.off - ln), "buffer",
                         "%r bytes are announced of a buffer of %r" % (ln, buf.obj.size), e.imprecise(ln), w)
                self.say(s.flags.get("fresh") is not True, "dropped", "a password is generated while the previous one was not printed", where=w)
                s = s.copy()
                n = Atom("length of the password", 0, 1 << 40)
                s = s.assume([ln - var(n)])
                if s is None:
                    continue
                s = s.copy()
                s.flags["fresh"] = True
                s.ghost["gen"] = IV(64, s.ghost["gen"].l + 1)
                o = e.canonobj(buf.obj)
                e.put(s, o, ("fill", buf.off, var(n), self.draw))
                wants = ent.obj is not None
                self.say(wants or not self.entropy, "entropy", "the entropy is not asked for", where=w)
                outs = [s]
                if wants:
                    outs = e.store(s, ent, self.ent, DBL)
                out += [(x, IV(64, var(n))) for x in outs]
            return out
        return f

    # -- output
    def is_password(self, s, pv, n=None):
        """does the memory hold exactly the password just generated: True, False or None"""
        e = self.e
        if pv.obj is None:
            return False
        o = e.canonobj(pv.obj)
        recs = s.mem.get(o, ())
        k = max((j for j, r in enumerate(recs) if r[0] == "fill" and r[3] is self.draw), default=None)
        if k is None:
            return None if any(r[0] == "havoc" for r in recs) else False
        off, ln = recs[k][1], recs[k][2]
        if not s.eq(off, pv.off):
            return False
        for r in recs[k + 1:]:
            if r[0] == "havoc" or r[1] is None:
                return None
            rl = num(r[2]) if isinstance(r[2], int) else r[2]
            if not (s.entails(r[1] - off - ln) or s.entails(off - r[1] - rl)):
                return False
        if n is not None:
            return s.eq(n, ln)
        z = e.load(s, PV(pv.obj, off + ln), I8)
        return all(isinstance(v, IV) and v.const and v.u == 0 for _, v in z)

    def token(self, st, which, t, i):
        s = st.copy()
        w = at(i)
        if which == "stderr":
            if t[0] == "num" and t[1][-1:] in b"fgea":
                self.entropy_printed(s, t, w)
            return [s]
        if which == "file" or t[0] == "unknown":
            self.say(False, "output", "output that cannot be told is written", True, w)
            return [s]
        item = t
        if t[0] in ("str", "mem"):
            r = self.is_password(s, t[1], t[2] if t[0] == "mem" else None)
            if r is False and t[0] == "mem" and not t[2].t and t[2].c < 64:
                # bytes of a constant
                acc = []
                for k in range(t[2].c):
                    v = self.e.load(s, PV(t[1].obj, t[1].off + k), I8)
                    if len(v) == 1 and isinstance(v[0][1], IV) and v[0][1].const:
                        acc.append(("ch", v[0][1].u))
                if len(acc) == t[2].c:
                    for x in acc:
                        s = self.step(s, x, w)
                    return [s]
            self.say(r, "output", "something else than the password generated last, all of it, is printed: %r" % (t[1],),
                     r is None or self.e.imprecise(t[1]), w)
            self.say(s.flags.get("fresh") is True, "repeated", "a password is printed again", where=w)
            s.flags["fresh"] = False
            s.ghost["printed"] = IV(64, s.ghost["printed"].l + 1)
            item = ("pw",)
        if t[0] == "num":
            self.entropy_printed(s, t, w)
        return [self.step(s, item, w)]

    def entropy_printed(self, s, t, w):
        v = t[2]
        self.say(t[1][-1:] in b"fgea", "entropy", "the entropy is printed with %r" % t[1], where=w)
        self.say(log2_of(v, self.ent), "entropy", "the entropy printed is %r, not the base-2 logarithm of what the generator reports" % (v,),
                 self.e.imprecise(v), w)
        s.ghost["entropies"] = IV(64, s.ghost["entropies"].l + 1)

    def step(self, s, t, w):
        o = s.flags.get("o")
        if self.json:
            n = self.json_step(s, o, t, w)
        else:
            n = self.text_step(s, o, t)
        if o == "broken":
            return s
        self.say(n is not None, "format", "%s is printed in state %r" % (
            "the password" if t[0] == "pw" else "a number" if t[0] == "num" else repr(chr(t[1])) if isinstance(t[1], int) else repr(t[1]), o), where=w)
        s.flags["o"] = n if n is not None else "broken"
        return s

    def text_step(self, s, o, t):
        if t[0] == "pw":
            return "password" if o in ("begin", "separator") or (o == "newline" and not self.null) else None
        if t[0] == "ch" and isinstance(t[1], int):
            if o == "password" and t[1] == 10:
                return "newline"
            if o == "password" and t[1] == 0 and self.null:
                return "separator"
        return None

    def json_step(self, s, o, t, w):
        ws = t[0] == "ch" and t[1] in (32, 9, 10, 13)
        c = chr(t[1]) if t[0] == "ch" and isinstance(t[1], int) else None
        kind, keys = (o[0], o[1]) if isinstance(o, tuple) else (o, ())
        if kind in ("begin", "array", "element", "object", "member", "colon", "value", "next", "after", "end") and ws:
            return o
        if kind == "begin":
            return "array" if c == "[" else None
        if kind in ("array", "element"):
            if c == "{":
                return ("object", ())
            return "end" if c == "]" and kind == "array" else None
        if kind in ("object", "member"):
            if c == '"':
                return ("key", keys, "")
            return None
        if kind == "key":
            if c == '"':
                return ("colon", keys + (o[2],)) if o[2] not in keys else None
            return ("key", keys, o[2] + c) if c is not None and c not in "\\\n" and len(o[2]) < 40 else None
        if kind == "colon":
            return ("value", keys) if c == ":" else None
        if kind == "value":
            if keys[-1] == "entropy" and t[0] == "num":
                return ("next", keys)
            return ("string", keys, 0) if c == '"' and keys[-1] == "output" else None
        if kind == "string":
            if t[0] == "pw":
                return ("string", keys, 1) if o[2] == 0 else None
            return ("next", keys) if c == '"' and o[2] == 1 else None
        if kind == "next":
            if c == ",":
                return ("member", keys)
            want = {"output", "entropy"} if self.entropy else {"output"}
            return "after" if c == "}" and set(keys) == want else None
        if kind == "after":
            return "element" if c == "," else "end" if c == "]" else None
        return None

    def run(self):
        e, L = self.e, self.L
        fn = self.ck.fn("passgen_cli_run", self.cfg)
        st = self.streams.start(State())
        st.flags["o"] = "begin"
        for g in ("gen", "printed", "entropies"):
            st.ghost[g] = ival(64, 0)
        rets = e.call(st, fn, [PV(self.opts, ZERO)])
        good = 0
        for s, r in rets:
            for s2, l in e.canon(s, e.iv(r, 32)):
                imp = e.imprecise(l) or bool(e.unknown_calls)
                if s2.flags.get("failed"):
                    self.say(s2.entails(l + (-1)) or s2.entails(-l + (-1)), "status", "%r is returned although the pattern is invalid" % l, imp)
                    self.say(bool(s2.flags.get("reported")), "status", "an invalid pattern is not reported")
                    self.say(s2.flags["o"] == "begin", "format", "something is printed although the pattern is invalid")
                    continue
                if not s2.eq(l, ZERO):
                    self.say(s2.entails(l + (-1)) or s2.entails(-l + (-1)), "status", "%r may be returned after printing" % l, imp)
                    self.say(False, "status", "%r is returned although every password was generated" % l, imp)
                    continue
                good += 1
                self.say(bool(s2.flags.get("released")), "pattern", "the pattern is not released")
                left = [o for o in alive(s2)]
                self.say(not left, "leak", "%s is not released" % ", ".join(o.name for o in left[:3]), imp)
                self.say(not s2.flags.get("fresh"), "dropped", "the last password is not printed")
                g, p, n = (s2.ghost[x].l for x in ("gen", "printed", "entropies"))
                self.say(s2.eq(p, var(self.amount)), "amount", "%r passwords are printed instead of the amount asked for" % p, e.imprecise(p))
                self.say(s2.eq(n, var(self.amount) if self.entropy else ZERO), "entropy", "%r entropies are printed" % n, e.imprecise(n))
                o = s2.flags["o"]
                self.say(o in (("end",) if self.json else ("newline",)), "format", "the output ends in state %r" % (o,))
        self.say(good > 0, "status", "success is never returned", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)


def X01(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(OPTS, cfg)
        ck.fn("passgen_cli_run", cfg)
        for null in (False, True):
            for json in (False, True):
                for ent in (False, True):
                    if null and json:
                        continue
                    jobs.append(lambda a=(cfg, null, json, ent): ck.guarded("output", "%s null=%s json=%s entropy=%s" % a,
                                                                            Printed(ck, *a).run))
    ck.parallel(jobs)


# ------------------------------------------------------------------ X02: options
STATUS = {k: "PASSGEN_ERROR_" + k for k in ("MULTIPLE_FORMATS", "RANDOM_ALLOC", "PATTERN_PARSE", "ALLOC", "ILLEGAL_AMOUNT",
                                            "ILLEGAL_MARKOV_LENGTH", "UNRECOGNIZED", "PRESET_NOT_FOUND")}
STATUS.update(HELP="PASSGEN_SHOW_HELP", VERSION="PASSGEN_SHOW_VERSION", sp="sizeof(struct option)",
              oname="offsetof(struct option, name)", oarg="offsetof(struct option, has_arg)",
              oflag="offsetof(struct option, flag)", oval="offsetof(struct option, val)")
# documented statuses
DOC = {"MULTIPLE_FORMATS": 1, "RANDOM_ALLOC": 2, "PATTERN_PARSE": 3, "ALLOC": 4, "ILLEGAL_AMOUNT": 5,
       "ILLEGAL_MARKOV_LENGTH": 6, "UNRECOGNIZED": 7, "PRESET_NOT_FOUND": 8}
# documented options: effect -> short name, long name, takes an argument
OPTIONS = {"amount": ("a", "amount", 1), "entropy": ("e", "entropy", 0), "help": ("h", "help", 0), "json": ("j", "json", 0),
           "list": ("l", "list", 0), "markov": ("M", "markov-length", 1), "preset": ("p", "preset", 1),
           "random": ("r", "random", 1), "version": ("v", "version", 0), "wordlist": ("w", "wordlist", 1),
           "master": ("m", "master", 1), "domain": ("d", "domain", 1), "token": ("t", "token", 1), "null": ("z", "null", 0),
           "define": ("P", "define-preset", 1)}
SPELL = {}
for _n, (_s, _l, _a) in OPTIONS.items():
    SPELL["-" + _s] = _n
    SPELL["--" + _l] = _n
INTMAX = (1 << 31) - 1


class Options:
    def __init__(self, ck, cfg, first):
        self.ck, self.cfg, self.first = ck, cfg, first
        self.L = L = dict(ck.layout(OPTS, cfg), **ck.layout(STATUS, cfg))
        self.where = "src/cli/passgen.c:passgen_cli_opts_parse"
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.opts = e.param("opts", num(L["size"]))
        self.argv = e.param("argv", num(8 * 11))
        self.args = {}
        self.words = [self.string("positional argument %d" % k) for k in (0, 1)]
        watch(e, Sink(ck, cfg))
        e.hooks.update({
            "getopt_long": self.getopt, "exit": self.exit, "atoi": self.number, "atol": self.number, "atoll": self.number,
            "strtol": self.number, "strtoul": self.number, "strtoll": self.number, "strtoull": self.number,
            "strchr": self.strchr, "strrchr": self.strrchr, "strcspn": self.strcspn, "fopen": self.fopen, "passgen_hashmap_init": self.nothing, "passgen_hashmap_free": self.nothing,
            "passgen_hashmap_insert": self.insert, "passgen_hashmap_lookup": self.lookup, "passgen_hashmap_foreach": self.foreach,
            "passgen_random_open": self.random_open, "passgen_random_free": self.random_free,
            "passgen_env_wordlist_add": self.wordlist, "passgen_random_chacha20_argon2_open": self.master,
        })
        self.strchr0 = e.hooks["strchr"]
        from ..libc import h_strchr
        self.strchr0 = h_strchr
        self.table = None

    def string(self, name):
        o = self.e.string(name, 1 << 20)
        o.attrs["text"] = name
        return o

    def arg(self, k, opt):
        o = self.args.get((k, opt))
        if o is None:
            o = self.args[(k, opt)] = self.string("argument %d (of %s)" % (k, opt))
        return o

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.cfg), imp, where)

    def log(self, s, *ev):
        s = s.copy()
        s.flags["log"] = s.flags.get("log", ()) + (ev,)
        return s

    # -- hooks
    def nothing(self, e, st, a, i):
        return [(st, None if i is None or i.ty.kind == "void" else e.unknown(i.ty))]

    def read_table(self, e, st, short, table):
        """{spelling: (value, takes an argument)} as the program defines them"""
        res = {}
        text = conststr(e, short)
        k = 0
        if text is not None:
            while k < len(text):
                c = text[k:k + 1].decode("latin1")
                k += 1
                n = 0
                while k < len(text) and text[k:k + 1] == b":":
                    n += 1
                    k += 1
                if c not in "+-:":
                    res["-" + c] = (ord(c), min(n, 2))
        L = self.L
        for j in range(100):
            base = table.off + j * L["sp"]
            vs = []
            for off, ty in ((L["oname"], PTR), (L["oarg"], I32), (L["oflag"], PTR), (L["oval"], I32)):
                r = e.load(st, PV(table.obj, base + off), ty)
                vs.append(r[0][1] if len(r) == 1 else None)
            nm, ar, fl, val = vs
            if not isinstance(nm, PV) or nm.obj is None:
                break
            t = conststr(e, nm)
            if t is None or not (isinstance(ar, IV) and ar.const and isinstance(val, IV) and val.const):
                return None
            flag = isinstance(fl, PV) and fl.obj is not None
            res["--" + t.decode("latin1")] = (val.s if not flag else None, ar.u)
        return res

    def getopt(self, e, st, a, i):
        k = st.flags.get("calls", 0)
        argc = e.iv(a[0], 32)
        self.say(argc.const and argc.u == 10 and e.aspv(a[1]).obj is self.argv, "arguments", "other arguments than those of the program are parsed")
        t = self.read_table(e, st, e.aspv(a[2]), e.aspv(a[3]))
        if t is None:
            self.say(False, "table", "the table of options cannot be told", True)
            return []
        if self.table is None:
            self.table = t
            for sp, n in SPELL.items():
                want = OPTIONS[n][2]
                self.say(sp in t, "table", "the option %s is not known" % sp)
                if sp in t:
                    self.say(t[sp][1] == want, "table", "the option %s %s an argument" % (sp, "takes no" if want else "takes"))
        out = []
        s = st.copy()
        s.flags["calls"] = k + 1
        # no more options
        if k > 0 or self.first is None:
            for n in (0, 1, 2):
                for x in self.setint(s, "optind", 10 - n):
                    x = x.copy()
                    x.flags["positional"] = n
                    out.append((x, ival(32, -1)))
        if k < (0 if self.first is None else 2):
            pick = [self.first] if k == 0 else [x for x in SPELL if len(x) == 2] + ["-?"]
            for sp in pick:
                if sp == "-?":
                    for x in self.setint(self.log(s, "opt", "unknown", None), "optind", 9):
                        out.append((x, ival(32, ord("?"))))
                    continue
                if sp not in t or t[sp][0] is None:
                    continue
                val, arg = t[sp]
                o = self.arg(k, SPELL[sp]) if arg else None
                x = self.log(s, "opt", SPELL[sp], o)
                g = e.m.globals.get("optarg")
                xs = [x]
                if g is not None:
                    xs = e.store(x, PV(e.gobj(g), ZERO), PV(o, ZERO) if o is not None else NULL, PTR)
                for x in xs:
                    for y in self.setint(x, "optind", 9):
                        out.append((y, ival(32, val)))
        return out

    def setint(self, s, name, v):
        g = self.e.m.globals.get(name)
        return self.e.store(s, PV(self.e.gobj(g), ZERO), ival(32, v), I32) if g is not None else [s]

    def exit(self, e, st, a, i):
        lg = st.flags.get("log", ())
        c = e.iv(a[0], 32)
        opts = [x for x in lg if x[0] == "opt"]
        ok = opts and opts[-1][1] == "list" and any(x[0] == "list" for x in lg) and c.const and c.u == 0
        self.say(ok, "effect", "the program exits with %r after %s" % (c, self.describe(lg)), e.imprecise(c), at(i, self.where))
        return []

    def number(self, e, st, a, i):
        p = e.aspv(a[0])
        if p.obj is None or "text" not in p.obj.attrs or not st.eq(p.off, ZERO):
            return [(st, e.unknown(i.ty, "number"))]
        v = self.value(p.obj)
        return [(st, IV(i.ty.width, v))]

    def value(self, o):
        return self.e.user_atom("number in", (o,), -INTMAX - 1, INTMAX, 32)

    def colon(self, st, arg):
        """[(st, position of the first colon of the argument or None)]"""
        for x in st.flags.get("log", ()):
            if x[0] == "colon" and x[1] is arg:
                return [(st, x[2])]
        out = []
        for s, v in self.strchr0(self.e, st, [PV(arg, ZERO), ival(32, 58)], None):
            pos = v.off if isinstance(v, PV) and v.obj is not None else None
            out.append((self.log(s, "colon", arg, pos), pos))
        return out

    def argument(self, st, p):
        """the argument a pointer is to, or to an untouched copy of"""
        e = self.e
        if p.obj is None or not st.eq(p.off, ZERO):
            return None
        if "text" in p.obj.attrs:
            return p.obj
        recs = st.mem.get(e.canonobj(p.obj), ())
        if len(recs) == 1 and recs[0][0] == "copy" and not recs[0][5] and st.eq(recs[0][1], ZERO):
            _, do, n, so, soff, _ = recs[0]
            ln = so.attrs.get("strlen")
            if "text" in so.attrs and st.eq(soff, ZERO) and ln is not None and st.entails(n - ln + (-1)):
                return so
        return None

    def strchr(self, e, st, a, i):
        p = e.aspv(a[0])
        arg = self.argument(st, p)
        c = e.iv(a[1], 32)
        if arg is None or not (c.const and c.u == 58):
            return self.strchr0(e, st, a, i)
        return [(s, PV(p.obj, pos) if pos is not None else NULL) for s, pos in self.colon(st, arg)]

    def strrchr(self, e, st, a, i):
        p = e.aspv(a[0])
        arg = self.argument(st, p)
        c = e.iv(a[1], 32)
        if arg is None or not (c.const and c.u == 58):
            return [(st, e.unknown(i.ty, "strrchr"))]
        out = []
        for s, pos in self.colon(st, arg):
            if pos is None:
                out.append((s, NULL))
                continue
            last = e.user_atom("last colon of", (arg,), 0, 1 << 40, 64)
            s = s.assume([last - pos, arg.attrs["strlen"] - last + (-1)])
            if s is not None:
                out.append((s, PV(p.obj, last)))
        return out

    def strcspn(self, e, st, a, i):
        arg = self.argument(st, e.aspv(a[0]))
        if arg is None or conststr(e, e.aspv(a[1])) != b":":
            return [(st, e.unknown(i.ty, "strcspn"))]
        return [(s, IV(64, pos if pos is not None else arg.attrs["strlen"])) for s, pos in self.colon(st, arg)]

    def fopen(self, e, st, a, i):
        p = e.aspv(a[0])
        mode = conststr(e, e.aspv(a[1]))
        f = e.keyobj("file", p.obj, p.off)
        f.nonnull = True
        ev = ("fopen", p, mode in (b"r", b"rb"), self.part(st, p, 1))
        return [(self.log(st, *ev, True), PV(f, ZERO)), (self.log(st, *ev, False), NULL)]

    def insert(self, e, st, a, i):
        m, k, v = (e.aspv(x) for x in a[:3])
        from ..terms import AggV
        r = AggV([NULL, NULL])
        if m.obj is not self.opts or not st.eq(m.off, num(self.L["presets"])):
            return [(self.log(st, "insert", m), r)]
        if conststr(e, k) is not None:
            return [(st, r)]
        return [(self.log(st, "define", self.part(st, k, 0), self.part(st, v, 1)), r)]

    def lookup(self, e, st, a, i):
        m, k = e.aspv(a[0]), e.aspv(a[1])
        ok = m.obj is self.opts and st.eq(m.off, num(self.L["presets"]))
        self.say(ok, "preset", "a preset is looked up in %r" % m, e.imprecise(m), at(i))
        o = e.keyobj("preset entry", k.obj, k.off)
        o.nonnull = True
        v = e.keyobj("preset text", k.obj, k.off)
        v.nonnull = True
        ko = self.ck.layout({"k": "offsetof(passgen_hashmap_entry, key)", "v": "offsetof(passgen_hashmap_entry, value)",
                             "s": "sizeof(passgen_hashmap_entry)"}, self.cfg)
        if o.size is None:
            o.size = num(ko["s"])
            P.attach(o, Ptrs(ko["s"], {ko["k"]: k, ko["v"]: PV(v, ZERO)}))
        return [(self.log(st, "lookup", k, v), PV(o, ZERO)), (self.log(st, "lookup", k, None), NULL)]

    def foreach(self, e, st, a, i):
        m = e.aspv(a[0])
        if m.obj is self.opts and st.eq(m.off, num(self.L["presets"])):
            st = self.log(st, "list")
        return [(st, ival(32, 0))]

    def random_open(self, e, st, a, i):
        d = e.aspv(a[1])
        n = len(st.flags.get("log", ()))
        o = e.keyobj("random source", d.obj, d.off, n)
        o.nonnull = True
        out = [(self.log(st, "open", d, o), PV(o, ZERO))]
        if d.obj is not None:
            out.append((self.log(st, "open", d, None), NULL))
        return out

    def master(self, e, st, a, i):
        o = e.keyobj("master source")
        o.nonnull = True
        return [(self.log(st, "master", tuple(e.aspv(x) for x in a[1:4]), o), PV(o, ZERO))]

    def random_free(self, e, st, a, i):
        return [(self.log(st, "free", e.aspv(a[0]).obj), None)]

    def wordlist(self, e, st, a, i):
        env, name, file = (e.aspv(x) for x in a[:3])
        self.say(env.obj is self.opts and st.eq(env.off, num(self.L["env"])), "wordlist", "the wordlist is added to %r" % env, where=at(i))
        return [(self.log(s, "wordlist", self.part(s, name, 0), file, l), ival(32, 0)) for s, l in e.canon(st, e.iv(a[3], 64))]

    # -- verdicts
    def describe(self, lg):
        o = [x[1] for x in lg if x[0] == "opt"]
        return "options (%s)" % ", ".join(o)

    def part(self, s, pv, half):
        e = self.e
        keep, e.on_access = e.on_access, None
        try:
            return self.part0(s, pv, half)
        finally:
            e.on_access = keep

    def part0(self, s, pv, half):
        """is this the text before (0) or after (1) the first colon of the argument looked at: True, False or None"""
        lg = s.flags.get("log", ())
        opts = [x for x in lg if x[0] == "opt"]
        if not opts or opts[-1][2] is None:
            return False
        arg = opts[-1][2]
        known = any(x[0] == "colon" and x[1] is arg for x in lg)
        res = True
        for s2, pos in self.colon(s, arg):
            if pos is None:
                if known:
                    return False
                continue
            ln = arg.attrs["strlen"]
            r = self.is_text(s2, pv, arg, ZERO, pos) if half == 0 else self.is_text(s2, pv, arg, pos + 1, ln - pos + (-1))
            if r is None or (r is False and not known):
                return None
            res = res and r
        return res

    def is_text(self, s, pv, src, start, length):
        """does the memory at pv hold the given part of src, NUL terminated"""
        e = self.e
        if pv.obj is None:
            return False
        k = Atom("index", 0, 1 << 40)
        s1 = s.assume([length - var(k) + (-1)])
        ok = True
        if s1 is not None:
            for s2, v in e.load(s1, PV(pv.obj, pv.off + var(k)), I8):
                want = e.load(s2, PV(src, start + var(k)), I8)
                if not isinstance(v, IV):
                    return None
                for s3, w in want:
                    if not s3.eq(v.l, w.l):
                        if e.imprecise(v):
                            return None
                        ok = False
        for s2, v in e.load(s, PV(pv.obj, pv.off + length), I8):
            if not isinstance(v, IV) or not (v.const and v.u == 0):
                if not isinstance(v, IV) or e.imprecise(v):
                    return None
                ok = ok and s2.eq(v.l, ZERO)
        return ok

    def judge(self, s, r):
        """replay the log of one path against the meaning of its options"""
        e, L = self.e, self.L
        lg = s.flags.get("log", ())
        what = self.describe(lg)
        cur = {"amount": num(1), "markov_length": num(3), "null": 0, "json": 0, "entropy": 0}
        random, preset, master = None, None, {}
        rets = e.canon(s, e.iv(r, 32))
        if len(rets) != 1:
            self.say(False, "status", "the result cannot be told", True)
            return
        s, l = rets[0]
        imp = bool(e.unknown_calls)

        def failed(name):
            want = DOC.get(name)
            ok = s.eq(l, num(want)) if want is not None else (s.entails(l + (-1)) or s.entails(-l + (-1))) and \
                not (s.eq(l, num(L["HELP"])) or s.eq(l, num(L["VERSION"])))
            self.say(ok, "status", "%s: %r is returned instead of %s" % (what, l, "status %s (%s)" % (want, name) if want else "an error status"),
                     imp or e.imprecise(l))

        groups, g = [], []
        for x in lg:
            if x[0] == "opt":
                groups.append((x, []))
                g = groups[-1][1]
            else:
                g.append(x)
        for n, (x, eff) in enumerate(groups):
            opt, arg = x[1], x[2]
            last = n == len(groups) - 1
            kinds = [y[0] for y in eff]
            if opt == "unknown":
                return failed("UNRECOGNIZED")
            if opt == "help":
                return self.say(last and s.eq(l, num(L["HELP"])), "effect", "%s: help is not shown but %r returned" % (what, l), imp)
            if opt == "version":
                return self.say(last and s.eq(l, num(L["VERSION"])), "effect", "%s: the version is not shown but %r returned" % (what, l), imp)
            if opt == "list":
                return self.say(False, "effect", "%s: the program goes on after listing the presets" % what, imp)
            if opt in ("amount", "markov"):
                v = self.value(arg)
                hi = INTMAX if opt == "amount" else 255
                fits = s.entails(v + (-1)) and s.entails(-v + hi)
                if not fits:
                    if not s.entails(-v) and not s.entails(v + (-hi - 1)):
                        return self.say(False, "effect", "%s: an %s outside of 1..%s is not told from one that is fine" % (what, opt, hi),
                                        imp)
                    return failed("ILLEGAL_AMOUNT" if opt == "amount" else "ILLEGAL_MARKOV_LENGTH")
                cur["amount" if opt == "amount" else "markov_length"] = v
            elif opt in ("null", "json", "entropy"):
                cur[opt] = 1
            elif opt in ("master", "domain", "token"):
                master[opt] = PV(arg, ZERO)
            elif opt == "preset":
                preset = arg
            elif opt == "random":
                opens = [y for y in eff if y[0] == "open" and y[1] == PV(arg, ZERO)]
                if not self.say(len(opens) == 1, "effect", "%s: the randomness source given is opened %d times" % (what, len(opens)), imp):
                    return
                if random is not None:
                    self.say([y[1] for y in eff if y[0] == "free"] == [random], "effect",
                             "%s: the randomness source it replaces is not released" % what, imp)
                random = opens[0][2]
                if random is None:
                    return failed("RANDOM_ALLOC")
            elif opt == "wordlist":
                colon = [y[2] for y in eff if y[0] == "colon" and y[1] is arg]
                if not colon:
                    return self.say(False, "effect", "%s: the name of a wordlist cannot be told" % what, True)
                pos = colon[0]
                if pos is None:
                    return failed("wordlist")
                fo = [y for y in eff if y[0] == "fopen"]
                if not self.say(len(fo) == 1, "effect", "%s: %d files are opened" % (what, len(fo)), imp):
                    return
                t = fo[0][3]
                self.say(t and fo[0][2], "effect", "%s: what is opened is not the file named after the colon, for reading" % what, t is None)
                if not fo[0][4]:
                    return failed("wordlist")
                w = [y for y in eff if y[0] == "wordlist"]
                if not self.say(len(w) == 1, "effect", "%s: %d wordlists are added" % (what, len(w)), imp):
                    return
                t = w[0][1]
                self.say(t, "effect", "%s: the wordlist is not named by what comes before the colon" % what, t is None)
                self.say(w[0][2] == PV(e.keyobj("file", fo[0][1].obj, fo[0][1].off), ZERO), "effect", "%s: the wordlist is not read from its file" % what, imp)
                self.say(s.eq(w[0][3], cur["markov_length"]), "effect", "%s: the wordlist gets markov length %r instead of %r"
                         % (what, w[0][3], cur["markov_length"]), e.imprecise(w[0][3]))
            elif opt == "define":
                colon = [y[2] for y in eff if y[0] == "colon" and y[1] is arg]
                if not colon:
                    return self.say(False, "effect", "%s: the name of a preset cannot be told" % what, True)
                pos = colon[0]
                if pos is None:
                    return failed("preset")
                d = [y for y in eff if y[0] == "define"]
                if not self.say(len(d) == 1, "effect", "%s: %d presets are defined" % (what, len(d)), imp):
                    return
                for t, nm in ((d[0][1], "name"), (d[0][2], "pattern")):
                    self.say(t, "effect", "%s: the %s of the preset defined is wrong" % (what, nm), t is None)
        end = [y for y in lg if y[0] not in ("opt",)]
        n = s.flags.get("positional")
        if n is None:
            return self.say(False, "status", "%s: %r is returned although nothing is wrong with the option" % (what, l), imp)
        look = [y for y in end if y[0] == "lookup"]
        text = None
        if preset is not None:
            if n > 0 and s.eq(l, num(1)):
                return self.say(True, "status", "")
            if not self.say(len(look) >= 1 and look[-1][1] == PV(preset, ZERO), "preset", "%s: the preset asked for is not looked up" % what, imp):
                return
            if look[-1][2] is None:
                return failed("PRESET_NOT_FOUND")
            text = PV(look[-1][2], ZERO)
        if n + (preset is not None) > 1:
            return failed("MULTIPLE_FORMATS")
        if n:
            text = PV(self.words[0], ZERO)
        if text is None:
            return self.say(s.eq(l, num(L["HELP"])), "effect", "%s: without a pattern, %r is returned instead of showing help" % (what, l), imp)
        if not self.say(s.eq(l, ZERO), "status", "%s: %r is returned although everything is fine" % (what, l), imp or e.imprecise(l)):
            return
        # the options as they are left
        for f, v in cur.items():
            ty = I64 if f in ("amount", "markov_length") else I8
            for s2, x in e.load(s, PV(self.opts, num(L[f])), ty):
                for s3, lx in e.canon(s2, e.iv(x, 64 if ty is I64 else 8)):
                    want = num(v) if isinstance(v, int) else v
                    self.say(s3.eq(lx, want), "effect", "%s: %s is %r instead of %r" % (what, f, lx, want), e.imprecise(lx))
        for s2, x in e.load(s, PV(self.opts, num(L["pattern"])), PTR):
            self.say(x == text, "effect", "%s: the pattern is %r instead of %r" % (what, x, text), e.imprecise(x))
        if random is None:
            ms = [y for y in end if y[0] == "master"]
            op = [y for y in end if y[0] == "open"]
            if "master" in master:
                want = tuple(master.get(k, NULL) for k in ("master", "domain", "token"))
                ok = len(ms) == 1 and not op and all(a == b or (b is NULL and a.obj is None) for a, b in zip(ms[0][1], want))
                self.say(ok, "random", "%s: the master passphrase, domain and token are not what randomness is derived from" % what, imp)
                random = ms[0][2] if ok else None
            else:
                ok = len(op) == 1 and not ms and op[0][1].obj is None
                self.say(ok, "random", "%s: the default source of randomness is not the system's" % what, imp)
                random = op[0][2] if ok else None
        if random is not None:
            for s2, x in e.load(s, PV(self.opts, num(L["random"])), PTR):
                self.say(x == PV(random, ZERO), "random", "%s: the source of randomness is %r instead of %r" % (what, x, random), e.imprecise(x))

    def run(self):
        e, L = self.e, self.L
        at_start(e)
        st = State()
        init = self.ck.fn("passgen_cli_opts_init", self.cfg)
        fn = self.ck.fn("passgen_cli_opts_parse", self.cfg)
        for k in range(11):
            v = NULL if k == 10 else PV(self.words[0] if k != 9 else self.words[0], ZERO)
            st = e.store(st, PV(self.argv, num(8 * k)), v, PTR)[0]
        n = 0
        for s, _ in e.call(st, init, [PV(self.opts, ZERO)]):
            s = s.copy()
            s.flags.pop("log", None)
            for s2, r in e.call(s, fn, [PV(self.opts, ZERO), ival(32, 10), PV(self.argv, ZERO)]):
                n += 1
                self.judge(s2, r)
        if self.first in (None, "-a", "-e"):
            self.say(n > 0, "status", "option parsing never returns", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)


def X02(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(OPTS, cfg)
        ck.layout(STATUS, cfg)
        ck.fn("passgen_cli_opts_parse", cfg)
        ck.layout({"k": "offsetof(passgen_hashmap_entry, key)", "v": "offsetof(passgen_hashmap_entry, value)",
                   "s": "sizeof(passgen_hashmap_entry)"}, cfg)
        for first in [None] + sorted(SPELL) if cfg == "Debug" or ck.tier != "quick" else [None] + sorted(x for x in SPELL if len(x) == 2):
            jobs.append(lambda a=(cfg, first): ck.guarded("options", "%s, first option %s" % a, Options(ck, *a).run))
    ck.parallel(jobs)


# ------------------------------------------------------------------ X03: presets
class Shape:
    """the language of a pattern of literals, sets, groups, alternatives and counts, as a list of sequences of sets"""
    LIMIT = 4000

    def __init__(self, text):
        self.t, self.k = text, 0

    def seqs(self):
        r = self.alt()
        if self.k != len(self.t):
            raise ValueError("unbalanced")
        return r

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else None

    def next(self):
        c = self.peek()
        if c is None:
            raise ValueError("ends early")
        self.k += 1
        return c

    def alt(self):
        out = self.seq()
        while self.peek() == "|":
            self.k += 1
            out = out + self.seq()
        return out

    def seq(self):
        out = [()]
        while self.peek() not in (None, "|", ")"):
            out = self.cat(out, self.times(self.atom()))
        return out

    def cat(self, a, b):
        if len(a) * len(b) > self.LIMIT:
            raise ValueError("too many alternatives")
        return [x + y for x in a for y in b]

    def atom(self):
        c = self.next()
        if c == "(":
            r = self.alt()
            if self.next() != ")":
                raise ValueError("group")
            return r
        if c == "[":
            return [(self.chars(),)]
        if c == "\\":
            c = self.next()
            if c.isalnum():
                raise ValueError("special")
        elif c in "{}]?)":
            raise ValueError("unexpected %r" % c)
        return [(c,)]

    def one(self):
        c = self.next()
        return (self.next(), True) if c == "\\" else (c, False)

    def chars(self):
        out = []
        while True:
            c, esc = self.one()
            if c == "]" and not esc:
                break
            if self.peek() == "-" and self.t[self.k + 1:self.k + 2] not in ("", "]"):
                self.k += 1
                d, _ = self.one()
                if ord(d) < ord(c):
                    raise ValueError("range")
                out += [chr(x) for x in range(ord(c), ord(d) + 1)]
            else:
                out.append(c)
        if len(set(out)) != len(out):
            raise ValueError("a character is twice in a set")
        return "".join(sorted(out))

    def times(self, a):
        lo = hi = 1
        if self.peek() == "{":
            self.k += 1
            n = ""
            while self.peek() != "}":
                n += self.next()
            self.k += 1
            p = [int(x) for x in n.split(",")]
            lo, hi = p[0], p[-1]
        out = []
        for n in range(lo, hi + 1):
            r = [()]
            for _ in range(n):
                r = self.cat(r, a)
            out += r
        if self.peek() == "?":
            self.k += 1
            out = [()] + out
        return out


def _presets():
    low, digits = "abcdefghijklmnopqrstuvwxyz", "0123456789"
    alnum = "".join(sorted(low + low.upper() + digits))
    hexa = "0123456789abcdef"
    con, vow = "bdfghjklmnprstvz", "aiou"
    word = (con, vow, con, vow, con)

    def dashed(parts):
        out = ()
        for n, p in enumerate(parts):
            out += (("-",) if n else ()) + p
        return out
    res = {"apple1": dashed([(alnum,) * 3] * 4), "apple2": dashed([(alnum,) * 6] * 3), "firefox": (alnum,) * 15,
           "edge": ("".join(sorted(low.upper() + "abcdef" + digits + ":_-")),) * 15,
           "uuid": dashed([(hexa,) * 8, (hexa,) * 4, ("4",) + (hexa,) * 3, ("89ab",) + (hexa,) * 3, (hexa,) * 12])}
    for n in range(1, 9):
        res["proquint%d" % (16 * n)] = dashed([word] * n)
    return res


class Presets:
    def __init__(self, ck, cfg):
        self.ck, self.cfg = ck, cfg
        self.where = "src/cli/passgen.c:passgen_cli_opts_init"
        self.L = ck.layout(OPTS, cfg)
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.opts = e.param("opts", num(self.L["size"]))
        self.streams = Streams(e, self.token)
        self.entry = ck.layout(ENTRY, cfg)
        e.hooks.update({"passgen_hashmap_init": self.init, "passgen_hashmap_insert": self.insert,
                        "passgen_hashmap_foreach": self.foreach})
        self.order = []

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.cfg), imp, where)

    def init(self, e, st, a, i):
        s = st.copy()
        if e.aspv(a[0]).obj is self.opts:
            s.flags["table"] = ()
            for n, g in e.m.globals.items():
                if n == "passgen_hashmap_context_utf8":
                    self.say(e.aspv(a[1]).obj is e.gobj(g), "presets", "names of presets are not compared as text", where=at(i))
        return [(s, None)]

    def insert(self, e, st, a, i):
        from ..terms import AggV
        m, k, v = (e.aspv(x) for x in a[:3])
        s = st.copy()
        if m.obj is self.opts and st.eq(m.off, num(self.L["presets"])):
            kt, vt = conststr(e, k), conststr(e, v)
            if kt is None or vt is None:
                self.say(False, "presets", "a preset that cannot be told is defined", True, at(i))
                s.flags["unknown"] = True
            else:
                s.flags["table"] = tuple(x for x in s.flags.get("table", ()) if x[0] != kt) + ((kt, vt, at(i)),)
        return [(s, AggV([NULL, NULL]))]

    def run(self):
        e = self.e
        at_start(e)
        fn = self.ck.fn("passgen_cli_opts_init", self.cfg)
        n = 0
        for s, _ in e.call(State(), fn, [PV(self.opts, ZERO)]):
            n += 1
            have = {k.decode("latin1"): (v.decode("latin1"), w) for k, v, w in s.flags.get("table", ())}
            for name, want in sorted(_presets().items()):
                if name not in have:
                    self.say(False, "presets", "there is no preset %s" % name, bool(s.flags.get("unknown")) or bool(e.unknown_calls))
                    continue
                text, w = have[name]
                try:
                    got = Shape(text).seqs()
                except (ValueError, IndexError) as x:
                    self.say(False, "presets", "the pattern %s of preset %s is not understood: %s" % (text, name, x),
                             str(x) in ("special", "too many alternatives"), w)
                    continue
                g = got[0] if got else ()
                d = next((k for k in range(max(len(g), len(want))) if g[k:k + 1] != want[k:k + 1]), None)
                self.say(len(got) == 1 and d is None, "presets",
                         "preset %s (%s) %s" % (name, text, "is not of one shape" if len(got) != 1 else
                                                "has %s at position %s instead of %s" % (g[d:d + 1] or "nothing", d, want[d:d + 1] or "nothing")
                                                if d is not None else ""), where=w)
        self.say(n > 0, "presets", "initialisation never returns", bool(e.unknown_calls))
        drain(self.ck, e)

    # -- listing
    def token(self, st, which, t, i):
        s = st.copy()
        if which == "stdout":
            o = s.flags.get("out", ())
            s.flags["out"] = o + ((t[0],) + ((t[1].obj, t[1].off) if isinstance(t[1], PV) else (t[1],)),) if len(o) < 60 else o
        return [s]

    def foreach(self, e, st, a, i):
        m, data, f = e.aspv(a[0]), a[1], a[2]
        if not isinstance(f, FV):
            self.say(False, "list", "what lists a preset cannot be told", True, at(i))
            return [(st, e.unknown(i.ty))]
        self.say(m.obj is self.opts and st.eq(m.off, num(self.L["presets"])), "list", "something else than the presets is listed", e.imprecise(m), at(i))
        E = self.entry
        ent = e.param("entry", num(E["size"]))
        key, val = e.string("name", 1 << 20), e.string("pattern", 1 << 20)
        P.attach(ent, Ptrs(E["size"], {E["key"]: PV(key, ZERO), E["value"]: PV(val, ZERO)}))
        want = tuple(("ch", ord(c)) for c in "preset ") + (("str", key, ZERO), ("ch", 32), ("str", val, ZERO), ("ch", 10))
        out = []
        for s, r in e.call(st, f.fn, [data, PV(ent, ZERO)], i):
            got = s.flags.get("out", ())
            self.say(got == want, "list", "a preset is listed as %s" % self.show(got), bool(e.unknown_calls))
            for s2, l in e.canon(s, e.iv(r, 32)):
                self.say(s2.eq(l, ZERO), "list", "listing presets ends with %r after the first" % l, e.imprecise(l))
            s = s.copy()
            s.flags["listed"] = s.flags.get("listed", 0) + 1
            out.append((s, ival(32, 0)))
        return out

    def show(self, got):
        return "".join(chr(x[1]) if x[0] == "ch" and isinstance(x[1], int) else "<%s>" % (getattr(x[1], "name", x[0]),) for x in got)

    def run_list(self):
        e = self.e
        at_start(e)
        fn = self.ck.fn("passgen_cli_presets_list", self.cfg)
        n = 0
        for s, _ in e.call(self.streams.start(State()), fn, [PV(self.opts, ZERO)]):
            n += 1
            self.say(s.flags.get("listed") == 1, "list", "the presets are listed %d times" % s.flags.get("listed", 0), bool(e.unknown_calls))
        self.say(n > 0, "list", "listing never returns", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)


ENTRY = {"key": "offsetof(passgen_hashmap_entry, key)", "value": "offsetof(passgen_hashmap_entry, value)",
         "size": "sizeof(passgen_hashmap_entry)"}


def X03(ck):
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(OPTS, cfg)
        ck.layout(ENTRY, cfg)
        ck.guarded("presets", cfg, Presets(ck, cfg).run)
        ck.guarded("list", cfg, Presets(ck, cfg).run_list)


# ------------------------------------------------------------------ X05: sandbox and main
CALLS = ("open", "openat", "read", "readv", "pread64", "lseek", "fstat", "newfstatat", "stat", "lstat", "statx", "getrandom", "exit",
         "exit_group", "brk", "munmap", "mremap", "madvise", "futex", "clock_gettime", "gettimeofday", "time", "getpid",
         "rt_sigreturn", "restart_syscall", "write", "writev", "close", "mmap", "mprotect", "ioctl", "fcntl")
HARMLESS = set(CALLS[2:25])
SECC = {"nr_" + n: "SCMP_SYS(%s)" % n for n in CALLS}
SECC.update({"ALLOW": "SCMP_ACT_ALLOW", "KT": "SCMP_ACT_KILL_THREAD", "KP": "SCMP_ACT_KILL_PROCESS", "cmp": "sizeof(struct scmp_arg_cmp)",
             "c_arg": "offsetof(struct scmp_arg_cmp, arg)", "c_op": "offsetof(struct scmp_arg_cmp, op)",
             "c_a": "offsetof(struct scmp_arg_cmp, datum_a)", "c_b": "offsetof(struct scmp_arg_cmp, datum_b)",
             "RDOK": "O_CLOEXEC|O_NOFOLLOW|O_NONBLOCK|O_NOCTTY|O_DIRECTORY|0100000", "EXEC": "PROT_EXEC",
             "RW": "PROT_READ|PROT_WRITE", "ANON": "MAP_PRIVATE|MAP_ANONYMOUS", "MANON": "MAP_ANONYMOUS",
             "WINSZ": "TIOCGWINSZ", "TCGETS": "TCGETS", "MCL": "MCL_CURRENT|MCL_FUTURE", "NO": "SECCOMP_OPS"})
del SECC["NO"]
OPS = {n: "SCMP_CMP_" + n for n in ("NE", "LT", "LE", "EQ", "GE", "GT", "MASKED_EQ")}
M64 = (1 << 64) - 1


class Rule:
    def __init__(self, nr, cmps, where):
        self.nr, self.cmps, self.where = nr, cmps, where

    def key(self):
        return (self.nr, self.cmps, self.where)

    def admits(self, args):
        for k, op, a, b in self.cmps:
            v = args[k] & M64
            if not {"NE": v != a, "LT": v < a, "LE": v <= a, "EQ": v == a, "GE": v >= a, "GT": v > a,
                    "MASKED_EQ": v & a == b & a}[op]:
                return False
        return True

    def range(self, arg):
        lo, hi = 0, M64
        for k, op, a, b in self.cmps:
            if k != arg:
                continue
            if op == "EQ":
                lo, hi = max(lo, a), min(hi, a)
            elif op == "LT":
                hi = min(hi, a - 1)
            elif op == "LE":
                hi = min(hi, a)
            elif op == "GT":
                lo = max(lo, a + 1)
            elif op == "GE":
                lo = max(lo, a)
        return lo, hi

    def without(self, arg, bits):
        """no value admitted for the argument has any of the bits set (of its low 32)"""
        bits &= 0xffffffff
        for k, op, a, b in self.cmps:
            if k == arg and op == "EQ" and a & bits == 0:
                return True
            if k == arg and op == "MASKED_EQ" and a & bits == bits and b & bits == 0:
                return True
        return False

    def having(self, arg, bits):
        return any(k == arg and (op == "EQ" and a & bits == bits or op == "MASKED_EQ" and a & bits == bits and b & bits == bits)
                   for k, op, a, b in self.cmps)

    def among(self, arg, values):
        lo, hi = self.range(arg)
        return hi < lo or (hi - lo < 16 and all(v in values for v in range(lo, hi + 1)))


class Sandbox:
    def __init__(self, ck, cfg):
        self.ck, self.cfg = ck, cfg
        self.where = "src/cli/main.c:main"
        self.L = L = dict(ck.layout(OPTS, cfg), **ck.layout(SECC, cfg))
        self.L.update(ck.layout(STATUS, cfg))
        self.ops = {v: n for n, v in ck.layout(OPS, cfg).items()}
        self.nrs = {}
        for n in CALLS:
            v = L["nr_" + n] & 0xffffffff
            self.nrs[v - (1 << 32) if v >> 31 else v] = n
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.streams = Streams(e, lambda st, which, t, i: [st])
        self.opts = None
        e.hooks.update({
            "seccomp_init": self.init, "seccomp_rule_add": self.rule_add, "seccomp_rule_add_exact": self.rule_add,
            "seccomp_rule_add_array": self.rule_array, "seccomp_rule_add_exact_array": self.rule_array,
            "seccomp_load": self.load, "seccomp_release": lambda e_, st, a, i: [(st, None)], "mlockall": self.mlock,
            "passgen_cli_opts_init": self.opts_init, "passgen_cli_opts_config": self.config, "passgen_cli_opts_parse": self.parse,
            "passgen_cli_run": self.runs, "passgen_cli_opts_free": self.free, "passgen_cli_usage": self.shows("usage"),
            "passgen_cli_show_version": self.shows("version")})

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.cfg), imp, where)

    def flag(self, st, **kw):
        s = st.copy()
        s.flags.update(kw)
        return s

    # -- filter
    def init(self, e, st, a, i):
        act = e.iv(a[0], 32)
        ok = act.const and act.u in (self.L["KT"] & 0xffffffff, self.L["KP"] & 0xffffffff)
        self.say(ok, "default", "system calls no rule allows are not fatal (action %r)" % act, e.imprecise(act), at(i))
        o = e.keyobj("filter")
        o.nonnull = True
        return [(self.flag(st, rules=()), PV(o, ZERO))]

    def cmp(self, st, pv):
        e, L = self.e, self.L
        vs = []
        for k, ty in (("c_arg", I32), ("c_op", I32), ("c_a", I64), ("c_b", I64)):
            r = e.load(st, PV(pv.obj, pv.off + L[k]), ty)
            v = r[0][1] if len(r) == 1 else None
            if isinstance(v, PV) and v.obj is None:
                v = ival(64, 0)
            if k == "c_b" and not (isinstance(v, IV) and v.const):
                v = ival(64, 0) if self.ops.get(vs[1]) != "MASKED_EQ" else v
            if not (isinstance(v, IV) and v.const):
                return None
            vs.append(v.u)
        if vs[1] not in self.ops:
            return None
        return (vs[0], self.ops[vs[1]], vs[2], vs[3])

    def add(self, st, a, cmps, i):
        e = self.e
        act, nr = e.iv(a[1], 32), e.iv(a[2], 32)
        w = at(i)
        if not (act.const and nr.const) or cmps is None or None in cmps:
            self.say(False, "filter", "a rule that cannot be told is added", True, w)
            return [(st, e.unknown(i.ty))]
        s = st
        if self.say(not st.flags.get("loaded"), "filter", "a rule is added after the filter was loaded", where=w):
            if act.u == self.L["ALLOW"] & 0xffffffff:
                s = self.flag(st, rules=st.flags.get("rules", ()) + ((nr.s, tuple(cmps), w),))
            elif act.u not in (self.L["KT"] & 0xffffffff, self.L["KP"] & 0xffffffff):
                self.say(False, "filter", "system call %s is neither allowed nor fatal (action %r)" % (self.nrs.get(nr.s, nr.s), act), where=w)
        return [(s, ival(32, 0))]

    def rule_add(self, e, st, a, i):
        n = e.iv(a[3], 32)
        cmps = None
        if n.const and len(a) == 4 + n.u:
            cmps = [self.cmp(st, e.aspv(x)) for x in a[4:]]
        elif n.const and len(a) == 4 + 3 * n.u:
            cmps = None
        return self.add(st, a, cmps, i)

    def rule_array(self, e, st, a, i):
        n = e.iv(a[3], 32)
        cmps = None
        if n.const:
            p = e.aspv(a[4])
            cmps = [self.cmp(st, PV(p.obj, p.off + k * self.L["cmp"])) for k in range(n.u)]
        return self.add(st, a, cmps, i)

    def load(self, e, st, a, i):
        rules = [Rule(*x) for x in st.flags.get("rules", ())]
        L, nr = self.L, {n: v for v, n in self.nrs.items()}
        for r in rules:
            n = self.nrs.get(r.nr)
            what = "system call %s" % (n or r.nr)
            if n in HARMLESS:
                self.say(True, "policy", "")
                continue
            if n in ("open", "openat"):
                arg = 1 if n == "open" else 2
                ok, why = r.without(arg, ~L["RDOK"]), "may open files for something else than reading"
            elif n in ("write", "writev"):
                ok, why = r.among(0, (1, 2)), "may write to something else than the standard streams"
            elif n == "close":
                ok, why = r.range(0)[0] > 2 or r.range(0)[1] < r.range(0)[0], "may close a standard stream"
            elif n == "mmap":
                ok, why = r.without(2, ~L["RW"]) and r.having(3, L["MANON"]), "may map files or executable memory"
            elif n == "mprotect":
                ok, why = r.without(2, ~L["RW"]), "may make memory executable"
            elif n == "ioctl":
                ok, why = r.among(1, (L["WINSZ"], L["TCGETS"])), "may do more than query a terminal"
            else:
                ok, why = False, "is allowed"
            self.say(ok, "policy", "%s %s" % (what, why), where=r.where)
        need = [("openat", (-100, 4096, 0, 0, 0, 0)), ("read", (3, 4096, 1, 0, 0, 0)), ("lseek", (3, 0, 0, 0, 0, 0)),
                ("newfstatat", (3, 4096, 4096, 4096, 0, 0)), ("write", (1, 4096, 1, 0, 0, 0)), ("write", (2, 4096, 1, 0, 0, 0)),
                ("close", (3, 0, 0, 0, 0, 0)), ("close", (1000, 0, 0, 0, 0, 0)), ("getrandom", (4096, 8, 0, 0, 0, 0)),
                ("exit_group", (0,) * 6), ("exit_group", (8,) * 6), ("brk", (0,) * 6), ("mmap", (0, 1 << 20, L["RW"], L["ANON"], -1, 0)),
                ("munmap", (4096, 4096, 0, 0, 0, 0)), ("mremap", (4096, 4096, 8192, 1, 0, 0))]
        for n, args in need:
            self.say(any(r.nr == nr[n] and r.admits(args) for r in rules), "needed", "the tool needs %s%s, which is fatal" %
                     (n, str(args[:3])), where=at(i))
        return [(self.flag(st, loaded=True), ival(32, 0))]

    def mlock(self, e, st, a, i):
        f = e.iv(a[0], 32)
        self.say(f.const and f.u == self.L["MCL"], "memory", "not all memory, present and future, is locked", e.imprecise(f), at(i))
        r = e.fresh("mlockall", 32, True)
        return [(self.flag(st, locked=True), IV(32, var(r)))]

    # -- life cycle
    def before(self, st, what, i):
        self.say(bool(st.flags.get("loaded")), "order", "%s happens outside of the sandbox" % what, bool(self.e.unknown_calls), at(i))
        self.say(bool(st.flags.get("locked")), "order", "%s happens before memory is locked" % what, bool(self.e.unknown_calls), at(i))

    def mine(self, st, v, what, i):
        o = self.e.aspv(v).obj
        self.say(o is st.flags.get("opts") and o is not None, "life", "%s is given options that were not initialised" % what, self.e.imprecise(v), at(i))
        self.say(not st.flags.get("freed"), "life", "%s is given options that were released" % what, where=at(i))

    def opts_init(self, e, st, a, i):
        return [(self.flag(st, opts=e.aspv(a[0]).obj), None)]

    def result(self, name, hi=(1 << 31) - 1):
        return self.e.user_atom(name, (), 0, hi, 32)

    def config(self, e, st, a, i):
        self.before(st, "reading the configuration", i)
        self.mine(st, a[0], "reading the configuration", i)
        self.say("parse" not in st.flags, "order", "the configuration overrides the options given", where=at(i))
        v = self.result("configuration")
        return [(self.flag(st, config=True), ival(32, 0))] + self.nonzero(self.flag(st, config=False), v)

    def nonzero(self, st, v):
        out = []
        for c in (v + (-1), -v + (-1)):
            s = st.assume([c])
            if s is not None:
                out.append((s, IV(32, v)))
        return out

    def parse(self, e, st, a, i):
        self.before(st, "parsing options", i)
        self.mine(st, a[0], "parsing options", i)
        self.say(st.flags.get("config") is True, "order", "options are parsed before the configuration is read", where=at(i))
        self.say(st.eq(e.iv(a[1], 32).l, self.argc.l) and e.aspv(a[2]).obj is self.argv, "life", "other arguments are parsed", where=at(i))
        v = self.result("options")
        out = [(self.flag(st, parse="ok"), ival(32, 0))]
        h, w = sorted((self.L["HELP"], self.L["VERSION"]))
        out.append((self.flag(st, parse="help"), ival(32, self.L["HELP"])))
        out.append((self.flag(st, parse="version"), ival(32, self.L["VERSION"])))
        s = self.flag(st, parse="bad")
        for cs in ([-v + (-1)], [v + (-1), -v + h - 1], [v - h - 1, -v + w - 1], [v - w - 1]):
            x = s.assume(cs)
            if x is not None:
                out.append((x, IV(32, v)))
        return out

    def runs(self, e, st, a, i):
        self.before(st, "generating", i)
        o = e.aspv(a[0]).obj
        src = st.flags.get("opts")
        self.say(o is src and o is not None, "life", "generation is given other options than those parsed", o is None, at(i))
        self.say(st.flags.get("parse") == "ok" and "run" not in st.flags, "life", "passwords are generated after parsing ended in %r"
                 % st.flags.get("parse"), where=at(i))
        self.say(not st.flags.get("freed"), "life", "generation is given options that were released", where=at(i))
        return [(self.flag(st, run="ok"), ival(32, 0))] + self.nonzero(self.flag(st, run="bad"), self.result("generation"))

    def shows(self, what):
        return lambda e, st, a, i: [(self.flag(st, **{what: st.flags.get(what, 0) + 1}), None)]

    def free(self, e, st, a, i):
        self.mine(st, a[0], "release", i)
        return [(self.flag(st, freed=True), None)]

    def run(self):
        e = self.e
        at_start(e)
        fn = self.ck.fn("main", self.cfg)
        argc = Atom("argc", 1, 1 << 20)
        self.argc = IV(32, var(argc))
        self.argv = e.param("argv", None)
        seen = set()
        for s, r in e.call(self.streams.start(State()), fn, [self.argc, PV(self.argv, ZERO)]):
            for s2, l in e.canon(s, e.iv(r, 32)):
                self.end(s2, l, seen)
        for k in ("config", "bad", "help", "version", "run", "ok"):
            self.say(k in seen, "status", "main never ends with outcome %r" % k, bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)

    def end(self, s, l, seen):
        f, imp = s.flags, bool(self.e.unknown_calls)
        imp = imp or self.e.imprecise(l)

        def same(v):
            d = modnorm(l - v, 32)
            return not d.t and d.c == 0
        if f.get("config") is None or (f["config"] is True and "parse" not in f):
            self.say(False, "status", "main returns %r without doing its work" % l, imp)
        elif f["config"] is False:
            seen.add("config")
            self.say(same(self.result("configuration")), "status", "%r is returned although reading the configuration failed" % l, imp)
        elif f["parse"] == "bad":
            seen.add("bad")
            self.say(same(self.result("options")), "status", "%r is returned instead of the status of parsing options" % l, imp)
            self.say("run" not in f, "status", "passwords are generated although the options are bad")
        elif f["parse"] in ("help", "version"):
            seen.add(f["parse"])
            shown = {"help": "usage"}.get(f["parse"], f["parse"])
            self.say(s.eq(l, ZERO), "status", "%r is returned after showing the %s" % (l, shown), imp)
            self.say(f.get(shown, 0) == 1, "status", "the %s is shown %d times" % (shown, f.get(shown, 0)), imp)
            self.say(bool(f.get("freed")), "life", "the options are not released", imp)
        elif f.get("run") == "ok":
            seen.update(("run", "ok"))
            self.say(s.eq(l, ZERO), "status", "%r is returned after success" % l, imp)
            self.say(bool(f.get("freed")), "life", "the options are not released", imp)
        elif f.get("run") == "bad":
            self.say(same(self.result("generation")), "status", "%r is returned instead of the status of generation" % l, imp)
        else:
            self.say(False, "status", "main returns %r without generating anything" % l, imp)


def X05(ck):
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.guarded("sandbox", cfg, Sandbox(ck, cfg).run)


# ------------------------------------------------------------------ X04: configuration
DIRECTIVES = {"random": "passgen_cli_opts_random", "wordlist": "passgen_cli_opts_wordlist", "preset": "passgen_cli_opts_preset"}


def cmp_bytes(e, st, p, text, i):
    """[(st, equal)]: do the bytes at p start with the text; stops at the first difference"""
    out, cur = [], [st]
    for k, c in enumerate(text):
        nxt = []
        for s in cur:
            for s1, v in e.load(s, PV(p.obj, p.off + k), I8, i):
                v = e.iv(v, 8)
                if v.const:
                    (nxt if v.u == c else out).append(s1 if v.u == c else (s1, False))
                    continue
                for s2, l in e.canon(s1, IV(8, v.l)):
                    y = s2.assume([l - c, -l + c])
                    if y is not None:
                        nxt.append(y)
                    z = s2.assume_ne(l - c)
                    if z is not None:
                        out.append((z, False))
        cur = nxt
    return out + [(s, True) for s in cur]


class Config:
    def __init__(self, ck, cfg, what):
        self.ck, self.cfg, self.what = ck, cfg, what
        self.any = None
        self.where = "src/cli/passgen.c:passgen_cli_opts_config_parse"
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.opts = e.param("opts", num(ck.layout(OPTS, cfg)["size"]))
        self.streams = Streams(e, lambda st, which, t, i: [st])
        watch(e, Sink(ck, "%s, %s" % (what, cfg)))
        for d, n in DIRECTIVES.items():
            e.hooks[n] = self.directive(d)
        e.hooks.update({"strncmp": self.strncmp, "memcmp": self.memcmp, "strncasecmp": self.other})
        self.stops = None
        for n in ("strcspn", "strchr", "strchrnul"):
            e.hooks[n] = self.search(n, e.hooks.get(n))

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s, %s]" % (msg, self.what, self.cfg), imp, where)

    def search(self, name, old):
        """looking for the end of a line in the configuration"""
        def f(e, st, a, i):
            p = e.aspv(a[0])
            if name == "strcspn":
                t = conststr(e, e.aspv(a[1]))
            else:
                c = e.iv(a[1], 32)
                t = bytes([c.u & 255]) if c.const else None
            mine = p.obj is not None and (p.obj is self.any or self.any is None and p.obj is getattr(self, "text", None))
            if t != b"\n" or not mine:
                return old(e, st, a, i) if old else [(st, e.unknown(i.ty))]
            st = e.access(st, "load", p, num(1), i)
            if st is None:
                return []
            out = []

            def found(s, q, there):
                if s is None:
                    return
                if name == "strcspn":
                    out.append((s, IV(64, q - p.off)))
                elif there or name == "strchrnul":
                    out.append((s, PV(p.obj, q)))
                else:
                    out.append((s, NULL))
            if self.any is not None:
                end = p.obj.attrs["strlen"]
                q = var(e.fresh("end of the line", 64))
                found(st.assume([q - p.off, end - q - 1]), q, True)
                found(st.copy(), end, False)
                return out
            # not before it, after the one before
            prev = ZERO
            for q, there in self.stops:
                found(st.assume([p.off - prev, q - p.off]), q, there)
                prev = q + 1
            return out
        return f

    def other(self, e, st, a, i):
        return [(st, e.unknown(i.ty))]

    def compare(self, e, st, a, i, n, stop):
        x, y = e.aspv(a[0]), e.aspv(a[1])
        tx, ty = conststr(e, x), conststr(e, y)
        if tx is None and ty is None or not n.const or x.obj is None or y.obj is None:
            return [(st, e.unknown(i.ty))]
        t, p = (tx, y) if tx is not None else (ty, x)
        if len(t) < n.u:
            t = t + b"\0"
        t = t[:n.u]
        if not stop:
            st = e.access(st, "load", p, num(n.u), i)
            if st is None:
                return []
        if self.any is not None and p.obj is self.any:
            # which bytes there are is not known; when they agree with the text, they are there
            k = len(t.split(b"\0")[0])
            eq = st.assume([self.any.attrs["strlen"] - p.off - k, p.off])
            return ([(eq, ival(32, 0))] if eq is not None else []) + [(st.copy(), ival(32, 1))]
        keep = e.on_access
        if not stop:
            e.on_access = None
        try:
            r = cmp_bytes(e, st, p, t, i)
        finally:
            e.on_access = keep
        return [(s, ival(32, 0 if eq else 1)) for s, eq in r]

    def strncmp(self, e, st, a, i):
        return self.compare(e, st, a, i, e.iv(a[2], 64), True)

    def memcmp(self, e, st, a, i):
        return self.compare(e, st, a, i, e.iv(a[2], 64), False)

    def directive(self, d):
        def f(e, st, a, i):
            self.say(e.aspv(a[0]).obj is self.opts, "effect", "a directive changes other options", e.imprecise(a[0]), at(i))
            return self.on_directive(st, d, e.aspv(a[1]), i)
        return f

    # -- any contents: memory safety
    def run_any(self):
        e = self.e
        at_start(e)
        e.merge_paths = True
        ln = var(Atom("length of the configuration", 0, 1 << 40))
        data = self.any = e.param("configuration", ln + 1)
        data.attrs["strlen"] = ln

        def init(e_, st, obj, off, ty):
            out = []
            s = st.assume([ln - off + (-1), off])
            if s is not None:
                b = e.fresh("byte", 8)
                out.append((s, IV(8, var(b))))
            s = st.assume([off - ln, ln - off])
            if s is not None:
                out.append((s, ival(8, 0)))
            s = st.assume([off - ln + (-1)])
            if s is not None:
                out.append((s, IV(8, var(e.fresh("beyond the end", 8)))))
            s = st.assume([-off + (-1)])
            if s is not None:
                out.append((s, IV(8, var(e.fresh("before the start", 8)))))
            return out

        def sink(st, rec):
            ok = rec[0] == "s" and rec[2] == 1 and isinstance(rec[3], IV) and rec[3].const and rec[3].u == 0
            self.say(ok, "terminator", "the end of the configuration may be overwritten", not ok and rec[0] == "s" and self.e.imprecise(rec[3]))
        data.attrs["init"] = init
        data.attrs["sink"] = sink

        def arg(st, d, p, i):
            ok = p.obj is data and st.entails(p.off) and st.entails(ln - p.off)
            self.say(ok, "in-bounds", "%s is given a text at %r, outside of the configuration" % (d, p), e.imprecise(p), at(i))
            return [(st, IV(32, var(e.fresh("result", 32))))]
        self.on_directive = arg
        fn = self.ck.fn("passgen_cli_opts_config_parse", self.cfg)
        n = 0
        for s, r in e.call(self.streams.start(State()), fn, [PV(self.opts, ZERO), PV(data, ZERO)]):
            n += 1
        self.say(n > 0, "status", "parsing never returns", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)

    # -- given structure, any values: effects
    def run_lines(self, parts, want):
        """parts: constant text, or ("v", name) a value: any text without newline or NUL that starts with no blank,
        ("p", name) such a value without the characters directives and comments start with, ("c", name) the rest of a comment"""
        e = self.e
        at_start(e)
        pos = ZERO
        e.unroll_outer, e.max_steps = 40, 60000
        marks, vals = [], {}
        for p in parts:
            if isinstance(p, str):
                for c in p.encode("latin1"):
                    marks.append((pos, c))
                    pos = pos + 1
            else:
                n = var(Atom("len(%s)" % p[1], 0 if p[0] == "c" else 1, 1 << 30))
                vals[p[1]] = (pos, n, p[0])
                pos = pos + n
        end = pos
        self.text = data = e.param("configuration", end + 1)
        data.attrs["strlen"] = end
        self.stops = [(p, True) for p, c in marks if c == 10] + [(end, False)]

        def init(e_, st, obj, off, ty):
            if ty.kind != "int" or ty.width != 8:
                return None
            out = []
            a = e.ld_atom(obj, off, 1)
            for p, c in marks:
                s = st.assume([off - p, p - off])
                if s is not None:
                    out.append((s, ival(8, c)))
            for p, n, k in vals.values():
                s = st.assume([off - p, p + n - off + (-1), a + (-1)])
                for c in (b"\n#rwp" if k == "p" else b"\n"):
                    s = s.assume_ne(a - c) if s is not None else None
                if s is None:
                    continue
                if k == "c":
                    out.append((s, IV(8, a)))
                    continue
                y = s.assume([off - p + (-1)])
                if y is not None:
                    out.append((y, IV(8, a)))
                y = s.assume([p - off])
                for c in (32, 9):
                    y = y.assume_ne(a - c) if y is not None else None
                if y is not None:
                    out.append((y, IV(8, a)))
            s = st.assume([off - end, end - off])
            if s is not None:
                out.append((s, ival(8, 0)))
            return out         # nothing is known of what lies beyond the end: the access itself is refuted
        data.attrs["init"] = init

        def arg(st, d, p, i):
            s = st.copy()
            k = len(st.flags.get("log", ()))
            s.flags["log"] = st.flags.get("log", ()) + (d,)
            if k >= len(want):
                self.say(False, "effect", "%s is applied though it is not in the configuration" % d, e.imprecise(p) or e.doubtful(st), at(i))
                return [(s, ival(32, 0))]
            wd, wv = want[k]
            self.say(d == wd, "effect", "%s is applied instead of %s" % (d, wd), e.doubtful(st), where=at(i))
            o, n, _ = vals[wv]
            imp = e.imprecise(p) or e.doubtful(st)
            self.say(p.obj is data and st.eq(p.off, o), "effect", "the value of %s starts at %r instead of %r" % (d, p.off, o), imp, at(i))
            keep, e.on_access = e.on_access, None
            try:
                for s1, v in e.load(st, PV(data, o + n), I8):
                    self.say(isinstance(v, IV) and v.const and v.u == 0, "effect", "the value of %s does not end with its line" % d,
                             imp or e.imprecise(v), at(i))
                x = Atom("index", 0, 1 << 30)
                s1 = st.assume([n - var(x) + (-1)])
                for s2, v in (e.load(s1, PV(data, o + var(x)), I8) if s1 is not None else []):
                    for s3, l in e.canon(s2, e.iv(v, 8)):
                        self.say(s3.eq(l, e.ld_atom(data, o + var(x), 1)) or s3.entails(l + (-1)) and not l.t, "effect",
                                 "the value of %s is changed" % d, e.imprecise(l), at(i))
            finally:
                e.on_access = keep
            return [(s, ival(32, 0))]
        self.on_directive = arg
        fn = self.ck.fn("passgen_cli_opts_config_parse", self.cfg)
        n = 0
        try:
            rets = e.call(self.streams.start(State()), fn, [PV(self.opts, ZERO), PV(data, ZERO)])
        except Budget:
            # what the first iterations do wrong is wrong whatever follows
            e.journal = [j for j in e.salvage if j[0] == "bad"]
            drain(self.ck, e)
            raise
        for s, r in rets:
            n += 1
            got = s.flags.get("log", ())
            self.say(len(got) == len(want), "effect", "%d of the %d directives are applied" % (len(got), len(want)),
                     bool(e.unknown_calls) or e.doubtful(s))
            for s2, l in e.canon(s, e.iv(r, 32)):
                self.say(s2.eq(l, ZERO), "status", "%r is returned although the configuration is fine" % l, e.imprecise(l))
        self.say(n > 0, "status", "parsing never returns", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)


LINES = [
    ("one directive", lambda d, o: [d + " ", ("v", "value"), "\n"], lambda d, o: [(d, "value")]),
    ("no newline at the end", lambda d, o: [d + " ", ("v", "value")], lambda d, o: [(d, "value")]),
    ("several blanks", lambda d, o: [d + " \t ", ("v", "value"), "\n"], lambda d, o: [(d, "value")]),
    ("after a comment", lambda d, o: ["#", ("c", "comment"), "\n" + d + " ", ("v", "value"), "\n"], lambda d, o: [(d, "value")]),
    ("in a comment", lambda d, o: ["#" + d + " x\n"], lambda d, o: []),
    ("comment at the end", lambda d, o: [d + " ", ("v", "value"), "\n#", ("c", "comment")], lambda d, o: [(d, "value")]),
    ("after empty lines", lambda d, o: ["\n\n" + d + " ", ("v", "value"), "\n\n"], lambda d, o: [(d, "value")]),
    ("two directives", lambda d, o: [d + " ", ("v", "value"), "\n" + o + " ", ("v", "second"), "\n"],
     lambda d, o: [(d, "value"), (o, "second")]),
    ("two directives around a comment", lambda d, o: [d + " ", ("v", "value"), "\n# ", ("c", "comment"), "\n" + o + "\t", ("v", "second")],
     lambda d, o: [(d, "value"), (o, "second")]),
    ("two directives, plain", lambda d, o: [d + " ", ("p", "value"), "\n" + o + " ", ("p", "second"), "\n"],
     lambda d, o: [(d, "value"), (o, "second")]),
    ("nothing", lambda d, o: [""], lambda d, o: []),
]


class Files:
    """which files are read, and that reading them is safe"""

    def __init__(self, ck, cfg):
        self.ck, self.cfg = ck, cfg
        self.where = "src/cli/passgen.c:passgen_cli_opts_config"
        self.e = e = ck.engine(cfg, {})
        self.say0 = sayer(e, self.where)
        self.opts = e.param("opts", num(ck.layout(OPTS, cfg)["size"]))
        self.streams = Streams(e, lambda st, which, t, i: [st])
        watch(e, Sink(ck, cfg))
        self.env = {}
        e.hooks.update({"getenv": self.getenv, "secure_getenv": self.getenv, "fopen": self.fopen, "fclose": self.fclose,
                        "passgen_cli_opts_config_parse": self.parse})
        from ..libc import h_fread
        self.fread0 = h_fread
        e.hooks["fread"] = self.fread

    def say(self, cond, rule, msg, imp=False, where=None):
        return self.say0(cond, rule, "%s [%s]" % (msg, self.cfg), imp, where)

    def getenv(self, e, st, a, i):
        n = conststr(e, e.aspv(a[0]))
        if n is None:
            return [(st, e.unknown(i.ty))]
        n = n.decode("latin1")
        if n not in self.env:
            self.env[n] = e.string("value of " + n, 1 << 20)
        if ("env", n) in st.flags:
            return [(st, PV(self.env[n], ZERO) if st.flags[("env", n)] else NULL)]
        out = []
        for v in (True, False):
            s = st.copy()
            s.flags[("env", n)] = v
            out.append((s, PV(self.env[n], ZERO) if v else NULL))
        return out

    def path(self, st, p):
        """the pieces of a path: constant text and environment variables, or None"""
        e = self.e
        c = conststr(e, p)
        if c is not None:
            return (c.decode("latin1"),)
        ev = [d for k, d in st.events("sprintf") if d["p"].obj is p.obj and p.obj is not None]
        if not ev or ev[-1]["fmt"] is None:
            return None
        out, k, total = [], 0, ZERO
        for kind, t in parse_format(ev[-1]["fmt"]):
            if kind == "lit":
                out.append(bytes(t).decode("latin1"))
                total = total + len(t)
                continue
            v = e.aspv(ev[-1]["args"][k])
            k += 1
            n = [x for x, o in self.env.items() if o is v.obj]
            if t == b"%s" and conststr(e, v) is not None:
                c = conststr(e, v)
                out.append(c.decode("latin1"))
                total = total + len(c)
            elif t == b"%s" and n and st.eq(v.off, ZERO):
                out.append("$" + n[0])
                total = total + v.obj.attrs["strlen"]
            else:
                return None
        if p.obj.size is None or not st.entails(p.obj.size - p.off - total + (-1)):
            out.append("(cut off)")
        res = []
        for x in out:
            if res and not x.startswith("$") and not res[-1].startswith("$"):
                res[-1] += x
            else:
                res.append(x)
        return tuple(res)

    def fopen(self, e, st, a, i):
        p = e.aspv(a[0])
        path, mode = self.path(st, p), conststr(e, e.aspv(a[1]))
        if path is None:
            self.say(False, "path", "a file is opened whose path cannot be told", True, at(i))
        self.say(mode in (b"r", b"rb", b"re"), "path", "the configuration is opened with mode %r" % mode, mode is None, at(i))
        out = []
        for ok in (True, False):
            s = st.copy()
            s.flags["files"] = st.flags.get("files", ()) + ((path, ok, "open" if ok else "missing"),)
            if ok:
                o = e.keyobj("file", path)
                o.nonnull = True
                out.append((s, PV(o, ZERO)))
            else:
                out.append((s, NULL))
        return out

    def change(self, st, o, frm, to, what, i):
        fs = list(st.flags.get("files", ()))
        k = next((k for k, f in enumerate(fs) if f[1] and self.e.keyobj("file", f[0]) is o), None)
        if k is None or fs[k][2] not in frm:
            self.say(False, "file", "%s %s" % (what, "a file that is %s" % fs[k][2] if k is not None else "something that is no file"), o is None, at(i))
            return st
        fs[k] = (fs[k][0], True, to)
        s = st.copy()
        s.flags["files"] = tuple(fs)
        return s

    def fclose(self, e, st, a, i):
        p = e.aspv(a[0])
        return [(self.change(st, p.obj, ("open", "read"), "closed", "closing", i), ival(32, 0))]

    def fread(self, e, st, a, i):
        f = e.aspv(a[3])
        s = self.change(st, f.obj, ("open", "read"), "read", "reading", i)
        s = s.copy()
        s.flags["buffer"] = (e.aspv(a[0]).obj, f.obj)
        return self.fread0(e, s, a, i)

    def parse(self, e, st, a, i):
        o, p = e.aspv(a[0]), e.aspv(a[1])
        w = at(i)
        self.say(o.obj is self.opts, "file", "other options are configured", e.imprecise(o), w)
        b = st.flags.get("buffer")
        ok = b is not None and p.obj is b[0] and st.eq(p.off, ZERO)
        if self.say(ok, "file", "something else than the file is parsed: %r" % p, b is None or e.imprecise(p), w):
            ev = [d for k, d in st.events("fread")]
            got = ev[-1]["got"]
            raw = []
            e.on_uninit = lambda *x: raw.append(x)
            try:
                vals = e.load(st, PV(p.obj, got), I8)
            finally:
                e.on_uninit = None
            for s1, v in vals:
                self.say(isinstance(v, IV) and v.const and v.u == 0, "terminator", "what was read of the file is not terminated",
                         not raw and e.imprecise(v), w)
            k = Atom("index", 0, 1 << 40)
            s1 = st.assume([got - var(k) + (-1)])
            for s2, v in (e.load(s1, PV(p.obj, var(k)), I8) if s1 is not None else []):
                self.say(not (isinstance(v, IV) and v.const), "terminator", "part of what was read is overwritten", True, w)
            n = ev[-1]["n"]
            self.say(st.entails(n + (-10240)), "file", "less than 10240 bytes of the file are read", e.imprecise(n), w)
        s = st.copy()
        fs = [f for f in st.flags.get("files", ()) if f[2] == "read"]
        s.flags["parsed"] = st.flags.get("parsed", ()) + tuple(f[0] for f in fs)
        s.flags.pop("buffer", None)
        return [(s, ival(32, 0))]

    def run(self):
        e = self.e
        at_start(e)
        fn = self.ck.fn("passgen_cli_opts_config", self.cfg)
        n = 0
        for s, r in e.call(self.streams.start(State()), fn, [PV(self.opts, ZERO)]):
            n += 1
            self.end(s, r)
        self.say(n > 0, "status", "configuring never returns", bool(e.unknown_calls))
        drain(self.ck, e)
        self.ck.note(e)

    def end(self, s, r):
        e = self.e
        fs = s.flags.get("files", ())
        if any(f[0] is None for f in fs):
            return
        imp = bool(e.unknown_calls)
        show = [("".join(f[0]), f[2]) for f in fs]
        self.say(bool(fs) and fs[0][0] == ("/etc/passgen.conf",), "path", "the system configuration is not read first: %s" % show, imp)
        want = None
        if s.flags.get(("env", "XDG_CONFIG_PATH")):
            want = ("$XDG_CONFIG_PATH", "/passgen.conf")
        elif s.flags.get(("env", "HOME")):
            want = ("$HOME", "/.config/passgen.conf")
        rest = [f[0] for f in fs[1:]]
        var_ = want[0][1:] if want else None
        long = want is not None and not s.entails(-self.env[var_].attrs["strlen"] + (255 - len(want[1])))
        self.say(rest == ([want] if want else []) or (long and not rest), "path", "the user's configuration is read from %s instead of %s"
                 % (["".join(x) for x in rest], "".join(want) if want else "nowhere"), imp)
        self.say(all(f[2] in ("closed", "missing") for f in fs), "file", "a file is left open: %s" % show, imp)
        self.say(s.flags.get("parsed", ()) == tuple(f[0] for f in fs if f[1]), "file", "not every configuration that exists is parsed: %s" % show, imp)
        left = alive(s)
        self.say(not left, "leak", "%s is not released" % ", ".join(o.name for o in left[:3]), imp)
        for s2, l in e.canon(s, e.iv(r, 32)):
            self.say(s2.eq(l, ZERO), "status", "%r is returned although nothing failed" % l, e.imprecise(l))


def X04(ck):
    jobs = []
    for cfg in ("Debug", "Release"):
        ck.mod(cfg)
        ck.layout(OPTS, cfg)
        ck.fn("passgen_cli_opts_config_parse", cfg)
        jobs.append(lambda c=cfg: ck.guarded("config", "any contents, %s" % c, Config(ck, c, "any contents").run_any))
        jobs.append(lambda c=cfg: ck.guarded("files", c, Files(ck, c).run))
        for name, parts, want in LINES:
            for k, d in enumerate(sorted(DIRECTIVES)):
                o = sorted(DIRECTIVES)[(k + 1) % 3]
                jobs.append(lambda a=(cfg, "%s: %s" % (d, name)), p=parts(d, o), w=want(d, o):
                            ck.guarded("config", "%s, %s" % (a[1], a[0]), lambda: Config(ck, *a).run_lines(p, w)))
    ck.parallel(jobs)
