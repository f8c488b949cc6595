"""Effects of the library on what it was not given (T01), and formats of printing functions (F01).

Flow-insensitive dataflow over the whole linked program in SSA form: where the address of an object with static storage
can go within a function and through parameters of the functions it calls, what is written through it, and what
constants reach the format argument of a printing function.
"""
import os
from .. import build, ir
from ..ir import Global, Fn, CExpr, Inst, Agg, Bytes, Arg, Null, Zero
from ..libc import parse_format

# functions of the C library that use nothing but their arguments (and the heap, files they are given and errno)
SAFE = set("""
memcpy memmove memset memcmp memchr memmem memrchr mempcpy bcmp bzero explicit_bzero strlen strnlen strcmp strncmp strcasecmp strncasecmp
strchr strrchr strchrnul strstr strspn strcspn strpbrk strcpy strncpy stpcpy stpncpy strcat strncat strdup strndup strtok_r strsep strcoll
strtol strtoll strtoul strtoull strtod strtof strtold strtoumax strtoimax atoi atol atoll atof abs labs llabs div ldiv
isalpha isdigit isalnum isspace isupper islower ispunct isxdigit isprint iscntrl isgraph isblank toupper tolower __ctype_b_loc __ctype_toupper_loc __ctype_tolower_loc
malloc calloc realloc reallocarray free aligned_alloc posix_memalign malloc_usable_size
fopen fdopen freopen fclose fread fwrite fgets fputs fgetc fputc getc putc ungetc fseek fseeko ftell ftello rewind fflush feof ferror clearerr fileno
setvbuf setbuf getline getdelim puts putchar printf fprintf dprintf snprintf sprintf vsnprintf vsprintf vfprintf vprintf sscanf fscanf asprintf vasprintf perror
open openat close read write pread pwrite lseek fstat stat lstat getrandom getentropy ioctl fcntl mmap munmap madvise mlock munlock
qsort qsort_r bsearch log log2 log10 log1p exp exp2 pow sqrt fabs floor ceil round trunc ldexp frexp fmod lround llround
abort exit _exit _Exit __assert_fail __errno_location backtrace backtrace_symbols backtrace_symbols_fd __stack_chk_fail
rand_r erand48 nrand48 jrand48 random_r localtime_r gmtime_r strerror_r __xpg_strerror_r
""".split())
# functions with state of their own or of the process
HIDDEN = set("""
strtok rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48 seed48 lcong48 arc4random_stir setlocale localeconv
setenv putenv unsetenv clearenv localtime gmtime ctime asctime strerror strsignal tmpnam tempnam
chdir umask signal sigaction atexit on_exit readdir getpwnam getpwuid getgrnam getlogin ttyname ptsname getopt getopt_long
getopt_long_only hcreate hsearch hdestroy mblen mbtowc wctomb mbrtowc wcrtomb ecvt fcvt gcvt l64a nice setrlimit system popen fork
crypt ftok mktime tzset
""".split())
# functions whose result depends on something other than their arguments
OUTSIDE = set("""
getenv secure_getenv time clock clock_gettime gettimeofday times getpid getppid gettid getuid geteuid gethostname uname getcwd sched_getcpu
arc4random arc4random_buf arc4random_uniform rdtsc
""".split())
STREAMS = ("stderr", "stdout", "stdin")


def source(f):
    p = f.file or ""
    return ir.short(p)


def in_library(f):
    """part of the library and not of the tool"""
    s = os.path.normpath(source(f))
    return f.file is not None and not f.name.startswith("__sa_") and not s.startswith("src/cli/") and "stubs.c" not in s


def base(v):
    """the object a constant address is in"""
    while isinstance(v, CExpr) and v.op in ("gep", "bitcast", "addrspacecast"):
        v = v.ops[0]
    return v


def mentioned(v):
    """globals a constant contains the address of"""
    if isinstance(v, Global):
        yield v
    elif isinstance(v, CExpr):
        for o in v.ops:
            yield from mentioned(o)
    elif isinstance(v, Agg):
        for o in v.elems:
            yield from mentioned(o)


class Flow:
    def __init__(self, mod):
        self.m = mod
        self.users = {}
        self.memo = {}

    def uses(self, f):
        u = self.users.get(f)
        if u is None:
            u = self.users[f] = {}
            for i in f.insts():
                seen = set()
                ops = list(i.ops or ()) + list(i.args or ()) + [v for v, _ in (i.incoming or ())]
                if i.callee is not None:
                    ops.append(i.callee)
                for o in ops:
                    b = base(o)
                    if b is not None and id(b) not in seen:
                        seen.add(id(b))
                        u.setdefault(id(b), []).append(i)
        return u

    def effects(self, f, v, depth=0):
        """{(kind, inst)}: what happens within f (and what it calls) to the object v points into

        kinds: "write", "escape", "unknown" (given to a function of which nothing is known), "read"
        """
        key = (f, id(v))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = out = set()        # recursion: least fixpoint
        u = self.uses(f)
        work, seen = [v], {id(v)}
        while work:
            x = work.pop()
            for i in u.get(id(x), ()):
                op = i.op
                if op in ("gep", "bitcast", "phi", "select", "freeze", "addrspacecast", "insertvalue", "extractvalue"):
                    if op == "gep" and base(i.ops[0]) is not x:
                        continue
                    if id(i) not in seen:
                        seen.add(id(i))
                        work.append(i)
                elif op == "load":
                    out.add(("read", i))
                    # a pointer kept in a static object leads to what it was initialised with
                    if isinstance(x, Global) and i.ty.kind == "ptr" and x.init is not None:
                        for g in mentioned(x.init):
                            if not g.const:
                                for k, j in self.effects_from(f, i):
                                    if k == "write":
                                        out.add((k, j))
                elif op == "store":
                    if base(i.ops[1]) is x:
                        out.add(("write", i))
                    if base(i.ops[0]) is x:
                        out.add(("escape", i))
                elif op == "call":
                    self.call(f, i, x, out, depth)
                elif op == "ret":
                    out.add(("escape", i))
        return out

    def effects_from(self, f, inst):
        return self.effects(f, inst)

    def call(self, f, i, x, out, depth):
        name = getattr(i.callee, "name", None) if isinstance(i.callee, Fn) else None
        if base(i.callee) is x:
            return
        for k, a in enumerate(i.args):
            if base(a) is not x:
                continue
            g = i.callee if isinstance(i.callee, Fn) else None
            if g is not None and not g.decl:
                if k >= len(g.params):
                    out.add(("unknown", i))
                    continue
                if k in g.byval:
                    out.add(("read", i))
                    continue
                for kind, j in list(self.effects(g, g.params[k], depth + 1)):
                    if kind == "escape" and j.op == "ret":
                        # what is returned is the same object again
                        out.update(self.effects(f, i))
                    else:
                        out.add((kind, j))
                continue
            n = name or ""
            if n.startswith("llvm."):
                n = n.split(".")[1]
                if n in ("dbg", "lifetime", "assume", "expect", "prefetch", "objectsize"):
                    continue
                if n == "threadlocal":
                    out.update(self.effects(f, i))
                    continue
            if n in SAMEOBJ and k == 0:
                out.update(self.effects(f, i))
            w = WRITES.get(n)
            if w is None:
                out.add(("unknown", i))
            elif k in w:
                out.add(("write", i))
            else:
                out.add(("read", i))


# arguments through which functions of the C library write
WRITES = {n: () for n in """memcmp memchr bcmp strlen strnlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strspn strcspn strpbrk
strdup strndup strtol strtoll strtoul strtoull strtod atoi atol atoll atof fputs puts printf fprintf fwrite fopen open free perror write
bsearch abort exit __assert_fail backtrace_symbols fclose fputc putc fputs fflush fseek ftell getc fgetc feof ferror rewind fileno""".split()}
WRITES.update({n: (0,) for n in """memcpy memmove memset mempcpy bzero explicit_bzero strcpy strncpy stpcpy strcat strncat snprintf sprintf vsnprintf
fread fgets getrandom getentropy qsort strtok backtrace""".split()})
WRITES.update({"read": (1,), "pread": (1,), "strtok_r": (0, 2), "getline": (0, 1), "frexp": (1,), "sscanf": tuple(range(2, 40))})


# functions that return a pointer into their first argument
SAMEOBJ = set("strchr strrchr strstr strpbrk memchr memrchr strchrnul memcpy memmove memset mempcpy strcpy strncpy stpcpy strcat strncat fgets".split())


def T01(ck):
    for cfg in ("Debug", "Release"):
        ck.fn("passgen_parse", cfg)
        ck.guarded("state", cfg, state, ck, cfg)


def state(ck, cfg):
    m = ck.mod(cfg)
    flow = Flow(m)
    lib = [f for f in m.fns.values() if not f.decl and in_library(f)]
    if len(lib) < 20:
        ck.und("state", cfg, "the functions of the library cannot be told apart")
        return
    for f in lib:
        ck.functions.add(f.name)
        where = "%s:%s" % (source(f), f.name)
        # objects with static storage
        seen = set()
        for i in f.insts():
            ops = list(i.ops or ()) + list(i.args or ()) + [v for v, _ in (i.incoming or ())]
            for o in ops:
                for g in mentioned(o):
                    if id(g) in seen or isinstance(g.init, Bytes) and g.const:
                        continue
                    seen.add(id(g))
                    static(ck, m, flow, f, g, where, cfg)
        # calls of functions outside
        for i in f.insts():
            if i.op != "call" or not isinstance(i.callee, Fn) or not i.callee.decl:
                continue
            n = i.callee.name
            if n.startswith("llvm.") or n.startswith("__sa_"):
                continue
            msg = "[%s]" % cfg
            if n in HIDDEN:
                ck.bad("hidden-state", "%s:%s" % (i.loc, f.name), "%s has state of its own, which everything in the process shares %s" % (n, msg))
            elif n in OUTSIDE:
                ck.bad("outside", "%s:%s" % (i.loc, f.name), "the result of %s depends on something that was not given to the library %s" % (n, msg))
            elif n in SAFE:
                ck.ok("calls", where)
            else:
                ck.und("calls", "%s:%s" % (i.loc, f.name), "nothing is known about %s %s" % (n, msg))
        addresses(ck, flow, f, where, cfg)


def static(ck, m, flow, f, g, where, cfg):
    if g.init is None and not g.internal:
        if g.name in STREAMS:
            ck.ok("state", where)
        elif g.name in ("environ", "__environ", "optarg", "optind", "opterr", "optopt"):
            ck.bad("outside", where, "%s is used, which is shared by everything in the process [%s]" % (g.name, cfg))
        else:
            ck.und("state", where, "nothing is known about the object %s [%s]" % (g.name, cfg))
        return
    eff = flow.effects(f, g)
    for kind, i in sorted(eff, key=lambda x: (x[0], x[1].id)):
        at = "%s:%s" % (i.loc, i.fn.name)
        kept = "%s object %s" % ("the constant" if g.const else "a thread's" if g.tls else "the static", g.name)
        if kind == "write":
            ck.bad("state", at, "%s is written: it outlives the call and belongs to none of the objects given [%s]" % (kept, cfg))
        elif g.const:
            ck.ok("state", where)
        elif kind in ("escape", "unknown"):
            ck.und("state", at, "%s may be written where its address goes [%s]" % (kept, cfg))
        else:
            ck.ok("state", where)
    if not eff:
        ck.ok("state", where)


def addresses(ck, flow, f, where, cfg):
    """numbers made of addresses are only used for distances, alignment and comparison"""
    u = flow.uses(f)
    for i in f.insts():
        if i.op != "ptrtoint":
            continue
        work, seen = [i], {id(i)}
        verdict = None
        while work and verdict is None:
            x = work.pop()
            for j in u.get(id(x), ()):
                if j.op == "sub" and all(isinstance(o, Inst) and o.op == "ptrtoint" for o in j.ops):
                    continue
                if j.op in ("icmp", "inttoptr", "switch", "br"):
                    continue
                if j.op in ("and", "add", "sub", "zext", "sext", "trunc", "phi", "select", "urem"):
                    # alignment: a few low bits
                    if id(j) not in seen:
                        seen.add(id(j))
                        work.append(j)
                    continue
                verdict = j
                break
        at = "%s:%s" % (i.loc, f.name)
        if verdict is None:
            ck.ok("address", where)
        elif verdict.op in ("mul", "xor", "lshr", "shl", "or") or verdict.op in ("store", "call", "ret"):
            ck.bad("address", at, "a value is computed from the address of an object, which differs between runs [%s]" % cfg)
        else:
            ck.und("address", at, "what becomes of an address is not clear [%s]" % cfg)


# ---------------------------------------------------------------------------------------------------------------- formats
FORMATS = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "syslog": 1, "asprintf": 1, "vprintf": 0, "vfprintf": 1,
           "vsprintf": 1, "vsnprintf": 2, "scanf": 0, "fscanf": 1, "sscanf": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0}
WIDE = (b"ll", b"l", b"j", b"z", b"t", b"q")


POINTER = ir.Type()
POINTER.kind, POINTER.width, POINTER.size = "ptr", 64, 8


class Formats:
    def __init__(self, ck, cfg):
        self.ck, self.cfg = ck, cfg
        self.m = ck.mod(cfg)
        self.callers = {}
        self.taken = set()
        for f in self.m.fns.values():
            for i in (f.insts() if not f.decl else ()):
                if i.op == "call" and isinstance(i.callee, Fn):
                    self.callers.setdefault(i.callee, []).append(i)
                for o in list(i.ops or ()) + list(i.args or ()):
                    if isinstance(o, Fn):
                        self.taken.add(o)

    def constants(self, v, seen=None):
        """[(bytes or None, why)] of what a format can be"""
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return []
        seen.add(id(v))
        off = 0
        b = v
        if isinstance(b, CExpr) and b.op == "gep":
            try:
                off = self.offset(b)
            except ValueError:
                return [(None, "und", "a place within a constant")]
            b = base(b)
        if isinstance(b, Global):
            if isinstance(b.init, Bytes):
                if not b.const and self.written(b):
                    return [(None, "bad", "the contents of %s, which change" % b.name)]
                d = b.init.data[off:]
                return [(d.split(b"\0")[0], "ok", "")]
            if isinstance(b.init, Zero):
                return [(b"", "ok", "")] if b.const else [(None, "bad", "the contents of %s" % b.name)]
            return [(None, "bad", "the contents of %s" % b.name)]
        if isinstance(v, Inst):
            if v.op in ("phi",):
                return [r for x, _ in v.incoming for r in self.constants(x, seen)]
            if v.op == "select":
                return [r for x in v.ops[1:] for r in self.constants(x, seen)]
            if v.op in ("bitcast", "freeze"):
                return self.constants(v.ops[0], seen)
            if v.op == "load":
                g = v.ops[0]
                idx = None
                if isinstance(g, Inst) and g.op == "gep":
                    idx, g = True, g.ops[0]
                g = base(g)
                if isinstance(g, Global) and (g.const or not self.written(g)) and g.init is not None:
                    # any of the texts of a constant table
                    got = [x for x in mentioned(g.init)]
                    if got:
                        return [r for x in got for r in self.constants(x, seen)]
                return [(None, "bad", "text read from memory")]
            if v.op == "call":
                n = getattr(v.callee, "name", None)
                g = v.callee if isinstance(v.callee, Fn) else None
                if g is not None and not g.decl:
                    return [r for i in g.insts() if i.op == "ret" and i.ops for r in self.constants(i.ops[0], seen)]
                return [(None, "bad" if n not in ("gettext", "dgettext", "dcgettext") else "und", "what %s returns" % (n or "a function"))]
            if v.op == "gep":
                r = self.constants(v.ops[0], seen)
                return [(None, "und" if x is not None else w, "a part of a text" if x is not None else t) for x, w, t in r]
            if v.op == "alloca":
                return [(None, "bad", "text put together at run time")]
            return [(None, "und", "the result of %s" % v.op)]
        if isinstance(v, Arg):
            f = v.fn
            cs = self.callers.get(f, [])
            if not cs or f in self.taken or not f.internal and not source(f).startswith("src/cli/"):
                return [(None, "bad", "text given by the caller of %s" % f.name)]
            return [r for c in cs for r in self.constants(c.args[v.index], seen)]
        return [(None, "und", "something else")]

    def offset(self, x):
        off = 0
        while isinstance(x, CExpr) and x.op == "gep":
            idx = x.ops[1:]
            if any(getattr(o, "value", None) is None for o in idx):
                raise ValueError
            t = x.gepty
            off += idx[0].value * t.size
            for o in idx[1:]:
                if t.kind == "array":
                    t = t.elem
                    off += o.value * t.size
                elif t.kind == "struct":
                    off += t.offsets[o.value]
                    t = t.fields[o.value]
                else:
                    raise ValueError
            x = x.ops[0]
        return off

    def written(self, g):
        flow = self.flow = getattr(self, "flow", None) or Flow(self.m)
        return any(k in ("write", "escape", "unknown") for f in self.m.fns.values() if not f.decl for k, _ in flow.effects(f, g))

    def run(self):
        ck = self.ck
        for f in self.m.fns.values():
            if f.decl or f.name.startswith("__sa_"):
                continue
            for i in f.insts():
                n = i.callee.name if i.op == "call" and isinstance(i.callee, Fn) and i.callee.decl else None
                if n in FORMATS and len(i.args) > FORMATS[n]:
                    ck.functions.add(f.name)
                    self.site(f, i, n)

    def site(self, f, i, n):
        ck = self.ck
        at = "%s:%s" % (i.loc, f.name)
        k = FORMATS[n]
        rs = self.constants(i.args[k])
        if not rs:
            rs = [(None, "und", "something that cannot be told")]
        for fmt, verdict, why in rs:
            if fmt is None:
                (ck.bad if verdict == "bad" else ck.und)("format", at, "%s is used as a format of %s [%s]" % (why, n, self.cfg))
                continue
            ck.ok("format", at)
            if n.startswith("v"):
                continue
            self.arguments(at, n, fmt, i.args[k + 1:])

    def arguments(self, at, n, fmt, args):
        ck = self.ck
        args = list(args)
        scan = "scanf" in n

        def take(what, ok):
            if not args:
                ck.bad("arguments", at, "%s has no argument for %s in %r [%s]" % (n, what, fmt[:60].decode("latin1"), self.cfg))
                return
            a = args.pop(0)
            t = POINTER if isinstance(a, (Global, Fn)) else a.ty
            ck.judge(ok(t), "arguments", at, "the argument for %s in %r of %s has another type (%s%s) [%s]"
                     % (what, fmt[:60].decode("latin1"), n, t.kind, t.width if t.kind == "int" else "", self.cfg))
        isint = lambda t: t.kind == "int" and t.width <= 32
        islong = lambda t: t.kind == "int" and t.width == 64
        isptr = lambda t: t.kind == "ptr"
        for kind, t in parse_format(fmt):
            if kind == "lit":
                continue
            c, mods = t[-1:], t[1:-1]
            text = t.decode("latin1")
            if c not in b"diouxXcspaAeEfFgGn" or not c:
                ck.bad("arguments", at, "the format %r of %s ends within a conversion or has an unknown one [%s]" % (fmt[:60].decode("latin1"), n, self.cfg))
                continue
            if c == b"n":
                ck.bad("arguments", at, "the format %r of %s writes to memory [%s]" % (fmt[:60].decode("latin1"), n, self.cfg))
                take(text, isptr)
                continue
            if scan:
                if b"*" not in mods:
                    take(text, isptr)
                continue
            for _ in range(mods.count(b"*")):
                take("the width in " + text, isint)
            length = mods.lstrip(b"-+ #0123456789.*")
            if c in b"sp":
                take(text, isptr)
            elif c in b"aAeEfFgG":
                take(text, (lambda t: t.kind == "x86fp80") if length == b"L" else (lambda t: t.kind == "double"))
            else:
                take(text, islong if length in WIDE else isint)


def F01(ck):
    for cfg in ("Debug", "Release"):
        ck.guarded("format", cfg, Formats(ck, cfg).run)
    if not any(r == "format" for r, _ in ck.results):
        ck.und("format", "src", "nothing is printed anywhere")
