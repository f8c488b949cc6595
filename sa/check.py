"""Obligations, verdicts, evidence and exit status of one check.

An obligation is discharged (ok), refuted (bad) or undecided.  Refuted obligations
that the committed known-findings file does not list are violations; undecided ones
are reported in the evidence and never turned into an alarm.
"""
import json
import os
import sys
import time
import traceback

from . import ir, libc
from .build import Build, BuildError
from .interp import Engine, State, Budget, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.json")


class Anchor(Exception):
    """a public entry point or type the property is about has vanished"""


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.builds = {}
        self.mods = {}
        self.results = {}          # (rule, where) -> [ok, {bad msg: n}, {und msg: n}]
        self.functions = set()
        self.stats = {}
        self.deadline = self.t0 + (420 if tier == "quick" else 780)
        self.layouts = {}

    # -- inputs
    def build(self, config="Debug"):
        b = self.builds.get(config)
        if b is None:
            b = Build(config)
            self.builds[config] = b
            b.__enter__()
        return b

    def mod(self, config="Debug"):
        m = self.mods.get(config)
        if m is None:
            m = self.mods[config] = ir.load(self.build(config).module_path)
        return m

    def layout(self, fields, config="Debug"):
        key = (config, tuple(sorted(fields.items())))
        if key not in self.layouts:
            try:
                self.layouts[key] = self.build(config).layout(fields)
            except (BuildError, KeyError) as e:
                raise Anchor("public type or constant not available: %s" % e)
        return self.layouts[key]

    def fn(self, name, config="Debug", required=True):
        f = self.mod(config).fns.get(name)
        if f is None or f.decl:
            if required:
                raise Anchor("function %s not found" % name)
            return None
        return f

    def engine(self, config="Debug", hooks=None, alloc_fail=False, max_steps=400000):
        e = Engine(self.mod(config), hooks, max_steps, self.deadline)
        e.hooks.setdefault("passgen_assert_fail", _assert_fail)
        e.hooks.setdefault("__assert_fail", _assert_fail)
        libc.install(e, alloc_fail)
        e.config = config
        return e

    # -- verdicts
    def _rec(self, rule, where):
        return self.results.setdefault((rule, where), [0, {}, {}])

    def ok(self, rule, where, n=1):
        self._rec(rule, where)[0] += n

    def bad(self, rule, where, msg):
        d = self._rec(rule, where)[1]
        d[msg] = d.get(msg, 0) + 1

    def und(self, rule, where, msg):
        d = self._rec(rule, where)[2]
        d[msg] = d.get(msg, 0) + 1

    def judge(self, cond, rule, where, msg, imprecise=False):
        if cond:
            self.ok(rule, where)
        elif imprecise:
            self.und(rule, where, msg)
        else:
            self.bad(rule, where, msg)
        return cond

    def note(self, e):
        self.functions |= e.inlined
        for m in sorted(e.incomplete):
            self.und("complete", "analysis (%s)" % getattr(e, "config", "?"), m)
        e.incomplete.clear()
        for k, v in (("steps", e.steps), ("loops", len(e.loops_seen))):
            self.stats[k] = self.stats.get(k, 0) + v

    def merge(self, blob):
        res, fns, stats = blob
        for k, (o, b, u) in res.items():
            r = self._rec(*k)
            r[0] += o
            for d, s in ((r[1], b), (r[2], u)):
                for m, n in s.items():
                    d[m] = d.get(m, 0) + n
        self.functions |= fns
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def guarded(self, rule, where, f, *a):
        """run one analysis root; analysis limits make it undecided"""
        try:
            return f(*a)
        except (Budget, Unsupported) as ex:
            self.und(rule, where, "analysis stopped: %s" % ex)
        except RecursionError:
            self.und(rule, where, "analysis stopped: recursion limit")
        except Anchor:
            raise
        except Exception as ex:     # an analyser limitation is never an alarm
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.und(rule, where, "analysis failed: %s: %s (%s:%d)" %
                     (type(ex).__name__, str(ex)[:200], os.path.basename(tb.filename), tb.lineno))
        return None

    def parallel(self, jobs, nproc=8):
        """jobs: list of zero-argument callables run in forked workers; results merged"""
        import multiprocessing as mp
        if len(jobs) == 1 or nproc == 1:
            for j in jobs:
                j()
            return
        ctx = mp.get_context("fork")
        global _JOBS
        _JOBS = (self, jobs)
        with ctx.Pool(min(nproc, len(jobs))) as pool:
            for err, blob in pool.imap_unordered(_runjob, range(len(jobs))):
                if err:
                    raise Anchor(err)
                self.merge(blob)

    # -- output
    def finish(self, technique):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = json.load(f).get("findings", [])
        nob = sum(r[0] + len(r[1]) + len(r[2]) for r in self.results.values())
        okn = sum(r[0] for r in self.results.values())
        viol, und, kf = [], [], []
        for (rule, where), (o, b, u) in sorted(self.results.items()):
            for msg in sorted(b):
                k = None
                for f in known:
                    if f.get("property") == self.pid and f.get("rule") == rule \
                            and _wmatch(f.get("where", ""), where) and f.get("contains", "") in msg:
                        k = f
                if k is not None:
                    if k not in kf:
                        kf.append(k)
                else:
                    viol.append((rule, where, msg))
            for msg in sorted(u):
                und.append((rule, where, msg))
        replay = os.path.join(EVIDENCE, "%s.report.txt" % self.pid)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(replay, "w") as f:
            f.write("property %s, tier %s: %d obligations, %d discharged, %d refuted, %d undecided\n"
                    % (self.pid, self.tier, nob, okn, len(viol) + len(kf), len(und)))
            for t, l in (("VIOLATION", viol), ("UNDECIDED", und)):
                for rule, where, msg in l:
                    f.write("%s [%s] %s: %s\n" % (t, rule, where, msg))
        rules = {}
        for (rule, where), (o, b, u) in self.results.items():
            r = rules.setdefault(rule, {"instances": 0, "discharged": 0, "refuted": 0, "undecided": 0})
            r["instances"] += 1
            r["discharged"] += o
            r["refuted"] += len(b)
            r["undecided"] += len(u)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof",
            "coverage": {
                "obligations": nob, "discharged": okn,
                "undecided": len(und), "refuted": len(viol) + len(kf),
                "checker_cmd": "python3 -m sa.run %s --tier %s" % (self.pid, self.tier),
                "trusted_base": ["clang 18 front end and mem2reg", "sa/interp.py abstract semantics",
                                 "libc contracts in sa/libc.py"],
                "technique": technique,
                "rules": rules,
                "functions_analysed": sorted(self.functions),
                "undecided_list": ["[%s] %s: %s" % x for x in und][:60],
                "refuted_list": ["[%s] %s: %s" % x for x in viol][:60],
                "stats": self.stats,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(EVIDENCE, "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k.get("what", "")))
        for rule, where, msg in und[:20]:
            print("UNDECIDED [%s] %s: %s" % (rule, where, msg[:400]))
        if len(und) > 20:
            print("UNDECIDED ... %d more in %s" % (len(und) - 20, replay))
        print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d functions, %.1fs"
              % (self.pid, nob, okn, len(viol) + len(kf), len(und), len(self.functions),
                 time.time() - self.t0))
        if viol:
            for rule, where, msg in viol[:12]:
                print("  [%s] %s: %s" % (rule, where, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        if nob == 0:
            print("no obligation was generated: the analysis found nothing to decide")
            return 2
        return 0

    def close(self):
        for b in self.builds.values():
            b.close()


def _wmatch(pat, where):
    return pat == where or (pat.endswith("*") and where.startswith(pat[:-1])) or where.split(" ")[0] == pat


_JOBS = None


def _runjob(n):
    ck, jobs = _JOBS
    ck.results, ck.functions, ck.stats = {}, set(), {}
    try:
        jobs[n]()
    except Anchor as ex:
        return str(ex), None
    return None, (ck.results, ck.functions, ck.stats)


def _assert_fail(e, st, args, inst):
    e.terminals.append(("assert", st, inst))
    return []


def loc(inst):
    return inst.loc if inst is not None and inst.loc else "?"
