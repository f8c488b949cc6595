"""python3 -m sa.run <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from .check import Check, Anchor
    from .build import BuildError
    from . import rules
    modname, technique = rules.RULES[pid]
    m = importlib.import_module("sa.rules." + modname)
    ck = Check(pid, tier)
    try:
        getattr(m, pid)(ck)
        rc = ck.finish(technique)
    except Anchor as ex:
        print("cannot decide %s: %s" % (pid, ex))
        rc = 2
    except BuildError as ex:
        print("cannot translate /repo: %s" % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
