"""setup: the tools the analysis needs are present and the IR of /repo loads"""
import sys
from .build import Build
from . import ir


def main():
    for cfg in ("Debug", "Release"):
        with Build(cfg) as b:
            m = ir.load(b.module_path)
            print("%s: %d functions" % (cfg, len([f for f in m.fns.values() if not f.decl])))
    return 0


if __name__ == "__main__":
    sys.exit(main())
