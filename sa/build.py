"""Compile /repo's current working tree to LLVM IR with the project's own flags.

Nothing of the code under analysis is executed.  cmake is only used to
*configure* a scratch build directory (outside /repo) so that the list of
translation units, include paths, definitions, generated config.h/version.c and
language standard are those of the real build; every unit is then translated
with clang to unoptimised IR, linked with llvm-link and put in SSA form
(mem2reg only: no pass that exploits undefined behaviour).
"""
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SA_REPO", "/repo")


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS")}
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


class Build:
    """One configuration (Debug or Release) translated to one IR module."""

    def __init__(self, config="Debug", scratch=None):
        self.config = config
        self.dir = tempfile.mkdtemp(prefix="sa-%s-" % config.lower(), dir=scratch)
        self.units = []
        self.includes = []

    def configure(self):
        b = os.path.join(self.dir, "b")
        _run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja",
              "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_BUILD_TYPE=" + self.config,
              "-DBUILD_TESTING=OFF", "-DBUILD_GIT_INFO=OFF", "-DBUILD_TOOLS=OFF",
              "-DBUILD_BENCH=OFF", "-DBUILD_DATA=OFF",
              "-DPASSGEN_SECCOMP=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        with open(os.path.join(b, "compile_commands.json")) as f:
            db = json.load(f)
        seen = set()
        for e in db:
            path = os.path.realpath(os.path.join(e["directory"], e["file"]))
            if path in seen:
                continue
            seen.add(path)
            args = shlex.split(e["command"])[1:]
            keep = []
            it = iter(range(len(args)))
            i = 0
            while i < len(args):
                a = args[i]
                if a in ("-o", "-c", "-MF", "-MT", "-MQ"):
                    i += 2
                    continue
                if a in ("-isystem", "-include", "-idirafter"):
                    keep += [a, args[i + 1]]
                    i += 2
                    continue
                if a.startswith(("-I", "-D", "-U", "-std", "-f")) and not a.startswith("-fPIC"):
                    keep.append(a)
                i += 1
            self.units.append((path, e["directory"], keep))
        if not self.units:
            raise BuildError("no translation units")

    def translate(self):
        out = os.path.join(self.dir, "ir")
        os.mkdir(out)

        def one(iu):
            i, (path, cwd, flags) = iu
            dst = os.path.join(out, "%03d.bc" % i)
            _run(["clang", "-x", "c", "-w", "-O0", "-Xclang", "-disable-O0-optnone",
                  "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
                  "-Wno-implicit-int", "-Wno-return-mismatch", "-std=gnu17",
                  "-fno-discard-value-names", "-g", "-emit-llvm", "-c", path, "-o", dst] + flags,
                 cwd=cwd)
            return dst
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, enumerate(self.units)))
        stub = os.path.join(out, "stubs.bc")
        _run(["clang", "-x", "c", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g",
              "-emit-llvm", "-c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs.c"), "-o", stub])
        bcs.append(stub)
        linked = os.path.join(self.dir, "linked.bc")
        _run(["llvm-link" if shutil.which("llvm-link") else "/usr/lib/llvm-18/bin/llvm-link",
              "-o", linked] + bcs)
        mod = os.path.join(self.dir, "module.bc")
        opt = shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"
        _run([opt, "-passes=function(mem2reg)", linked, "-o", mod])
        self.module_path = mod
        return mod

    def layout(self, fields):
        """Byte offsets/sizes from the current headers: {key: C constant expression}."""
        src = os.path.join(self.dir, "layout.c")
        with open(src, "w") as f:
            f.write("#include <stddef.h>\n")
            for h in ("passgen/random.h", "passgen/generate.h", "passgen/parser/parser.h",
                      "passgen/parser/token.h", "passgen/wordlist.h", "passgen/markov.h",
                      "passgen/passgen.h", "passgen/error.h", "passgen/context.h",
                      "passgen/version.h", "passgen/container/array.h",
                      "passgen/container/hashmap.h", "passgen/container/stack.h",
                      "passgen/monocypher.h", "passgen/pattern/special.h",
                      "passgen/util/utf8.h"):
                f.write("#include <%s>\n" % h)
            cli = os.path.join(REPO, "src/cli/passgen.h")
            if os.path.exists(cli):
                f.write('#include "%s"\n' % cli)
            f.write("#include <getopt.h>\n#include <fcntl.h>\n#include <sys/mman.h>\n#include <sys/ioctl.h>\n"
                    "#if __has_include(<seccomp.h>)\n#include <seccomp.h>\n#endif\n")
            for i, k in enumerate(fields):
                f.write("unsigned long sa_layout_%d = (unsigned long)(%s);\n" % (i, fields[k]))
        dst = os.path.join(self.dir, "layout.bc")
        flags = []
        for (path, cwd, fl) in self.units:
            for a in fl:
                if a not in flags:
                    flags.append(a)
        _run(["clang", "-x", "c", "-w", "-O0", "-emit-llvm", "-c", src, "-o", dst] + flags)
        from . import ir
        m = ir.load(dst)
        return {k: m.globals["sa_layout_%d" % i].init.value for i, k in enumerate(fields)}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        self.configure()
        self.translate()
        return self

    def __exit__(self, *a):
        self.close()


if __name__ == "__main__":
    b = Build(sys.argv[1] if len(sys.argv) > 1 else "Debug")
    b.configure()
    print(b.translate())
