"""Builds selint from /repo's current working tree, in a scratch directory of its own."""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SELINT_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 1)


class BuildError(Exception):
    pass


VARIANTS = {
    # plain: fast, used by the behavioural monitors
    "plain": dict(cc="gcc", flags=["-O1", "-g"], link=[]),
    # asan: gcc AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer
    "asan": dict(cc="gcc", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                  "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined"]),
    # msan: clang MemorySanitizer (uninitialised reads).  libconfuse is not instrumented.
    "msan": dict(cc="clang", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                                    "-fsanitize-memory-track-origins=1"], link=["-fsanitize=memory"]),
    # fuzz: libFuzzer target, in process
    "fuzz": dict(cc="clang", flags=["-O1", "-g", "-fno-omit-frame-pointer",
                                    "-fsanitize=fuzzer-no-link,address,undefined",
                                    "-fno-sanitize-recover=undefined"],
                 link=["-fsanitize=fuzzer,address,undefined"]),
    "cov": dict(cc="gcc", flags=["-O0", "-g", "--coverage"], link=["--coverage"]),
}


class Build:
    """A scratch tree with the generated parser and any number of compiled variants."""

    def __init__(self, root=None):
        self.root = root or tempfile.mkdtemp(prefix="selint-verif-")
        self.src = os.path.join(self.root, "src")
        self.etc = os.path.join(self.root, "etc")       # SYSCONFDIR: no default configuration there
        os.makedirs(self.etc, exist_ok=True)
        self.bins = {}
        self._prepare()

    def _run(self, cmd, cwd=None):
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

    def _prepare(self):
        os.makedirs(self.src)
        gen = {"parse.c", "parse.h", "lex.c", "lex.h", "config.h"}
        for f in glob.glob(os.path.join(REPO, "src", "*")):
            b = os.path.basename(f)
            if b in gen or not os.path.isfile(f):
                continue
            if b.endswith((".c", ".h", ".l", ".y")):
                shutil.copy(f, self.src)
        ver = "0"
        try:
            m = re.search(r"AC_INIT\(\[selint\],\s*\[([^\]]*)\]", open(os.path.join(REPO, "configure.ac")).read())
            ver = m.group(1)
        except Exception:
            pass
        self.version = ver
        with open(os.path.join(self.src, "config.h"), "w") as f:
            f.write('#define VERSION "%s"\n#define PACKAGE "selint"\n#define HAVE_STRDUP 1\n'
                    '#define YYTEXT_POINTER 1\n' % ver)
        self._run(["bison", "-d", "-Wno-yacc", "-o", "parse.c", "parse.y"], self.src)
        self._run(["flex", "-o", "lex.c", "lex.l"], self.src)

    def variant(self, name, extra_src=(), extra_flags=(), main_rename=None, key=None):
        key = key or name
        if key in self.bins:
            return self.bins[key]
        v = VARIANTS[name]
        out = os.path.join(self.root, "bin-" + key)
        os.makedirs(out, exist_ok=True)
        base = [v["cc"], "-std=gnu11", "-w", "-I" + self.src, '-DSYSCONFDIR="%s"' % self.etc,
                '-DVERSION="%s"' % self.version, "-include", os.path.join(self.src, "config.h")] + v["flags"] + list(extra_flags)
        jobs = []
        objs = []
        for c in sorted(glob.glob(os.path.join(self.src, "*.c"))):
            o = os.path.join(out, os.path.basename(c)[:-2] + ".o")
            fl = []
            if main_rename and os.path.basename(c) == "main.c":
                fl = ["-Dmain=" + main_rename]
            jobs.append(base + fl + ["-c", c, "-o", o])
            objs.append(o)
        for c in extra_src:
            o = os.path.join(out, "x_" + os.path.basename(c)[:-2] + ".o")
            jobs.append(base + ["-c", c, "-o", o])
            objs.append(o)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(self._run, jobs))
        exe = os.path.join(out, "selint")
        self._run([v["cc"]] + v["flags"] + list(extra_flags) + objs + v["link"] + ["-lconfuse", "-lm", "-o", exe])
        self.bins[key] = exe
        return exe

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    b = Build(sys.argv[2] if len(sys.argv) > 2 else None)
    print(b.variant(sys.argv[1]), time.time() - t)
