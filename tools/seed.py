#!/usr/bin/env python3
"""Creates and verifies planted bugs.

seed.py new SPEC.py ...   SPEC defines ID, PROPERTY, FILE(s) EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (body of the shell script)
seed.py verify ID ...     builds, tests, demo on both trees
seed.py catch ID ...      runs the check of the bug's property (and says whether it is reported)
Works on /repo itself (patch applied and taken back).
"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    return not sh("git -C %s status --porcelain --untracked-files=no" % R).stdout.strip()


def build():
    p = sh("bash /opt/vp/build.sh")
    return p.returncode == 0, p.stdout[-2000:]


def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    o = json.load(open("/tmp/seed_out.json"))
    names = BASE.get("stable") or BASE.get("tests") or BASE
    if isinstance(names, dict):
        names = list(names)
    def passed(o):
        if isinstance(o.get("passed"), list):
            return set(o["passed"])
        t = o.get("tests", o)
        return {k for k, v in t.items() if v in ("passed", "pass", True)}
    bad = [n for n in names if n not in passed(o)]
    return bad


def demo(i):
    p = subprocess.run(["timeout", "300", "bash", os.path.join(V, "seeded", i, "demo.sh")], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout[-1500:]


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    i = g["ID"]
    d = os.path.join(V, "seeded", i)
    assert clean(), "repo not clean"
    try:
        for f, old, nw in g["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1 or g.get("FIRST") and old in s, "%s: %d occurrences in %s of %r" % (i, s.count(old), f, old)
            open(p, "w").write(s.replace(old, nw, 1))
        diff = sh("git -C %s diff" % R).stdout
    finally:
        sh("git -C %s checkout -- ." % R)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# %s\nD=$(mktemp -d) || exit 1\ntrap 'rm -rf \"$D\"' EXIT\nS=$PWD/src/selint\nfail() { echo \"FAIL: $*\"; exit 1; }\n%s\nexit 0\n" % (g["BREAKS"], g["DEMO"].strip()))
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return i


def verify(i, tests=True):
    d = os.path.join(V, "seeded", i)
    assert clean()
    ok = True
    # lines of own commits must not be touched
    try:
        p = sh("git -C %s apply %s/patch.diff" % (R, d))
        if p.returncode:
            print(i, "does not apply", p.stdout)
            return False
        b, o = build()
        if not b:
            print(i, "does not build", o)
            return False
        if "warning:" in o:
            print(i, "warnings")
        rc, o = demo(i)
        if rc == 0:
            print(i, "demo passes with the patch", o)
            ok = False
        else:
            print(i, "demo with patch:", rc, o.strip()[-200:])
        if tests:
            bad = stable()
            if bad:
                print(i, "tests fail:", bad[:5])
                ok = False
    finally:
        sh("git -C %s checkout -- ." % R)
    build()
    rc, o = demo(i)
    if rc:
        print(i, "demo fails on the unchanged tree:", rc, o)
        ok = False
    print(i, "OK" if ok else "BAD")
    return ok


def own_lines(i):
    """Lines removed by the patch that are not in the base commit."""
    d = os.path.join(V, "seeded", i, "patch.diff")
    f = None
    out = []
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            base = set(sh("git -C %s show 39ebbf2:%s" % (R, f)).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:].rstrip("\n") not in base:
                out.append(l.strip())
    return out


def catch(i, tier="quick", seeds=(1,)):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    assert clean()
    res = []
    try:
        p = sh("git -C %s apply %s/patch.diff" % (R, d))
        assert p.returncode == 0, p.stdout
        for s in seeds:
            t = time.time()
            p = sh("cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (V, s, tier, m["property"]))
            v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION property=%s " % m["property"])]
            first = p.stdout.strip().split("\n")[0][:150]
            res.append("caught" if p.returncode == 1 and v else "MISSED")
            print(i, m["property"], "seed", s, res[-1], "rc", p.returncode, "%.0fs" % (time.time() - t), first if v or p.returncode not in (0, 1) else "")
    finally:
        sh("git -C %s checkout -- ." % R)
    return res


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "new":
        for s in a:
            i = new(s)
            o = own_lines(i)
            if o:
                print(i, "touches lines of own commits:", o)
            verify(i)
            if os.path.exists(os.path.join(V, "checks", json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"].lower() + ".py")):
                catch(i)
    elif sys.argv[1] == "verify":
        for i in a:
            verify(i)
    elif sys.argv[1] == "catch":
        for i in a or sorted(os.listdir(os.path.join(V, "seeded"))):
            catch(i)
