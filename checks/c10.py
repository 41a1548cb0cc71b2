"""Determinism, independence of order, untouched inputs."""
import os
import shutil
import subprocess
from collections import Counter
from gen import Gen
from diff import workdir, problem
from model import ALL_IDS
from run import sane

PID = "C10"
RULE = ("Random policies (also with names declared twice, broken files, broken support files and broken configurations for the first kind) run "
        "several times (1) unchanged under different heap fill patterns, heap settings, address layouts, environments, stack limits and "
        "times: output and status must be byte-identical; (2) as explicit files in random orders; (3) as directory scans of trees whose "
        "entries were created in random orders, whole or by random roots: the findings with their messages must be the same multiset.  "
        "Every run is watched by an LD_PRELOAD monitor that logs each library call that could change the file system, and the scratch "
        "tree (names, types, contents, modes, times, inodes) is compared before and after.  Non-trivial: at least one finding; "
        "distinct by findings and variation.")
ASSUMPTIONS = ["(2) and (3) for policies in which no name is declared in two modules", "templates are called from te files and other templates, not from interfaces (known finding, run as a case of its own)", "C-001 depends on layers, which only directory scans give; it is not compared between scans and explicit files"]
CHUNK = 15


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("repeat", 450 * k), ("broken", 350 * k), ("order", 500 * k), ("scan", 400 * k), ("interface-call", 1)]


def prepare(env):
    so = os.path.join(env.tmp, "shim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", so, os.path.join(os.path.dirname(__file__), "..", "lib", "shim.c"), "-ldl"], check=True)
    env.extra["shim"] = so


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            s = os.lstat(p)
            c = None
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, "rb") as f:
                    c = hash(f.read())
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ctime_ns if not os.path.isdir(p) else 0, s.st_ino, s.st_uid, s.st_nlink, c)
    return out


def varied(rng, d, n):
    """Environment of one of several runs that must not differ."""
    e = {"HOME": d + "/home", "TMPDIR": d + "/tmp", "SHIM_LOG": d + ".log"}
    k = {}
    if n:
        e["MALLOC_PERTURB_"] = str(rng.choice([0, 1, 85, 170, 255]))
        if rng.random() < 0.5:
            e["GLIBC_TUNABLES"] = rng.choice(["glibc.malloc.tcache_count=0", "glibc.malloc.mmap_threshold=128", "glibc.malloc.mxfast=0",
                                              "glibc.malloc.arena_max=1:glibc.malloc.tcache_max=64", "glibc.malloc.top_pad=1000000"])
        for i in range(rng.choice([0, 1, 30])):
            e["VAR%d" % i] = "x" * rng.randint(0, 3000)
        if rng.random() < 0.4:
            e["LC_ALL"] = rng.choice(["C.UTF-8", "de_DE.UTF-8", "tr_TR", "POSIX"])
            e["LANG"] = "C.UTF-8"
        if rng.random() < 0.3:
            e["TZ"] = "Pacific/Auckland"
        e["TERM"] = rng.choice(["dumb", "xterm", ""])
        e["COLUMNS"] = rng.choice(["20", "400"])
        if rng.random() < 0.3:
            k["stack"] = rng.choice([4, 16, 64]) << 20
    return e, k


def watched(env, out, rng, d, args, n, before):
    """One monitored run; None after a violation."""
    e, k = varied(rng, d, n)
    e["LD_PRELOAD"] = env.extra["shim"]
    res = env.run(args, cwd=d, env=e, **k)
    out.ran()
    log = d + ".log"
    calls = []
    if os.path.exists(log):
        with open(log, errors="replace") as f:
            calls = f.read().split("\n")
        os.unlink(log)
    out.stat("files opened for reading", sum(1 for c in calls if c.startswith("read(")))
    bad = [c for c in calls if c and not c.startswith("read(")]
    if bad:
        out.violation("the run calls %s" % bad[:3], d, args, res=res)
        return None
    after = snapshot(d)
    if after != before:
        out.violation("files changed by the run: %s" % sorted(set(after.items()) ^ set(before.items()))[:2], d, args, res=res)
        return None
    return res


def home(d):
    os.makedirs(d + "/home", exist_ok=True)
    os.makedirs(d + "/tmp", exist_ok=True)


def interface_call(env, out, d):
    """Known finding: a template call in an interface counts only if the template was read before."""
    home(d)
    for n, t in (("aa.if", "interface(`aa_if',`\n\tbb_template(zz)\n')\n"), ("bb.if", "template(`bb_template',`\n\ttype $1_t;\n')\n"),
                 ("cc.te", "policy_module(cc, 1.0)\nallow cc_t zz_t:file read;\n")):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    got = []
    for o in (["aa.if", "bb.if"], ["bb.if", "aa.if"]):
        args = ["-s", "-E", "-e", "W-001"] + o + ["cc.te"]
        res = env.run(args, cwd=d)
        out.ran()
        got.append(sorted(res.findings))
    if got[0] != got[1]:
        out.violation("the order aa.if bb.if gives %s, bb.if aa.if gives %s" % tuple(got), d, args, res=res, key="interface-template-call-order")


def case(env, kind, rng, out):
    with workdir(env) as top:
        d = top + "/w"
        os.mkdir(d)
        if kind == "interface-call":
            return interface_call(env, out, d)
        w = Gen(rng, nmods=rng.randint(1, 4), clean=kind in ("order", "scan"), features={"order": 0.3, "exc": 0.1}).make()
        opts = ["-s"] + [x for i in ALL_IDS for x in ("-e", i)] if rng.random() < 0.7 else ["-s"]
        if kind in ("repeat", "broken"):
            repeat(env, kind, rng, out, d, w, opts)
        elif w.policy().dups:
            out.stat("names declared twice (skipped)")
        elif kind == "order":
            order(env, rng, out, d, w, opts)
        else:
            scan(env, rng, out, d, w, opts)


def repeat(env, kind, rng, out, d, w, opts):
    paths, sup = w.write(d)
    home(d)
    if kind == "broken":
        every = paths + sup + ([w.conf_path] if w.conf_path else [])
        for p in rng.sample(every, min(len(every), rng.randint(1, 3))):
            with open(p, "rb") as f:
                b = bytearray(f.read())
            for i in range(rng.randint(1, 4)):
                if not b:
                    break
                j = rng.randrange(len(b))
                q = rng.random()
                if q < 0.4:
                    b[j] = rng.choice(b"();{}`',:\n \x00\xff\"#$")
                elif q < 0.7:
                    del b[j:j + rng.randint(1, 40)]
                else:
                    b[j:j] = b[rng.randrange(len(b)):][:rng.randint(1, 60)]
            with open(p, "wb") as f:
                f.write(b)
    args = opts + rng.choice([[], ["-S"], ["-v"], ["-F"], ["--color=on"], ["--summary-only"]]) + (["-c", w.conf_path] if w.conf_path else [])
    args += sup + paths if rng.random() < 0.6 else ["-r", d + "/policy"]
    before = snapshot(d)
    first = None
    for n in range(4):
        res = watched(env, out, rng, d, args, n, before)
        if res is None:
            return
        p = sane(res)
        if p:
            out.violation(p, d, args, res=res)
            return
        if first is None:
            first = res
        elif (res.rc, res.out, res.err) != (first.rc, first.out, first.err):
            a, b = first.out.split("\n"), res.out.split("\n")
            df = next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)
            out.violation("the same run gives different output: status %s and %s, first difference %s" % (first.rc, res.rc, df), d, args, res=res)
            return
    out.stat("status %d" % first.rc)
    out.stat("findings", len(first.findings))
    if first.findings:
        out.key(tuple(first.findings), tuple(args[-1:]))


def same(out, d, args, first, res, what, drop=()):
    a = Counter(f for f in first.findings if f[2] not in drop)
    b = Counter(f for f in res.findings if f[2] not in drop)
    if a != b:
        out.violation("%s changes the findings: only in the first %s, only in the other %s" % (what, list((a - b).keys())[:3], list((b - a).keys())[:3]),
                      d, args, res=res, expected=first.argv)
        return False
    return True


def order(env, rng, out, d, w, opts):
    paths, sup = w.write(d)
    home(d)
    before = snapshot(d)
    first = None
    conf = ["-c", w.conf_path] if w.conf_path else []
    for n in range(5):
        p = sup + paths
        if n:
            rng.shuffle(p)
            if rng.random() < 0.2:
                p = sorted(p, reverse=rng.random() < 0.5)
            if rng.random() < 0.3:
                p = [os.path.relpath(x, d) for x in p]
        args = opts + conf + p
        res = watched(env, out, rng, d, args, n, before)
        if res is None:
            return
        e = problem(res)
        if e:
            out.violation(e, d, args, res=res)
            return
        first = first or res
        if not same(out, d, args, first, res, "another order of the files"):
            return
        if n and p != sup + paths:
            out.stat("orders compared")
    args = opts + conf + ["-r", d + "/policy"]
    res = watched(env, out, rng, d, args, 5, before)
    if res is None or not same(out, d, args, first, res, "giving the directory", ("C-001",)):
        return
    out.stat("findings", len(first.findings))
    if first.findings:
        out.key("order", tuple(sorted(first.findings)))
        out.sample({"files": [f["name"] for f in w.files], "findings": len(first.findings), "orders": 5})


def scan(env, rng, out, d, w, opts):
    paths, sup = w.write(d)
    home(d)
    conf = ["-c", "selint.conf"] if w.conf_path else []
    every = [os.path.relpath(os.path.join(r, f), d) for r, ds, fs in os.walk(d + "/policy") for f in fs]
    roots = sorted({e.split("/")[1] for e in every if e.count("/") > 1})
    first = None
    for n in range(4):
        t = d + "%d" % n
        os.mkdir(t)
        home(t)
        l = list(every)
        if n:
            rng.shuffle(l)
        junk = [i for i in range(200) if rng.random() < 0.1 * n]
        for i in junk:                 # moves directory entries around
            os.makedirs(os.path.join(t, "policy"), exist_ok=True)
            open(os.path.join(t, "policy", "junk%d" % i), "w").close()
        for e in l:
            os.makedirs(os.path.join(t, os.path.dirname(e)), exist_ok=True)
            shutil.copyfile(os.path.join(d, e), os.path.join(t, e))
        for i in junk:
            if rng.random() < 0.7:
                os.unlink(os.path.join(t, "policy", "junk%d" % i))
        if conf:
            shutil.copyfile(d + "/selint.conf", t + "/selint.conf")
        args = opts + conf + ["-r"]
        if n and rng.random() < 0.5:
            rr = ["policy/" + r for r in roots] + [e for e in every if e.count("/") == 1]
            rng.shuffle(rr)
            args += rr
        else:
            args += [rng.choice(["policy", "./policy/", t + "/policy", "."])]
        res = watched(env, out, rng, t, args, n, snapshot(t))
        if res is None:
            return
        e = problem(res)
        if e:
            out.violation(e, t, args, res=res)
            return
        first = first or res
        if not same(out, t, args, first, res, "another directory order"):
            return
        out.stat("scans compared")
    out.stat("findings", len(first.findings))
    if first.findings:
        out.key("scan", tuple(sorted(first.findings)))
