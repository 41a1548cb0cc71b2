"""Differential monitor: the findings printed by the real program against those of the reference model."""
import os
import re
import shutil
import tempfile
from collections import Counter
from contextlib import contextmanager

from model import ALL_IDS
from perms import All, Maybe
from run import sane


WORDS = re.compile(r"[\s()]+")


@contextmanager
def workdir(env):
    d = tempfile.mkdtemp(dir=env.tmp, prefix="c")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sym_ok(sym, msg):
    if sym is None:
        return True
    if isinstance(sym, All):
        words = {x for w in WORDS.split(msg) for x in (w, w.strip("'.`,"))}
        return all(s in words for s in sym)
    if isinstance(sym, tuple):
        return any(s in msg for s in sym)
    return sym in msg


def compare(exp, act, ids):
    """exp: (file, line, id, symbol); act: (file, line, id, message).  Returns texts of what differs."""
    if ids is not None:
        exp = [e for e in exp if e[2] in ids]
        act = [a for a in act if a[2] in ids]
    ca = Counter(a[:3] for a in act)
    ce = Counter(e[:3] for e in exp)
    sym = {}
    for e in exp:
        if isinstance(e[3], Maybe) and ca[e[:3]] < ce[e[:3]]:
            ce[e[:3]] -= 1
        sym.setdefault(e[:3], []).append(e[3])
    out = []
    for k, n in sorted((ca - ce).items()):
        m = [a[3] for a in act if a[:3] == k]
        out.append("not expected: %s:%d %s %s" % (k[0], k[1], k[2], m))
    for k, n in sorted((ce - ca).items()):
        out.append("missing: %s:%d %s %s" % (k[0], k[1], k[2], sym[k]))
    if not out:
        # same places: do the messages name the right things?
        left = {k: list(v) for k, v in sym.items()}
        for a in act:
            l = left[a[:3]]
            i = next((i for i, s in enumerate(l) if s is not None and not (isinstance(s, str) and s == "") and sym_ok(s, a[3])), None)
            if i is None:
                i = next((i for i, s in enumerate(l) if sym_ok(s, a[3])), None)
            if i is None:
                out.append("message: %s:%d %s says %r, expected to name %s" % (a[0], a[1], a[2], a[3], l))
            else:
                l.pop(i)
    return out


def base_args(w):
    return ["-s"] + (["-c", w.conf_path] if w.conf_path else [])


def select(ids, rng=None):
    """Options that select exactly (or at least) the given checks."""
    if ids is None:
        return [x for i in ALL_IDS for x in ("-e", i)]
    if rng is None or rng.random() < 0.7:
        return ["-E"] + [x for i in ids for x in ("-e", i)]
    return [x for i in ALL_IDS for x in ("-e", i)]


def problem(res, ok=(0,)):
    """Did the run of a valid policy end as it should?"""
    s = sane(res)
    if s:
        return s
    if res.rc not in ok:
        return "exit status %d" % res.rc
    f = [l for l in res.out.split("\n") if "(F-0" in l]
    if f:
        return "fatal finding on a valid policy: %s" % f[0]
    return None


def diff_case(env, out, w, ids, rng, variant="plain", order=None, context=(), extra=(), exp=None, files=None, d=None, write=True, scan=False):
    """Runs world w and compares; returns the Result (None after a violation)."""
    if d is None:
        with workdir(env) as dd:
            return diff_case(env, out, w, ids, rng, variant, order, context, extra, exp, files, dd, write, scan)
    if write:
        paths, sup = w.write(d, context)
        w._paths, w._sup = paths, sup
    paths, sup = w._paths, w._sup
    if order is not None:
        by = {os.path.basename(p): p for p in paths}
        paths = [by[n] for n in order]
    ctx = []
    if context:
        paths = [p for p in paths if os.path.basename(p) not in context]
        ctx = ["--context=" + os.path.join(d, "ctx")]
    if scan:                     # a directory scan, the order of which is up to the program
        assert not context
        paths, sup = ["-r", os.path.join(d, "policy")], []
    args = base_args(w) + select(ids, rng) + list(extra) + ctx + sup + paths
    res = env.run(args, variant=variant, cwd=d)
    out.ran()
    p = problem(res)
    if p:
        out.violation(p, d, args, res=res)
        return None
    if exp is None:
        exp = w.policy(order, context, explicit=not scan).findings()
    foc = [e for e in exp if ids is None or e[2] in ids]
    bad = compare(exp, res.findings, ids)
    if bad:
        out.violation("; ".join(bad[:4]), d, args, res=res)
        return None
    if foc:
        out.key(tuple(sorted((e[0], e[1], e[2], str(e[3])) for e in foc)))
    for e in foc:
        out.stat("finding " + e[2])
    out.stat("statements", sum(1 for f in w.files for l in f["text"].split("\n") if l.strip()))
    if foc:
        out.sample({"files": [f["name"] for f in w.files], "finding": list(map(str, foc[0][:3])), "statement":
                    next((f["text"].split("\n")[foc[0][1] - 1][:160] for f in w.files if f["name"] == foc[0][0]), "")})
    return res
