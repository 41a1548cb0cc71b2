"""Runs the cases of one property, collects what was observed and writes evidence and verdict.

A check module defines
  PID, RULE, ASSUMPTIONS, VARIANTS (builds it needs)
  plan(tier) -> list of (kind, count)
  case(env, kind, rng, out)            one case; reports through out
and optionally prepare(env) for further builds.
Exit status: 0 held on everything observed, 1 violation, 2 the check itself could not work.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

import build
from run import run as _run, sane

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
MAX_VIOL = 12


class Stop(Exception):
    pass


class Inconclusive(Exception):
    """This case says nothing (a resource of the sandbox, not the program, gave out)."""


class Env:
    """What the cases of a check share."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.exe = {}
        self.tmp = None
        self.extra = {}

    def run(self, args, variant="plain", **kw):
        """One run of selint; a run that does not end is tried again with more time."""
        exe = self.exe[variant]
        t = kw.pop("timeout", 15)
        r = _run(exe, args, timeout=t, **kw)
        if r.timeout:
            r = _run(exe, args, timeout=4 * t, **kw)
        return r


class Out:
    """Observations of one case."""

    def __init__(self, env, kind, idx):
        self.env, self.kind, self.idx = env, kind, idx
        self.evals = 0
        self.keys = set()
        self.stats = Counter()
        self.viol = []
        self.samples = []

    def ran(self, n=1):
        self.evals += n

    def key(self, *x):
        """Registers a distinct non-trivial observation."""
        self.keys.add(hashlib.sha1(repr(x).encode()).digest()[:8])

    def stat(self, name, n=1):
        self.stats[name] += n

    def sample(self, x):
        if len(self.samples) < 1:
            self.samples.append(x)

    def violation(self, what, d=None, args=None, expected=None, actual=None, res=None, key=None):
        """d: directory with the inputs (copied to the replay); key: identity for known findings"""
        rep = None
        if len(self.viol) < 3:
            rep = os.path.join(VERIF, "replays", "%s-%s-%s-%d" % (self.env.pid, self.kind, self.env.seed, self.idx) +
                               ("-%d" % len(self.viol) if self.viol else ""))
            shutil.rmtree(rep, ignore_errors=True)
            os.makedirs(rep)
            if d and os.path.isdir(d):
                try:
                    shutil.copytree(d, os.path.join(rep, "input"), symlinks=True)
                except Exception:
                    pass
            with open(os.path.join(rep, "violation.txt"), "w") as f:
                f.write("property %s, case %s:%d, VERIF_SEED=%s\n%s\n" % (self.env.pid, self.kind, self.idx, self.env.seed, what))
                f.write("again: VERIF_SEED=%s python3 %s/check.py %s --tier %s --only %s:%d\n" % (
                    self.env.seed, VERIF, self.env.pid, self.env.tier, self.kind, self.idx))
                if args is not None:
                    a = [str(x) for x in args]
                    if d:
                        a = [x.replace(d, "input") for x in a]
                    f.write("selint arguments (from this directory): %s\n" % " ".join(a))
                if expected is not None:
                    f.write("expected: %s\n" % (expected,))
                if actual is not None:
                    f.write("actual:   %s\n" % (actual,))
                if res is not None:
                    f.write("--- status %s\n--- stdout\n%s\n--- stderr\n%s\n" % (res.rc, res.out[-20000:], res.err[-20000:]))
        self.viol.append({"what": what, "replay": rep, "key": key})


def rng_for(pid, kind, seed, idx):
    return random.Random("%s/%s/%s/%d" % (pid, kind, seed, idx))


_ENV = None
_MOD = None
_KNOWN = ()


def _work(job):
    kind, lo, hi = job
    tot = Out(_ENV, kind, lo)
    err = None
    inconclusive = 0
    for i in range(lo, hi):
        o = Out(_ENV, kind, i)
        try:
            _MOD.case(_ENV, kind, rng_for(_ENV.pid, kind, _ENV.seed, i), o)
        except Inconclusive as e:
            inconclusive += 1
            o.stats["inconclusive: %s" % e] += 1
        except Exception:
            err = "case %s:%d\n%s" % (kind, i, traceback.format_exc())
            break
        tot.evals += o.evals
        tot.keys |= o.keys
        tot.stats.update(o.stats)
        tot.viol += o.viol
        if o.samples and not tot.samples:
            tot.samples = o.samples
        if sum(1 for x in o.viol if x["key"] not in _KNOWN) and (
                any("did not end in time" in x["what"] for x in o.viol) or
                sum(1 for x in tot.viol if x["key"] not in _KNOWN) >= 3):
            break
    return kind, hi - lo, tot.evals, tot.keys, tot.stats, tot.viol, tot.samples, err, inconclusive


def _limit():
    """A run that allocates without end must not take the sandbox down (sanitizers have their own limit)."""
    if all(v.startswith("plain") for v in _ENV.exe):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


def fast_dir(pid):
    """Scratch directory in memory, if there is enough of it."""
    try:
        s = os.statvfs("/dev/shm")
        if s.f_bavail * s.f_frsize > (2 << 30):
            return tempfile.mkdtemp(prefix="selint-%s-" % pid.lower(), dir="/dev/shm")
    except OSError:
        pass
    return None


def known_findings():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": []}


def main(pid, argv):
    global _ENV, _MOD, _KNOWN
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--only":
            only = next(it)
        else:
            print("unknown argument", a)
            return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    _MOD = importlib.import_module(pid.lower())
    env = _ENV = Env(pid, tier, seed)
    b = None
    tmp = tempfile.mkdtemp(prefix="selint-%s-" % pid.lower())
    fast = fast_dir(pid)
    pool = None
    try:
        env.tmp = fast or tmp          # inputs of the cases
        try:
            b = build.Build(os.path.join(tmp, "build"))
            for v in getattr(_MOD, "VARIANTS", ["plain"]):
                env.exe[v] = b.variant(v)
            env.build = b
            if hasattr(_MOD, "prepare"):
                _MOD.prepare(env)
        except build.BuildError as e:
            print("check %s: build failed\n%s" % (pid, e))
            return 2
        env.build = None
        plan = _MOD.plan(tier)
        jobs = []
        if only:
            k, i = only.rsplit(":", 1)
            jobs = [(k, int(i), int(i) + 1)]
        else:
            for kind, n in plan:
                n = max(1, int(n * scale)) if n > 1 else n
                step = max(1, min(getattr(_MOD, "CHUNK", 50), (n + 15) // 16))
                jobs += [(kind, i, min(n, i + step)) for i in range(0, n, step)]
        evals, cases, inconclusive = 0, 0, 0
        keys, stats, viol, samples, errors = set(), Counter(), [], [], []
        per_kind = Counter()
        known = {k["key"]: k for k in known_findings()["findings"] if k["property"] == pid}
        _KNOWN = frozenset(known)
        seen_known = {}
        ctx = mp.get_context("fork")
        pool = ctx.Pool(build.NPROC, initializer=_limit)
        for kind, n, e, k, s, v, sm, err, inc in pool.imap_unordered(_work, jobs):
            per_kind[kind] += e
            cases += n
            evals += e
            keys |= k
            stats.update(s)
            inconclusive += inc
            if sm and len(samples) < 4:
                samples += [x for x in sm if x not in samples]
            if err:
                errors.append(err)
            for x in v:
                if x["key"] in known:
                    seen_known[x["key"]] = x
                else:
                    viol.append(x)
            if len(viol) >= MAX_VIOL or errors:
                break
        pool.terminate()
        pool.join()
        pool = None
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
            if seen_known[k]["replay"]:
                shutil.rmtree(seen_known[k]["replay"], ignore_errors=True)
        for x in viol[:MAX_VIOL]:
            print(x["what"].rstrip()[:600])
            print("VIOLATION property=%s replay=%s" % (pid, x["replay"] or os.path.join(VERIF, "replays")))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(keys), "rule": _MOD.RULE,
                "samples": samples[:4], "cases": cases, "runs_by_kind": dict(sorted(per_kind.items())),
                "observed": dict(sorted((k, v) for k, v in stats.items())), "inconclusive": inconclusive,
            },
            "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        if viol:
            return 1
        if errors:
            print("check %s: harness error\n%s" % (pid, errors[0]))
            return 2
        if not only and (evals == 0 or len(keys) < getattr(_MOD, "MIN_DISTINCT", 2)):
            print("check %s: too little was observed (%d runs, %d distinct)" % (pid, evals, len(keys)))
            return 2
        if inconclusive > max(3, cases // 20):
            print("check %s: %d of %d cases inconclusive" % (pid, inconclusive, cases))
            return 2
        print("%s held: %d runs, %d distinct non-trivial observations, %.1f s" % (pid, evals, len(keys), time.time() - t0))
        return 0
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
        shutil.rmtree(tmp, ignore_errors=True)
        if fast:
            shutil.rmtree(fast, ignore_errors=True)
