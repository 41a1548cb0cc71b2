"""Unrelated modules."""
import os
import re
from collections import Counter
from gen import Gen
from diff import workdir, problem
from model import ALL_IDS
from run import parse_output

PID = "C22"
RULE = ("Two to six random policies without a common declared name, interface or module (other modules of the same kinds, the same "
        "undeclared names, the same support files and configuration), analysed alone and merged: as explicit files interleaved at random "
        "and as one directory scan with all or several roots.  The findings of the merged run, with messages, must be the union of "
        "those of the parts, and its summary their sum.  Non-trivial: at least two parts have findings; distinct by findings and order.")
ASSUMPTIONS = ["for scans, names are declared in one module and templates are called from te files and templates only"]
TECHNIQUE = "runtime monitoring: generated workloads through the real program, conservation of findings under merging (metamorphic)"
CHUNK = 20
WORD = re.compile(r"[A-Za-z0-9_]+")


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("explicit", 500 * k), ("scan", 450 * k), ("small", 600 * k)]


def names(pol, w):
    s = set()
    for fl, t in pol.decl.items():
        s |= {n for n, m in t.items() if m != "__assumed__" and not (fl == "class" and n in (w.classes or ())) and fl not in ("perm", "user")}
    return s | {f["mod"] for f in w.files} | {f["name"] for f in w.files}


def case(env, kind, rng, out):
    scan = kind == "scan"
    n = rng.choice([2, 2, 2, 3, 3, 4, 6])
    feats = {"fc": 0.5, "order": rng.choice([0, 0.3]), "exc": 0.06, "ifs": rng.choice([0.3, 0.6]), "messy": rng.choice([1, 3])}
    ws = []
    for i in range(n):
        g = Gen(rng, nmods=rng.randint(1, 1 if kind == "small" else 3), clean=scan, prefix=["", "va", "vb", "vc", "vd", "ve"][i], config=not i, features=feats,
                size=rng.choice([0.3, 1, 1]) if kind == "small" else 1)
        if i:
            g.conf = lambda: None
            g.w.config, g.w.config_text = ws[0].config, ws[0].config_text
        ws.append(g.make())
    base = ws[0]
    if base.mods is not None:
        for w in ws[1:]:
            if w.mods is not None:
                for m, st in w.mods.items():
                    if m not in base.mods:
                        base.mods[m] = st
                        base.mods_text += "%s = %s\n" % (m, st)
    decl, words = [], []
    for w in ws:
        w.mods, w.mods_text, w.classes, w.perms, w.av_text, w.macros, w.spt_text = (
            base.mods, base.mods_text, base.classes, base.perms, base.av_text, base.macros, base.spt_text)
        pol = w.policy()
        if scan and pol.dups:
            out.stat("names declared twice (skipped)")
            return
        decl.append(names(pol, w))
        words.append({x for f in w.files for x in WORD.findall(f["text"])})
    for i, s in enumerate(decl):
        if any(s & t for j, t in enumerate(words) if j != i) or any(s & t for t in decl[:i]):
            out.stat("common names (skipped)")
            return
    every = [x for i in ALL_IDS for x in ("-e", i)]
    with workdir(env) as d:
        opts = ["-s", "-S"] + every
        parts, exp, sums, sup = [], Counter(), Counter(), []
        for i, w in enumerate(ws):
            paths, sp = w.write(d + "/%d" % i if scan else d)
            if i == 0:
                sup = sp
                if w.conf_path:
                    opts += ["-c", w.conf_path]
            parts.append(paths)
            args = opts + (["-r", d + "/%d/policy" % i] if scan else sup + paths)
            res = env.run(args, cwd=d)
            out.ran()
            p = problem(res)
            if p:
                out.violation(p, d, args, res=res)
                return
            exp += Counter(res.findings)
            for l in res.summary or []:
                if ": " in l:
                    sums[l.split(": ")[0]] += int(l.split(": ")[1])
        busy = sum(1 for p in parts if any(f[0] in {os.path.basename(x) for x in p} for f in exp))
        for n in range(2):
            order = []
            if scan:
                k = rng.random()
                if k < 0.4:
                    roots = [d]
                else:
                    roots = [d + "/%d/policy" % i for i in range(len(ws))]
                    rng.shuffle(roots)
                args = opts + ["-r"] + roots
                order = roots
            else:
                left = [list(p) for p in parts]
                if n and rng.random() < 0.7:          # whole parts after each other
                    rng.shuffle(left)
                    order = [x for p in left for x in p]
                else:
                    while any(left):
                        p = rng.choice([p for p in left if p])
                        order.append(p.pop(0))
                args = opts + sup + order
            res = env.run(args, cwd=d)
            out.ran()
            p = problem(res)
            if p:
                out.violation(p, d, args, res=res)
                return
            got = Counter(res.findings)
            if got != exp:
                out.violation("merged: missing %s, new %s" % (list((exp - got).keys())[:3], list((got - exp).keys())[:3]), d, args, res=res)
                return
            s = Counter({l.split(": ")[0]: int(l.split(": ")[1]) for l in res.summary or [] if ": " in l})
            if s != sums:
                out.violation("summary of the merged run is not the sum", d, args, res=res, expected=dict(sums), actual=dict(s))
                return
            if busy > 1:
                out.key(tuple(sorted(got)), tuple(os.path.basename(x) for x in order))
                out.stat("findings conserved", sum(got.values()))
                out.stat("parts", len(ws))
                out.sample({"parts": [sorted({f["mod"] for f in w.files}) for w in ws], "findings": sum(got.values())})
