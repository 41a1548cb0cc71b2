"""Which checks run."""
import copy
import os
from gen import Gen
from model import ALL_IDS, Config, enabled
from diff import workdir, compare, problem

PID = "C06"
RULE = ("Random policies analysed under many selections each: level from the command line, from the configuration or neither, random "
        "disable / enable_normal / enable_source lists (also with ids that do not exist and repeated ids), repeated -d and -e, -E, in "
        "source mode (-s or --context) and normal mode, all options in random order and spelling.  The findings must be exactly those of the "
        "reference model for the whole policy filtered by the documented precedence.  Non-trivial: at least one due finding is kept "
        "and one is dropped; distinct by selection and policy.")
ASSUMPTIONS = ["normal mode is run where the system has no SELinux headers, kernel classes or module store (as in the sandbox)",
               "checks that need support files are due only when these files are loaded"]
CHUNK = 25
SEV = "CSWEF"
BAD = ["X-001", "W-999", "w-001", "W001", "W-01", "C-0010", "F-001", "", "E-", "W-001 "]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("mixed", 520 * k), ("one", 500 * k), ("only", 220 * k)]


def ids(rng, dense, bad=0.05):
    k = rng.random()
    if k < 0.3:
        l = []
    elif k < 0.6:
        l = [rng.choice(dense) for _ in range(rng.randint(1, 3))]
    elif k < 0.9:
        l = [i for i in ALL_IDS if rng.random() < rng.choice([0.15, 0.5])]
        rng.shuffle(l)
    else:
        l = list(ALL_IDS)
    if rng.random() < bad:
        l.insert(rng.randint(0, len(l)), rng.choice(BAD))
    if l and rng.random() < 0.1:
        l.append(rng.choice(l))
    return l


def opts(rng, level, d, e, only):
    o = []
    if level:
        o.append(rng.choice([["-l", level], ["-l" + level], ["--level", level], ["--level=" + level]]))
        if rng.random() < 0.1:       # the last one counts
            o[0] = ["-l", rng.choice(SEV)] + o[0]
    for i in d:
        o.append(rng.choice([["-d", i], ["--disable=" + i], ["--disable", i]] + ([["-d" + i]] if i else [])))
    for i in e:
        o.append(rng.choice([["-e", i], ["--enable=" + i], ["--enable", i]] + ([["-e" + i]] if i else [])))
    if only:
        o.append([rng.choice(["-E", "--only-enabled"])])
    rng.shuffle(o)
    return [x for y in o for x in y]


def case(env, kind, rng, out):
    w = Gen(rng, nmods=rng.randint(1, 4), features={"order": rng.choice([0, 0.3]), "exc": 0.05, "unknown": 0.3, "messy": 2}).make()
    base = w.config
    full = None
    with workdir(env) as d:
        os.mkdir(d + "/empty")       # --context means source mode too
        for n in range(6):
            source = rng.random() < 0.7
            c = w.config = Config()
            c.__dict__.update(base.__dict__)
            c.severity = None
            c.disable, c.enable_normal, c.enable_source = [], [], []
            if full is None:
                due = [f[2] for f in w.policy().findings()]
                full = sorted(set(due)) or ALL_IDS
            dense = full + ["S-001", "C-005", "E-002"]
            if rng.random() < 0.75:
                c.present = True
                if rng.random() < 0.6:
                    c.severity = rng.choice(SEV[:4] if rng.random() < 0.9 else SEV)
            level = None if rng.random() < 0.5 else rng.choice("CCSSWWEF")
            only = False
            D, E = [], []
            if kind == "one":
                # one check under all four lists
                i = rng.choice(dense)
                if c.present:
                    for l in ("disable", "enable_normal", "enable_source"):
                        if rng.random() < 0.5:
                            getattr(c, l).append(i)
                if rng.random() < 0.5:
                    D.append(i)
                if rng.random() < 0.5:
                    E.append(i)
                only = bool(E) and rng.random() < 0.15
            else:
                if c.present:
                    c.disable, c.enable_normal, c.enable_source = ids(rng, dense), ids(rng, dense), ids(rng, dense)
                D, E = ids(rng, dense), ids(rng, dense)
                if kind == "only":
                    E = E or [rng.choice(dense)]
                    only = True
                elif E and rng.random() < 0.1:
                    only = True
            w.config_text = c.text(rng) if c.present else None
            paths, sup = w.write(d)
            args = (["-c", w.conf_path] if w.conf_path else []) + ([] if not source else ["-s"] if rng.random() < 0.85 else ["--context=" + d + "/empty"]) + opts(rng, level, D, E, only)
            if rng.random() < 0.2:
                args.append(rng.choice(["-S", "-F", "-v", "--color=off"]))
            args += sup + paths
            res = env.run(args, cwd=d)
            out.ran()
            p = problem(res, (0, 65))
            if p:
                out.violation(p, d, args, res=res)
                return
            lv = level or c.severity or "C"
            if source:
                pol = w.policy()
            else:
                x = copy.copy(w)
                x.mods = x.classes = x.perms = x.macros = None
                pol = x.policy()
            allf = pol.findings()
            keep = [f for f in allf if enabled(f[2], lv, c, source, D, E, only)]
            bad = compare(keep, res.findings, None)
            if bad:
                out.violation("; ".join(bad[:4]), d, args, res=res, expected="level %s, %s mode, disable %s, enable_normal %s, enable_source %s" % (
                    lv, "source" if source else "normal", c.disable, c.enable_normal, c.enable_source))
                return
            if keep and len(keep) < len(allf):
                out.key(tuple(f[:3] for f in keep), tuple(D), tuple(E), lv, source, only)
                out.stat("findings kept", len(keep))
                out.stat("findings dropped", len(allf) - len(keep))
                out.stat("%s mode" % ("source" if source else "normal"))
                out.stat("level " + lv)
                out.sample({"options": [a for a in args if not a.startswith(d)], "disable": c.disable[:5], "kept": len(keep), "of": len(allf)})
