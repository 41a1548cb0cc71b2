"""Requires in interfaces and templates."""
from gen import Gen
from diff import diff_case

PID = "C13"
IDS = ['W-002', 'W-003', 'W-011', 'S-004', 'S-005']
RULE = ("Random interfaces and templates (all statement kinds, nested blocks, several require blocks before and after the uses, parameters, exclusions, stubs, aliases) run through the real program; every finding of these checks (file, line, named symbols) is compared with a reference model that works on the statement objects the files were rendered from.  Non-trivial: at least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = ['names declared in two modules are not generated']
KINDS = {
    "mixed": (1800, {}, {'fc': 0, 'exc': 0.05, 'order': 0}),
    "interfaces": (2200, {'nmods': (1, 3)}, {'fc': 0, 'exc': 0.03, 'order': 0, 'ifs': 0.6, 'te': 0.2, 'other': 3, 'tt': 2}),
    "requires": (1600, {'nmods': (2, 4)}, {'fc': 0, 'exc': 0.03, 'order': 0, 'ifs': 0.5, 'te': 0.1, 'req': 8, 'blocks': 2, 'messy': 0.3}),
    "templates": (1000, {'nmods': (2, 3)}, {'fc': 0, 'exc': 0, 'order': 0, 'ifs': 0.2, 'templates': 0.8, 'te': 0.3, 'calls': 3}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    diff_case(env, out, Gen(rng, features=feats, **kw).make(), IDS, rng)
