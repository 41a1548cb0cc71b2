"""Permissions and classes."""
from gen import Gen
from diff import diff_case

PID = "C17"
IDS = ['E-007', 'E-008', 'W-008', 'C-005', 'C-007', 'S-009']
RULE = ("Random access rules and extended rules (class lists, sets, unknown classes and permissions in every position, macros, wildcards, complements, parameters) over random access vector and permission macro files run through the real program; every finding of these checks (file, line, named symbols) is compared with a reference model that works on the statement objects the files were rendered from.  Non-trivial: at least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = []
KINDS = {
    "mixed": (2000, {}, {'fc': 0, 'exc': 0.05, 'order': 0}),
    "rules": (3000, {'nmods': (1, 3)}, {'fc': 0, 'exc': 0.02, 'order': 0, 'av': 8, 'unknown': 0.4, 'calls': 0.3}),
    "transitions": (800, {'nmods': (1, 3)}, {'fc': 0, 'exc': 0.02, 'order': 0, 'tt': 12, 'unknown': 0.6, 'av': 1}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    diff_case(env, out, Gen(rng, features=feats, **kw).make(), IDS, rng)
