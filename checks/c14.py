"""Interface calls."""
from gen import Gen
from diff import diff_case

PID = "C14"
IDS = ['W-005', 'W-006', 'W-007', 'W-010', 'E-006']
RULE = ("Random calls (own, foreign, unknown and pattern names, names with abbreviations and prefixes of modules; all argument forms) in all blocks of te and if files, with module tables of all states run through the real program; every finding of these checks (file, line, named symbols) is compared with a reference model that works on the statement objects the files were rendered from.  Non-trivial: at least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = []
KINDS = {
    "mixed": (2000, {}, {'fc': 0, 'exc': 0.05, 'order': 0}),
    "calls": (2500, {'nmods': (2, 5)}, {'fc': 0, 'exc': 0.03, 'order': 0, 'calls': 6, 'blocks': 2.5, 'av': 0.2}),
    "nested": (1200, {'nmods': (2, 5)}, {'fc': 0, 'exc': 0.0, 'order': 0, 'calls': 6, 'blocks': 8, 'av': 0.2, 'ifs': 0.6}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    diff_case(env, out, Gen(rng, features=feats, **kw).make(), IDS, rng)
