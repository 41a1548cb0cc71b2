"""Headers, comments, semicolons and stray words."""
from gen import Gen
from diff import diff_case

PID = "C23"
IDS = ['S-003', 'S-006', 'W-009', 'C-004', 'E-010']
RULE = ("Random files (headers, comments before definitions, semicolons and bare words in all blocks and all argument positions of ifelse, simple macro configuration) run through the real program; every finding of these checks (file, line, named symbols) is compared with a reference model that works on the statement objects the files were rendered from.  Non-trivial: at least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = []
KINDS = {
    "mixed": (2500, {}, {'fc': 0, 'exc': 0.05, 'order': 0}),
    "messy": (3000, {'nmods': (1, 4)}, {'fc': 0, 'exc': 0.03, 'order': 0, 'messy': 8, 'blocks': 3, 'av': 0.3}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    diff_case(env, out, Gen(rng, features=feats, **kw).make(), IDS, rng)
