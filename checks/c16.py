"""File contexts."""
from gen import Gen
from diff import diff_case

PID = "C16"
IDS = ['E-002', 'E-003', 'E-004', 'E-005', 'S-002', 'S-007', 'W-004']
RULE = ("Random fc files (paths with escapes, bracket groups and repetitions; file type markers; gen_context and raw contexts; malformed lines; m4 framing; custom macros; CRLF; no final newline; generated file names) run through the real program; every finding of these checks (file, line, named symbols) is compared with a reference model that works on the statement objects the files were rendered from.  Non-trivial: at least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = []
KINDS = {
    "mixed": (1200, {}, {'fc': 1, 'exc': 0, 'order': 0}),
    "fc": (4500, {'nmods': (1, 4), 'size': 3.0}, {'fc': 1, 'exc': 0, 'order': 0, 'te': 0.1, 'ifs': 0.1, 'fclines': 2}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    diff_case(env, out, Gen(rng, features=feats, **kw).make(), IDS, rng)
