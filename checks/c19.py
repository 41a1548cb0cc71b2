"""Ordering of te files."""
from gen import Gen, family
from diff import diff_case, compare
import os

PID = "C19"
IDS = ["C-001"]
RULE = ("Random te files (mostly ordered with a few displaced statements, fully random, many equal sections, blocks, exempted "
        "statements, calls to own/related/kernel/system/other/transforming interfaces) are checked under each of the three "
        "ordering rule sets; the reported statements (file, line, cited line) are compared with a reference implementation of the "
        "documented section and local ordering rules and of patience search.  Layers come from directory scans.  Non-trivial: at "
        "least one C-001 is due; distinct by rule set and the set of findings due.")
ASSUMPTIONS = ["the reference shares with the program the documented comparison rules and the tie breaking of patience search",
               "statements that are in order with the whole ordered run belong to it (the rules are a partial order)"]
KINDS = {
    "mixed": (700, {}, {'fc': 0, 'exc': 0.05, 'order': 1, 'te': 2}),
    "ordered": (1400, {'nmods': (1, 4)}, {'fc': 0, 'exc': 0.04, 'order': 1, 'te': 3, 'messy': 0.3, 'templates': 0.1}),
    "calls": (1000, {'nmods': (3, 6)}, {'fc': 0, 'exc': 0.03, 'order': 0.5, 'te': 2, 'calls': 5, 'av': 0.6, 'ifs': 0.5}),
    "related": (900, {'nmods': (3, 5)}, {'fc': 0, 'exc': 0.03, 'order': 0.7, 'te': 2, 'calls': 4, 'av': 0.7, 'ifs': 0.6, 'templates': 0.1}),
    "blocks": (700, {'nmods': (2, 4)}, {'fc': 0, 'exc': 0.05, 'order': 0.6, 'te': 2, 'blocks': 4, 'ifs': 0.5}),
}


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [(n, v[0] * k) for n, v in KINDS.items()]


def case(env, kind, rng, out):
    n, kw, feats = KINDS[kind]
    kw = dict(kw)
    if "nmods" in kw:
        kw["nmods"] = rng.randint(*kw["nmods"])
    if kind == "related":
        kw["mods"] = family(rng, kw.pop("nmods"))
    scan = rng.random() < 0.7
    g = Gen(rng, features=feats, clean=scan, **kw)      # known finding of C10: template calls in interfaces
    w = g.make()
    if kind == "related" and rng.random() < 0.7:
        w.config.present, w.config.ordering_rules = True, "refpolicy-light"
        w.config_text = w.config.text(rng)
    elif rng.random() < 0.75 and w.config.present:
        w.config.ordering_rules = rng.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"])
        w.config_text = w.config.text(rng)
    scan = scan and not w.policy().dups     # the order of a scan is not specified
    diff_case(env, out, w, IDS, rng, scan=scan)
