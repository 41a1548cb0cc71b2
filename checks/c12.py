"""W-001: names of other modules used in te files."""
from gen import Gen
from diff import diff_case

PID = "C12"
IDS = ["W-001"]
RULE = ("Random module sets (types, attributes, roles, aliases, templates; all statement kinds in all blocks; requires before, "
        "after, inside and around the uses) run through the real program; every W-001 line and its message is compared with a "
        "reference model that knows the declaring module of each name.  Non-trivial: at least one W-001 is due; distinct by the "
        "set of findings due.")
ASSUMPTIONS = ["names declared in two modules are not generated (the documentation does not say which one counts)"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("mixed", 2500 * k), ("requires", 2500 * k), ("templates", 800 * k)]


def case(env, kind, rng, out):
    if kind == "mixed":
        g = Gen(rng, features={"fc": 0, "exc": 0.05, "order": 0})
    elif kind == "requires":
        g = Gen(rng, nmods=rng.randint(2, 4), features={"fc": 0, "exc": 0.03, "order": 0, "req": 6, "blocks": 2, "messy": 0.3, "own": 0.4})
    else:
        g = Gen(rng, nmods=rng.randint(2, 4), features={"fc": 0, "exc": 0.0, "order": 0, "tmpl": 3})
    diff_case(env, out, g.make(), IDS, rng)
