"""Disable comments."""
from collections import Counter
from gen import Gen
from diff import diff_case, workdir, base_args, select, problem
from model import Policy
from nodes import preorder

PID = "C05"
RULE = ("Random policies in which many statements, require declarations and block openings carry disable comments (one or several "
        "ids, both spacings, unknown ids, ids that are prefixes of others, ids that do and do not fire there) and in which "
        "near-miss comments occur.  Every finding is compared with the reference model; in addition the findings are compared with "
        "those of the same statements with all disable comments removed: exactly the findings of listed checks on carrying "
        "statements may be gone.  Non-trivial: at least one finding is suppressed; distinct by the set of suppressed findings.")
ASSUMPTIONS = ["a comment covers all nodes of its statement (all names and aliases of a declaration)",
               "C-001 is left out of the with/without comparison, because an exempted statement changes which others are in order; it is compared with the model"]
CHUNK = 25


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("dense", 1300 * k), ("fires", 900 * k), ("few", 700 * k)]


def strip(s):
    """Copy of a statement tree without disable comments."""
    from render import S
    if isinstance(s, S):
        n = S(s.k)
        for k, v in s.__dict__.items():
            setattr(n, k, () if k == "exc" else strip(v))
        return n
    if isinstance(s, list):
        return [strip(x) for x in s]
    if isinstance(s, tuple) and any(isinstance(x, (list, S)) for x in s):
        return tuple(strip(x) for x in s)
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items()}
    return s


class Dense(Gen):
    def es(self):
        from model import ALL_IDS
        if self.p(self.f["exc"]):
            k = self.r.random()
            if k < 0.5:
                # the checks that fire most
                e = self.some(["W-001", "W-002", "W-010", "C-005", "S-009", "S-010", "W-003", "W-011", "E-007", "E-008", "S-003",
                               "W-005", "W-006", "W-007", "S-005", "C-004", "C-006", "S-001", "C-001", "E-010", "C-007", "W-008"], 1, 3)
            elif k < 0.85:
                e = self.some(ALL_IDS, 1, 5)
            elif k < 0.93:
                e = list(ALL_IDS)
            else:
                e = self.some(["C-999", "W-1", "W-0010", "C-0011", "W-00", "S-0033"], 1, 2) + self.some(ALL_IDS, 0, 2)
            self.r.shuffle(e)
            return {"exc": tuple(e), "exc_style": self.n(0, 15)}
        return {"exc": (), "exc_style": 0}


def case(env, kind, rng, out):
    feats = {"fc": 0, "exc": {"dense": 0.5, "fires": 0.25, "few": 0.06}[kind], "order": 0.3}
    if kind == "fires":
        feats.update({"unknown": 0.4, "messy": 3, "blocks": 2, "req": 2, "tt": 2, "other": 2, "ifs": 0.5})
    w = Dense(rng, nmods=rng.randint(1, 4), features=feats).make()
    res = diff_case(env, out, w, None, rng)
    if res is None:
        return
    # the same statements without disable comments
    v = w.rerender(lambda f: __import__("render").Layout.plain())
    u = type(w)()
    u.__dict__.update(w.__dict__)
    u.files = [dict(f, src=strip(f["src"])) if f["kind"] != "fc" else f for f in w.files]
    u = u.rerender(lambda f: __import__("render").Layout.plain())
    got = []
    for x in (v, u):
        r = diff_case(env, out, x, None, rng)
        if r is None:
            return
        got.append(r)
    for fv, fu in zip(v.files, u.files):
        if fv["kind"] == "fc":
            continue
        nv, nu = list(preorder(fv["root"].kids)), list(preorder(fu["root"].kids))
        if len(nv) != len(nu):
            raise AssertionError("statement trees differ")
    exc = {}
    listed = {}
    for fv in v.files:
        if fv["kind"] == "fc":
            continue
        for a in preorder(fv["root"].kids):
            exc.setdefault((fv["name"], a.line), []).append(set(a.exc))
            for i in a.exc:
                listed[fv["name"], i] = listed.get((fv["name"], i), 0) + 1
    with_c = Counter(f[:3] for f in got[0].findings if f[2] != "C-001")
    n_with = Counter((f[0], f[2]) for f in got[0].findings if f[2] != "C-001")
    n_without = Counter((f[0], f[2]) for f in got[1].findings if f[2] != "C-001")
    gone = n_without - n_with
    bad = ["comments add findings %s" % (k,) for k in n_with - n_without]
    for k in gone:
        if k not in listed:
            bad.append("finding %s gone although no comment lists it" % (k,))
    for (n, l), es in exc.items():
        for i in set.intersection(*es) if es else ():
            if with_c.get((n, l, i)):
                bad.append("finding %s:%d %s reported although listed in the comment" % (n, l, i))
    if bad:
        with workdir(env) as d:
            v.write(d)
            out.violation("; ".join(bad[:4]), d, got[0].argv, res=got[0])
        return
    if gone:
        out.key(tuple(sorted(gone.items())), tuple(sorted(with_c)))
        out.stat("suppressed findings", sum(gone.values()))
        for k in gone:
            out.stat("suppressed " + k[1], gone[k])
