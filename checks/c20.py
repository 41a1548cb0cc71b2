"""Require blocks."""
from gen import Gen
from render import S
from diff import diff_case
import string

PID = "C20"
IDS = ["C-006", "S-001", "S-008", "E-009"]
RULE = ("Random te and if files dense in require / gen_require blocks (sorted, nearly sorted, shuffled, repeated and tied "
        "declarations, names differing only by _t, all flavours, lists, ifdefs, comments; empty and comment-only blocks) under "
        "random flavour orders and name-order switches; every finding is compared with the reference model.  Non-trivial: at "
        "least one finding is due; distinct by the set of findings due.")
ASSUMPTIONS = ["declarations inside an ifdef of a require block are not ordered"]
FL = ["bool", "class", "role", "attribute_role", "attribute", "type"]
NAMES = ["a_t", "a", "a_b_t", "ab_t", "ab", "a_b", "a_tt", "a_t_t", "b_t", "b", "aa_t", "a1_t", "t", "_x".strip("_") + "_t", "B_t", "b-c", "b_c_t",
         "bt", "b_tx", "ba_t"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("mixed", 1200 * k), ("blocks", 3800 * k)]


class G(Gen):
    def reqdecls(self, m, ctx, lo, hi):
        r = self.r
        order = list(self.w.config.req_order if self.w.config.present else FL)
        k = self.n(1, 6)
        out = []
        ds = []
        for _ in range(k):
            fl = self.c(FL) if self.p(0.5) else self.c(["type", "attribute", "class"])
            nm = (self.c(NAMES) if self.p(0.5) else self.c("ab") + "".join(self.c("abst_ts") for _ in range(self.n(0, 3))) + self.c(["", "_t", "t", "s"])) if fl != "class" else self.c(["file", "dir", "process", "fd", "filesystem", "a_t", "a"])
            ds.append((fl, nm))
        mode = r.random()
        if mode < 0.75:
            import functools
            from model import Policy

            def cmp(a, b):
                if a[0] != b[0]:
                    return order.index(a[0]) - order.index(b[0])
                x, y = Policy._sort_key(a[1], b[1])
                return (x > y) - (x < y)
            ds.sort(key=functools.cmp_to_key(cmp))
            if self.p(0.6):
                ds = list(dict.fromkeys(ds))
            if self.p(0.4) and len(ds) > 1:
                i = self.n(0, len(ds) - 2)
                ds[i], ds[i + 1] = ds[i + 1], ds[i]
        i = 0
        while i < len(ds):
            fl, nm = ds[i]
            if fl == "class":
                ps = sorted(self.some(["read", "write", "open", "getattr"], 1, 3))
                out.append(S("reqdecl", flavor="class", names=[nm], perms=ps, braces=len(ps) > 1 or self.p(0.5), **self.es()))
                i += 1
                continue
            j = i + 1
            while j < len(ds) and ds[j][0] == fl and self.p(0.4):
                j += 1
            names = [x[1] for x in ds[i:j]]
            if len(names) > 1:
                out.append(S("reqdecl", flavor=fl, names=names))
            else:
                out.append(S("reqdecl", flavor=fl, names=names, **self.es()))
            i = j
        if self.p(0.12):
            out.insert(self.n(0, len(out)), S("comment", text="# required"))
        return out

    def reqbody(self, m, ctx):
        if self.p(0.06):
            return [S("comment", text="# nothing required")] * self.n(1, 2)
        if self.p(0.05) and ctx["kind"] == "te":
            return self.reqdecls(m, ctx, 1, 1)
        b = self.reqdecls(m, ctx, 1, 5)
        if self.p(0.08):
            b.insert(self.n(0, len(b)), S("reqifdef", kw=self.c(["ifdef", "ifndef"]), name="enable_mcs", quoted=self.p(0.7), body=self.reqdecls(m, ctx, 1, 2)))
        return b


def case(env, kind, rng, out):
    if kind == "mixed":
        w = Gen(rng, features={"fc": 0, "exc": 0.05, "order": 0, "req": 3}).make()
    else:
        w = G(rng, nmods=rng.randint(1, 2), features={"fc": 0, "exc": 0.04, "order": 0, "req": 14, "blocks": 2, "av": 0.2, "calls": 0.3, "te": 0.7}).make()
    diff_case(env, out, w, IDS, rng)
