"""Reference model of the statement ordering check (C-001)."""
import struct
from nodes import names_in, in_require

NON = "_non_ordered"
DECL = "_declaration"
EQ, SECTION, DECLSUB, LOCAL, ALPHA, ERROR = 0, 1, 2, 3, 4, -1024
CHECKED = ("DECL", "AV", "XAV", "IF_CALL", "TT")


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def walk(nodes):
    """depth first, the way the tool goes over a file: statements with C-001 disabled are left out"""
    for n in nodes:
        if "C-001" not in n.exc:
            yield n
        yield from walk(n.kids)


class Order:
    def __init__(self, pol, f):
        self.p = pol
        self.mod = f["mod"]
        self.variant = {"refpolicy": "ref", "refpolicy-light": "light", "refpolicy-lax": "lax"}[pol.cfg.rules]
        kids = f["root"].kids
        allnodes = list(walk(kids))
        if kids and "C-001" in kids[0].exc:
            allnodes = [kids[0]] + allnodes
        sums, cnt = {}, {}
        for n in allnodes:
            s = self.section(n)
            sums[s] = sums.get(s, 0) + n.line
            cnt[s] = cnt.get(s, 0) + 1
        self.avg = {s: f32(f32(float(sums[s])) / f32(float(cnt[s]))) for s in sums}
        self.nodes = [n for n in allnodes if n.fl != "START"]
        self.in_order = None

    # ---------------------------------------------------------------- sections
    def section(self, n):
        fl = n.fl
        if fl in ("AV", "XAV"):
            if n.d["flavor"] in ("neverallow", "auditallow"):
                return NON
            if "associate" in n.d["perms"] or "mounton" in n.d["perms"]:
                return NON
            return n.d["src"][0]
        if fl == "TT":
            return n.d["src"][0]
        if fl in ("DECL", "ALIAS", "TYPE_ALIAS", "TYPE_ATTR", "ROLE_ATTR"):
            return NON if in_require(n) else DECL
        if fl in ("OPTIONAL", "OPTIONAL_ELSE", "BOOLEAN", "TUNABLE", "IFDEF", "IFELSE"):
            return self.section(n.kids[0])
        if fl == "START":
            return self.section(n.next) if n.next is not None else NON
        if fl == "IF_CALL":
            nm = n.d["name"]
            if nm in self.p.filetrans:
                return NON
            if not self.block(n) and (nm in self.p.templates or nm in self.p.transform or nm in self.p.role_if):
                return DECL
            return n.d["args"][0][0] if n.d["args"] else NON
        return NON

    # the outermost block decides
    def block(self, n):
        r = None
        while n is not None:
            if n.fl in ("OPTIONAL", "OPTIONAL_ELSE"):
                r = "optional"
            elif n.fl == "BOOLEAN":
                r = "boolean"
            elif n.fl == "TUNABLE":
                r = "tunable"
            elif n.fl in ("IFDEF", "IFELSE"):
                r = "build"
            n = n.parent
        return r

    def own(self, n):
        if n.fl not in ("AV", "XAV", "IF_CALL"):
            return False
        if n.fl == "IF_CALL" and n.d["name"] in self.p.ifs:
            return False
        for x in names_in(n):
            m = self.p.decl["type"].get(x)
            if m is None:
                m = self.p.decl["attribute"].get(x)
            if m is not None and m != self.mod:
                return False
        return True

    def lss(self, n):
        b = self.block(n)
        if b:
            return b
        if n.fl in ("AV", "XAV") and n.d["tgt"][0] == "self":
            return "self"
        if self.own(n):
            return "own"
        if n.fl != "IF_CALL":
            return "unknown"
        m = self.p.ifs.get(n.d["name"])
        if m is None:
            return "other"
        if m == self.mod:
            return "own"
        if self.variant != "ref" and m.split("_")[0] == self.mod.split("_")[0]:
            return "related"
        if m == "kernel":
            return "kernel_mod"
        if self.variant != "light":
            l = self.p.layers.get(m)
            if l == "kernel":
                return "kernel"
            if l == "system":
                return "system"
        return "other"

    SEQ = {"ref": ["self", "own", "kernel_mod", "kernel", "system", "other", "build", "boolean", "tunable", "optional"],
           "light": ["self", "own", "related", "kernel_mod", "other", "build", "boolean", "tunable", "optional"],
           "lax": ["self", "own"]}

    @staticmethod
    def same_section(a, b):
        def stem(x):
            return len(x) - 2 if len(x) >= 3 and x[-1] in "tr" and x[-2] == "_" else len(x)
        la, lb = stem(a), stem(b)
        m = max(la, lb)
        return a[:m] == b[:m]

    def cmp(self, a, b):
        """positive: a belongs before b; negative: after; 0: no preference"""
        sa, sb = self.section(a), self.section(b)
        if sa == NON or sb == NON:
            return EQ
        if not self.same_section(sa, sb):
            if sa != DECL and (sb == DECL or self.avg.get(sa, -1.0) > self.avg.get(sb, -1.0)) and \
                    not (not sa.startswith("_") and not sb.startswith("_") and sa < sb):
                return -SECTION
            return SECTION
        if sa == DECL:
            if a.fl == "DECL" and b.fl == "DECL" and a.d["flavor"] != b.d["flavor"]:
                for k in ("bool", "attribute"):
                    if a.d["flavor"] == k:
                        return DECLSUB
                    if b.d["flavor"] == k:
                        return -DECLSUB
            return EQ
        la, lb = self.lss(a), self.lss(b)
        if la == "unknown" or lb == "unknown":
            return EQ
        if la != lb:
            for k in self.SEQ[self.variant]:
                if la == k:
                    return LOCAL
                if lb == k:
                    return -LOCAL
        if self.variant in ("ref", "light"):
            if la not in ("build", "boolean", "tunable") and \
                    (la != "optional" or (la == lb and a.prev is not None and b.prev is not None and
                                          a.prev.fl == "START" and b.prev.fl == "START")) and \
                    a.fl == "IF_CALL" and b.fl == "IF_CALL":
                ma, mb = self.p.ifs.get(a.d["name"]), self.p.ifs.get(b.d["name"])
                if ma is not None and mb is not None:
                    if ma < mb:
                        return ALPHA
                    if ma > mb:
                        return -ALPHA
            if la == "optional" and lb == "optional" and len(a.kids) > 1 and len(b.kids) > 1:
                return self.cmp(a.kids[1], b.kids[1])
        return EQ

    # ---------------------------------------------------------------- longest ordered sequence
    def lis(self):
        N = self.nodes
        end = []               # end[i]: index of the node ending the best sequence of length i+1
        prev = [-1] * len(N)
        for i, n in enumerate(N):
            lo, hi = 1, len(end)
            while lo <= hi:
                mid = (lo + hi + 1) // 2
                if self.cmp(N[end[mid - 1]], n) >= 0:
                    lo = mid + 1
                else:
                    hi = mid - 1
            prev[i] = -1 if lo <= 1 else end[lo - 2]
            if lo - 1 < len(end):
                end[lo - 1] = i
            else:
                end.append(i)
        keep = [False] * len(N)
        i = end[-1] if end else -1
        while i != -1:
            keep[i] = True
            i = prev[i]
        # not every two statements are comparable: what is in order with the whole sequence belongs to it
        for i in range(len(N)):
            if keep[i]:
                continue
            d = 1
            ok = True
            while ok and (d <= i or i + d < len(N)):
                if d <= i and keep[i - d] and self.cmp(N[i - d], N[i]) < 0:
                    ok = False
                if i + d < len(N) and keep[i + d] and self.cmp(N[i], N[i + d]) < 0:
                    ok = False
                d += 1
            keep[i] = ok
        return keep


REASON_LSS = {"self": "that is a self rule", "own": "that refers to types owned by this module",
              "related": "that calls an interface located in a related module",
              "kernel_mod": "that calls an interface located in the kernel module",
              "kernel": "that calls an interface located in the kernel layer",
              "system": "that calls an interface located in the system layer",
              "build": "that is controlled by a build option", "boolean": "that is in a boolean block",
              "tunable": "that is in a tunable block", "optional": "that is in an optional block"}


def reason(o, keep, i):
    """(line of the statement it is compared with, before/after, kind of reason) or None"""
    N = o.nodes
    d = 1
    while True:
        if d <= i and keep[i - d]:
            r = o.cmp(N[i - d], N[i])
            if r < 0:
                return N[i - d].line, "after", -r, i - d
        if i + d < len(N) and keep[i + d]:
            r = o.cmp(N[i], N[i + d])
            if r < 0:
                return N[i + d].line, "before", -r, i + d
        d += 1
        if d > i and i + d > len(N):
            return None


def order_findings(pol, f):
    o = Order(pol, f)
    keep = o.lis()
    out = []
    for i, n in enumerate(o.nodes):
        if keep[i] or n.fl not in CHECKED:
            continue
        r = reason(o, keep, i)
        out.append((n, "line %d" % r[0] if r else "?"))
    return out
