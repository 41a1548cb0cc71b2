"""Reference model: the findings a policy deserves, computed on the reference AST of the renderer.

The model knows the whole input (it never parses text), so everything it predicts is a
statement about observable behaviour: (file, line, check id, symbol).
"""
from collections import Counter
from nodes import preorder, names_in, in_require, enclosing_def, REQ, DEFS
from perms import PermModel, All
from order import order_findings

TRANSFORM_SUFFIXES = {"type", "file", "domain", "node", "agent", "delivery", "sender", "boolean", "content",
                      "constrained", "executable", "exemption", "object", "mountpoint"}
ABBREV = {"fs": "filesystem", "corecmd": "corecommands", "seutil": "selinuxutil", "libs": "libraries",
          "dev": "devices", "term": "terminal", "corenet": "corenetwork", "auth": "authlogin",
          "userdom": "userdomain", "sysnet": "sysnetwork"}
MACROS_WITH_PREFIX = {"domain_auto_transition_pattern", "domain_transition_pattern"}
FLAVOR_NAMES = {"type": "type", "attribute": "attribute", "attribute_role": "attribute role", "role": "role",
                "bool": "boolean", "class": "class"}
DEFAULT_REQ_ORDER = ["bool", "class", "role", "attribute_role", "attribute", "type"]
ALL_IDS = (["C-00%d" % i for i in (1, 4, 5, 6, 7)] + ["S-%03d" % i for i in range(1, 11)] +
           ["W-%03d" % i for i in range(1, 12)] + ["E-%03d" % i for i in range(2, 11)])
TRANSFORMABLE = object()


class Config:
    """Effective configuration as documented."""

    def __init__(self, **kw):
        self.present = kw.pop("present", False)      # a configuration file is given
        self.severity = kw.pop("severity", None)
        self.disable = kw.pop("disable", [])
        self.enable_normal = kw.pop("enable_normal", [])
        self.enable_source = kw.pop("enable_source", [])
        self.assume_users = kw.pop("assume_users", [])
        self.assume_roles = kw.pop("assume_roles", [])
        self.custom_fc_macros = kw.pop("custom_fc_macros", [])
        self.custom_te_simple_macros = kw.pop("custom_te_simple_macros", [])
        self.ordering_rules = kw.pop("ordering_rules", None)
        self.ordering_requires = kw.pop("ordering_requires", None)
        self.ordering_requires_same_flavor = kw.pop("ordering_requires_same_flavor", None)
        self.skip_checking_generated_fcs = kw.pop("skip_checking_generated_fcs", None)
        assert not kw, kw

    @property
    def rules(self):
        return self.ordering_rules or "refpolicy-lax"

    @property
    def req_order(self):
        return self.ordering_requires or DEFAULT_REQ_ORDER

    @property
    def req_same(self):
        return True if self.ordering_requires_same_flavor is None else self.ordering_requires_same_flavor

    @property
    def skip_gen(self):
        return True if self.skip_checking_generated_fcs is None else self.skip_checking_generated_fcs

    def text(self, rng=None):
        """A configuration file for it (only the items that are set)."""
        if not self.present:
            return None
        items = []

        def q(x):
            return '"%s"' % x if (rng is None or rng.random() < 0.5 or not x.replace("_", "a").replace("-", "a").isalnum()) else x

        def lst(n, v):
            items.append("%s = {%s}" % (n, ", ".join(q(x) for x in v)))

        sev = {"C": "convention", "S": "style", "W": "warning", "E": "error", "F": "fatal"}
        if self.severity:
            items.append("severity = %s" % q(sev[self.severity]))
        for n in ("disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros",
                  "custom_te_simple_macros"):
            v = getattr(self, n)
            if v:
                lst(n, v)
        if self.ordering_rules:
            items.append("ordering_rules = %s" % q(self.ordering_rules))
        if self.ordering_requires:
            lst("ordering_requires", self.ordering_requires)
        T = ["true", "True", "TRUE", "yes", "Yes", "YES"]
        F = ["false", "False", "FALSE", "no", "No", "NO"]
        for n in ("ordering_requires_same_flavor", "skip_checking_generated_fcs"):
            v = getattr(self, n)
            if v is not None:
                w = (T if v else F)
                items.append("%s = %s" % (n, q(w[0] if rng is None else rng.choice(w))))
        if rng is not None:
            rng.shuffle(items)
            items = [x for i in items for x in ([i] if rng.random() < 0.8 else ["# a comment", i, ""])]
        return "\n".join(items) + "\n"


def substitute(s, args):
    """m4 substitution of $1..$N; missing arguments are empty."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == "$":
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
            assert j > i + 1, "unsupported parameter in model: %r" % s
            n = int(s[i + 1:j])
            if 1 <= n <= len(args):
                out.append(args[n - 1])
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Policy:
    """Everything the run is given.

    files: list of dicts {name, kind te/if/fc, root, mod, layer, checked, lines(fc)}
    in the order in which they are analysed.
    """

    def __init__(self, files, mods=None, classes=None, perms=None, permmacros=None, config=None):
        self.files = files
        self.mods = mods or {}
        self.classes = classes          # None: no access vectors
        self.avperms = perms
        self.permmacros = permmacros    # None: no macro file; else dict name -> list of strings
        self.cfg = config or Config()
        self.decl = {k: {} for k in ("type", "attribute", "attribute_role", "role", "bool", "class", "user")}
        self.ifs = {}
        self.templates = {}
        self.transform = set()
        self.filetrans = set()
        self.role_if = set()
        self.layers = {}
        self.dups = set()               # declared in more than one module
        self.pm = PermModel(self.permmacros or {})
        self._build()

    # ------------------------------------------------------------ names
    def _build(self):
        if self.cfg.present:
            for u in self.cfg.assume_users:
                self.decl["user"].setdefault(u, "__assumed__")
            for r in self.cfg.assume_roles:
                self.decl["role"].setdefault(r, "__assumed__")
        else:
            self.decl["user"]["system_u"] = "__assumed__"
            self.decl["role"]["object_r"] = "__assumed__"
        if self.classes is not None:
            for c in self.classes:
                self.decl["class"].setdefault(c, "__av_file__")
        for f in self.files:
            if f["kind"] == "if" and f["checked"]:
                self.layers.setdefault(f["mod"], f["layer"])
        for f in self.files:            # installed headers are layered too
            if f["kind"] == "if" and not f["checked"] and f.get("header"):
                self.layers.setdefault(f["mod"], f["header"])
        order = [f for f in self.files if f["kind"] == "if" and f["checked"]]
        order += [f for f in self.files if f["kind"] == "if" and not f["checked"]]
        for f in order:
            self._collect(f)
        self._mark(order)
        order = [f for f in self.files if f["kind"] == "te" and not f["checked"]]
        order += [f for f in self.files if f["kind"] == "te" and f["checked"]]
        for f in order:
            self._collect(f)

    def _template_of(self, n):
        p = n.parent
        while p is not None:
            if p.fl == "TEMPLATE":
                return p.d["name"]
            p = p.parent
        return None

    def _declare(self, flavor, name, mod):
        if self.decl[flavor].setdefault(name, mod) != mod:
            self.dups.add(name)

    def _collect(self, f):
        mod = f["mod"]
        for n in preorder(f["root"].kids):
            par_if = n.parent is not None and n.parent.fl == "INTERFACE"
            if n.fl in DEFS:
                if n.fl == "TEMPLATE":
                    self.templates.setdefault(n.d["name"], ([], []))
                self.ifs.setdefault(n.d["name"], mod)
            elif n.fl == "DECL":
                if not in_require(n):
                    t = self._template_of(n)
                    if t:
                        self.templates[t][0].append((n.d["flavor"], n.d["name"]))
                    elif not n.d["name"].startswith("$"):
                        self._declare(n.d["flavor"], n.d["name"], mod)
            elif n.fl == "ALIAS":
                t = self._template_of(n)
                if t:
                    self.templates[t][0].append(("type", n.d["name"]))
                else:
                    self._declare("type", n.d["name"], mod)
            elif n.fl == "IF_CALL":
                t = self._template_of(n)
                args = [a for a, _ in n.d["args"]]
                if t:
                    self.templates[t][1].append((n.d["name"], args))
                else:
                    self._expand(n.d["name"], args, (), mod)
                nm = n.d["name"]
                if par_if and (nm in ("filetrans_pattern", "filetrans_add_pattern") or
                               (("_" in nm) and nm.rsplit("_", 1)[1] == "filetrans")):
                    self.filetrans.add(n.parent.d["name"])
            elif par_if and n.fl == "AV" and "associate" in n.d["perms"]:
                self.transform.add(n.parent.d["name"])
            elif par_if and n.fl == "ROLE_TYPES" and any(t.startswith("$") for t in n.d["types"]):
                self.role_if.add(n.parent.d["name"])
            elif par_if and n.fl == "TT" and "process" not in n.d["cls"]:
                self.filetrans.add(n.parent.d["name"])
            elif par_if and n.fl in ("TYPE_ATTR", "ROLE_ATTR"):
                nm = n.parent.d["name"]
                if ("_" in nm and nm.rsplit("_", 1)[1] in TRANSFORM_SUFFIXES) or mod in ("mls", "mcs"):
                    self.transform.add(nm)

    def _expand(self, name, args, stack, mod):
        """Declarations made by calling template `name`."""
        if name in stack or name not in self.templates:
            return
        decls, calls = self.templates[name]
        for cn, ca in calls:
            if cn not in self.templates:
                continue
            self._expand(cn, [substitute(a, args) for a in ca], stack + (name,), mod)
        for flavor, d in decls:
            s = substitute(d, args)
            if "$" not in s:
                self._declare(flavor, s, mod)

    def _mark(self, files):
        changed = True
        while changed:
            changed = False
            for f in files:
                for n in f["root"].kids:
                    if n.fl != "INTERFACE" or n.d["name"] in self.transform:
                        continue
                    first = next((k for k in n.kids if k.fl not in ("START",) + REQ), None)
                    if first is not None and first.fl == "IF_CALL" and first.d["name"] in self.transform:
                        self.transform.add(n.d["name"])
                        changed = True

    # ------------------------------------------------------------ findings
    def findings(self):
        """All findings (before selection of checks): list of (file, line, id, symbol or None)."""
        out = []
        for f in self.files:
            if not f["checked"]:
                continue
            if f["kind"] == "fc":
                from fcmodel import fc_findings
                out += fc_findings(self, f)
                continue
            base = f["name"]
            for n in preorder(f["root"].kids):
                for i, sym in self.node_findings(f, n):
                    if i in n.exc:
                        continue
                    out.append((base, n.line, i, sym))
            if f["kind"] == "te" and f["root"].kids:
                for n, sym in order_findings(self, f):
                    if "C-001" not in n.exc:
                        out.append((base, n.line, "C-001", sym))
        return out

    def known(self, name, flavors):
        for fl in flavors:
            m = self.decl[fl].get(name)
            if m is not None:
                return fl, m
        return None

    def node_findings(self, f, n):
        fl = n.fl
        te = f["kind"] == "te"
        mod = f["mod"]
        d = n.d
        out = []
        if fl == "HEADER":
            if d["bare"]:
                out.append(("S-006", None))
            if d["name"] != f["name"].rsplit(".", 1)[0]:
                out.append(("W-009", All((d["name"], f["name"]))))
        elif fl == "SEMICOLON":
            out.append(("S-003", None))
        elif fl == "WORD":
            if self._stray(n):
                out.append(("E-010", All((d["name"],))))
        elif fl in DEFS:
            if n.prev is None or n.prev.fl != "COMMENT":
                out.append(("C-004", All((d["name"],))))
        if fl in ("AV", "XAV"):
            self._order_perms(d["perms"], out)
            self._self(n, out)
        if fl == "DECL" and d["flavor"] == "class":
            self._order_perms(d["attrs"], out)
        if fl in REQ:
            self._require(n, te, out)
        if fl in ("OPTIONAL", "GEN_REQ", "REQUIRE"):
            if not any(k.fl not in ("START", "COMMENT", "SEMICOLON") for k in n.kids):
                out.append(("E-009", None))
        if fl == "IF_CALL":
            self._calls(n, mod, te, out)
        if fl == "DECL":
            if d["name"] in self.ifs:
                out.append(("E-006", All((d["name"],))))
            if not te:
                self._if_decl(n, mod, out)
        if fl == "AV":
            self._av(n, out)
        if fl in ("AV", "RT", "TT"):
            self._classes(n, out)
        if te:
            self._w001(n, mod, out)
        else:
            self._w002(n, out)
        return out

    # C-005
    def _order_perms(self, perms, out):
        prev = None
        for p in perms:
            if prev is not None and prev not in ("~", "-") and p != "-":
                if prev > p:
                    out.append(("C-005", "%s before %s" % (prev, p)))
                    return
                if prev == p:
                    out.append(("C-005", "repeated (%s)" % p))
                    return
            prev = p

    # C-007
    def _self(self, n, out):
        s, t = n.d["src"], n.d["tgt"]
        if len(s) > 1 or len(t) > 1 or t[0] == "self" or s[0] != t[0]:
            return
        if s[0].startswith("$"):
            if not s[0].endswith("_t"):
                return
        elif s[0] not in self.decl["type"]:
            return
        out.append(("C-007", None))

    # C-006, S-001, S-008
    def _require(self, n, te, out):
        kids = [k for k in n.kids if k.fl != "START"]
        if n.fl == "GEN_REQ" and n.d["unquoted"]:
            out.append(("S-008", None))
        if te and any(k.fl == "DECL" and k.d["flavor"] != "class" for k in kids):
            out.append(("S-001", None))
        if not kids:
            out.append(("C-006", "Empty"))
            return
        prev = None
        for k in kids:
            if k.fl != "DECL":              # conditional declarations are not ordered
                continue
            if prev is not None:
                c = self._cmp_decl(prev, k)
                if c > 0:
                    out.append(("C-006", All((prev.d["name"], k.d["name"]))))
                    return
                if c == 0:
                    out.append(("C-006", All(("Repeated", k.d["name"]))))
                    return
            prev = k

    def _cmp_decl(self, a, b):
        fa, fb = a.d["flavor"], b.d["flavor"]
        o = self.cfg.req_order if self.cfg.present else None
        if fa != fb:
            if o is None:
                return self._cmp_noconf(fa, fb)
            return -1 if o.index(fa) < o.index(fb) else 1
        if self.cfg.present and not self.cfg.req_same:
            return -1
        ka, kb = self._sort_key(a.d["name"], b.d["name"])
        return (ka > kb) - (ka < kb)

    @staticmethod
    def _cmp_noconf(fa, fb):
        return -1 if DEFAULT_REQ_ORDER.index(fa) < DEFAULT_REQ_ORDER.index(fb) else 1

    @staticmethod
    def _sort_key(a, b):
        """Names compare as strings, a final _t counting as nothing where the names differ."""
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1

        def key(x):
            j = i
            if x[j:] == "t" and j > 0 and x[j - 1] == "_":
                j -= 1
            return x[j:j + 1]

        return key(a), key(b)

    # W-005 W-006 W-007 W-010 S-004
    def _calls(self, n, mod, te, out):
        d = n.d
        nm = d["name"]
        m = self.ifs.get(nm)
        if m is not None and m != mod:
            st = self.mods.get(m)
            if st is not None and st != "base":
                p = n.parent
                while p is not None and p.fl != "OPTIONAL":
                    p = p.parent
                if p is None:
                    out.append(("W-005", All((nm, m))))
        args = d["args"]
        if not args:
            out.append(("W-006", All((nm,))))
        prev = None
        for a, sp in args:
            if sp and prev is not None and (not a.startswith("-") or self.known(
                    prev, ("type", "attribute", "role", "attribute_role", "user"))):
                out.append(("W-007", "'%s ...'" % prev))
                break
            prev = a
        if nm not in MACROS_WITH_PREFIX and m is None:
            parts = nm.split("_")
            for i in range(1, len(parts)):
                p = "_".join(parts[:i])
                if p in self.mods or (p in ABBREV and ABBREV[p] in self.mods):
                    out.append(("W-010", All((nm,))))
                    break
        if not te and nm in self.templates:
            df = enclosing_def(n)
            if df is not None and df.fl == "INTERFACE":
                out.append(("S-004", All((nm, df.d["name"]))))

    # S-005 W-003 W-011
    def _if_decl(self, n, mod, out):
        d = n.d
        df = enclosing_def(n)
        req = None
        p = n
        while p is not None and p.fl not in DEFS:
            if p.fl in REQ:
                req = p            # outermost
            p = p.parent
        if df is not None and df.fl == "INTERFACE" and req is None:
            out.append(("S-005", All((d["name"],))))
        if req is not None and df is not None and d["flavor"] in ("type", "attribute", "attribute_role", "role"):
            if not (df.fl == "INTERFACE" and df.d["name"].endswith("_stub")):
                used = set()
                s = req.next
                while s is not None:
                    for k in preorder([s]):
                        used.update(names_in(k))
                    s = s.next
                for x in [d["name"]] + d["attrs"]:
                    if x not in used:
                        out.append(("W-003", All((x,))))
                        break
        if in_require(n) and d["flavor"] not in ("class", "user") and not d["name"].startswith("$"):
            m = self.decl[d["flavor"]].get(d["name"])
            if m is None:
                out.append(("W-011", All((d["name"],))))
            elif m != mod and not (d["flavor"] == "role" and m == "kernel"):
                out.append(("W-011", All((d["name"], m))))

    # W-002
    W2 = ("AV", "XAV", "IF_CALL", "TT", "RT", "ROLE_ALLOW", "ROLE_TYPES", "ALIAS", "TYPE_ALIAS", "TYPE_ATTR",
          "ROLE_ATTR", "PERMISSIVE", "DECL")

    def _w002(self, n, out):
        if n.fl not in self.W2:
            return
        df = enclosing_def(n)
        if df is None:
            return
        names = names_in(n)
        if n.fl == "DECL":
            names = names[1:]
        req = None
        for x in names:
            if x == "system_r":
                continue
            k = self.known(x, ("type", "attribute", "attribute_role", "role"))
            if not k:
                continue
            if req is None:
                req = self._required_before(df, n)
            if x not in req:
                out.append(("W-002", All((x,))))
                return

    def _required_before(self, df, n):
        req = set()
        for k in preorder(df.kids):
            if k is n:
                break
            if k.fl in REQ:
                for c in preorder(k.kids):
                    # a statement inside the require block itself is judged against all of it
                    req.update(names_in(c))
        return req

    # W-001
    def _w001(self, n, mod, out):
        if n.fl not in self.W2:
            return
        names = names_in(n)
        if n.fl == "DECL":
            names = names[1:]
        for x in names:
            k = self.known(x, ("type", "attribute", "attribute_role"))
            if not k or k[1] == mod:
                continue
            if not self._has_require(n, x, k[0]):
                out.append(("W-001", All((x, k[1]))))
                return

    @staticmethod
    def _has_require(n, name, flavor):
        cur = n
        while cur is not None:
            s = cur
            while s is not None:
                if s.fl in REQ:
                    for k in preorder(s.kids):
                        if k.fl == "DECL" and k.d["flavor"] == flavor and (name == k.d["name"] or name in k.d["attrs"]):
                            return True
                s = s.prev
            cur = cur.parent
        return False

    # W-008 E-007 S-009 S-010
    def _av(self, n, out):
        d = n.d
        if d["flavor"] == "allow" and any(p in ("*", "~") for p in d["perms"]):
            out.append(("W-008", None))
        if self.permmacros and self.avperms:
            for p in d["perms"]:
                if p in ("*", "~") or (p.startswith("all_") and p.endswith("_perms")):
                    continue
                if p[0] == "$" and p[1:2].isdigit():
                    continue
                if p in self.avperms or p in self.permmacros:
                    continue
                out.append(("E-007", All((p,))))
                break
        m = self.pm.mismatch(d["cls"], d["perms"])
        if m:
            out.append(("S-009", m))
        if d["flavor"] == "allow" and len(d["cls"]) == 1 and not d["cls"][0].endswith("_class_set"):
            s = self.pm.suggest(d["cls"][0], d["perms"])
            if s:
                out.append(("S-010", s))

    def _classes(self, n, out):
        if not self.decl_classes_loaded():
            return
        for c in n.d["cls"] or []:
            if c.startswith("$") and c[1:2].isdigit():
                continue
            if c.endswith("_class_set") or c in self.decl["class"]:
                continue
            out.append(("E-008", All((c,))))
            return

    def decl_classes_loaded(self):
        return bool(self.classes)

    # E-010
    def _stray(self, n):
        if n.d["name"] in self.cfg.custom_te_simple_macros:
            return False
        a = n
        while a is not None and a.parent is not None:
            if a.fl == "M4_ARG" and a.parent.fl == "IFELSE":
                break
            a = a.parent
        else:
            return True
        if a is None or a.parent is None:
            return True
        if a.next is None:
            return True
        pos = a.parent.kids.index(a)      # kids[0] is START, so the first argument has position 1
        return pos % 3 not in (1, 2)


SELECTABLE = {"C": 0, "S": 1, "W": 2, "E": 3, "F": 4}


def enabled(i, level, cfg, source=True, d=(), e=(), only=False):
    """Documented selection precedence."""
    if SELECTABLE[i[0]] < SELECTABLE[level]:
        return False
    if only:
        return i in e
    on = True
    if i in cfg.disable:
        on = False
    if i in (cfg.enable_source if source else cfg.enable_normal):
        on = True
    if i in d:
        on = False
    if i in e:
        on = True
    return on


def multiset(fs):
    return Counter(fs)
