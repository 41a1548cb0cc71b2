"""Names declared by template calls."""
import os
import re
import subprocess
from collections import Counter
from diff import workdir, problem
from model import substitute

PID = "C15"
RULE = ("Random templates (types, attributes, roles, attribute roles, booleans, aliases, in nested blocks and branches, patterns with up to "
        "twelve, repeated, adjacent, multi-digit and missing parameters, nested calls forming chains, diamonds and cycles, spread over if "
        "files of several modules, checked or context) and calls from te files.  Probes ask for each name that was declared and for many "
        "near misses (wrong parameter, wrong arguments, parameter cut short, body names of templates that were not called): require "
        "declarations (W-011, every kind of name, own and other modules), allow rules (W-001) and file contexts (E-005, S-002).  The "
        "findings show which names selint knows and as whose; they are compared with the names the m4 program itself produces from "
        "the same templates (for cycles: with a reference expansion that skips the looping call, which is compared with m4 on all "
        "other cases).  Non-trivial: at least one name declared through a call; distinct by the set of names.")
TECHNIQUE = "runtime monitoring: generated workloads through the real program, probe statements that reveal the declaration tables, oracle computed by the real m4"
ASSUMPTIONS = ["calls from te files, arguments are words or quoted words (lists in braces are a known finding, run as a case of its own)",
               "parameters $1, $2, ... only (not $0, $*, $@)", "names declared in two modules are not probed"]
CHUNK = 20
FL = ["type", "type", "type", "attribute", "role", "attribute_role", "bool"]
NAME = re.compile(r"^[a-zA-Z][a-zA-Z0-9_]*$")


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("random", 900 * k), ("many_args", 400 * k), ("nested", 500 * k), ("cycle", 400 * k), ("list-argument", 1)]


class T:
    """A template: items are ('decl', flavor, pattern, form), ('call', name, args), ('block', kind, items)."""

    def __init__(self, name, mod):
        self.name, self.mod, self.items = name, mod, []

    def flat(self, items=None):
        for i in self.items if items is None else items:
            if i[0] == "block":
                yield from self.flat(i[2])
            else:
                yield i


def pattern(r, maxp):
    ps = [r.randint(1, maxp) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
    sep = lambda: r.choice(["_", "_", "_", "", "_x_", "q"])
    s = r.choice(["", "", "", "p_", "zz", "a"])
    for i, p in enumerate(ps):
        s += (sep() if i else "") + "$%d" % p
    s += r.choice(["_t", "_t", "_t", "", "_exec_t", "_attr", "t", "_tmp", "9", "_0"])
    if not ps or not s or s in "_t9":
        s = "fixed%d" % r.randint(0, 999) + s
    return s if s[0] != "_" else "w" + s


def word(r, n):
    return r.choice(["%s", "%s", "%s_x", "x%s"]) % (r.choice(["foo", "bar", "user", "a", "staff", "long_name_%d" % r.randint(0, 9), "B"]) + "%d" % n)


def body(r, t, names, maxp, depth, calls):
    out = []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < 0.1:
            out += [("decl", "type", pattern(r, maxp), r.uniform(0.75, 1)) for _ in range(r.randint(2, 4))]
        elif k < 0.65 or not names:
            out.append(("decl", r.choice(FL), pattern(r, maxp), r.random()))
        elif k < 0.85 or depth > 2:
            if r.random() < calls:
                n = r.choice(names)
                args = []
                for _ in range(r.randint(0, min(maxp + 1, 4)) if r.random() < 0.8 else r.randint(8, 13)):
                    q = r.random()
                    if q < 0.6:
                        args.append("$%d" % r.randint(1, maxp))
                    elif q < 0.8:
                        args.append(pattern(r, maxp).replace("fixed", "f"))
                    elif q < 0.95:
                        args.append(word(r, r.randint(0, 99)))
                    else:
                        args.append("")
                out.append(("call", n, args, r.random()))
        else:
            out.append(("block", r.choice(["optional", "optional-else", "ifdef", "ifdef-else", "ifndef", "tunable"]), body(r, t, names, maxp, depth + 1, calls)))
    return out or [("decl", "type", pattern(r, maxp), 0.0)]


class Text:
    """Lines of one file; lays out statements at random."""

    def __init__(self, r):
        self.r, self.l = r, []

    def add(self, s, ind=0):
        if self.r.random() < 0.05:
            self.l.append("")
        if self.r.random() < 0.04:
            self.l.append("dnl comment type $1_t; foo_template(x)")
        self.l += ("\t" * ind + s).split("\n")
        return len(self.l)

    def call(self, name, args, ind=0):
        r = self.r
        a = []
        for x in args:
            a.append("`%s'" % x if x == "" or r.random() < 0.15 else x)
        sep = r.choice([", ", ",", ",\n\t\t", ",  "])
        self.add("%s(%s%s)" % (name, r.choice(["", "", " ", "\n\t"]) if a else "", sep.join(a)), ind)

    def items(self, items, ind):
        skip = 0
        for n, i in enumerate(items):
            if skip:
                skip -= 1
                continue
            run = 0
            while n + run < len(items) and run < 4 and items[n + run][:2] == ("decl", "type") and items[n + run][3] >= 0.75:
                run += 1
            if run > 1:
                # several names in one statement
                ps = [x[2] for x in items[n:n + run]]
                if i[3] < 0.9:
                    self.add("typealias some_t alias { %s };" % " ".join(ps), ind)
                else:
                    self.add("type %s alias %s;" % (ps[0], ps[1] if run == 2 else "{ %s }" % " ".join(ps[1:])), ind)
                skip = run - 1
                continue
            if i[0] == "call":
                self.call(i[1], i[2], ind)
            elif i[0] == "decl":
                self.decl(i, ind)
            else:
                k, b = i[1], i[2]
                if k.startswith("optional"):
                    self.add("optional_policy(`", ind)
                elif k.startswith("if"):
                    self.add("%s(`some_flag',`" % k.split("-")[0], ind)
                else:
                    self.add("tunable_policy(`some_tunable',`", ind)
                self.items(b, ind + 1)
                if k.endswith("else"):
                    self.add("',`", ind)
                    self.add("allow some_t self:file read;", ind + 1)
                self.add("')", ind)

    def decl(self, i, ind):
        fl, p, f = i[1], i[2], i[3]
        if fl == "type":
            if f < 0.6:
                s = "type %s;" % p
            elif f < 0.75:
                s = "type %s, some_attr;" % p
            elif f < 0.9:
                s = "typealias some_t alias %s;" % p
            else:
                s = "typealias some_t alias { %s };" % p
        elif fl == "bool":
            s = "bool %s;" % p if f < 0.3 else "gen_bool(%s, false)" % p if f < 0.6 else "gen_tunable(%s, true)" % p if f < 0.8 else "gen_tunable(`%s', true)" % p
        else:
            s = "%s %s;" % (fl, p)
        self.add(s, ind)

    def text(self):
        return "\n".join(self.l) + "\n"


def expand(ts, name, args, stack=()):
    """Declarations made by a call."""
    if name in stack or name not in ts:
        return
    for i in ts[name].flat():
        if i[0] == "call":
            yield from expand(ts, i[1], [substitute(a, args) for a in i[2]], stack + (name,))
        else:
            yield i[1], substitute(i[2], args)


def m4(ts, calls):
    """The same by m4 itself."""
    src = ["m4_dnl"]
    for t in ts.values():
        b = []
        for i in t.flat():
            if i[0] == "call":
                b.append("%s(%s)" % (i[1], ",".join("`'" if a == "" else a for a in i[2])))
            else:
                b.append("D %s %s E" % (i[1], i[2]))
        src.append("m4_define(`%s',`%s\n')m4_dnl" % (t.name, "\n".join(b)))
    for n, (mod, name, args) in enumerate(calls):
        src.append("M %d E" % n)
        src.append("%s(%s)" % (name, ",".join("`%s'" % a for a in args)))
    p = subprocess.run(["m4", "-P"], input="\n".join(src) + "\n", capture_output=True, text=True, timeout=60)
    out = []
    cur = None
    for w in re.findall(r"^(?:M (\d+) E|D (\S+) (\S*) E)$", p.stdout, re.M):
        if w[0]:
            cur = int(w[0])
        else:
            out.append((cur, w[1], w[2]))
    return out


def case(env, kind, rng, out):
    with workdir(env) as d:
        if kind == "list-argument":
            return list_argument(env, out, d)
        r = rng
        mods = ["moda", "modb", "modc", "modd"][:r.randint(2, 4)]
        maxp = r.choice([2, 3, 4]) if kind != "many_args" else r.choice([10, 11, 12, 13])
        nt = r.randint(2, 7) if kind == "nested" else r.randint(1, 4) if kind != "cycle" else r.randint(1, 5)
        names = ["%s_t%d_template" % (r.choice(mods), i) for i in range(nt)]
        ts = {}
        for k, n in enumerate(names):
            t = ts[n] = T(n, r.choice(mods))
            below = names if kind == "cycle" else names[k + 1:]
            t.items = body(r, t, below, maxp, 0, {"nested": 1.0, "cycle": 0.9}.get(kind, 0.7))
            if kind == "nested" and below and not any(i[0] == "call" for i in t.flat()):
                t.items.insert(r.randint(0, len(t.items)), ("call", below[0], ["$1", "$2_n"], 0.0))
            if kind == "cycle" and r.random() < 0.5:
                t.items.insert(r.randint(0, len(t.items)), ("call", r.choice(names), [r.choice(["$1", "$1_c", "$2"])], 0.0))
        # keep expansions small
        calls = []
        for m in mods:
            for c in range(r.randint(0, 3)):
                n = r.choice(names)
                args = []
                for _ in range(r.randint(0, maxp + 1) if r.random() < 0.5 else maxp):
                    args.append(word(r, len(calls)) if r.random() < 0.93 else "")
                calls.append((m, n, args))
        declared = {}
        size = 0
        mine = []
        for n, (m, name, args) in enumerate(calls):
            for fl, x in expand(ts, name, args):
                size += 1
                if size > 3000:
                    out.stat("too large (skipped)")
                    return
                mine.append((n, fl, x))
        if kind != "cycle":
            theirs = m4(ts, calls)
            if Counter(theirs) != Counter(mine):
                raise AssertionError("reference expansion differs from m4: %s" % (list((Counter(theirs) - Counter(mine)).items())[:3] +
                                                                                list((Counter(mine) - Counter(theirs)).items())[:3]))
            out.stat("expansions compared with m4", len(theirs))
            mine = theirs
        for n, fl, x in mine:
            declared.setdefault((fl, x), set()).add(calls[n][0])
        # near misses
        cand = set(declared)
        for t in ts.values():
            for i in t.flat():
                if i[0] != "decl":
                    continue
                for q in range(3):
                    m, n, args = r.choice(calls) if calls else ("moda", names[0], ["foo0", "bar1"])
                    v = r.choice([list(args), args[1:], args[::-1], [], args[:1] * 12, args + ["extra"]])
                    p = i[2]
                    if r.random() < 0.5:
                        p = re.sub(r"\$(\d)(\d)", r"$\1_\2", p)
                    x = substitute(p, v)
                    cand.add((i[1] if r.random() < 0.7 else r.choice(FL), x))
                    cand.add((i[1], substitute(re.sub(r"\$(\d)(\d)", lambda z: (args[int(z.group(1)) - 1] if 0 < int(z.group(1)) <= len(args) else "") + z.group(2), i[2]), args)))
                    cand.add((r.choice(FL), re.sub(r"\$\d+", "", i[2])))
        cand = sorted(c for c in cand if NAME.match(c[1]) and len(declared.get(c, ())) < 2)
        r.shuffle(cand)
        cand = cand[:250]
        ifs = {m: Text(r) for m in mods}
        tes = {m: Text(r) for m in mods}
        order = list(names)
        r.shuffle(order)
        for n in order:
            t = ifs[ts[n].mod]
            t.add("## <summary>t</summary>")
            t.add("template(`%s',`" % n)
            if r.random() < 0.5:
                t.add("gen_require(`\n\t\ttype some_t;\n\t')", 1)
            t.items(ts[n].items, 1)
            t.add("')")
        for m in mods:
            tes[m].add("policy_module(%s, 1.0)" % m)
            tes[m].add("type %s_own_t;" % m)
        for m, n, args in calls:
            t = tes[m]
            k = r.random()
            if k < 0.6:
                t.call(n, args)
            else:
                t.add(r.choice(["optional_policy(`", "ifdef(`x',`", "tunable_policy(`b',`", "ifndef(`y',`"]))
                t.call(n, args, 1)
                t.add("')")
        # probes
        expected = []          # (file, line, id, symbols)

        def owner(c):
            o = declared.get(c)
            return next(iter(o)) if o else None
        for m in mods + ["probe"]:
            t = ifs.setdefault(m, Text(r))
            t.add("interface(`%s_probe',`" % m)
            t.add("gen_require(`", 1)
            some = [c for c in cand if m == "probe" or r.random() < 0.4] or cand[:1]
            t.add("bool %s_nosuch_bool;" % m, 2)
            expected.append((m + ".if", len(t.l), "W-011", (m + "_nosuch_bool", None)))
            for c in some:
                line = t.add("%s %s;" % c, 2)
                o = owner(c)
                if o != m:
                    expected.append((m + ".if", line, "W-011", (c[1], o)))
            t.add("')", 1)
            t.add("')")
        pt = tes["probe"] = Text(r)
        pt.add("policy_module(probe, 1.0)")
        pt.add("type probe_t;")
        fc = []
        for x in sorted({c[1] for c in cand}):
            os_ = set()
            for fl in ("type", "attribute", "attribute_role"):
                os_ |= declared.get((fl, x), set())
            if len(os_) < 2:
                line = pt.add("allow probe_t %s:file read;" % x)
                if os_:
                    expected.append(("probe.te", line, "W-001", (x, next(iter(os_)))))
            ty = declared.get(("type", x), set())
            if len(ty) < 2:
                fc.append("/x%d\t--\tgen_context(system_u:object_r:%s,s0)" % (len(fc), x))
                expected.append(("probe.fc", len(fc), "S-002" if ty else "E-005", (x, next(iter(ty), None))))
        ctx = {m for m in mods if r.random() < 0.25} if r.random() < 0.4 else set()
        os.makedirs(d + "/p")
        os.makedirs(d + "/c")
        paths = []
        for suf, dd in ((".if", ifs), (".te", tes)):
            for m, t in dd.items():
                p = os.path.join(d, "c" if m in ctx else "p", m + suf)
                with open(p, "w") as f:
                    f.write(t.text())
                if m not in ctx:
                    paths.append(p)
        with open(d + "/p/probe.fc", "w") as f:
            f.write("\n".join(fc) + "\n")
        r.shuffle(paths)
        args = ["-s", "-E"] + [x for i in ("W-011", "W-001", "E-005", "S-002") for x in ("-e", i)]
        if ctx:
            args.append("--context=" + d + "/c")
        args += paths + [d + "/p/probe.fc"] if r.random() < 0.5 else ["-r", d + "/p"]
        res = env.run(args, cwd=d)
        out.ran()
        p = problem(res)
        if p:
            out.violation(p, d, args, res=res)
            return
        files = {m + ".if" for m in ctx} | {m + ".te" for m in ctx}
        exp = Counter()
        syms = {}
        for f, l, i, s in expected:
            if f in files:
                continue
            syms[f, l, i] = s
            exp[f, l, i, s] += 1
        act = Counter()
        for f, l, i, msg in res.findings:
            if i == "W-011" and f.endswith(".if"):
                t = ifs[f[:-3]]
                if t.l.index("interface(`%s_probe',`" % f[:-3]) >= l:
                    continue                           # the requires of the templates
            elif f not in ("probe.te", "probe.fc"):
                continue
            # the message names the name and its module, or no module if there is none
            ws = re.split(r"[\s(),.']+", msg)
            s = syms.get((f, l, i))
            named = sorted(set(ws) & set(mods))
            good = s is not None and s[0] in ws and named == ([s[1]] if s[1] else [])
            act[f, l, i, s if good else (msg,)] += 1
        if act != exp:
            m, l = sorted((act - exp).items(), key=str), sorted((exp - act).items(), key=str)
            out.violation("names known after template calls differ: not expected %s, missing %s" % (m[:3], l[:3]), d, args, res=res)
            return
        names_ = sorted(c for c in cand if c in declared)
        out.stat("templates", len(ts))
        out.stat("calls", len(calls))
        out.stat("probed names that are declared", len(names_))
        out.stat("probed names that are not declared", len(cand) - len(names_))
        out.stat("findings compared", sum(exp.values()))
        if names_:
            out.key(tuple(names_))
            out.sample({"calls": [list(c) for c in calls[:3]], "declared": ["%s %s" % c for c in names_[:5]]})


def list_argument(env, out, d):
    """Known finding: a list in braces counts as several arguments."""
    for n, t in (("a.if", "template(`a_template',`\n\ttype $2_t;\n')\n"), ("b.te", "policy_module(b, 1.0)\ntype b_t;\na_template({ x y }, foo)\n"),
                 ("c.te", "policy_module(c, 1.0)\ntype c_t;\nallow c_t foo_t:file read;\nallow c_t y_t:file read;\n")):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    args = ["-s", "-E", "-e", "W-001", "a.if", "b.te", "c.te"]
    res = env.run(args, cwd=d)
    out.ran()
    if [f[:3] for f in res.findings] != [("c.te", 3, "W-001")]:
        out.violation("a_template({ x y }, foo) with 'type $2_t;' does not declare foo_t: %s" % res.findings, d, args, res=res, key="list-argument")
