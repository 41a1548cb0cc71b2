"""Termination, stack use and proportional cost."""
import os
import re
from corrupt import damage
from diff import workdir
from gen import Gen
from model import ALL_IDS
from run import sane

PID = "C02"
RULE = ("A build that counts every executed basic block of selint and tracks the lowest stack address (compiler coverage callbacks) runs, with all checks: 'cycles' "
        "random call graphs of templates and interfaces (self loops, rings with chords, chains into rings, joined rings, small complete graphs, trees with shared nodes), "
        "with arguments that grow on the way; 'macros' random reference graphs of permission macros; 'aliases' graphs of type aliases; 'nesting' blocks, conditions, lists and "
        "argument lists nested or repeated to depth 2000; 'growth' one dimension (statements, blocks, interfaces, files, modules, lines, declarations, calls, "
        "comments ...) at n and 8 n; 'modules' generated modules 1 and 8 times (renamed); 'huge' up to 200 000 statements or lines in "
        "one file; 'links' directory trees with loops of links.  Every run must end in a documented way by itself, within a budget of 400 million blocks for the graphs; 8 n "
        "may cost at most 8 * 1.9 times the blocks of n (for lists, requirements and the statements of one interface, where every item is looked up in the others, the square; for statements out of order, each of which is explained by a search, 8 * 3.5).  Non-trivial: more than "
        "3000 blocks; distinct by kind, dimension, blocks and stack depth.")
TECHNIQUE = "runtime monitoring: deterministic step and stack-depth counters over cyclic, deep and growing inputs; budget and growth-ratio oracles"
ASSUMPTIONS = ["cost is counted in basic blocks of selint's own code: time inside library functions is not seen except through a limit of 60 s per run",
               "complete call graphs have at most 5 templates: expansion follows every path", "stack of 8 MB"]
VARIANTS = []
CHUNK = 10
LOG = re.compile(r"steps=(\d+) stack=(-?\d+)")
ON = [x for i in ALL_IDS for x in ("-e", i)]
BUDGET = 400_000_000


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("huge", 20 * (1 if tier == "quick" else 4)), ("cycles", 4000 * k), ("macros", 1200 * k), ("aliases", 400 * k), ("nesting", 240 * k), ("growth", 4 * len(DIMS) * (1 if tier == "quick" else 5)),
            ("modules", 80 * k), ("links", 20 * k)]


def prepare(env):
    env.exe["step"] = env.build.variant("plain", extra_src=[os.path.join(os.path.dirname(__file__), "..", "lib", "stepmon.c")],
                                        extra_flags=["-fsanitize-coverage=trace-pc"], key="step")
    d = os.path.join(env.tmp, "probe")
    os.makedirs(d)


def write(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="latin-1", newline="") as f:
            f.write(t)


def steps(env, out, d, args, what, budget=BUDGET, ok=(0, 65)):
    """(blocks, stack) or None after a violation"""
    log = d + ".log"
    if os.path.exists(log):
        os.unlink(log)
    res = env.run(args, variant="step", cwd=d, env={"STEP_LOG": log, "STEP_LIMIT": str(budget)}, timeout=60)
    out.ran()
    p = None
    if res.rc == 98:
        p = "more than %d blocks executed: %s" % (budget, what)
    elif res.timeout:
        p = "the run does not end: %s" % what
    else:
        p = sane(res)
        p = p and "%s: %s" % (p, what)
        if not p and ok and res.rc not in ok:
            p = "status %d: %s" % (res.rc, what)
    if p:
        out.violation(p, d, args, res=res)
        return None
    try:
        with open(log) as f:
            m = LOG.match(f.read())
    except FileNotFoundError:
        m = None
    if not m:
        out.violation("the monitor did not report: " + what, d, args, res=res)
        return None
    a, b = map(int, m.groups())
    out.stat("basic blocks executed", a)
    return a, b


# ------------------------------------------------------------------ graphs
def graph(r):
    """(nodes, edges) of a directed graph with few enough paths."""
    k = r.randrange(8)
    if k == 0:
        n = r.randint(1, 3)
        return n, [(i, i) for i in range(n)] + ([(0, n - 1)] if n > 1 else [])
    if k == 1:
        n = r.choice([2, 3, 4, 5, 8, 20, 40])
        e = [(i, (i + 1) % n) for i in range(n)]
        return n, e + [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 3))]
    if k == 2:      # a chain into a ring
        a, b = r.randint(1, 20), r.randint(1, 10)
        n = a + b
        return n, [(i, i + 1) for i in range(n - 1)] + [(n - 1, r.randrange(a, n))]
    if k == 3:      # two rings joined
        a, b = r.randint(1, 8), r.randint(1, 8)
        return a + b, [(i, (i + 1) % a) for i in range(a)] + [(a + i, a + (i + 1) % b) for i in range(b)] + [(r.randrange(a), a + r.randrange(b)), (a + r.randrange(b), r.randrange(a))][:r.randint(1, 2)]
    if k == 4:
        n = r.randint(2, 5)
        return n, [(i, j) for i in range(n) for j in range(n) if r.random() < 0.9]
    if k == 5:      # layers, every node of one calls some of the next
        w, l = r.randint(1, 3), r.randint(2, 5)
        return w * l, [(i * w + a, i * w + w + b) for i in range(l - 1) for a in range(w) for b in range(w)] + ([(w * l - 1, r.randrange(w * l))] if r.random() < 0.5 else [])
    if k == 6:      # a long chain
        n = r.choice([50, 200, 500])
        e = [(i, i + 1) for i in range(n - 1)]
        return n, e + ([(n - 1, r.randrange(n))] if r.random() < 0.5 else [])
    n = r.randint(3, 12)
    return n, [(r.randrange(n), r.randrange(n)) for _ in range(n + r.randint(0, 3))]


def cycles(r):
    n, e = graph(r)
    name = list(range(n))
    r.shuffle(name)
    pt = r.choice([0, 0.5, 0.9, 1, 1])
    t = []
    for i in range(n):
        out = [b for a, b in e if a == i]
        body = ["\ttype $1_x%d_t;" % i] if r.random() < 0.5 else ["\tallow $1 self:file read;"]
        if r.random() < 0.2:
            body.append("\ttypeattribute $1 att;")
        for b in out:
            arg = r.choice(["$1", "$1", "$1, $2", "$2, $1", "$1_y", "x", "$*", "$1, { $2 a }", "$1, $1_$1"]) if n <= 40 else "$1"
            c = "\tfoo_f%d(%s)" % (name[b], arg)
            body.append(r.choice([c, c, c, "\toptional_policy(`\n%s\n\t')" % c, "\tifdef(`x',`\n%s\n\t')" % c, "\ttunable_policy(`b',`\n%s\n\t')" % c]))
        r.shuffle(body)
        t.append("%s(`foo_f%d',`\n%s\n')\n" % ("template" if r.random() < pt else "interface", name[i], "\n".join(body)))
    r.shuffle(t)
    k = r.randint(1, 3)
    files = {}
    for i in range(k):
        files["policy/%s/foo%d.if" % (r.choice("ab"), i)] = "\n".join(t[i::k])
    calls = ["foo_f%d(%s)" % (r.randrange(n), r.choice(["a_t", "a_t, b_t", "{ a_t b_t }, c", ""])) for _ in range(r.randint(1, 4))]
    files["policy/c/foo.te"] = "policy_module(foo, 1.0)\ntype a_t;\n" + "\n".join(calls) + "\n"
    return files, (n, tuple(sorted(e)))


def macros(r):
    n = r.choice([1, 2, 3, 5, 10, 30, 60])
    m = r.choice([1, 2, 3, 6, n])
    mode = r.randrange(4)
    s = []
    for i in range(n):
        if mode == 0:
            refs = [r.randrange(n) for _ in range(min(m, 8))]
        elif mode == 1:         # layers: many paths, no cycle
            refs = [min(n - 1, i + d) for d in range(1, 1 + min(m, 4))]
        elif mode == 2:
            refs = [(i + 1) % n] + [r.randrange(n) for _ in range(r.choice([0, 0, 1]))]
        else:
            refs = list(range(n)) if n <= 30 else [(i * 7 + 1) % n]
        it = ["m%d_%s_perms" % (x, "file" if x % 2 else "dir") for x in refs if mode != 1 or x != i]
        it += r.sample(["read", "write", "getattr", "open", "nosuch"], r.randint(0, 3)) or ["read"]
        r.shuffle(it)
        s.append("define(`m%d_%s_perms',`{ %s }')\n" % (i, "file" if i % 2 else "dir", " ".join(it)))
    r.shuffle(s)
    te = ["policy_module(foo, 1.0)", "type a_t;"]
    for _ in range(r.randint(1, 10)):
        te.append("allow a_t self:%s %s;" % (r.choice(["file", "dir", "{ file dir }"]), r.choice(["m%d_file_perms" % r.randrange(n), "{ read write open getattr }", "{ m0_dir_perms m1_file_perms read }"])))
    return {"policy/obj_perm_sets.spt": "".join(s), "policy/access_vectors": "class file\n{ read write getattr open }\nclass dir\n{ read write getattr open }\n", "policy/foo.te": "\n".join(te) + "\n"}, (n, m, mode)


def aliases(r):
    n = r.randint(1, 12)
    l = ["policy_module(foo, 1.0)"]
    for _ in range(r.randint(1, 2 * n)):
        a, b = r.randrange(n), r.randrange(n)
        l.append(r.choice(["typealias a%d_t alias a%d_t;", "typealias a%d_t alias { a%d_t };", "type a%d_t alias a%d_t;", "typebounds a%d_t a%d_t;", "typeattribute a%d_t a%d_t;", "role a%d_t types a%d_t;",
                           "roleattribute a%d_t a%d_t;", "attribute a%d_t;\n# %d"]) % (a, b))
    for i in range(n):
        l.append("allow a%d_t self:file read;" % i)
    return {"policy/foo.te": "\n".join(l) + "\n", "policy/bar.te": "\n".join(["policy_module(bar, 1.0)"] + r.sample(l[1:], len(l) // 2)) + "\n"}, tuple(l)


T = "policy_module(foo, 1.0)\n"


def nesting(r):
    """(name, text, file, wide)"""
    d = r.choice([10, 100, 300, 800, 1500, 2000])
    k = r.randrange(14)
    if k == 0:
        s = T + "optional_policy(`\n" * d + "foo(a)\n" + "')\n" * d
    elif k == 1:
        s = T + "if (a) {\n" * d + "foo(a)\n" + "}\n" * d
    elif k == 2:
        s = T + "ifdef(`a',`\n" * d + "foo(a)\n" + "')\n" * d
    elif k == 3:
        s = T + "tunable_policy(`a',`\n" * d + "foo(a)\n" + "')\n" * d
    elif k == 4:
        s = T + "allow a_t b_t:file " + "~" * d + "read;\n"
    elif k == 5:
        s = T + "foo(" + "{ a " * d + "}" * d + ")\n"
    elif k == 6:
        s = T + "tunable_policy(`" + "(" * d + "a" + ")" * d + "',`\nfoo(a)\n')\n"
    elif k == 7:
        s = T + "tunable_policy(`" + "a && " * d + "a',`\nfoo(a)\n')\n"
    elif k == 8:
        s = T + "foo(" + "~" * d + "a)\n"
    elif k == 9:
        s = T + "ifelse(`a',`b',`" * d + "foo(a)" + "')" * d + "\n"
    elif k == 10:
        s = T + "optional_policy(`\nfoo(a)\n',`\n" * d + "foo(a)\n" + "')\n" * d
    elif k == 11:
        s = T + "ifelse(" + "`a'," * d + "`foo(a)')\n"
    elif k == 12:
        s = T + "tunable_policy(`" + "!" * d + "a',`\nfoo(a)\n')\n"
    else:
        s = T + "refpolicywarn(`" + "a " * d + "')\n"
    n = "foo.te"
    if r.random() < 0.3:
        s = "interface(`foo_x',`\n" + s[len(T):] + "')\n"
        n = "foo.if"
    if r.random() < 0.15:
        s = damage(r, s, 1)
    return s, n, (k, d)


def rep(fmt):
    return lambda r, n: {"foo.te": T + "type a_t;\n" + "".join(fmt.replace("%d", str(i)) for i in range(n))}


BODY = ["\tallow a_t self:file read;\n", "\tfoo_read(a_t)\n", "\tpermissive a_t;\n", "\ttype_transition a_t b_t:process c_t;\n", "\ttypeattribute a_t att;\n", "\tallow $1 a_t:file write;\n", "\t# c\n", "\n"]


def inside(head, tail, file="foo.te", body=BODY, top=T):
    """n statements in one block"""
    def f(r, n):
        k = r.choice([1, 1, 3, len(body)])
        b = r.sample(body, k)
        if not any("_" in x for x in b):        # a block of blank lines is an error
            b[0] = body[0]
        return {file: top + head + "".join(b[i % k].replace("%d", str(i)) for i in range(n)) + tail}
    return f


REQ = ["\t\ttype a%d_t;\n", "\t\tattribute x%d;\n", "\t\tclass c%d read;\n", "\t\tbool b%d;\n", "\t\trole r%d_r;\n"]


def mix(r, n):
    l = ["allow a_t self:file { read write };\n", "type x%d_t;\n", "allow x%d_t self:dir read;\n", "foo_read(a_t)\n", "optional_policy(`\n\tfoo_x(a_t)\n')\n", "kernel_x(a_t)\n", "# c %d\n", "\n",
         "tunable_policy(`b',`\n\tallow a_t x%d_t:file read;\n')\n", "dontaudit x%d_t self:file write;\n", "ifdef(`d',`\n\ttype y%d_t;\n')\n", "gen_require(`\n\ttype q%d_t;\n')\n",
         "role r%d_r types a_t;\n", "type_transition a_t x%d_t:process a_t;\n", "domain_type(x%d_t)\n"]
    return {"foo.te": T + "type a_t;\n" + "".join(r.choice(l).replace("%d", str(r.randrange(n))) for i in range(n))}


DIMS = {
    "declarations": rep("type t%d_t;\n"), "rules": rep("allow a_t self:file { read write };\n"), "mixture": mix,
    "optional blocks": rep("optional_policy(`\n\tfoo%d_read(a_t)\n')\n"), "conditional blocks": rep("if (b%d) {\n\tallow a_t self:file read;\n}\n"),
    "calls": rep("bar_read(a_t)\n"), "comments": rep("# comment %d\n"), "m4 comments": rep("dnl comment %d\n"), "blank lines": rep("\n"),
    "require blocks": rep("gen_require(`\n\ttype q%d_t;\n')\nallow a_t q%d_t:file read;\n"), "interfaces of others": rep("other%d_read(a_t)\n"),
    "alternating": rep("type t%d_t;\nallow t%d_t self:file read;\n"), "out of order": rep("optional_policy(`\n\tfoo_x(a_t)\n')\nkernel_x(a_t)\nallow a_t self:file read;\n"),
    "statements over lines": rep("allow a_t b_t:file { read\n write };\n"), "disabled": rep("type t%d_t; #selint-disable: C-001, W-001\n"), "empty statements": rep(";\n"),
    "interfaces": lambda r, n: {"foo.if": "".join("interface(`foo_f%d',`\n\tgen_require(`\n\t\ttype a_t;\n\t')\n\tallow $1 a_t:file read;\n')\n" % i for i in range(n)), "foo.te": T + "type a_t;\n"},
    "interfaces calling": lambda r, n: {"foo.if": "".join("interface(`foo_f%d',`\n\tfoo_f%d($1)\n')\n" % (i, r.randrange(n)) for i in range(n)), "foo.te": T + "type a_t;\nfoo_f0(a_t)\n"},
    "template calls": lambda r, n: {"foo.if": "template(`foo_t',`\n\ttype $1_t;\n\tallow $1_t self:file read;\n')\n", "foo.te": T + "".join("foo_t(x%d)\n" % i for i in range(n))},
    "templates": lambda r, n: {"foo.if": "".join("template(`foo_t%d',`\n\ttype $1_t;\n')\n" % i for i in range(n)), "foo.te": T + "".join("foo_t%d(x%d)\n" % (i, i) for i in range(n))},
    "file contexts": lambda r, n: {"foo.fc": "".join("/a%d\t--\tgen_context(system_u:object_r:a_t,s0)\n" % i for i in range(n)), "foo.te": T + "type a_t;\n"},
    "bad file contexts": lambda r, n: {"foo.fc": "".join("/a%d\t--\tgen_context(x:y\n" % i for i in range(n))},
    "modules.conf": lambda r, n: {"modules.conf": "".join("m%d = module\n" % i for i in range(n)), "foo.te": T + "".join("m%d_read(a_t)\n" % i for i in range(n))},
    "classes": lambda r, n: {"access_vectors": "".join("class c%d\n{ a b c }\n" % i for i in range(n)), "foo.te": T + "".join("allow a_t b_t:c%d a;\n" % i for i in range(n))},
    "files": lambda r, n: {"%s/m%d.te" % ("abc"[i % 3], i): "policy_module(m%d, 1.0)\ntype m%d_t;\nallow m%d_t m%d_t:file read;\n" % (i, i, i, (i * 7) % n) for i in range(n)},
    "interface files": lambda r, n: {"%s/m%d.if" % ("abc"[i % 3], i): "interface(`m%d_x',`\n\tgen_require(`\n\t\ttype m%d_t;\n\t')\n\tallow $1 m%d_t:file read;\n')\n" % (i, i, i) for i in range(n)},
    "module pairs": lambda r, n: {k: v for i in range(n) for k, v in (("m%d.te" % i, "policy_module(m%d, 1.0)\ntype m%d_t;\nm%d_x(m%d_t)\n" % (i, i, (i + 1) % n, i)), ("m%d.if" % i, "interface(`m%d_x',`\n\tgen_require(`\n\t\ttype m%d_t;\n\t')\n\tallow $1 m%d_t:file read;\n')\n" % (i, i, i)))},
    "statements of an optional block": inside("optional_policy(`\n", "')\n"),
    "statements of an alternative": inside("optional_policy(`\n\tfoo_x(a_t)\n',`\n", "')\n"),
    "statements of a tunable block": inside("tunable_policy(`b',`\n", "')\n"),
    "statements of the other half": inside("tunable_policy(`b',`\n\tfoo_x(a_t)\n',`\n", "')\n"),
    "statements of an ifdef": inside("ifdef(`b',`\n", "')\n"),
    "statements of a condition": inside("if (b) {\n\tallow a_t self:file read;\n", "}\n", body=BODY[:2] + BODY[3:4] + BODY[5:]),
    "statements of an else": inside("if (b) {\n\tfoo_x(a_t)\n} else {\n\tallow a_t self:file read;\n", "}\n", body=BODY[:2] + BODY[3:4] + BODY[5:]),
    "statements of an interface": inside("interface(`foo_x',`\n", "')\n", "foo.if", BODY, ""),
    "statements of a template": inside("template(`foo_x',`\n", "')\n", "foo.if", BODY, ""),
    "statements of a called template": lambda r, n: dict(inside("template(`foo_x',`\n", "')\n", "foo.if", BODY, "")(r, n), **{"foo.te": T + "foo_x(q)\nfoo_x(q2)\n"}),
    "blocks of an interface": inside("interface(`foo_x',`\n", "')\n", "foo.if", ["\toptional_policy(`\n\t\tbar_x($1)\n\t')\n", "\tifdef(`d',`\n\t\ttype $1%d_t;\n\t')\n", "\ttunable_policy(`b',`\n\t\tallow $1 self:file read;\n\t')\n"], ""),
    "long lines": lambda r, n: {"foo.te": T + "allow a_t b_t:file read; " * n + "\n"},
    # every item is looked up in a list
    "requirements, one each line": inside("interface(`foo_x',`\n\tgen_require(`\n", "\t')\n\tallow $1 a_t:file read;\n')\n", "foo.if", REQ, ""),
    "requirements of a module": inside("gen_require(`\n", "')\nallow a_t a_t:file read;\n", body=REQ),
    "list": lambda r, n: {"foo.te": T + "allow a_t b_t:file { %s };\n" % " ".join("p%d" % i for i in range(n))},
    "types of a list": lambda r, n: {"foo.te": T + "allow { %s } b_t:file read;\n" % " ".join("p%d_t" % i for i in range(n))},
    "arguments": lambda r, n: {"foo.te": T + "foo(%s)\n" % ", ".join("p%d" % i for i in range(n))},
    "requirements": lambda r, n: {"foo.if": "interface(`foo',`\n\tgen_require(`\n\t\ttype %s;\n\t')\n%s')\n" % (", ".join("a%d_t" % i for i in range(n)), "".join("\tallow $1 a%d_t:file read;\n" % i for i in range(n)))},
    "alias list": lambda r, n: {"foo.te": T + "type a_t alias { %s };\n" % " ".join("b%d_t" % i for i in range(n))},
    "macros of permissions": lambda r, n: {"obj_perm_sets.spt": "".join("define(`m%d_file_perms',`{ read write }')\n" % i for i in range(n)), "foo.te": T + "allow a_t b_t:file { read write };\n" * n},
    "depth": lambda r, n: {"foo.te": T + "optional_policy(`\n" * n + "foo(a)\n" + "')\n" * n},
}
SQUARE = {"statements of an interface", "statements of a template", "statements of a called template", "blocks of an interface", "requirements, one each line", "requirements of a module", "list", "types of a list", "arguments", "requirements", "alias list", "macros of permissions", "depth"}
UNORDERED = {"mixture", "alternating"}      # every statement out of order is explained by a search


def cost(env, out, r, d, files, what, scan, conf=None):
    write(d, {"policy/" + n: t for n, t in files.items()})
    args = ["-s"] + ON + (["-c", conf] if conf else [])
    if scan:
        args += ["-r", d + "/policy"]
    else:
        args += [d + "/policy/" + n for n in files]
    return steps(env, out, d, args, what, budget=20_000_000_000)


def case(env, kind, rng, out):
    r = rng
    with workdir(env) as d:
        if kind in ("cycles", "macros", "aliases"):
            files, key = {"cycles": cycles, "macros": macros, "aliases": aliases}[kind](r)
            write(d, files)
            args = ["-s"] + ON + (["-r", d + "/policy"] if r.random() < 0.5 else r.sample([d + "/" + n for n in files], len(files)))
            s = steps(env, out, d, args, kind + " graph")
            if s and s[0] > 3000:
                out.key(kind, s, key)
                out.sample({"kind": kind, "blocks": s[0], "stack": s[1], "graph": str(key)[:200]})
        elif kind == "nesting":
            s, n, key = nesting(r)
            write(d, {n: s})
            p = steps(env, out, d, ["-s"] + ON + [d + "/" + n], "nesting %d, depth %d" % key, budget=8_000_000_000, ok=(0, 70))
            if p and p[0] > 3000:
                out.key(kind, p, key)
                out.stat("deepest stack seen: %d KB" % (1 << max(0, (p[1] // 1024)).bit_length()))
        elif kind == "growth":
            dim = sorted(DIMS)[out.idx % len(DIMS)]
            n = r.randint(40, 60) if dim in SQUARE else r.randint(150, 300) if dim in ("files", "interface files", "module pairs") else r.randint(300, 500)
            scan = r.random() < 0.5
            conf = None
            if r.random() < 0.5 and dim != "depth":
                write(d, {"x.conf": "ordering_rules = %s\n" % r.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"])})
                conf = d + "/x.conf"
            seed = r.random()
            import random
            res = []
            for m in (n, 8 * n):
                s = cost(env, out, r, os.path.join(d, str(m)), DIMS[dim](random.Random(seed), m), "%s, %d times" % (dim, m), scan, conf)
                if not s:
                    return
                res.append(s)
            lim = 64 * 1.6 if dim in SQUARE else 8 * 3.5 if dim in UNORDERED else 8 * 1.9
            q = res[1][0] / res[0][0]
            if q > lim:
                out.violation("8 times the %s (%d, %d) cost %.1f times the steps (%d, %d), allowed %.1f" % (dim, n, 8 * n, q, res[0][0], res[1][0], lim), d, [])
                return
            out.key(kind, dim, *res)
            out.stat("growth of " + dim)
            out.stat("growth factor below %d" % next(x for x in (6, 8, 9, 10, 12, 15, 20, 40, 64, 100) if q < x))
        elif kind == "modules":
            w = Gen(r, nmods=r.randint(1, 3), size=r.choice([0.4, 1]), features={"fc": 0.5, "messy": r.choice([1, 4])}, config=False).make()
            mods = sorted({f["mod"] for f in w.files}, key=len, reverse=True)
            pat = re.compile(r"\b(%s)(?=[_(,)]|\b)" % "|".join(map(re.escape, mods)))
            res = []
            for n in (2, 16):
                files = {}
                for c in range(n):
                    for f in w.files:
                        files["%s/y%d%s" % (f["layer"], c, f["name"])] = pat.sub(lambda x: "y%d%s" % (c, x.group(1)), f["text"])
                if w.av_text:
                    files["access_vectors"] = w.av_text
                if w.spt_text:
                    files["obj_perm_sets.spt"] = w.spt_text
                files["modules.conf"] = "".join("y%d%s = %s\n" % (c, m, "base" if c % 2 else "module") for c in range(n) for m in mods)
                s = cost(env, out, r, os.path.join(d, str(n)), files, "%d copies" % n, True)
                if not s:
                    return
                res.append(s)
            q = res[1][0] / res[0][0]
            if q > 8 * 1.7:
                out.violation("8 times the modules cost %.1f times the steps (%s)" % (q, res), d, [])
                return
            out.key(kind, *res)
        elif kind == "huge":
            k = out.idx % 10
            n = {0: 200000, 1: 200000, 2: 100000, 3: 200000, 4: 20000, 5: 60000, 6: 200000, 7: 200000, 8: 60000, 9: 100000}[k]
            files = [lambda: {"foo.te": T + "type a_t;\n" * n}, lambda: {"foo.te": T + "# c\n" * n}, lambda: {"foo.if": "interface(`foo_x',`\n\tbar($1)\n')\n" * n},
                     lambda: {"foo.fc": "/a\tgen_context(system_u:object_r:a_t,s0)\n" * n, "modules.conf": "a = base\n" * n}, lambda: {"foo.te": T + "foo({ %s })\nallow a_t { %s }:file read;\n" % ("a " * n, "b_t " * n)},
                     lambda: {"foo.te": T + "optional_policy(`\n\tfoo_x(a_t)\n')\n" * n}, lambda: {"access_vectors": "class file\n{ read }\n" * n, "foo.te": T + "type a_t;\n"},
                     lambda: {"foo.te": T + "optional_policy(`\n" + "permissive a_t;\n" * n + "')\n"}, lambda: {"foo.te": T + "gen_require(`\n" + "type a_t;\n" * n + "')\ntype b_t;\n"},
                     lambda: {"foo.te": T + "ifdef(`x',`\n" + "foo_read(a_t)\n" * n + "',`\n" + "bar_read(a_t)\n" * n + "')\n"}][k]()
            s = cost(env, out, r, d, files, "huge %d" % k, False)
            if s:
                out.key(kind, k, s)
                if s[1] > 2_000_000:
                    out.violation("%d bytes of stack for %d items: recursion over them" % (s[1], n), d, [])
        else:
            write(d, {"policy/a/b/foo.te": T + "type a_t;\n", "policy/c/foo.if": "interface(`foo_x',`\n\tfoo_x($1)\n')\n"})
            for _ in range(r.randint(1, 5)):
                p = d + "/policy/" + r.choice(["a/", "a/b/", "c/", ""]) + r.choice(["l1", "l2", "l3"])
                if not os.path.lexists(p):
                    os.symlink(r.choice([".", "..", d + "/policy", "l1", "l2", "../..", "../c"]), p)
            s = steps(env, out, d, ["-s"] + ON + (["--context=" + d + "/policy"] if r.random() < 0.3 else []) + ["-r", d + "/policy"], "links")
            if s:
                out.key(kind, s)
