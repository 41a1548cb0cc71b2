"""Effects of the configuration, refusal of bad configurations."""
import os
import re
import subprocess
from gen import Gen, FILEPERMS
from diff import workdir, compare, problem
from model import ALL_IDS, Config, enabled
from run import sane

PID = "C21"
RULE = ("Random policies that use every configurable item (assumed users and roles, macros in fc and te files, require blocks, statement "
        "orders, generated fc names), each analysed under several random configurations that differ in one or many items, written in "
        "random spellings (order, quoting, comments, lists in pieces with +=, repeated items), through -c or the default location, or without a "
        "configuration.  All findings are compared with the reference model under the documented meaning of that configuration.  Broken "
        "configurations are made from valid ones by one certain defect each (unknown option, misspelled value, wrong flavour list, "
        "syntax error) and must give 78, no finding and, by an LD_PRELOAD log of opened files, no policy file read; a missing file "
        "given with -c 64.  Non-trivial: the findings differ from those of the previous configuration of the same policy, or the "
        "configuration is broken; distinct by findings and configuration.")
ASSUMPTIONS = ["values contain letters, digits, '_' and '-'", "an unterminated comment at the end is accepted by the configuration library and not counted as a defect"]
CHUNK = 20
ITEMS = ["severity", "disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros",
         "ordering_rules", "ordering_requires", "ordering_requires_same_flavor", "skip_checking_generated_fcs"]
LISTS = ITEMS[1:8] + ["ordering_requires"]
SEV = {"C": "convention", "S": "style", "W": "warning", "E": "error", "F": "fatal"}
FLAVORS = ["bool", "class", "role", "attribute_role", "attribute", "type"]
FC = ["HOME_MACRO", "my_macro", "fcmac", "OTHER_MACRO", "notmacro", "HOME", "my_macro_x"]
TE = ["simple_macro", "do_things", "enable_mls", "stray", "stray_word", "alpha", "true"]


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("effect", 500 * k), ("single", 300 * k), ("default", 200 * k), ("broken", 700 * k)]


def prepare(env):
    so = os.path.join(env.tmp, "shim.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", so, os.path.join(os.path.dirname(__file__), "..", "lib", "shim.c"), "-ldl"], check=True)
    env.extra["shim"] = so
    # the default location, relative to the current directory
    env.exe["plain-etc"] = env.build.variant("plain", extra_flags=["-USYSCONFDIR", '-DSYSCONFDIR="sysetc"'], key="etc")


def value(rng, item):
    r = rng
    some = lambda l, a, b: r.sample(l, min(len(l), r.randint(a, b)))
    if item == "severity":
        return r.choice("CCCSSWEF")
    if item in ("disable", "enable_normal", "enable_source"):
        return some(ALL_IDS, 0, r.choice([1, 3, 12, 60]))
    if item == "assume_users":
        return some(["system_u", "user_u", "staff_u", "root", "nobody_u"], 0, 4)
    if item == "assume_roles":
        return some(["object_r", "system_r", "extra_r", "bad_r"], 0, 4)
    if item == "custom_fc_macros":
        return some(FC, 0, 5)
    if item == "custom_te_simple_macros":
        return some(TE, 0, 5)
    if item == "ordering_rules":
        return r.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"])
    if item == "ordering_requires":
        return r.sample(FLAVORS, 6)
    return r.random() < 0.5


def quote(rng, x, comma=False):
    k = rng.random()
    if k < 0.4:
        return '"%s"' % x
    if k < 0.55:
        return "'%s'" % x
    return x


def filler(rng):
    return rng.choice(["", "", "", "", "# a comment { \" ", "// severity = \"nothing\"", "/* disable = { C-001 }\n ordering_rules = x */", "\t", "#", "# '"])


def junk(rng, item):
    """A valid value of the item that is overridden by what follows."""
    v = value(rng, item)
    return assign(rng, item, v)


def assign(rng, item, v):
    r = rng
    sp = lambda: r.choice(["", " ", " ", "  ", "\t"])
    nl = lambda: r.choice(["", "", " ", "\n", "\n\t"])
    if item in LISTS:
        pre = ""
        if v and item != "ordering_requires" and r.random() < 0.2:
            k = r.randint(0, len(v))
            pre = assign(r, item, v[:k])
            op, v = "+=", v[k:]
        else:
            op = "="
        if len(v) == 1 and r.random() < 0.2:
            body = quote(r, v[0])
            return "%s%s%s%s%s\n" % (pre, item, sp(), op, sp() + body)
        return "%s%s%s%s%s{%s}\n" % (pre, item, sp(), op, sp(), nl() + ("," + nl()).join(sp() + quote(r, x) + sp() for x in v) + nl())
    if item == "severity":
        v = SEV[v]
    elif isinstance(v, bool):
        v = r.choice(["true", "True", "TRUE", "yes", "Yes", "YES"] if v else ["false", "False", "FALSE", "no", "No", "NO"])
    return "%s%s=%s%s\n" % (item, sp(), sp(), quote(r, v))


def text(rng, items, repeat=True):
    """items: item -> value"""
    l = list(items)
    rng.shuffle(l)
    out = []
    for i in l:
        if repeat and rng.random() < 0.1:
            out.append(junk(rng, i))
        out.append(assign(rng, i, items[i]))
    s = ""
    for o in out:
        f = filler(rng)
        s += f + "\n" if f else ""
        s += o
    f = filler(rng)
    return s + (f + "\n" if f else "")


def config(items):
    c = Config(present=True)
    for k, v in items.items():
        setattr(c, k, v)
    return c


def world(rng):
    w = Gen(rng, nmods=rng.randint(1, 3), features={"order": rng.choice([0, 0.3]), "fc": 0.8, "exc": 0.05, "messy": 3, "ifs": 0.6}).make()
    return w


def items_of(rng, dense=0.5):
    return {i: value(rng, i) for i in ITEMS if rng.random() < dense}


def put(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(s)


def case(env, kind, rng, out):
    w = world(rng)
    with workdir(env) as d:
        if kind == "broken":
            return broken(env, rng, out, d, w)
        w.config_text = None
        paths, sup = w.write(d)
        items = items_of(rng)
        if kind == "single":
            # one item after another changes
            items = items_of(rng, rng.choice([0, 0.3]))
            items.pop("severity", None)
        last = None
        for n in range(7 if kind == "single" else 5):
            if kind == "single" and n:
                i = rng.choice(ITEMS)
                if i in items and rng.random() < 0.4:
                    del items[i]
                else:
                    items[i] = value(rng, i)
            elif n:
                items = items_of(rng, rng.choice([0.2, 0.5, 0.9]))
            exe, args = "plain", []
            c = config(items)
            if kind == "default":
                exe = "plain-etc"
                k = rng.random()
                dp = d + "/sysetc/selint.conf"
                if os.path.exists(dp):
                    os.unlink(dp)
                if k < 0.5:                               # the default location
                    put(dp, text(rng, items))
                elif k < 0.7:                             # none at all
                    c = Config()
                elif k < 0.8:                             # an empty one: nothing is assumed
                    put(dp, rng.choice(["", "\n", "# nothing\n"]))
                    c = Config(present=True)
                else:                                     # -c wins, even if the default one is broken
                    put(dp, rng.choice(["nonsense = 1\n", text(rng, items_of(rng))]))
                    put(d + "/my.conf", text(rng, items))
                    args = ["-c", rng.choice([d + "/my.conf", "my.conf", "./my.conf"])]
            else:
                p = d + rng.choice(["/selint.conf", "/c o/x", "/conf.te", "/.hid"])
                put(p, text(rng, items))
                args = [rng.choice(["-c", "--config"]), p] if rng.random() < 0.7 else ["--config=" + p]
            w.config = c
            source = rng.random() < 0.8
            level = None if rng.random() < 0.8 else rng.choice("CSWE")
            args += (["-s"] if source else []) + (["-l", level] if level else [])
            rest = sup + paths
            if source:
                pol = w.policy()
            else:
                keep = w.mods, w.classes, w.perms, w.macros
                w.mods = w.classes = w.perms = w.macros = None
                pol = w.policy()
                w.mods, w.classes, w.perms, w.macros = keep
            args += rest
            res = env.run(args, variant=exe, cwd=d)
            out.ran()
            p = problem(res)
            if p:
                out.violation(p, d, args, res=res)
                return
            lv = level or c.severity or "C"
            exp = [f for f in pol.findings() if enabled(f[2], lv, c, source)]
            bad = compare(exp, res.findings, None)
            if bad:
                out.violation("; ".join(bad[:4]), d, args, res=res, expected="under %s" % (items if c.present else "no configuration"))
                return
            if exp and exp != last:
                out.key(tuple(f[:3] for f in exp), repr(sorted(items.items())), lv, source)
                out.stat("findings as documented", len(exp))
                for i in items:
                    out.stat("configurations with " + i)
                out.sample({"configuration": {k: v for k, v in items.items() if not isinstance(v, list) or len(v) < 7}, "findings": len(exp)})
            last = exp


def misspell(rng, s):
    while True:
        k = rng.randint(0, 6)
        i = rng.randrange(len(s))
        t = [s[:i] + s[i + 1:], s[:i] + rng.choice("aeXz_1-") + s[i:], s[:i] + rng.choice("qzY7") + s[i + 1:], s + rng.choice([" ", "s", "x", "_", "-"]),
             s.upper(), s[:rng.randint(1, len(s))], rng.choice([" ", "_", "x"]) + s][k]
        if t != s:
            return t


def good(item, v):
    if item in ("ordering_requires_same_flavor", "skip_checking_generated_fcs"):
        return v in ("true", "True", "TRUE", "yes", "Yes", "YES", "false", "False", "FALSE", "no", "No", "NO")
    return v in (SEV.values() if item == "severity" else ["refpolicy", "refpolicy-light", "refpolicy-lax"])


def defect(rng, items):
    """A valid set of items plus one certain defect: (kind, text)."""
    k = rng.choice(["severity", "ordering_rules", "ordering_requires_same_flavor", "skip_checking_generated_fcs", "requires", "requires",
                    "option", "option", "syntax", "syntax"])
    items = dict(items)
    if k in ("severity", "ordering_rules", "ordering_requires_same_flavor", "skip_checking_generated_fcs"):
        items.pop(k, None)
        base = {"severity": list(SEV.values()), "ordering_rules": ["refpolicy", "refpolicy-light", "refpolicy-lax"]}.get(k, ["true", "yes", "false", "no", "True", "NO"])
        while True:
            v = misspell(rng, rng.choice(base)) if rng.random() < 0.7 else rng.choice(
                ["", "C", "W", "warn", "errors", "all", "none", "lax", "light", "1", "0", "on", "off", "t", "f", "y", "n", "tRUE", "yEs", "Style", "refpolicy lax"])
            if not good(k, v):
                break
        bad = '%s = "%s"\n' % (k, v)
        what = "%s %r" % (k, v)
    elif k == "requires":
        items.pop("ordering_requires", None)
        f = rng.sample(FLAVORS, 6)
        j = rng.randint(0, 4)
        if j == 0:
            f = rng.sample(f, rng.randint(0, 5))
        elif j == 1:
            f.insert(rng.randint(0, 6), rng.choice(FLAVORS))
        elif j == 2:
            a, b = rng.sample(range(6), 2)
            f[a] = f[b]
        elif j == 3:
            a = rng.randrange(6)
            t = misspell(rng, f[a]) if rng.random() < 0.6 else rng.choice(["user", "perm", "types", "boolean", "role_attribute", "alias", ""])
            f[a] = t if t not in FLAVORS else "nope"
        else:
            f += rng.sample(FLAVORS, rng.randint(1, 6))
        bad = "ordering_requires = {%s}\n" % ", ".join('"%s"' % x for x in f)
        what = "ordering_requires %s" % f
    elif k == "option":
        while True:
            n = misspell(rng, rng.choice(ITEMS)) if rng.random() < 0.6 else rng.choice(
                ["enable", "disabled", "modules_conf_path", "assume_types", "custom_macros", "level", "Severity", "include_dir", "ordering"])
            n = n.strip()
            if n not in ITEMS:
                break
        bad = "%s = %s\n" % (n, rng.choice(['"convention"', "{}", "true", "{ C-001 }"]))
        what = "option " + n
    else:
        i = rng.choice(ITEMS)
        bad = rng.choice(["%s\n" % i, "%s true\n" % i, "%s {\n" % i, "%s {}\n" % i, "= 1\n", "}\n", "{\n", "severity += style\n", "ordering_rules += refpolicy\n",
                          "severity = { style }\n", "skip_checking_generated_fcs = {}\n", "disable == { C-001 }\n", "disable = = {}\n",
                          "disable = { { C-001 } }\n", "disable = { C-001 } }\n", "( )\n", "foo(1)\n", "%s = = x\n" % i])
        what = "syntax " + bad.strip()
        if rng.random() < 0.3:
            items = {}
            tail = rng.choice(["disable = { C-001", "disable = { C-001,", "severity = \"style", "severity =", "disable = 'C-001", "severity", "disable = {", "disable"])
            return "syntax (end) " + tail, text(rng, items_of(rng, 0.4), False) + tail + rng.choice(["", "\n", "\n\n"])
    s = text(rng, {i: v for i, v in items.items() if rng.random() < 0.5})
    t = text(rng, {i: v for i, v in items.items() if not re.match(re.escape(i), bad)} if rng.random() < 0.5 else {})
    return what, s + bad + t


def broken(env, rng, out, d, w):
    w.config_text = None
    paths, sup = w.write(d)
    for n in range(8):
        c = d + "/x.conf"
        if os.path.exists(c):
            os.unlink(c)
        if rng.random() < 0.12:
            what, want = "missing configuration file", 64
            c = d + rng.choice(["/missing.conf", "/no/such/x.conf", "/policy/selint.conf", "/x.conf"])
        elif rng.random() < 0.03:
            what, want = "directory as configuration", 78
            c = d + rng.choice(["", "/policy", "/policy/"])
        else:
            what, s = defect(rng, items_of(rng, rng.choice([0, 0.3, 0.7])))
            want = 78
            put(c, s)
        args = ["-c", c] + rng.choice([["-s"], ["-s", "-r"], [], ["-r"]]) + rng.choice([[], [], ["-F"], ["-S"], ["-v"], ["-l", "C"], ["-l", "E"], ["-E", "-e", "W-001"], ["-e", "C-001"], ["-d", "C-001"]])
        if "-r" in args:
            args.append(d + "/policy")
        else:
            args += sup + paths
        log = d + ".log"
        res = env.run(args, cwd=d, env={"LD_PRELOAD": env.extra["shim"], "SHIM_LOG": log})
        out.ran()
        calls = []
        if os.path.exists(log):
            with open(log, errors="replace") as f:
                calls = f.read().split("\n")
            os.unlink(log)
        p = sane(res)
        if p:
            out.violation("%s: %s" % (what, p), d, args, res=res)
            return
        if res.rc != want:
            out.violation("%s: status %d instead of %d" % (what, res.rc, want), d, args, res=res)
            return
        if res.findings or res.summary is not None:
            out.violation("%s: findings in spite of it" % what, d, args, res=res)
            return
        seen = [x for x in calls if re.search(r"\.(te|if|fc)\)$", x)]
        if seen:
            out.violation("%s: policy file opened: %s" % (what, seen[0]), d, args, res=res)
            return
        if not res.out.strip() and not res.err.strip():
            out.violation("%s: nothing is said about it" % what, d, args, res=res)
            return
        out.stat("refused: " + what.split(" ")[0])
        if want == 78 and not any(c in x for x in calls):
            out.stat("open of the configuration not seen by the monitor")
        out.key("broken", what)
