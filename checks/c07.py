"""Exit status."""
import os
from gen import Gen
from model import ALL_IDS, Config, enabled
from diff import workdir, compare, problem
from perms import Maybe

PID = "C07"
RULE = ("Each case runs one policy several times with random options.  The expected status follows from what the run was given: a wrong "
        "command line (wrong option, wrong value, missing value, no file, -E alone, no such configuration), an invalid configuration, a "
        "policy file with a syntax error (in a te or if file, checked or context, first or last), or else from the findings due by the "
        "reference model and the selection, and must also agree with the findings and the summary the run prints.  Non-trivial: any run; "
        "distinct by situation, options and findings due.")
ASSUMPTIONS = ["when several reasons apply (e.g. an invalid configuration and no file) only the documented class of the status is asked for",
               "unreadable files are represented by missing ones, links to nowhere and to themselves and impossible names (the checks run as root)"]
CHUNK = 20

FLAGS = ["-S", "--summary-only", "-v", "--color=off", "--color=on", "--color=auto", "--scan-hidden-dirs", "-r", "--summary", "--verbose", "-m"]
BADOPT = [["--color=maybe"], ["--color", ""], ["-l", "X"], ["--level=c"], ["-l", ""], ["--level=1"], ["--nosuch"], ["-x"], ["-e"], ["-d"], ["-c"], ["-l"],
          ["--context"], ["--fail=yes"], ["-q"], ["--color=ON"], ["--enable"], ["--summary=1"], ["-rz"], ["--level", "warning"], ["--c=x"]]
BADCONF = ["severity = nothing\n", "severity = \n", "nosuchkey = 1\n", "disable = { W-001\n", "disable = W-001 }\n", "ordering_rules = none\n",
           "ordering_requires = { type }\n", "ordering_requires = { bool, class, role, attribute_role, attribute, attribute }\n",
           "ordering_requires = { bool, class, role, attribute_role, attribute, user }\n", "ordering_requires_same_flavor = maybe\n",
           "skip_checking_generated_fcs = 2\n", "severity = \"convention\n", "= x\n", "severity convention\n", "severity = Error\n",
           "ordering_requires = { bool, class, role, attribute_role, attribute, type, type }\n", "{}\n", "skip_checking_generated_fcs = tRue\n"]
BROKEN_TE = ["policy_module(zz, 1.0)\nallow a_t b_t:file read\n", "policy_module(zz, 1.0)\nallow a_t b_t:file;\n", "type x_t\n", "policy_module(zz, 1.0)\ntype a_t,;\n",
             "policy_module(zz, 1.0)\noptional_policy(`\n\tallow a b:c d;\n", "policy_module(zz, 1.0)\n}\n", "policy_module(zz, 1.0)\ngarbage { garbage\n",
             "policy_module(zz, 1.0)\nrequire {\n}\n", "policy_module(zz, 1.0)\nallow { a_t b_t:file read;\n"]
BROKEN_IF = ["interface(`zz_foo',`\n\tallow a b:c d;\n", "interface(`zz_foo',`\n\tgen_require(`\n\t')\n')\n", "allow a b:c d;\n", "interface(zz_foo,`\n",
             "interface(`zz_foo',`\n\tallow a b c d;\n')\n", "interface(`zz_foo',`\n')\n}\n"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("findings", 450 * k), ("clean", 250 * k), ("usage", 260 * k), ("config", 160 * k), ("syntax", 260 * k)]


def flags(rng, k=3):
    o = []
    for i in range(rng.randint(0, k)):
        f = rng.choice(FLAGS)
        o.append([f] + (["x"] if False else []))
    return o


def flat(rng, o):
    rng.shuffle(o)
    return [x for y in o for x in y]


def case(env, kind, rng, out):
    feats = {"fc": 0.4, "exc": 0.1, "order": 0}
    if kind == "clean":
        feats.update({"exc": 0.3})
    w = Gen(rng, nmods=rng.randint(1, 3), size=0.6 if kind != "clean" else 0.3, features=feats, clean=True).make()
    with workdir(env) as d:
        for n in range(5):
            one(env, kind, rng, out, w, d)
            if out.viol:
                return


def one(env, kind, rng, out, w, d):
    if kind == "usage":
        return usage(env, rng, out, w, d)
    if kind == "config":
        return config(env, rng, out, w, d)
    if kind == "syntax":
        return syntax(env, rng, out, w, d)
    paths, sup = w.write(d)
    args = ["-s"] + (["-c", w.conf_path] if w.conf_path else [])
    allf = w.policy().findings()
    ids = sorted({f[2] for f in allf})
    E = D = ()
    only, level = False, None
    k = rng.random()
    o = flags(rng)
    if kind == "clean" or k < 0.3:
        # selections that leave few or no findings
        k = rng.random()
        if k < 0.35 or not ids:
            i = rng.choice([i for i in ALL_IDS if i not in ids] or ALL_IDS)
            E, only = (i,), True
        elif k < 0.6:
            E, only = (rng.choice(ids),), True
        elif k < 0.75:
            level = rng.choice("WEF")
            E = ()
        else:
            D = tuple(rng.sample(ids, rng.randint(max(0, len(ids) - 2), len(ids)))) + tuple(i for i in ALL_IDS if i not in ids and rng.random() < 0.5)
            E = tuple(i for i in ALL_IDS if i not in D and rng.random() < 0.5)
    elif k < 0.6:
        E = tuple(ALL_IDS)
    else:
        E = tuple(i for i in ALL_IDS if rng.random() < 0.5)
        level = rng.choice([None, "C", "S", "W", "E"])
    if only:
        o.append(["-E"])
    if level:
        o.append(["-l", level])
    fail = rng.random() < 0.7
    if fail:
        o.append([rng.choice(["-F", "--fail"])])
    so = any("--summary-only" in x for x in o)
    for i in D:
        o.append(["-d", i])
    for i in E:
        o.append(["-e", i])
    args += flat(rng, o) + sup + paths
    res = env.run(args, cwd=d)
    out.ran()
    due = [f for f in allf if enabled(f[2], level or w.config.severity or "C", w.config, True, D, E, only)]
    sure = [f for f in due if not isinstance(f[3], Maybe)]
    if due and not sure:
        return
    want = 65 if fail and sure else 0
    if res.rc != want:
        out.violation("exit status %s, expected %d: -F %s, %d findings due%s" % (res.rc, want, "given" if fail else "not given", len(sure),
                      " (%s)" % (sure[0][:3],) if sure else ""), d, args, res=res)
        return
    if "--color=on" not in args:
        shown = res.findings
        if not so and fail and bool(shown) != (res.rc == 65):
            out.violation("exit status %d but %d findings printed" % (res.rc, len(shown)), d, args, res=res)
            return
        if so and shown:
            out.violation("findings printed with --summary-only", d, args, res=res)
            return
        if so and fail and (res.summary is None or (res.summary != ["(none)"]) != (res.rc == 65)):
            out.violation("exit status %d but the summary is %s" % (res.rc, res.summary), d, args, res=res)
            return
    out.stat("%s, %s -> %d" % ("findings" if sure else "no findings", "-F" if fail else "no -F", res.rc))
    if so and fail and sure:
        out.stat("findings only counted (--summary-only) -> %d" % res.rc)
    out.key(res.rc, len(due), tuple(sorted(x for x in args if x.startswith("-") and len(x) != 2)), tuple(D), tuple(E), level)
    out.sample({"options": [a for a in args if not a.startswith(d)][:12], "due": len(due), "status": res.rc})


def usage(env, rng, out, w, d):
    paths, sup = w.write(d)
    args = [["-s"]] + ([["-c", w.conf_path]] if w.conf_path else [])
    o = args + flags(rng) + ([["-F"]] if rng.random() < 0.5 else []) + ([["-e", rng.choice(ALL_IDS)]] if rng.random() < 0.5 else [])
    files = sup + paths
    k = rng.random()
    if k < 0.12:
        what, want = "help", 0
        o.append([rng.choice(["-h", "--help", "-V", "--version"])])
        if rng.random() < 0.5:
            files = []
        a = flat(rng, o) + files
    elif k < 0.6:
        bad = rng.choice(BADOPT)
        what, want = "option %s" % bad, 64
        if len(bad) == 1 and bad[0] in ("-e", "-d", "-c", "-l", "--context", "--enable"):
            a = flat(rng, o) + files + bad            # the value is missing
        elif rng.random() < 0.3:
            a = flat(rng, o) + files + bad
        else:
            o.append(bad)
            a = flat(rng, o) + files
    elif k < 0.75:
        what, want = "no file", 64
        if rng.random() < 0.3:
            o.append(["--context=" + d])
        a = flat(rng, o)
    elif k < 0.88:
        what, want = "-E without -e", 64
        o = [x for x in o if x[0] != "-e"] + [[rng.choice(["-E", "--only-enabled"])]]
        if rng.random() < 0.3:
            o.append(["-d", "W-001"])
        a = flat(rng, o) + files
    else:
        what, want = "no such configuration", 64
        o = [x for x in o if x[0] != "-c"] + [rng.choice([["-c", d + "/none.conf"], ["--config=" + d + "/none/none.conf"], ["-c", ""], ["-c", d + "/policy/none"]])]
        a = flat(rng, o) + files
    res = env.run(a, cwd=d)
    out.ran()
    if res.rc != want:
        out.violation("exit status %s for %s, expected %d" % (res.rc, what, want), d, a, res=res)
        return
    if want == 64 and res.findings:
        out.violation("findings printed although the command line is wrong (%s)" % what, d, a, res=res)
        return
    out.stat("%s -> %d" % (what.split(" ")[0] if what.startswith("option") else what, want))
    out.key(what, tuple(x for x in a if x.startswith("-")))


def config(env, rng, out, w, d):
    paths, sup = w.write(d)
    c = rng.choice(BADCONF)
    good = rng.choice(["", "", "assume_roles = {a_r}\n", "# comment\n\n", "disable = {W-001, S-001}\n"])
    conf = d + "/bad.conf"
    with open(conf, "w") as f:
        f.write(good + c + (rng.choice(["", "", "custom_fc_macros = {foo}\n"]) if "{ W" not in c and "\"conv" not in c else ""))
    o = [["-c", conf]] + flags(rng) + ([["-F"]] if rng.random() < 0.5 else []) + ([["-s"]] if rng.random() < 0.7 else []) + \
        ([["-l", rng.choice("CSWEF")]] if rng.random() < 0.4 else []) + ([["-E"], ["-e", "W-001"]] if rng.random() < 0.3 else [])
    a = flat(rng, o) + sup + paths
    res = env.run(a, cwd=d)
    out.ran()
    if res.rc != 78:
        out.violation("exit status %s for an invalid configuration (%r), expected 78" % (res.rc, c), d, a, res=res)
        return
    if res.findings:
        out.violation("findings printed although the configuration is invalid (%r)" % c, d, a, res=res)
        return
    out.stat("invalid configuration -> 78")
    out.key(c, good, tuple(x for x in a if x.startswith("-")))


def syntax(env, rng, out, w, d):
    ctx = [f["name"] for f in w.files if f["kind"] != "fc" and rng.random() < 0.3] if rng.random() < 0.4 else []
    paths, sup = w.write(d, ctx)
    paths = [p for p in paths if os.path.basename(p) not in ctx]
    te = rng.random() < 0.5
    if rng.random() < 0.2:
        return missing(env, rng, out, w, d, paths, sup)
    name = "zz." + ("te" if te else "if")
    where = rng.choice(["policy", "ctx"] if ctx else ["policy"])
    bad = os.path.join(d, where, name)
    if rng.random() < 0.5 and where == "policy" and any(p.endswith((".te", ".if")) for p in paths):
        # break one of the files of the policy instead: cut it in the middle of a statement
        c = [p for p in paths if p.endswith((".te", ".if"))]
        bad = rng.choice(c)
        with open(bad, "a") as f:
            f.write(rng.choice(["\nallow a_t b_t\n", "\n)\n", "\n')\n", "\n}\n"]))
    else:
        with open(bad, "w") as f:
            f.write(rng.choice(BROKEN_TE if te else BROKEN_IF))
        if where == "policy":
            paths.insert(rng.randint(0, len(paths)), bad)
    o = flags(rng) + ([["-F"]] if rng.random() < 0.6 else []) + ([["-l", rng.choice("CSWEF")]] if rng.random() < 0.4 else []) + \
        ([["-E"], ["-e", rng.choice(ALL_IDS)]] if rng.random() < 0.3 else []) + ([["-c", w.conf_path]] if w.conf_path else []) + \
        ([["-d", "F-001"]] if rng.random() < 0.1 else []) + ([["-s"]] if rng.random() < 0.8 else [])
    if ctx:
        o.append(["--context=" + d + "/ctx"])
    a = flat(rng, o) + sup + paths
    res = env.run(a, cwd=d)
    out.ran()
    if os.path.exists(os.path.join(d, where, name)):
        os.unlink(os.path.join(d, where, name))
    if res.rc != 70:
        out.violation("exit status %s although %s cannot be parsed, expected 70" % (res.rc, os.path.basename(bad)), d, a, res=res)
        return
    out.stat("syntax error -> 70")
    out.stat("syntax error in a %s file%s" % (bad[-2:], " of the context" if where == "ctx" else ""))
    out.key(bad[-5:], tuple(sorted(x for x in a if x.startswith("-"))), len(a))


def missing(env, rng, out, w, d, paths, sup):
    """A policy file that cannot be opened."""
    ext = rng.choice([".te", ".if", ".fc"])
    k = rng.randrange(5)
    bad = d + "/policy/" + ["none" + ext, "n" * 300 + ext, "loop" + ext, os.path.basename(paths[0]) + "/x" + ext if paths else "a/x" + ext, "dangling" + ext][k]
    link = k in (2, 4)
    if link:
        os.symlink("loop" + ext if k == 2 else "nowhere", bad)
    paths = list(paths)
    paths.insert(rng.randint(0, len(paths)), bad)
    o = flags(rng) + ([["-F"]] if rng.random() < 0.6 else []) + ([["-c", w.conf_path]] if w.conf_path else []) + ([["-s"]] if rng.random() < 0.8 else []) + \
        ([["-E"], ["-e", rng.choice(ALL_IDS)]] if rng.random() < 0.3 else [])
    a = flat(rng, [x for x in o if x not in (["-r"], ["--recursive"])]) + sup + paths
    res = env.run(a, cwd=d)
    out.ran()
    if link:
        os.unlink(bad)
    if res.rc != 70:
        out.violation("exit status %s although %s cannot be opened, expected 70" % (res.rc, os.path.basename(bad)[:30]), d, a, res=res)
        return
    if any(f[2] != "F-001" for f in res.findings) and ext != ".fc":
        out.violation("findings although %s cannot be opened" % os.path.basename(bad)[:30], d, a, res=res)
        return
    out.stat("file that cannot be opened (%s) -> 70" % ext[1:])
    out.key("missing", k, ext, tuple(sorted(x for x in a if x.startswith("-"))), len(a))
