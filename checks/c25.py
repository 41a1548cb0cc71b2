"""Normal mode: background from the installed system policy."""
import os
import subprocess
from collections import Counter
from gen import Gen
from model import Policy, ALL_IDS, Config, enabled
from diff import workdir, compare, problem
from run import sane

PID = "C25"
RULE = ("Random policies of which some interface files are installed as headers and the others are checked in normal mode; an LD_PRELOAD "
        "library looks the system policy directories up below a scratch directory and logs every such access.  The header tree has "
        "random depth, hidden directories, directories named like interface files and other files (te, fc, spt, broken, README); "
        "sometimes it also holds copies of the checked interface files.  The kernel class tree holds all classes, some, none, no "
        "permissions, or is missing.  Monitors: findings equal the reference model with headers as context (classes from the kernel "
        "tree, no modules.conf, no permission macros, layers of headers known); equal those of a run in source mode with the same "
        "headers as --context and an access_vectors file of the same classes (without the order check, which knows no layers there); "
        "no finding in a header; a missing class tree gives a note or warning and status 0; a header that cannot be parsed ends the run "
        "with 70; source mode and --context never look at the system directories.  Non-trivial: at least one finding and one header; "
        "distinct by findings, headers and class tree.")
ASSUMPTIONS = ["interposition of the C library's path functions stands in for installed files", "no symbolic links below the header directory",
               "header file names of different headers differ"]
CHUNK = 10
HDR = "usr/share/selinux/devel"
KRN = "sys/fs/selinux/class"


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("headers", 1000 * k), ("installed", 400 * k), ("noheaders", 200 * k), ("config", 400 * k), ("broken", 120 * k), ("source", 120 * k)]


def prepare(env):
    so = os.path.join(env.tmp, "remap.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", so, os.path.join(os.path.dirname(__file__), "..", "lib", "remap.c"), "-ldl"], check=True)
    env.extra["remap"] = so


def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="latin-1", newline="") as f:
        f.write(text)


def kernel(rng, w, root, out):
    """The class tree; returns (classes, permissions) it defines, note expected?"""
    k = rng.choice(["full"] * 5 + ["some"] * 2 + ["missing"] * 2 + ["empty", "noperm", "selinuxfs"])
    out.stat("class tree " + k)
    base = os.path.join(root, KRN)
    if k == "selinuxfs":
        os.makedirs(os.path.dirname(base))
        return None, None, True
    if k == "missing":
        return None, None, True
    if k == "empty":
        os.makedirs(base)
        return {}, set(), True
    classes = w.classes or {"file": ["read", "write"], "dir": ["search"], "process": ["fork"]}
    names = sorted(classes)
    if k == "some":
        names = rng.sample(names, rng.randint(1, len(names)))
    nperm = 0
    for i, c in enumerate(names):
        d = os.path.join(base, c)
        os.makedirs(os.path.join(d, "perms"))
        put(d + "/index", "%d" % (i + 1))
        for j, p in enumerate(classes[c] if k != "noperm" else []):
            put(os.path.join(d, "perms", p), "%d" % (j + 1))
            nperm += 1
    return {c: list(classes[c]) for c in names}, {p for c in names for p in classes[c]}, nperm == 0


def case(env, kind, rng, out):
    g = Gen(rng, size=rng.choice([0.5, 1.0, 1.5]), nmods=rng.choice([2, 3, 4, 6]), clean=True,
            features={"av": 2.0, "calls": 2.0, "order": 0.6, "unknown": 0.2, "ifs": 0.6})
    w = g.make()
    if rng.random() < 0.5:                  # the rules that look at layers
        w.config.present, w.config.ordering_rules = True, "refpolicy"
        w.config_text = w.config.text(rng)
    with workdir(env) as d:
        root = os.path.join(d, "sysroot")
        os.mkdir(root)
        ifs = [f for f in w.files if f["kind"] == "if"]
        hdr = [f for f in ifs if rng.random() < 0.6] if kind != "noheaders" else []
        if not hdr and kind != "noheaders":
            hdr = ifs[:1]
        # further checked files are left out altogether now and then
        drop = {f["name"] for f in w.files if f not in hdr and rng.random() < 0.1}
        hn = {f["name"] for f in hdr}
        both = {f["name"] for f in ifs if f["name"] not in hn | drop and rng.random() < 0.6} if kind == "installed" else set()
        checked, headers = [], []
        bad = None
        for f in w.files:
            n = f["name"]
            if n in hn or n in both:
                lay = rng.choice([f["layer"], f["layer"], "kernel", "contrib", ".hid", "x.if", "include"])
                q = os.path.join(root, HDR, rng.choice(["include", "include", "", "include/a/b", ".h"]), lay)
                put(os.path.join(q, n), f["text"])
                headers.append(dict(f, checked=False, header=os.path.basename(q), path=os.path.join(q, n)))
                if f["kind"] == "if" and kind == "broken" and (bad is None or rng.random() < 0.3):
                    bad = n
                    t = f["text"] + rng.choice(["interface(`", "\ninterface(`x',`\n\tallow a b:c d\n')\n", "\nallow a_t b_t:file read;\n", "\n')\n"])
                    put(os.path.join(q, n), t)
            if n not in hn and n not in drop:
                lay = f["layer"]
                q = os.path.join(d, "policy", lay, n)
                put(q, f["text"])
                checked.append(dict(f, checked=True, path=q))
        # what else lies in the header directory
        if kind != "noheaders" or rng.random() < 0.5:
            for n in rng.sample(["Makefile", "policy.dtd", "example.te", "example.fc", "include/support/obj_perm_sets.spt", "include/global.xml", "broken.te",
                                 "x.if.bak", "if", "y.If", "html/index.html", "modules.conf", "policy/flask/access_vectors", ".if/readme"], 6):
                put(os.path.join(root, HDR, n), rng.choice(["(((\n", "policy_module(x, 1.0)\nallow a b:c d;\n", "define(`r_file_perms',`{ read }')\n", "a = off\n"]))
        if not checked or (kind == "broken" and bad is None):
            return
        classes, perms, note = kernel(rng, w, root, out)
        log = os.path.join(d, "log")
        penv = {"LD_PRELOAD": env.extra["remap"], "REMAP_ROOT": root, "REMAP_LOG": log}

        cfg = w.config
        conf = None
        opts = []
        ids = ALL_IDS
        if kind == "config":
            if not cfg.present:
                cfg = Config(present=True, assume_users=["system_u"], assume_roles=["object_r"])
            some = lambda: rng.sample(ALL_IDS, rng.randint(0, len(ALL_IDS)))
            cfg.disable, cfg.enable_normal, cfg.enable_source = rng.sample(ALL_IDS, rng.randint(0, 10)), some(), some()
            if rng.random() < 0.5:
                cfg.disable = list(ALL_IDS)
            ids = [i for i in ALL_IDS if enabled(i, "C", cfg, source=False)]
            conf = os.path.join(d, "selint.conf")
            put(conf, cfg.text(rng))
        else:
            if w.config_text is not None:
                conf = os.path.join(d, "selint.conf")
                put(conf, w.config_text)
            opts = [x for i in ALL_IDS for x in ("-e", i)]
        if conf:
            opts = ["-c", conf] + opts
        scan = rng.random() < 0.5 and not Policy(checked + headers, classes=classes, perms=perms, config=cfg).dups
        if scan:
            pargs = rng.choice([["-r", d + "/policy"], ["-r", "policy"]])
        else:
            pargs = [f["path"] for f in checked]

        def expect(layers):
            fs = []
            for f in checked + headers:
                f = dict(f)
                if f["checked"] and not scan:
                    f["layer"] = ""
                if not layers:
                    f.pop("header", None)
                fs.append(f)
            return Policy(fs, classes=classes, perms=perms, config=cfg).findings()

        if kind == "source":
            # source mode, or a context: the installed policy plays no role
            how = rng.choice([["-s"], ["-s"], ["--context=" + d + "/nothing"], ["-s", "--context=" + d + "/nothing"]])
            os.mkdir(d + "/nothing")
            args = how + opts + pargs
            res = env.run(args, cwd=d, env=penv)
            out.ran()
            p = problem(res)
            if p:
                out.violation(p, d, args, res=res)
                return
            if os.path.exists(log):
                out.violation("source mode looks at %s" % open(log).read().split("\n")[0], d, args, res=res)
                return
            keep = headers[:]
            headers[:] = []
            classes = perms = None
            bad = compare(expect(False), res.findings, None)
            headers[:] = keep
            if bad:
                out.violation("; ".join(bad[:3]), d, args, res=res)
                return
            if res.findings and keep:
                out.key("source", tuple(sorted(res.findings)), tuple(sorted(f["name"] for f in keep)))
            return

        args = opts + pargs
        res = env.run(args, cwd=d, env=penv)
        out.ran()
        if kind == "broken":
            s = sane(res)
            if s:
                out.violation(s, d, args, res=res)
            elif res.rc != 70:
                out.violation("status %d with the unparsable header %s" % (res.rc, bad), d, args, res=res)
            elif [f for f in res.findings if f[2][0] != "F"]:
                out.violation("findings despite the unparsable header %s" % bad, d, args, res=res)
            else:
                out.key("broken", bad, len(headers), tuple(sorted(f["name"] for f in checked)), rng.random())
                out.stat("broken headers")
            return
        p = problem(res)
        if p:
            out.violation(p, d, args, res=res)
            return
        seen = open(log).read().split("\n") if os.path.exists(log) else []
        if not seen:
            out.violation("neither the class directory nor the header directory was looked up", d, args, res=res)
            return
        out.stat("looked up in system directories", len(seen) - 1)
        if any(f[0] in hn for f in res.findings):
            out.violation("finding in a header: %s" % [f for f in res.findings if f[0] in hn][0], d, args, res=res)
            return
        problems = compare(expect(True), res.findings, ids)
        if not problems and ids != ALL_IDS:
            problems = ["not selected: %s" % (f,) for f in res.findings if f[2] not in ids]
        if problems:
            out.violation("; ".join(problems[:3]), d, args, res=res)
            return
        said = [l for l in res.notes if "class" in l.lower()]
        if note and not said:
            out.violation("no note about the missing class tree", d, args, res=res)
            return
        if not note and said:
            out.violation("the class tree is complete: %r" % said[0], d, args, res=res)
            return
        out.stat("headers", len(headers))
        out.stat("notes about classes", len(said))
        for f in res.findings:
            out.stat("finding " + f[2])
        if res.findings and (headers or kind == "noheaders"):
            out.key(tuple(sorted(res.findings)), tuple(sorted(f["name"] for f in headers)), tuple(sorted(classes or [])))
            out.sample({"headers": sorted(f["name"] for f in headers), "classes": len(classes or []), "findings": len(res.findings)})

        # the same in source mode
        if kind != "config":
            ctx = ["--context=" + os.path.join(root, HDR)] if headers else []
            for n in ("broken.te", "example.te"):
                if os.path.exists(os.path.join(root, HDR, n)):
                    ctx = ["--context=" + f["path"] for f in headers]
            for n in ("modules.conf", "policy/flask/access_vectors", "include/support/obj_perm_sets.spt"):
                if os.path.exists(os.path.join(root, HDR, n)):
                    ctx = ["--context=" + f["path"] for f in headers]
            sup = []
            if classes:
                # a class needs a permission here; which one does not matter without permission macros
                av = os.path.join(d, "av", "access_vectors")
                put(av, "".join("class %s\n{\n%s}\n\n" % (c, "".join("\t%s\n" % p for p in classes[c] or ["some_permission"])) for c in sorted(classes)))
                sup = [os.path.join(d, "av", "access_vectors")]
            drop = ("C-001",)
            args2 = ["-s"] + opts + ctx + pargs + sup
            res2 = env.run(args2, cwd=d)
            out.ran()
            p = problem(res2)
            if p:
                out.violation(p, d, args2, res=res2)
                return
            a = Counter(f for f in res.findings if f[2] not in drop)
            b = Counter(f for f in res2.findings if f[2] not in drop)
            if a != b:
                out.violation("source mode with the same definitions differs: only normal %s, only source %s" % (
                    list((a - b).keys())[:3], list((b - a).keys())[:3]), d, args2, res=res2)
                return
            out.stat("compared with source mode")
