"""Context files."""
import os
import shutil
from collections import Counter
from gen import Gen
from diff import workdir, problem, compare, base_args
from model import ALL_IDS
from perms import Maybe

PID = "C11"
RULE = ("Random policies analysed as a whole and then several times with random modules (or single te/if files) moved to one or more "
        "context paths (directories of any depth, single files, hidden directories, paths given twice, paths containing checked files; files of the same name, half of a module in each), as "
        "explicit files or directory scans.  The findings must be those of the whole run without the ones in moved files and "
        "those of the reference model, with the summary and the -F status counting nothing else.  Non-trivial: a moved file has "
        "findings in the whole run and a finding of the rest depends on names in a moved file or not; distinct by split and findings.")
ASSUMPTIONS = ["file-context files are never read from a context path", "C-001 is compared for explicit files only (layers come from the scan of checked files)"]
CHUNK = 20


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("explicit", 600 * k), ("scan", 300 * k), ("both", 300 * k), ("foreign", 150 * k), ("twins", 350 * k)]


def place(w, d, where):
    """Writes the files; where: name -> directory.  Returns name -> path."""
    out = {}
    for f in w.files:
        p = os.path.join(d, where[f["name"]], f["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="latin-1", newline="") as h:
            h.write(f["text"])
        out[f["name"]] = p
    return out


def support(w, d, base):
    sup = []
    for name, text in (("modules.conf", w.mods_text), ("access_vectors", w.av_text), ("obj_perm_sets.spt", w.spt_text)):
        if text is not None:
            p = os.path.join(d, base, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="latin-1", newline="") as h:
                h.write(text)
            sup.append(p)
    w.conf_path = None
    if w.config_text is not None:
        w.conf_path = os.path.join(d, "selint.conf")
        with open(w.conf_path, "w") as h:
            h.write(w.config_text)
    return sup


def case(env, kind, rng, out):
    w = Gen(rng, nmods=rng.randint(2, 5), clean=True, features={"fc": 0.4, "order": 0.2, "exc": 0.05, "ifs": 0.5}).make()
    pol = w.policy()
    if pol.dups:
        out.stat("names declared twice (skipped)")
        return
    every = [x for i in ALL_IDS for x in ("-e", i)]
    if kind == "twins":
        return twins(env, rng, out, w)
    with workdir(env) as d:
        sup = support(w, d, "p")
        scan = kind == "scan" or (kind != "explicit" and rng.random() < 0.5)
        drop = ("C-001",) if scan else ()
        lay = {f["name"]: os.path.join("p", f["layer"]) for f in w.files}
        paths = place(w, d, lay)
        args = base_args(w) + every + (["-r", d + "/p"] if scan else sup + list(paths.values()))
        whole = env.run(args, cwd=d)
        out.ran()
        p = problem(whole)
        if p:
            out.violation(p, d, args, res=whole)
            return
        for n in range(3):
            if not one(env, kind, rng, out, d + "/%d" % n, w, lay, whole, scan, drop, every):
                return


def one(env, kind, rng, out, d, w, lay, whole, scan, drop, every):
    os.mkdir(d)
    mods = sorted({f["mod"] for f in w.files})
    ctx = set()
    for m in mods:
        k = rng.random()
        for f in w.files:
            if f["mod"] == m and f["kind"] != "fc" and (k < 0.4 or (k < 0.6 and rng.random() < 0.5)):
                ctx.add(f["name"])
    bases = ["c%d" % i for i in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.2:
        bases.append(".hidden/c")
    sub = ["", "a", "a/b", "x.te", ".git"]
    where = dict(lay)
    if kind != "both":
        for c in ctx:
            where[c] = os.path.join(rng.choice(bases), rng.choice(sub))
    for b in bases:
        os.makedirs(os.path.join(d, b), exist_ok=True)
    paths = place(w, d, where)
    sup = support(w, d, "p" if rng.random() < 0.7 or kind == "both" else bases[0])
    insup = sup if sup and sup[0].startswith(d + "/p/") else []
    cargs = []
    if kind == "both":
        # checked files lie below a context path too
        if rng.random() < 0.6:
            cargs.append("--context=" + rng.choice([d + "/p", d, "./p", "p", d + "/p/"]))
            if scan:
                ctx = set()
        else:
            cargs += ["--context=" + paths[f["name"]] for f in w.files if f["name"] in ctx or rng.random() < 0.5]
            cargs.append("--context=" + d + "/c0")
            if scan:
                ctx = set()
    else:
        if rng.random() < 0.8 or not ctx:
            cargs += ["--context=" + os.path.join(d, b) for b in bases]
        else:
            cargs += ["--context=" + paths[c] for c in sorted(ctx)] + (["--context=" + os.path.join(d, bases[0])] if not insup else [])
        if rng.random() < 0.15:
            cargs.append(rng.choice(cargs))
    if kind == "foreign":
        # files in a context path that are not policy files, or broken fc files
        for n in ("README", "x.fc", "y.te~", "z.cil"):
            with open(os.path.join(d, bases[0], n), "w") as f:
                f.write("/x\n(((\n")
    rest = [f["name"] for f in w.files if f["name"] not in ctx]
    if scan:
        os.makedirs(d + "/p", exist_ok=True)
        pargs = ["-r", rng.choice([d + "/p", "p", "./p"])]
    else:
        pargs = insup + [paths[n] for n in rest]
        if not pargs:
            pargs = [d + "/p"]
            os.makedirs(d + "/p", exist_ok=True)
    if kind == "both" and not scan:
        # the same spelling as below the context path, or another one
        pargs = [rng.choice([x, x, os.path.relpath(x, d), "./" + os.path.relpath(x, d)]) for x in pargs]
    opts = base_args(w) if rng.random() < 0.6 else (["-c", w.conf_path] if w.conf_path else [])     # a context implies source mode
    o = [opts + every, cargs, ["-F", "-S"]]
    rng.shuffle(o)
    args = [x for y in o for x in y] + pargs
    res = env.run(args, cwd=d)
    out.ran()
    p = problem(res, (0, 65))
    if p:
        out.violation(p, d, args, res=res)
        return False
    inctx = [f for f in res.findings if f[0] in ctx]
    if inctx:
        out.violation("finding in a context file: %s" % (inctx[0],), d, args, res=res)
        return False
    a = Counter(f for f in whole.findings if f[0] not in ctx and f[2] not in drop)
    b = Counter(f for f in res.findings if f[2] not in drop)
    if a != b:
        out.violation("moving %s to the context: findings gone %s, new %s" % (sorted(ctx), list((a - b).keys())[:3], list((b - a).keys())[:3]), d, args, res=res)
        return False
    exp = [e for e in w.policy(context=ctx).findings() if e[2] not in drop]
    bad = compare(exp, [f for f in res.findings if f[2] not in drop], None)
    if bad:
        out.violation("; ".join(bad[:3]), d, args, res=res)
        return False
    n = Counter(f[2] for f in res.findings)
    s = dict(l.split(": ") for l in (res.summary or []) if ": " in l)
    if {k: int(v) for k, v in s.items()} != dict(n):
        out.violation("summary %s, findings %s" % (s, dict(n)), d, args, res=res)
        return False
    if (res.rc == 65) != bool(res.findings):
        out.violation("status %d with %d findings outside of the context" % (res.rc, len(res.findings)), d, args, res=res)
        return False
    gone = sum(1 for f in whole.findings if f[0] in ctx)
    out.stat("context files", len(ctx))
    out.stat("findings in context files (not reported)", gone)
    out.stat("findings kept", len(res.findings))
    if gone and res.findings or (kind == "both" and res.findings):
        out.key(tuple(sorted(ctx)), tuple(sorted(res.findings)), len(cargs))
        out.sample({"context": sorted(ctx), "gone": gone, "kept": len(res.findings)})
    return True


def twins(env, rng, out, w):
    """A context file and a checked file of the same name, each with a part of the module."""
    from render import Builder, Layout
    files = []
    for f in w.files:
        g = dict(f, checked=True)
        body = f["src"]["body"] if f["kind"] == "te" else [i for i in f["src"]["items"] if i.k == "def"] if f["kind"] == "if" else []
        if len(body) < 2 or rng.random() < 0.3:
            if f["kind"] != "fc" and rng.random() < 0.2:
                g["checked"] = False
            files.append(g)
            continue
        k = rng.randint(1, len(body) - 1)
        for half in (False, True):
            b = Builder(Layout.random(rng), f["name"])
            if f["kind"] == "te":
                text, root = b.te_file(dict(f["src"], body=body[k:] if half else body[:k]))
            else:
                c = f["src"]["items"].index(body[k])
                text, root = b.if_file(dict(f["src"], items=f["src"]["items"][c:] if half else f["src"]["items"][:c]))
            files.append(dict(f, text=text, root=root, checked=half))
    if not any(f["checked"] for f in files):
        return
    with workdir(env) as d:
        os.makedirs(d + "/p")
        os.makedirs(d + "/c")
        sup = support(w, d, rng.choice(["p", "p", "c"]))
        insup = sup if sup and sup[0].startswith(d + "/p/") else []
        for f in files:
            p = os.path.join(d, "p" if f["checked"] else "c", f["layer"], f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="latin-1", newline="") as h:
                h.write(f["text"])
            f["path"] = p
        pol = lambda explicit: __import__("model").Policy([dict(f, layer="" if explicit else f["layer"]) for f in files], mods=w.mods, classes=w.classes,
                                                           perms=w.perms, permmacros=w.macros, config=w.config)
        scan = rng.random() < 0.5 and not pol(True).dups
        checked = [f["path"] for f in files if f["checked"]]
        args = base_args(w) + [x for i in ALL_IDS for x in ("-e", i)]
        args += ["--context=" + d + "/c"] if rng.random() < 0.7 else ["--context=" + f["path"] for f in files if not f["checked"]] + ["--context=" + d + "/c"]
        args += ["-r", d + "/p"] if scan else insup + checked
        res = env.run(args, cwd=d)
        out.ran()
        p = problem(res)
        if p:
            out.violation(p, d, args, res=res)
            return
        drop = ("C-001",) if scan else ()        # layers
        bad = compare([e for e in pol(not scan).findings() if e[2] not in drop], [f for f in res.findings if f[2] not in drop], None)
        if bad:
            out.violation("; ".join(bad[:3]), d, args, res=res)
            return
        n = len(files) - len(w.files)
        out.stat("files in both the context and the checked tree", n)
        if n and res.findings:
            out.key("twins", tuple(sorted(res.findings)))

