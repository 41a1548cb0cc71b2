"""Which files are analysed."""
import os
from collections import Counter
from diff import workdir, problem

PID = "C09"
RULE = ("Random directory trees (depth up to 40, directories with up to hundreds of files, odd and repeated names, hidden directories, "
        "directories and other files with names like policy files, links to directories) in which every policy file holds one probe "
        "statement on a line of its own that makes exactly one finding, given as one or several roots, files, or a mixture, with and "
        "without -r, --scan-hidden-dirs, source mode and a limit of 20 open files.  The findings must be the probes of exactly the "
        "files in scope.  Kind 'support': copies of modules.conf, access_vectors and obj_perm_sets.spt with different contents lie in "
        "the checked and in context trees; which of them was used shows in the findings of probe statements.  Non-trivial: at least two "
        "files in scope and one thing out of scope; distinct by tree and arguments.")
ASSUMPTIONS = ["the given paths do not overlap, name no hidden directory themselves and exist", "no symbolic links, pipes or devices named like policy files",
               "at most one copy of a support file per role, except that context trees may hold any number when the checked tree has one"]
CHUNK = 20
OPT = ["-E", "-e", "S-003", "-e", "C-004", "-e", "E-002"]
STEMS = ["a", "b", "kernel", "foo-bar", "x.y", "name with space", "%s%n%d", "it's", "q\"uote", "very_long_file_name_that_exceeds_the_padding_of_the_output",
         "B", "-dash", "--r", "te", "if", "fc", "0", "{}", "$1", "\u00e4\u00f6", "a.te", "z.if", "tab\there", "n" * 200, "[x]", "\\b", "*", "~", "#x", ";", "file(1)"]
SUFF = [".te", ".if", ".fc"]
OTHER = ["README", "x.te~", "y.if.bak", "z.TE", "w.fcc", "te", "Makefile", "c.cil", "x.spt", "modules", "a.t", ".swp", "xte", "f.If", "x.te ", "fc"]
DIRS = ["sub", "kernel", "x.te", "y.if", "z.fc", "d d", "D", "modules.conf", "access_vectors", "long" * 20, "%s", "a", "b"]
HIDDEN = [".git", ".svn", "..x", ".h.te", "...", ".hid"]


def plan(tier):
    k = 1 if tier == "quick" else 10
    return [("tree", 700 * k), ("roots", 500 * k), ("many", 24 * k), ("plain", 400 * k), ("support", 700 * k)]


class Tree:
    def __init__(self, rng):
        self.r = rng
        self.files = []       # (relative path, hidden?, probe)
        self.dirs = [("", False)]
        self.n = 0
        self.others = 0

    def probe(self, d, rel, hidden):
        self.n += 1
        line = 2 + self.n % 400
        base = os.path.basename(rel)
        s = base[-3:]
        if s == ".te":
            text, i = "policy_module(a, 1.0)" + "\n" * (line - 1) + ";\n", "S-003"
        elif s == ".if":
            text, i = "\n" * (line - 1) + "interface(`p%d_%d',`\n\tallow $1 self:file read;\n')\n" % (self.n, self.r.randint(0, 10 ** 6)), "C-004"
        else:
            text, i = "\n" * (line - 1) + "/broken\n", "E-002"
        with open(os.path.join(d, rel).encode("utf-8", "surrogateescape"), "w") as f:
            f.write(text)
        self.files.append((rel, hidden, (base.encode("utf-8").decode("latin-1"), line, i)))

    def grow(self, d, ndirs, nfiles, deep=False):
        r = self.r
        for i in range(ndirs):
            p, h = self.dirs[-1] if deep and r.random() < 0.9 else r.choice(self.dirs)
            if r.random() < 0.2:
                n = r.choice(HIDDEN)
            else:
                n = r.choice(DIRS)
            q = os.path.join(p, n)
            if len(q) > 1500 or os.path.lexists(os.path.join(d, q)):
                continue
            os.mkdir(os.path.join(d, q))
            self.dirs.append((q, h or n[0] == "."))
        for i in range(nfiles):
            p, h = r.choice(self.dirs)
            k = r.random()
            if k < 0.8:
                n = r.choice(STEMS) + r.choice(SUFF)
                if r.random() < 0.1:
                    n = "." + n
            else:
                n = r.choice(OTHER)
            q = os.path.join(p, n)
            if os.path.lexists(os.path.join(d, q)):
                continue
            if k < 0.8:
                self.probe(d, q, h)
            else:
                self.others += 1
                with open(os.path.join(d, q), "w") as f:
                    f.write("policy_module(a, 1.0)\n;\n")
        if r.random() < 0.2:
            # links to directories are not followed
            for i in range(2):
                p, h = r.choice(self.dirs)
                q = os.path.join(d, p, r.choice(["link", "loop", "up"]))
                if not os.path.lexists(q):
                    self.others += 1
                    os.symlink(r.choice([".", "..", os.path.join(d, r.choice(self.dirs)[0])]), q)


def expect(out, env, d, args, want, outside, nofile=0, what=""):
    res = env.run(args, cwd=d, nofile=nofile)
    out.ran()
    p = problem(res)
    if p:
        out.violation(p, d, args, res=res)
        return None
    got = Counter(f[:3] for f in res.findings)
    want = Counter(want)
    if got != want:
        m, l = list((got - want).items()), list((want - got).items())
        out.violation("%sfiles analysed are not those in scope: too many %s, missing %s" % (what, m[:3], l[:3]), d, args, res=res)
        return None
    out.stat("files in scope", sum(want.values()))
    out.stat("things out of scope", outside)
    if sum(want.values()) > 1 and outside:
        out.key(tuple(sorted(want)), tuple(args[7:12]))
    return res


def spell(rng, d, rel):
    """A way to write the path of rel (below d, the working directory)."""
    k = rng.random()
    if k < 0.3:
        return os.path.join(d, rel) if rel else d
    if k < 0.5 and rel:
        return rel if not rel.startswith("-") else "./" + rel
    if k < 0.6:
        return "./" + rel
    if k < 0.7:
        return os.path.join(d, "..", os.path.basename(d), rel)
    if k < 0.8:
        return (d + "//" + rel)
    return "./" + rel if rel else "."


def case(env, kind, rng, out):
    with workdir(env) as d:
        if kind == "support":
            return support(env, rng, out, d)
        os.mkdir(d + "/t")
        r = d + "/t"
        t = Tree(rng)
        if kind == "many":
            for s in range(3):
                for i in range(rng.randint(100, 250)):
                    t.probe(r, "f%d%s" % (i, SUFF[s]), False)
            t.grow(r, 60, 300)
        else:
            t.grow(r, rng.choice([0, 2, 5, 12, 40]), rng.choice([1, 3, 10, 30, 60]), rng.random() < 0.4)
        for rep in range(3):
            scan = rng.random() < 0.35
            nofile = rng.choice([0, 20]) if kind != "many" else 20
            opts = list(OPT) + rng.choice([["-s"], [], ["-s"]]) + rng.choice([[], [], ["-v"], ["-S"]])
            if kind == "plain":
                # only files named on the command line
                fs = [f for f in t.files if rng.random() < rng.choice([0.3, 1])][:200]
                ds = [x for x in t.dirs if rng.random() < 0.3][:10]
                paths = [spell(rng, r, f[0]) for f in fs] + [spell(rng, r, x[0]) for x in ds]
                if scan:
                    opts.append("--scan-hidden-dirs")
                rng.shuffle(paths)
                if not paths:
                    continue
                if expect(out, env, r, opts + paths, [f[2] for f in fs], len(t.files) - len(fs) + len(ds), nofile) is None:
                    return
                out.stat("runs without -r")
                continue
            opts.append(rng.choice(["-r", "--recursive"]))
            if scan:
                opts.append("--scan-hidden-dirs")
            if kind == "roots":
                # disjoint roots: some directories, the files of the rest one by one
                roots, inside = [], set()
                for x, h in rng.sample(t.dirs, len(t.dirs)):
                    if x and not os.path.basename(x).startswith(".") and rng.random() < 0.5 and \
                            not any(x == y or x.startswith(y + "/") or y.startswith(x + "/") for y in roots):
                        roots.append(x)
                want = []
                for x in roots:
                    for f in t.files:
                        if f[0].startswith(x + "/"):
                            inside.add(f[0])
                            if scan or not any(c.startswith(".") for c in os.path.dirname(f[0])[len(x) + 1:].split("/")):
                                want.append(f[2])
                single = [f for f in t.files if f[0] not in inside and rng.random() < 0.5][:200]
                want += [f[2] for f in single]
                paths = [spell(rng, r, x) for x in roots] + [spell(rng, r, f[0]) for f in single]
                rng.shuffle(paths)
                if not paths:
                    continue
                out.stat("roots", len(paths))
            else:
                paths = [spell(rng, r, "")]
                if paths[0] not in (".", "./") and rng.random() < 0.3:
                    paths[0] += rng.choice(["/", "/.", "//"])
                want = [f[2] for f in t.files if scan or not f[1]]
            # options may follow the paths
            args = opts + paths if rng.random() < 0.8 else paths + opts
            if expect(out, env, r, args, want, len(t.files) - len(want) + t.others, nofile) is None:
                return
            out.stat("hidden directories %sscanned" % ("" if scan else "not "))
            out.sample({"directories": len(t.dirs), "files": len(t.files), "in scope": len(want), "paths": len(paths), "open files limit": nofile})


MODS = "%s = module\n"
AV = "class cls%s\n{\n\tperm%s\n}\nclass file { read }\n"
SPT = "define(`m%s_perms',`{ perm%s }')\n"


def support(env, rng, out, d):
    """Which of several support files is used?"""
    os.makedirs(d + "/t/sub/deep")
    os.makedirs(d + "/c1/sub")
    os.makedirs(d + "/c2")
    names = "abcde"
    te = ["policy_module(zz, 1.0)", "type x_t;"]
    probes = []
    for n in names:
        te.append("mod%s_nosuch_interface(x_t)" % n)
        probes.append((len(te), "W-010", "modules.conf", n))
        te.append("allow x_t self:cls%s { never };" % n)
        probes.append((len(te), "E-008", "access_vectors", n))
        te.append("allow x_t self:file m%s_perms;" % n)
        probes.append((len(te), "E-007", "obj_perm_sets.spt", n))
    with open(d + "/t/zz.te", "w") as f:
        f.write("\n".join(te) + "\n")
    nctx = rng.randint(0, 2)
    recursive = rng.random() < 0.75
    source = rng.random() < 0.75 or nctx > 0
    hid = rng.random() < 0.25
    scan = rng.random() < 0.5
    used = {}
    explicit = []
    for name, text in (("modules.conf", lambda n: MODS % ("mod" + n)), ("access_vectors", lambda n: AV % (n, n)),
                       ("obj_perm_sets.spt", lambda n: SPT % (n, n))):
        free = list(names)
        rng.shuffle(free)
        inside = rng.random() < 0.6

        def put(where):
            n = free.pop()
            p = os.path.join(d, where, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text(n))
            return p, n
        used[name] = None
        if inside:
            if hid and rng.random() < 0.5:
                where = "t/.hidden"
            else:
                where = rng.choice(["t", "t/sub", "t/sub/deep"])
            p, n = put(where)
            if recursive:
                if source and (where != "t/.hidden" or scan):
                    used[name] = n
            elif rng.random() < 0.5:
                explicit.append(p)
                if source:
                    used[name] = n
        if nctx and rng.random() < 0.7:
            # any number of copies in the context when the checked tree has one
            cs = [rng.choice(["c1", "c1/sub"])] + (["c2"] if nctx > 1 else [])
            if used[name] is None:
                cs = cs[:1] if rng.random() < 0.5 else cs[-1:]
            for c in cs:
                p, n = put(c)
                if used[name] is None:
                    used[name] = n
    args = ["-E", "-e", "W-010", "-e", "E-007", "-e", "E-008"]
    if source and (not nctx or rng.random() < 0.5):
        args.append("-s")
    if scan:
        args.append("--scan-hidden-dirs")
    for i in range(nctx):
        args.append("--context=" + os.path.join(d, "c%d" % (i + 1)))
    if recursive:
        args += ["-r", d + "/t"]
    else:
        paths = explicit + [d + "/t/zz.te"]
        rng.shuffle(paths)
        args += paths
    want = []
    for line, i, name, n in probes:
        if i == "W-010" and used[name] == n:
            want.append(("zz.te", line, i))
        if i == "E-008" and used[name] and used[name] != n:
            want.append(("zz.te", line, i))
    # permissions are checked when both kinds of names are known
    if used["access_vectors"] and used["obj_perm_sets.spt"]:
        for line, i, name, n in probes:
            if i == "E-007" and used[name] != n:
                want.append(("zz.te", line, i))
            if i == "E-008":
                want.append(("zz.te", line, "E-007"))     # permission 'never'
    res = expect(out, env, d, args, want, 15 - len(want), what="support files: ")
    if res is None:
        return
    for k in used:
        out.stat("%s %s" % (k, "used" if used[k] else "not used"))
