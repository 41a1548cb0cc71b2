"""Permission macro suggestions."""
import os
import re
from diff import workdir, problem
from perms import PermModel, EXT, BASE

PID = "C18"
RULE = ("Random permission macro tables (40 names over all file classes, plain, nested, cyclic, with permissions outside the table, "
        "repeated definitions, several spellings and layouts) and te files of 40 to 80 allow rules whose permission lists are random "
        "subsets, macro bodies with permissions dropped, added or replaced by nested macros, repetitions and unknown strings.  Every "
        "printed suggestion (macro, replaced strings, added permissions) is compared with an independent search over all macros.  "
        "Non-trivial: a suggestion is due; distinct by (class, permission list, candidate macros).")
ASSUMPTIONS = ["which permissions are reasonable extensions of which is taken from the table in lib/perms.py (the documented intent of the check)",
               "equally good macros may each be suggested; silence is accepted when one of them is already used"]
CLASSES = ["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"]
MSG = re.compile(r"^Suggesting permission macro: (\S+) \(replacing \{ ([^}]*)\}, would add (\(none\)|\{ [^}]* \})\)$")
NAMES = ["read", "write", "rw", "manage", "getattr", "create", "exec", "append", "mmap_read", "rw_inherited", "list", "search", "delete", "m1", "zz"]


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("tables", 2200 * k), ("dense", 1200 * k)]


def table(r, n):
    mac = {}
    names = []
    for _ in range(n):
        c = r.choice(CLASSES)
        suf = "term" if c == "chr_file" and r.random() < 0.4 else c
        nm = "%s_%s_perms" % (r.choice(NAMES), suf)
        if r.random() < 0.1:
            nm = r.choice(["x_perms", "client_stream_socket_perms", "rw_socket_perms", "signal_perms", "read_file", "file_perms", "dir_perms",
                           "ra_fifo_perms", "mmap_file_perms"])
        if nm not in names:
            names.append(nm)
    pool = BASE
    for i, nm in enumerate(names):
        k = r.random()
        if k < 0.15:
            v = [r.choice(pool)]
        else:
            v = r.sample(pool[:17] if r.random() < 0.6 else pool, r.randint(2, 8))
            if r.random() < 0.5 and "getattr" not in v:
                v.append("getattr")
        if r.random() < 0.3:
            v.append(r.choice(names))            # nested, sometimes itself, sometimes a cycle
            if r.random() < 0.3:
                v.append(r.choice(names))
        if r.random() < 0.08:
            v.append(r.choice(["frobnicate", "name_bind", "quotaon"]))      # outside of the table
        if r.random() < 0.05:
            v.append(v[0])
        r.shuffle(v)
        mac[nm] = v
    return mac


def spt(r, mac):
    out = []
    for k, v in mac.items():
        b = "{ %s }" % " ".join(v) if len(v) > 1 or r.random() < 0.7 else v[0]
        f = r.choice(["define(`%s',`%s')", "define(`%s', `%s')", "define(`%s',`\n\t%s\n')", "define(`%s' , ` %s ')"])
        out.append(f % (k, b))
        if r.random() < 0.1:
            out.append(r.choice(["# comment", "", "define(`some_class_set', `{ file dir }')", "dnl foo"]))
    return "\n".join(out) + "\n"


def permlist(r, mac, cls, pm):
    k = r.random()
    cand = [n for n, _ in pm.by_class[cls]]
    if k < 0.55 and cand:
        m = pm.masks([r.choice(cand)])[0]
        l = [p for p in BASE if p in m]
        r.shuffle(l)
        if r.random() < 0.6 and len(l) > 2:
            l = l[: r.randint(2, len(l))]
        if r.random() < 0.5:
            l += r.sample(BASE, r.randint(1, 2))
    elif k < 0.75 and cand:
        l = [r.choice(cand)] + r.sample(BASE[:17], r.randint(0, 4))
        if r.random() < 0.3:
            l.append(r.choice(cand))
    else:
        l = r.sample(BASE[:17] if r.random() < 0.7 else BASE, r.randint(1, 9))
    if r.random() < 0.15 and mac:
        l.append(r.choice(sorted(mac)))
    if r.random() < 0.08:
        l.append(r.choice(["frobnicate", "name_bind", "$2", "unknown_file_perms", "self"]))
    if r.random() < 0.05:
        l.append(l[0])
    r.shuffle(l)
    return l


def case(env, kind, r, out):
    mac = table(r, r.randint(1, 14) if kind == "tables" else r.randint(20, 60))
    pm = PermModel({k: v for k, v in mac.items() if k.endswith("_perms")})     # what counts as a macro
    rules = []
    lines = ["policy_module(foo, 1.0)", "type foo_t;"]
    for _ in range(r.randint(30, 60)):
        fl = r.choice(["allow"] * 12 + ["dontaudit", "auditallow"])
        cls = [r.choice(CLASSES)]
        if r.random() < 0.06:
            cls = r.choice([["file", "dir"], ["process"], ["file_class_set"], ["tcp_socket"], ["chr_file", "blk_file"]])
        pl = permlist(r, mac, cls[0] if cls[0] in CLASSES else "file", pm)
        lines.append("%s foo_t self:%s %s;" % (fl, cls[0] if len(cls) == 1 else "{ %s }" % " ".join(cls),
                                             "{ %s }" % " ".join(pl) if len(pl) > 1 or r.random() < 0.3 else pl[0]))
        rules.append((len(lines), fl, cls, pl))
    with workdir(env) as d:
        for n, t in (("foo.te", "\n".join(lines) + "\n"), ("obj_perm_sets.spt", spt(r, mac))):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        args = ["-s", "-E", "-e", "S-010", os.path.join(d, "obj_perm_sets.spt"), os.path.join(d, "foo.te")]
        res = env.run(args, cwd=d)
        out.ran()
        p = problem(res)
        if p:
            out.violation(p, d, args, res=res)
            return
        got = {}
        for f in res.findings:
            if f[1] in got:
                out.violation("line %d reported twice" % f[1], d, args, res=res)
                return
            got[f[1]] = f[3]
        for line, fl, cls, pl in rules:
            msg = got.pop(line, None)
            c = pm.candidates(cls[0], pl) if fl == "allow" and len(cls) == 1 and cls[0] in CLASSES else []
            names = [n for n, _ in c]
            bad = None
            if msg is None:
                if names and not any(n in pl for n in names):
                    bad = "no suggestion, but %s fits" % names
            elif not names:
                bad = "unexpected: %s" % msg
            else:
                m = MSG.match(msg)
                if not m:
                    bad = "message: %s" % msg
                elif m.group(1) not in names:
                    bad = "suggests %s, but %s are better" % (m.group(1), names)
                elif m.group(1) in pl:
                    bad = "suggests %s, which is used already" % m.group(1)
                else:
                    raw = pm.masks(pl)[0]
                    mk = pm.masks([m.group(1)])[0]
                    rep = pm.matched(pl, mk & raw)
                    add = {p for p in mk - raw}
                    ga = set(m.group(3).strip("{} ").split()) if m.group(3) != "(none)" else set()
                    if sorted(m.group(2).split()) != sorted(rep):
                        bad = "replaces { %s}, expected %s" % (m.group(2), rep)
                    elif ga != add:
                        bad = "adds %s, expected %s" % (sorted(ga), sorted(add))
            if bad:
                out.violation("line %d (%s { %s }): %s" % (line, " ".join(cls), " ".join(pl), bad), d, args, res=res)
                return
            if msg:
                out.stat("suggestions")
                out.key(cls, pl, names)
                out.stat("added %d" % min(5, len(ga)))
                out.sample({"class": cls, "perms": pl, "message": msg})
            out.stat("rules")
        if got:
            out.violation("finding on a line without a rule: %s" % got, d, args, res=res)
