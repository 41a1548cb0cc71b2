"""Release of memory and files."""
import os
import re
import subprocess
import grammar
from corrupt import damage
from diff import workdir
from gen import Gen
from model import ALL_IDS
from run import sane

PID = "C24"
RULE = ("Random policies, valid, damaged (tokens, characters and lines removed, moved, replaced: syntax errors at every kind of place) or odd (repeated "
        "macros, support files found twice, recursive macros and templates, repeated configuration items, empty and missing files), analysed with "
        "random options by a build in which every allocation, release and stream call of selint's own code is monitored through link-time wrappers.  At exit "
        "no block and no stream may be left, and /proc/self/fd must show standard streams only.  The growth kind runs the same modules 1, 2, 4 and 8 times (renamed) "
        "under a limit on open files: never more than 3 streams at once, and peak heap at most in proportion to content.  One part is run again "
        "with AddressSanitizer's leak checker (which also sees blocks of the libraries), where that works.  Non-trivial: analysis "
        "ended with 0 or with a syntax error (70) after at least 100 allocations; distinct by kind, number of allocations and status.")
TECHNIQUE = "runtime monitoring: allocation, stream and descriptor ledger over generated and damaged workloads, checked at exit; LeakSanitizer"
ASSUMPTIONS = ["runs that end with a usage or configuration error (64, 78) and internal errors other than syntax errors are not judged", "C locale"]
WRAP = "malloc calloc realloc reallocarray free strdup strndup getline getdelim __getdelim vasprintf __vasprintf_chk asprintf __asprintf_chk fopen fopen64 fclose fts_open fts_close".split()
CHUNK = 20
STATS = re.compile(r"stats blocks=(\d+) live=(\d+) peak=(\d+) opened=(\d+) streams=(\d+) peak_streams=(\d+)")


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("valid", 700 * k), ("damaged", 1900 * k), ("odd", 1000 * k), ("growth", 40 * k), ("lsan", 160 * k)]


def prepare(env):
    env.exe["plain"] = env.build.variant("plain", extra_src=[os.path.join(os.path.dirname(__file__), "..", "lib", "leakmon.c")],
                                         extra_flags=["-no-pie", "-Wl," + ",".join("--wrap=" + w for w in WRAP)], key="leak")
    env.exe["asan"] = env.build.variant("asan")
    e = {"ASAN_OPTIONS": "detect_leaks=1:exitcode=199:allocator_may_return_null=1"}
    env.extra["asan"] = e
    # does the leak checker work here?
    d = os.path.join(env.tmp, "probe")
    os.makedirs(d)
    with open(d + "/a.te", "w") as f:
        f.write("policy_module(a, 1.0)\ntype a_t;\n")
    r = env.run(["-s", d + "/a.te"], variant="asan", env=e, timeout=30)
    env.extra["lsan"] = "LeakSanitizer has encountered" not in r.err


def where(env, line):
    a = line.split()[2]
    try:
        base = 0x400000
        o = subprocess.run(["addr2line", "-f", "-e", env.exe["plain"], hex(int(a, 16) + base - 1)], capture_output=True, text=True, timeout=10).stdout.split("\n")
        return "%s (%s)" % (o[0], os.path.basename(o[1]))
    except Exception:
        return a


def options(rng, w):
    o = []
    if rng.random() < 0.8:
        o.append("-s")
    if w.conf_path and rng.random() < 0.9:
        o += ["-c", w.conf_path]
    if rng.random() < 0.3:
        o += ["-S"]
    if rng.random() < 0.2:
        o += ["-F"]
    if rng.random() < 0.1:
        o += ["--summary-only"]
    if rng.random() < 0.15:
        o += ["-v"]
    if rng.random() < 0.1:
        o += ["-l", rng.choice("CSWE")]
    k = rng.random()
    if k < 0.6:
        o += [x for i in ALL_IDS for x in ("-e", i)]
    elif k < 0.8:
        o += [x for i in rng.sample(ALL_IDS, 5) for x in (rng.choice(["-d", "-e"]), i)]
    return o


def monitored(env, out, kind, d, args, **kw):
    """Runs and judges; returns the statistics or None after a violation."""
    log = d + ".log"
    if os.path.exists(log):
        os.unlink(log)
    res = env.run(args, cwd=d, env={"LEAK_LOG": log}, **kw)
    out.ran()
    p = sane(res)
    if p:
        if res.timeout or "signal" in p:     # of other properties
            out.stat("not judged: " + p)
            return {}
        out.violation(p, d, args, res=res)
        return None
    try:
        with open(log, errors="replace") as f:
            text = f.read()
    except FileNotFoundError:
        text = ""
    m = STATS.search(text)
    if not m:
        out.violation("the exit monitor did not report", d, args, res=res)
        return None
    st = dict(zip(["blocks", "live", "peak", "opened", "streams", "peak_streams"], map(int, m.groups())))
    syntax = "(F-001)" in res.out
    if res.rc in (64, 78) or (res.rc == 70 and not syntax):
        out.stat("not judged: status %d" % res.rc)
        return st
    left = [l for l in text.split("\n") if l.startswith("left ")]
    fds = [l for l in text.split("\n") if l.startswith("fd ")]
    if left or fds or st["live"] or st["streams"]:
        out.violation("left at exit (status %d%s): %s" % (res.rc, ", syntax error" if syntax else "", "; ".join(
            ["%s block%s of %s bytes acquired in %s" % (st["live"], "s" if st["live"] != 1 else "", l.split()[3], where(env, l)) if l[5] == "m" else
             "stream opened in %s" % where(env, l) for l in left[:4]] + fds[:3])), d, args, res=res)
        return None
    out.stat("blocks acquired and released", st["blocks"])
    out.stat("streams opened and closed", st["opened"])
    out.stat("runs ending with a syntax error" if syntax else "runs ending normally")
    if st["blocks"] >= 100:
        out.key(kind, st["blocks"], res.rc)
        out.sample({"kind": kind, "status": res.rc, **st})
    return st


def oddities(rng, w, d, paths, sup):
    """Further files and changes; returns arguments."""
    more = []
    base = d + "/policy"

    def put(p, s):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="latin-1", newline="") as f:
            f.write(s)
        more.append(p)
    for k in rng.sample(range(12), rng.randint(1, 5)):
        if k == 0:
            put(base + "/zz/obj_perm_sets.spt", "define(`read_file_perms',`{ read }')\ndefine(`read_file_perms',`{ getattr }')\ndefine(`a_perms',`{ b_perms }')\ndefine(`b_perms',`{ a_perms }')\n" * rng.randint(1, 3))
        elif k == 1:
            put(base + "/zz/modules.conf", rng.choice(["", "a = base\n" * 3, "a =\n= b\n\nxyz\n", "alpha = module\nalpha = base\n"]))
        elif k == 2:
            put(base + "/zz/access_vectors", rng.choice(["", "class file\n{ read write }\nclass file\n{ read }\n", "common x\n{ a b\n", "class a inherits b", "class { }\n}}}\n", "inherits\n"]))
        elif k == 3:
            put(base + "/zz/t1.if", "template(`loop_a',`\n\ttype $1_t, b;\n\tloop_b($1, $2)\n')\ntemplate(`loop_b',`\n\tattribute $2_a;\n\tloop_a($2, $1)\n\tloop_b(x)\n')\n")
            put(base + "/zz/t1.te", "policy_module(t1, 1.0)\nloop_a(x, y)\nloop_b({ a b }, `c d')\nloop_b()\n")
        elif k == 4:
            put(base + "/zz/empty.te", rng.choice(["", "\n", "# comment only", "policy_module(empty, 1.0)", "policy_module(empty, 1.0)\n"]))
        elif k == 5:
            put(base + "/zz/empty.if", rng.choice(["", "\n", "# comment only\n", "## <summary>x</summary>\n"]))
        elif k == 6:
            put(base + "/zz/empty.fc", rng.choice(["", "\n", "/a", "/x\t--\tgen_context(system_u:object_r:x_t,s0)", "\x00\n", "/a -- gen_context(\n" * 3]))
        elif k == 7:
            put(base + "/zz/dup.if", "interface(`dup_if',`\n\tgen_require(`\n\t\ttype a_t;\n\t')\n\tallow $1 a_t:file read;\n')\n" * 2)
        elif k == 8:
            put(base + "/zz/dis.te", "policy_module(dis, 1.0)\ntype a_t; #selint-disable:W-001, W-002\noptional_policy(` #selint-disable:W-001\n\tallow a_t b_t:file read;\n')\n#selint-disable:C-001\n")
        elif k == 9:
            put(base + "/zz/mac.te", "policy_module(mac, 1.0)\ndefine(`x',`{ a b }')\nifelse(`a', `b', `allow a b:c d;', `type x;')\nrefpolicywarn(`x y')\nifdef(`x',`\n', `\ntype y_t;\n')\n")
        elif k == 10:
            put(base + "/zz/rep.conf", "custom_fc_macros = {a}\ncustom_fc_macros = {b, c}\ncustom_fc_macros += {d}\ndisable = {C-001, X}\ndisable = {W-001}\ncustom_te_simple_macros={a}\ncustom_te_simple_macros={b}\nassume_users={a}\nassume_users={b}\n")
            w.conf_path = more.pop()
        else:
            n = rng.choice(paths)
            with open(n, encoding="latin-1", newline="") as f:
                s = f.read()
            put(base + "/zz2/" + os.path.basename(n), s)
    return more


def case(env, kind, rng, out):
    if kind == "growth":
        return growth(env, rng, out)
    w = Gen(rng, nmods=rng.randint(1, 3), size=rng.choice([0.4, 1]), features={"templates": 0.5, "fc": 0.5, "order": 0.2, "unknown": 0.2, "messy": rng.choice([1, 4])}).make()
    for n in range(3 if kind == "damaged" else 1):
        with workdir(env) as d:
            paths, sup = w.write(d)
            more = []
            if kind == "damaged" or (kind == "lsan" and rng.random() < 0.6):
                for p in rng.sample(paths, rng.choice([1, 1, min(2, len(paths))])):
                    with open(p, encoding="latin-1", newline="") as f:
                        s = f.read()
                    with open(p, "w", encoding="latin-1", newline="") as f:
                        if rng.random() < 0.2 and not p.endswith(".fc"):     # sentences of this or any kind of file
                            own = p[-2:]
                            k = rng.choice([own, own, own, rng.choice(["te", "if", "spt", "av"])])
                            s = grammar.text(rng, k) + ("" if rng.random() < 0.8 else grammar.text(rng, rng.choice(["te", "if", "spt", "av"])))
                            f.write(s if rng.random() < 0.7 else damage(rng, s))
                        elif rng.random() < 0.1:    # contents of another file, of any kind
                            with open(rng.choice(paths + sup), encoding="latin-1", newline="") as g:
                                o = g.read()
                            s = rng.choice([o, s + o, o + s])
                            f.write(s if rng.random() < 0.5 else damage(rng, s))
                        else:
                            f.write(damage(rng, s))
                if sup and rng.random() < 0.2:
                    p = rng.choice(sup)
                    with open(p, encoding="latin-1", newline="") as f:
                        s = f.read()
                    with open(p, "w", encoding="latin-1", newline="") as f:
                        f.write(damage(rng, s))
            if kind == "odd" or (kind == "lsan" and rng.random() < 0.5):
                more = oddities(rng, w, d, paths, sup)
            args = options(rng, w)
            if rng.random() < 0.4:
                args += ["-r", d + "/policy"] + ([d + "/policy"] if rng.random() < 0.1 else [])
            else:
                args += sup + paths + more
            if rng.random() < 0.3:
                if rng.random() < 0.5:
                    args = ["--context=" + rng.choice(paths + [d + "/policy"])] + args
                else:
                    args = ["--context=" + d + "/policy", "--context=" + rng.choice(paths + [d])] + args
            if rng.random() < 0.03:
                args.append(d + "/missing.te")
            if kind == "lsan":
                if not env.extra["lsan"]:
                    out.stat("leak checker of the sanitizer does not work here")
                    return
                res = env.run(args, variant="asan", cwd=d, env=env.extra["asan"], timeout=40)
                out.ran()
                if "LeakSanitizer: detected memory leaks" in res.err and ("(F-001)" in res.out or "Error" not in res.out):
                    out.violation("LeakSanitizer: %s" % next((l for l in res.err.split("\n") if "leak of" in l), ""), d, args, res=res)
                    return
                out.stat("runs checked by LeakSanitizer")
                if res.rc in (0, 65, 70):
                    out.key("lsan", res.rc, len(res.out))
            elif monitored(env, out, kind, d, args) is None:
                return


def growth(env, rng, out):
    w = Gen(rng, nmods=3, features={"templates": 0.4, "fc": 1}).make()
    with workdir(env) as d:
        paths, sup = w.write(d)
        opts = ["-s"] + (["-c", w.conf_path] if w.conf_path else []) + [x for i in ALL_IDS if i != "C-001" for x in ("-e", i)]
        if rng.random() < 0.5:
            opts += ["-S", "-F"]
        res = []
        scan = rng.random() < 0.5
        for n in (1, 2, 4, 8):
            if n > 1:
                for f, p in zip(w.files, paths[:len(w.files)]):
                    for c in range(n // 2, n):
                        t = f["text"]
                        for m in sorted({g["mod"] for g in w.files}, key=len, reverse=True):
                            t = re.sub(r"(?<![A-Za-z0-9])%s(?![A-Za-z0-9])" % re.escape(m), m, t)
                        t = re.sub(r"\b(%s)(?=[_(,)]|\b)" % "|".join(sorted(map(re.escape, {g["mod"] for g in w.files}), key=len, reverse=True)), lambda x: "y%d%s" % (c, x.group(1)), t)
                        q = os.path.join(os.path.dirname(p), "y%d%s" % (c, os.path.basename(p)))
                        with open(q, "w", encoding="latin-1", newline="") as h:
                            h.write(t)
                        paths.append(q)
            size = sum(os.path.getsize(p) for p in paths)
            args = opts + (["-r", d + "/policy"] if scan else sup + paths)
            st = monitored(env, out, "growth", d, args, nofile=12)
            if st is None:
                return
            if not st:
                return
            if st["peak_streams"] > 3:
                out.violation("%d files open at once" % st["peak_streams"], d, args)
                return
            res.append((len(paths), size, st["peak"]))
        (n1, s1, p1), (n2, s2, p2) = res[0], res[-1]
        (na, sa, pa) = res[2]
        if p2 > p1 * (s2 / s1) * 2 + 500000 or p2 - pa > (s2 - sa) * 60 + 500000 + 2 * p1 * ((s2 - sa) / s1):
            out.violation("peak heap grows out of proportion (files, bytes, peak): %s" % res, d, args)
            return
        out.stat("growth series")
        out.key("growth", tuple(res))
