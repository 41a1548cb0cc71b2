"""No memory error, undefined behaviour or crash on any input."""
import os
import re
import subprocess
import grammar
import hostile as h
from corrupt import damage
from diff import workdir
from gen import Gen
from run import DOCUMENTED
from harness import Inconclusive

PID = "C01"
KINDS = ["world", "damaged", "crossed", "templates", "perms", "fc", "long", "text", "noise", "config", "cmdline"]
RULE = ("The real program, built with AddressSanitizer and UndefinedBehaviorSanitizer (gcc), runs on: 'world' generated policies with identifiers of "
        "critical lengths and lists of critical numbers of items; 'damaged' policies, support files and configurations with random changes; 'crossed' random "
        "sentences of the grammar over few words, so that they declare, require and call one another at random; 'templates' with parameters and arguments of "
        "every number and length; 'perms' class and permission macro files of critical sizes; 'fc' file contexts; 'long' lines, names and paths at buffer sizes; 'text' "
        "syntax errors near odd lines; 'noise' arbitrary bytes; 'config' configurations; 'cmdline' command lines.  Part of every kind (except configurations) runs once more "
        "in a MemorySanitizer build (clang), and a few under valgrind.  Any sanitizer report, signal, undocumented status or run without end is a violation.  "
        "Non-trivial: the program got past reading its command line; distinct by kind, status and the set of (check, number of findings).")
TECHNIQUE = "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and valgrind builds under generated, mutated and hostile inputs"
ASSUMPTIONS = ["libconfuse and the C library are not instrumented (ASan intercepts their calls)", "files smaller than 4 MB", "memory is available"]
VARIANTS = ["asan"]
CHUNK = 10
ASAN = re.compile(r"ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)|WARNING: MemorySanitizer: ([^\n]*)|ERROR: (\w+Sanitizer[^\n]*)")


def plan(tier):
    k = 1 if tier == "quick" else 14
    return [("world", 300 * k), ("damaged", 700 * k), ("crossed", 500 * k), ("templates", 500 * k), ("perms", 200 * k), ("fc", 500 * k), ("long", 150 * k),
            ("text", 400 * k), ("noise", 300 * k), ("config", 400 * k), ("cmdline", 600 * k), ("fixed", 1)]


def prepare(env):
    lib = os.path.join(os.path.dirname(__file__), "..", "lib")
    env.exe["msan"] = env.build.variant("msan", extra_src=[os.path.join(lib, "msanwrap.c")], extra_flags=["-Wl,--wrap=fts_read"], key="msan")
    env.exe["plain"] = env.build.variant("plain")


def frames(err):
    f = [m for m in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?(\w+\.[chly]:\d+)", err)]
    return " < ".join("%s (%s)" % x for x in f[:3])


def judge(env, out, kind, d, args, variant, res):
    m = ASAN.search(res.err) or ASAN.search(res.out)
    what = None
    if m:
        what = "%s: %s in %s" % (variant, next(g for g in m.groups() if g), frames(res.err))
    elif res.timeout:
        what = "the run does not end"
    elif res.rc < 0:
        what = "killed by signal %d" % -res.rc
    elif res.rc == 199:
        what = "sanitizer report: " + res.err[:200]
    elif res.rc == 99 and variant == "valgrind":
        what = "valgrind: " + " / ".join(l.split("==")[-1].strip() for l in res.err.split("\n") if l.startswith("==") and ("nvalid" in l or "ninitial" in l or " at 0x" in l or " by 0x" in l))[:400]
    elif res.rc not in DOCUMENTED:
        what = "undocumented status %d" % res.rc
    if what:
        out.violation(what, d, args, res=res)
        return False
    out.stat("status %d (%s)" % (res.rc, variant))
    c = {}
    for f in res.findings:
        c[f[2]] = c.get(f[2], 0) + 1
    for i in c:
        out.stat("finding " + i, c[i])
    if res.rc in (0, 65, 70, 78) and kind != "cmdline" or res.findings:
        out.key(kind, res.rc, tuple(sorted(c.items())))
        out.sample({"kind": kind, "build": variant, "status": res.rc, "findings": sum(c.values())})
    return True


def go(env, out, rng, kind, d, args, msan=0.3, cwd=None):
    k = dict(cwd=cwd or d, timeout=20)
    res = env.run(args, variant="asan", **k)
    out.ran()
    if not judge(env, out, kind, d, args, "asan", res):
        return False
    if rng.random() < msan:
        res = env.run(args, variant="msan", **k)
        out.ran()
        if not judge(env, out, kind, d, args, "msan", res):
            return False
    if rng.random() < 0.004:
        p = subprocess.run(["valgrind", "-q", "--error-exitcode=99", env.exe["plain"]] + args, cwd=cwd or d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=200)
        out.ran()
        out.stat("valgrind runs")
        if p.returncode == 99 or p.returncode < 0:
            out.violation("valgrind: status %d %s" % (p.returncode, p.stderr.decode("latin-1")[:600]), d, args)
            return False
    return True


def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="latin-1", newline="") as f:
        f.write(s)
    return p


def small(rng, **kw):
    f = {"templates": 0.5, "fc": 0.5, "order": 0.3, "unknown": 0.2, "messy": rng.choice([1, 4])}
    return Gen(rng, nmods=rng.randint(1, 3), size=rng.choice([0.3, 0.7, 1]), features=f).make()


def spread(rng, d, texts):
    """Writes texts (name -> text) somewhere; returns arguments naming them and further arguments."""
    files, more = [], []
    ctx = rng.random() < 0.15
    for n, t in sorted(texts.items()):
        c = ctx and n.endswith((".te", ".if")) and rng.random() < 0.4
        files.append(put(os.path.join(d, "ctx" if c else "policy", rng.choice(["", "l1", "l2/l3"]), n), t))
        if c:
            files.pop()
    if ctx:
        more.append("--context=" + d + "/ctx")
    if rng.random() < 0.4:
        os.makedirs(d + "/policy", exist_ok=True)
        return ["-r"] + more + [d + "/policy"]
    rng.shuffle(files)
    return more + (files or [put(d + "/policy/x.te", "")])


def case(env, kind, rng, out):
    r = rng
    with workdir(env) as d:
        conf = None
        if kind == "fixed":
            return fixed(env, out, rng, d)
        if kind in ("world", "damaged"):
            w = small(r)
            paths, sup = w.write(d)
            texts = {}
            for p in paths + sup:
                with open(p, encoding="latin-1", newline="") as f:
                    texts[p] = f.read()
            if kind == "world":
                if r.random() < 0.7:
                    texts = h.stretch(r, texts)
                if r.random() < 0.6:
                    for p in list(texts):
                        if not p.endswith(".fc") and r.random() < 0.5:
                            texts[p] = h.widen(r, texts[p])
                if r.random() < 0.3:
                    p = r.choice(paths)
                    texts[p] = h.disables(r, texts[p])
            for p, t in texts.items():
                put(p, t)
            cf = w.conf_path
            for n in range(2 if kind == "damaged" else 1):
                if kind == "damaged":
                    for p in r.sample(sorted(texts), r.choice([1, 1, 2, len(texts)])):
                        put(p, damage(r, texts[p]))
                args = h.options(r, cf if r.random() < 0.6 else None)
                args += ["-r", d + "/policy"] if r.random() < 0.5 else sup + paths
                if not go(env, out, r, kind, d, args, 0 if "-c" in args else 0.4):
                    return
            return
        if kind == "crossed":
            t = {}
            for i in range(r.randint(1, 4)):
                k = r.choice(["te", "if"])
                s = h.grammar.spell(r, grammar.sentence(r, "<te>" if k == "te" else "<if>", r.choice([30, 100, 300])))
                t["%s.%s" % (r.choice(["foo", "a", "bar", "x"]), k)] = s
            if r.random() < 0.3:
                t["access_vectors"] = grammar.spell(r, grammar.sentence(r, "<av>", 60))
            if r.random() < 0.3:
                t["obj_perm_sets.spt"] = grammar.spell(r, grammar.sentence(r, "<spt>", 60))
            if r.random() < 0.2:
                t["modules.conf"] = h.modules_conf(r)
        elif kind == "templates":
            t = h.templates(r)
            if r.random() < 0.3:
                t["tmpl.te"] = damage(r, t["tmpl.te"], 2)
            if r.random() < 0.2:
                t["tmpl.if"] = damage(r, t["tmpl.if"], 2)
        elif kind == "perms":
            t = h.perms(r)
            if r.random() < 0.25:
                n = r.choice(sorted(t))
                t[n] = damage(r, t[n], 2)
        elif kind == "fc":
            t = {"foo.fc": h.fc(r), "foo.te": "policy_module(foo, 1.0)\ntype a_t;\ntype foo_exec_t;\nrole object_r;\n"}
            if r.random() < 0.2:
                t["foo.if"] = t["foo.fc"] if r.random() < 0.2 else "## <summary>x</summary>\n"
            if r.random() < 0.6:
                conf = put(d + "/x.conf", "custom_fc_macros = {%s}\nassume_users = {%s}\nassume_roles={object_r}\n" % (
                    ", ".join('"%s"' % x for x in r.sample(["MACRO", "mac", "m", "HOME_DIR", "ifdef", "", h.name(r, h.size(r, 9000))], r.randint(0, 4))), r.choice(["system_u", "", '""'])))
        elif kind == "long":
            n = h.size(r)
            k = r.randrange(7)
            if k == 0:
                t = {"modules.conf": h.modules_conf(r), "a.te": "policy_module(a, 1.0)\n" + h.name(r, min(n, 8000)) + "_read(a)\n"}
            elif k == 1:
                t = {h.name(r, min(n, 250)) + ".te": "policy_module(%s, 1.0)\ntype %s;\n" % (h.name(r, n), h.name(r, n)), h.name(r, min(n, 250)) + ".if": "", h.name(r, min(n, 250)) + ".fc": h.fc(r)}
            elif k == 2:
                deep = "/".join(["d" * r.choice([1, 20, 100, 200])] * r.choice([1, 3, 15, 30]))[:3000]
                t = {deep + "/a.te": "policy_module(a, 1.0)\ntype b_t;\n", deep + "/a.if": "interface(`a_x',`\n\ttype $1;\n')\n", deep + "/a.fc": "/x\tgen_context(system_u:object_r:a_t,s0)\n"}
            elif k == 3:
                t = {"a.te": "policy_module(a, 1.0)\n" + "\n".join(r.choice(["", "type x%d;" % i, "# " + "x" * n, "dnl " + "y" * n, "allow a_t b_t:c { " + "d " * min(n, 5000) + "};"]) for i in range(r.choice([3, 30]))) + r.choice(["", "\n"])}
            elif k == 4:
                q = h.name(r, n)
                t = {"a.if": "interface(`%s_if',`\n\tgen_require(`\n\t\ttype %s_t;\n\t')\n\tallow $1 %s_t:file { %s };\n\t%s_if($1)\n')\ntemplate(`%s_tmpl',`\n\ttype $1_%s_t;\n\t%s_tmpl($1_%s)\n')\n" % ((q,) * 9),
                     "b.te": "policy_module(b, 1.0)\n%s_if(%s)\n%s_tmpl(%s)\ntype %s_t;\nallow %s_t { %s_t -%s_t }:{ %s } ~{ %s };\n#selint-disable:W-001\n" % ((q,) * 10)}
            elif k == 5:
                # line numbers of many digits
                gap = lambda: "\n" * r.choice([1, 1, 90, 990, 9990, 32768, 65536, 99990, 100000 if r.random() < 0.7 else 999990])
                st = ["type b_t;", "type a_t;", "allow a_t self:file read;", "allow a_t b_t:file { write read };", "a_read(b_t)", "allow b_t %s:process fork;" % h.name(r, min(n, 3000)),
                      "%s(a_t)" % h.name(r, min(n, 3000)), "attribute %s;" % h.name(r, min(n, 3000)), "optional_policy(`a_read(a_t)')", "bool c;", "allow b_t a_t:dir search;"]
                t = {"a.te": "policy_module(a, 1.0)\n" + gap() + "".join(r.choice(st) + gap() for _ in range(r.randint(2, 12))),
                     "a.if": gap() + "interface(`a_read',`" + gap() + "gen_require(`type b_t;" + gap() + "type a_t;')\nallow $1 c_t:file read;')\n", "a.fc": gap() + "/x\n" + gap() + "/y.z gen_context(a:b:c)\n"}
                if len(t["a.te"]) > 1200000:
                    t["a.te"] = t["a.te"][:1200000]
            else:
                t = {"a.te": "policy_module(a, 1.0)\nfoo(%s)\n" % ", ".join(["x"] * r.choice(h.COUNTS[1:])), "a.if": "template(`foo',`\n\ttype %s;\n')\n" % "".join("$%d" % i for i in range(r.choice(h.COUNTS[1:16])))}
        elif kind == "text":
            t = {"a.te": h.excerpt(r)}
            if r.random() < 0.3:
                t = {"a.if": h.excerpt(r).replace("policy_module(a, 1.0)", "interface(`x',`")}
            if r.random() < 0.1:
                t["b.te"] = h.excerpt(r)
        elif kind == "noise":
            t = {n: h.noise(r) for n in r.sample(["a.te", "a.if", "a.fc", "b.te", "modules.conf", "access_vectors", "obj_perm_sets.spt"], r.randint(1, 4))}
        else:
            t = {"foo.te": r.choice(["policy_module(foo, 1.0)\ntype foo_t;\nallow foo_t self:file { read_file_perms write };\n", "x y z", ""]), "foo.if": "interface(`foo_x',`\n\tallow $1 foo_t:file read;\n')\n",
                 "foo.fc": "/a\t--\tgen_context(user_u:object_r:foo_t,s0)\nMACRO(/b gen_context(system_u:x_r:foo_t,s0))\n"}
            if kind == "config":
                for n in range(3):
                    conf = put(d + "/x.conf", h.config(r))
                    args = h.options(r, conf) + spread(r, d, t)
                    if not go(env, out, r, kind, d, args, 0):
                        return
                return
            files = [put(d + "/policy/" + n, s) for n, s in t.items()] + [d + "/policy/missing.te"]
            put(d + "/selint.conf", h.config(r) if r.random() < 0.3 else "severity=style\n")
            if r.random() < 0.1:
                os.symlink(d + "/policy", d + "/policy/loop")
                os.symlink("nowhere", d + "/policy/dang.te")
            for n in range(3):
                args = h.cmdline(r, d, files)
                if not go(env, out, r, kind, d, args, 0, cwd=d + "/policy"):
                    return
            return
        if kind != "fc" and r.random() < 0.1:
            conf = put(d + "/x.conf", h.config(r))
        args = h.options(r, conf) + spread(r, d, t)
        go(env, out, r, kind, d, args, 0 if conf else 0.5)


def fixed(env, out, rng, d):
    """Inputs that once failed."""
    te = put(d + "/policy/a.te", "policy_module(a, 1.0)\ntype a_t;\n")
    em = put(d + "/policy/empty.te", "")
    cm = put(d + "/policy/comment.te", "# c")
    for args in (["-s", "-e", "", te], ["-s", "-d", "", te], ["-s", "-c", put(d + "/d.conf", 'disable = {""}\nenable_source = {""}\nenable_normal={"",C-001}\n'), te], ["-s", "-c", d, te], ["-s", em],
                 ["-s", cm], ["-s", em, cm, te], ["-s", "-r", d], ["-l", "", te], ["--color", "", te], ["--context=", "-s", te], ["-s", ""], [""], []):
        if not go(env, out, rng, "fixed", d, args, 0 if "-c" in args else 1):
            return
