"""Summary, colour and verbosity."""
import os
import pty
import re
import select as sel
import subprocess
from collections import Counter
from gen import Gen
from model import ALL_IDS
from diff import workdir, base_args, compare, problem
from run import parse_output, ENV, Result

PID = "C08"
RULE = ("Random policies analysed with a random selection of checks, first without presentation options (these findings are compared with "
        "the reference model), then with -S, --summary-only, -v, --debug-parser and --color=on/off/auto in random combination, into a "
        "pipe, a file and a terminal (pty).  Monitors: the findings are the same lines (escape sequences removed), the summary counts are "
        "the counts of the findings, nothing but the summary is printed with --summary-only, no escape sequence where none may be.  "
        "Non-trivial: at least one finding; distinct by counts and options.")
ASSUMPTIONS = ["verbose and debug runs may print further lines that are not findings"]
CHUNK = 20
ESC = re.compile(r"\x1b\[[0-9;]*m")
LINE = re.compile(r"^([CSWE]-\d{3}): (\d+)$")


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("mixed", 700 * k), ("few", 300 * k)]


def tty_run(exe, args, d):
    m, s = pty.openpty()
    ef = open(d + "/err.txt", "w+b")
    p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=s, stderr=ef, cwd=d, env=ENV)
    os.close(s)
    buf = b""
    while True:
        r, _, _ = sel.select([m], [], [], 60)
        if not r:
            p.kill()
            p.wait()
            os.close(m)
            return None
        try:
            x = os.read(m, 65536)
        except OSError:
            break
        if not x:
            break
        buf += x
    os.close(m)
    p.wait()
    ef.seek(0)
    err = ef.read()
    ef.close()
    r = Result()
    r.argv, r.rc, r.timeout = args, p.returncode, False
    r.out, r.err = buf.decode("latin-1").replace("\r\n", "\n"), err.decode("latin-1")
    return r


def case(env, kind, rng, out):
    feats = {"order": rng.choice([0, 0.3]), "exc": 0.1}
    if kind == "few":
        feats.update({"exc": 0.3, "te": 0.2})
    w = Gen(rng, nmods=rng.randint(1, 4) if kind == "mixed" else 1, size=1.0 if kind == "mixed" else 0.3, features=feats).make()
    with workdir(env) as d:
        paths, sup = w.write(d)
        args = base_args(w)
        k = rng.random()
        ids = list(ALL_IDS)
        if k < 0.5:
            args += [x for i in ids for x in ("-e", i)]
        elif k < 0.7 and kind == "few":
            ids = [rng.choice(ALL_IDS)]
            args += ["-E", "-e", ids[0]]
        elif k < 0.85:
            ids = [i for i in ALL_IDS if rng.random() < 0.5] or ["W-001"]
            args += ["-E"] + [x for i in ids for x in ("-e", i)]
        else:
            args += [x for i in ids for x in ("-e", i)]
        files = sup + paths
        base = env.run(args + files, cwd=d)
        out.ran()
        p = problem(base)
        if p:
            out.violation(p, d, args + files, res=base)
            return
        bad = compare([e for e in w.policy().findings() if e[2] in ids], base.findings, None)
        if bad:
            out.violation("; ".join(bad[:3]), d, args + files, res=base)
            return
        if "\x1b" in base.out:
            out.violation("escape sequence in output to a pipe", d, args + files, res=base)
            return
        lines = [l for l in base.out.split("\n") if l]
        count = Counter(f[2] for f in base.findings)
        for n in range(5):
            so = rng.random() < 0.4
            o = []
            if so:
                o.append("--summary-only")
            if rng.random() < 0.6:
                o.append(rng.choice(["-S", "--summary"]))
            if rng.random() < 0.3:
                o.append(rng.choice(["-v", "--verbose"]))
            if rng.random() < 0.1:
                o.append("--debug-parser")
            if rng.random() < 0.3:
                o.append("-F")
            col = rng.choice([None, "on", "off", "auto"])
            if col:
                o.append("--color=" + col)
            rng.shuffle(o)
            a = (o + args if rng.random() < 0.5 else args + o) + files
            verbose = "-v" in o or "--verbose" in o
            debug = "--debug-parser" in o
            where = rng.choice(["pipe", "tty", "file"])
            if where == "tty":
                res = tty_run(env.exe["plain"], a, d)
                if res is None:
                    out.violation("run on a terminal did not end", d, a)
                    return
            elif where == "file":
                with open(d + "/out.txt", "wb") as f:
                    q = subprocess.run([env.exe["plain"]] + a, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, cwd=d, env=ENV, timeout=60)
                res = Result()
                res.argv, res.rc, res.timeout, res.err = a, q.returncode, False, q.stderr.decode("latin-1")
                res.out = open(d + "/out.txt", "rb").read().decode("latin-1")
            else:
                res = env.run(a, cwd=d)
            out.ran()
            p = problem(res, (0, 65))
            if p:
                out.violation(p, d, a, res=res)
                return
            err = check(res, lines, base, count, so, so or "-S" in o or "--summary" in o, verbose, debug,
                        col == "on" or (col in (None, "auto") and where == "tty"))
            if err:
                out.violation("%s (output to a %s, options %s)" % (err, where, " ".join(o)), d, a, res=res)
                return
            out.stat("output to a " + where)
            for x in o:
                out.stat("option " + x)
            if "\x1b" in res.out:
                out.stat("coloured outputs")
            out.stat("findings compared", 0 if so else len(base.findings))
            if so or "-S" in o:
                out.stat("summary lines compared", len(count))
            if count:
                out.key(tuple(sorted(count.items())), tuple(sorted(o)), where)
                out.sample({"options": o, "output to": where, "counts": dict(list(count.items())[:6])})


def check(res, lines, base, count, so, summary, verbose, debug, color_ok):
    if "\x1b" in res.out + res.err and not color_ok:
        return "escape sequence although colour is off"
    text = ESC.sub("", res.out)
    if "\x1b" in text:
        return "incomplete escape sequence"
    f, s, notes, other = parse_output(text)
    if so:
        if f:
            return "finding printed with --summary-only: %s" % (f[0],)
    elif f != base.findings:
        extra, lost = Counter(f) - Counter(base.findings), Counter(base.findings) - Counter(f)
        return "findings differ: %s more, %s less, else in other order" % (list(extra)[:2], list(lost)[:2])
    if not summary:
        if s is not None:
            return "summary printed without -S"
    else:
        if s is None:
            return "no summary"
        if not count:
            if s != ["(none)"]:
                return "summary %s without findings" % s
        else:
            got = {}
            for l in s:
                m = LINE.match(l)
                if not m:
                    return "summary line %r" % l
                if m.group(1) in got:
                    return "summary lists %s twice" % m.group(1)
                got[m.group(1)] = int(m.group(2))
            if got != dict(count):
                return "summary %s, findings %s" % (sorted(set(got.items()) - set(count.items())), sorted(set(count.items()) - set(got.items())))
    if not verbose and not debug:
        l = [x for x in text.split("\n") if x]
        if summary:
            l = l[:l.index("Found the following issue counts:")]
        if so:
            l = [x for x in l if x not in lines]
            if l:
                return "printed with --summary-only: %r" % l[0]
        elif l != lines:
            return "output lines differ: %r" % next((a, b) for a, b in zip(l + [None], lines + [None]) if a != b)[0]
    return None
