"""Line and file of findings under many layouts of the same statements."""
from collections import Counter
from gen import Gen
from render import Layout
from diff import diff_case, workdir

PID = "C04"
RULE = ("The same random statements are laid out several times (one statement per line; tokens split over many lines with blank, "
        "dnl and comment lines in between; CRLF line ends; several statements per line; lines of 8 KiB to 200 KiB; up to 131072 blank lines; no final "
        "newline).  Each layout runs through the real program with all checks on; file, line, check and named symbol of every "
        "finding must be those of the reference model for that layout, and across layouts the findings must differ in line "
        "numbers only.  Non-trivial: at least one finding; distinct by the findings of a layout.")
ASSUMPTIONS = ["C-001 weighs sections by average line, so the cross-layout comparison leaves C-001 out; each layout is still compared with the model for it"]
CHUNK = 25


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("layouts", 1100 * k), ("small", 700 * k), ("fc", 250 * k)]


def hostile(r):
    k = r.randrange(9)
    if r.random() < 0.02:
        return lambda f: Layout(r, huge=r.choice([900, 9990, 32760, 65530, 65536, 70000, 99990, 131072]), indent=1)
    if k == 0:
        return lambda f: Layout.plain()
    if k == 1:
        return lambda f: Layout(r, split=0.8, spaces=0.3, blank=0.5, comment=0.5, dnl=0.3, trail=0.3, indent=2)
    if k == 2:
        return lambda f: Layout(r, split=0.1, blank=0.2, comment=0.2, trail=0.2, crlf=True, indent=1, final_newline=r.random() > 0.3)
    if k == 3:
        return lambda f: Layout(r, join=0.7, spaces=0.2, blank=0.1)
    if k == 4:
        return lambda f: Layout(r, longline=0.03, blank=0.1)
    if k == 5:
        return lambda f: Layout(r, blank=0.85)
    if k == 6:
        return lambda f: Layout(r, split=0.95)
    if k == 7:
        return lambda f: Layout(r, comment=0.8, dnl=0.4, trail=0.7, indent=1)
    return lambda f: Layout.random(r)


def shape(res):
    """Findings without line numbers, per file and check."""
    return Counter((f[0], f[2]) for f in res.findings if f[2] != "C-001")


def case(env, kind, rng, out):
    if kind == "fc":
        w = Gen(rng, nmods=rng.randint(1, 3), size=4, features={"fc": 1, "te": 0.1, "ifs": 0.2}).make()
        diff_case(env, out, w, None, rng)
        return
    if kind == "small":
        g = Gen(rng, nmods=rng.randint(1, 2), size=0.4, features={"fc": 0, "exc": 0.02, "order": 0.2, "messy": 3, "blocks": 3, "other": 3, "tt": 2})
    else:
        g = Gen(rng, nmods=rng.randint(1, 3), features={"fc": 0, "exc": 0.04})
    w = g.make()
    ref = None
    for i in range(3 if kind == "layouts" else 5):
        v = w.rerender(hostile(rng) if i else (lambda f: Layout.plain()))
        res = diff_case(env, out, v, None, rng)
        if res is None:
            return
        s = shape(res)
        if ref is None:
            ref = s
        elif s != ref:
            # comment lines decide C-004 and may be inserted by a layout
            a, b = Counter(ref), Counter(s)
            for c in (a, b):
                for k in [k for k in c if k[1] == "C-004"]:
                    del c[k]
            if a != b:
                with workdir(env) as d:
                    v.write(d)
                    out.violation("layout changes the findings: %s" % sorted(((a - b) + (b - a)).elements())[:5], d, res.argv, res=res)
                return
        out.stat("layouts")
