"""Hostile and odd inputs: files of every kind, configurations and command lines.  Knows nothing about selint beyond its formats."""
import os
import re

import grammar
from corrupt import damage, JUNK
from model import ALL_IDS

SIZES = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383,
         16384, 16385, 40000, 70000]
COUNTS = [0, 1, 2, 3, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400]


def size(rng, top=70000):
    while True:
        n = rng.choice(SIZES)
        if n <= top and (n < 1000 or rng.random() < 0.6):
            return n


def name(rng, n, start="abcdefghz", body="abcdefghijklmnopqrstuvwxyz0123456789_"):
    if n <= 0:
        return "a"
    if rng.random() < 0.5:
        return rng.choice(start) * n
    k = min(n, 40)
    s = rng.choice(start) + "".join(rng.choice(body) for _ in range(k - 1))
    return (s * (n // k + 1))[:n]


IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_]*")


def stretch(rng, texts):
    """Renames some identifiers in all texts (path -> text) to names of critical lengths."""
    ids = sorted({x for t in texts.values() for x in IDENT.findall(t)} - grammar.KW - {"dnl", "s0", "gen_context", "self"})
    if not ids:
        return texts
    ren = {}
    for x in rng.sample(ids, min(len(ids), rng.choice([1, 2, 6]))):
        n = size(rng, 20000)
        suf = next((s for s in ("_t", "_r", "_if", "_perms", "_template", "_exec_t", "_u") if x.endswith(s) and rng.random() < 0.7), "")
        ren[x] = name(rng, max(1, n - len(suf))) + suf
    # names that contain a renamed one with an underscore
    out = {}
    for p, t in texts.items():
        t = IDENT.sub(lambda m: ren.get(m.group(0), m.group(0)), t)
        out[p] = t if len(t) < 600000 else texts[p]
    return out


LIST = re.compile(r"\{([^{}`'();:\n]+)\}")


def widen(rng, text):
    """Makes some lists very long."""
    ms = list(LIST.finditer(text))
    if not ms:
        return text
    m = rng.choice(ms)
    it = m.group(1).split() or ["x"]
    n = rng.choice(COUNTS)
    new = [rng.choice(it) if rng.random() < 0.5 else "%s%d" % (rng.choice(it).lstrip("-"), k) for k in range(n)]
    return text[:m.start()] + "{ " + rng.choice([" ", "\n", "  "]).join(new) + " }" + text[m.end():]


def templates(rng):
    """Templates, interfaces, defines and calls with arguments of all sizes and numbers."""
    r = rng
    nt = r.randint(1, 4)
    names = [r.choice(["t%d", "make_%d", "x%d_template"]) % i for i in range(nt)]

    def par():
        k = r.random()
        return "$" + (str(r.randint(1, 3)) if k < 0.6 else "*" if k < 0.7 else str(r.choice([0, 4, 9, 10, 11, 12, 19, 20, 99, 100, 123])) if k < 0.95 else r.choice(["", "1$2", "a", "11111111111", "4294967297"]))

    def word():
        k = r.random()
        return par() + r.choice(["", "_t", "_r", "t", "1", "_$2", "-x"]) if k < 0.5 else r.choice(["", "a", "x_"]) + par() + r.choice(["", "_t"]) if k < 0.7 else r.choice(["a_t", "b_t", "c", "self"])

    def lst():
        return "{ " + " ".join(word() for _ in range(r.randint(1, 4))) + " }" if r.random() < 0.3 else word()

    def arg():
        k = r.random()
        if k < 0.25:
            return name(r, size(r, 5000))
        if k < 0.4:
            return r.choice(["a", "b_t", "c_t", "", "``'", "`a b'", "`'", '"q"', '""', "{ a b }", "{ { a } b }", "~{ a }", "$1", "$2_t", "$*", "$10"])
        if k < 0.5:
            return "{ " + " ".join(name(r, r.randint(1, 5)) for _ in range(r.choice(COUNTS[1:20]))) + " }"
        return r.choice(["foo", "bar_t", "baz_r", "x"])

    def call(n=None):
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 9, 10, 12, r.choice(COUNTS[:20])])
        return "%s(%s)" % (n or r.choice(names + ["no_such_if"]), ", ".join(arg() or "x" for _ in range(k)))

    def stmt(depth):
        k = r.randrange(16)
        return [lambda: "type %s;" % word(), lambda: "type %s, %s;" % (word(), word()), lambda: "attribute %s;" % word(), lambda: "role %s;" % word(),
                lambda: "attribute_role %s;" % word(), lambda: "role %s types %s;" % (word(), lst()), lambda: "allow %s %s:%s %s;" % (lst(), lst(), lst(), lst()),
                lambda: call(), lambda: call(), lambda: "typealias %s alias %s;" % (word(), lst()), lambda: "type %s alias %s;" % (word(), lst()),
                lambda: "gen_require(` type %s; class file { read %s }; ')" % (word(), word()), lambda: "bool %s;" % word(), lambda: "gen_bool(%s, false)" % word(),
                lambda: "optional_policy(`\n%s\n')" % "\n".join(stmt(depth + 1) for _ in range(r.randint(1, 3))) if depth < 4 else ";",
                lambda: "ifdef(`%s',`\n%s\n')" % (r.choice(["x", "distro_redhat"]), stmt(depth + 1)) if depth < 4 else ";"][k]()
    ifs = []
    for n in names:
        ifs.append("%s(`%s',`\n\t%s\n')\n" % (r.choice(["template", "template", "interface"]), n, "\n\t".join(stmt(0) for _ in range(r.randint(1, 5)))))
    te = "policy_module(tmpl, 1.0)\n" + "\n".join(r.choice([lambda: call(r.choice(names)), lambda: stmt(0), lambda: call()])() for _ in range(r.randint(1, 8))) + "\n"
    return {"tmpl.if": "".join(ifs), "tmpl.te": te}


def perms(rng):
    """access_vectors and obj_perm_sets.spt of critical sizes, with rules using them."""
    r = rng
    classes = ["file", "dir", "k%d" % r.randint(0, 9)] + (["c%d" % i for i in range(r.choice([30, 62, 64, 70, 300]))] if r.random() < 0.3 else [])
    r.shuffle(classes)
    np = r.choice(COUNTS[1:16])
    P = ["p%d" % i for i in range(np)] + ["read", "write", "getattr"]
    if r.random() < 0.2:
        P = [name(r, size(r, 3000)) + str(i) for i in range(min(np, 20))]
    av = ["common %s\n{\n%s\n}\n" % (c, "\n".join(r.sample(P, r.randint(1, len(P))))) for c in ["com_a", "com_b"]]
    for c in classes:
        k = r.randrange(4)
        av.append("class %s%s\n%s" % (c, " inherits " + r.choice(["com_a", "com_b", "none"]) if k else "", "{\n%s\n}\n" % "\n".join(r.sample(P, r.randint(1, min(len(P), 40)))) if k < 3 or not k else ""))
    macros = ["m%d_perms" % i for i in range(r.choice([1, 3, 10, 60]))] + ["read_file_perms"]
    if r.random() < 0.2:
        macros.append(name(r, size(r, 3000)) + "_perms")
    spt = []
    for m in macros + r.sample(macros, len(macros) // 3):
        it = [r.choice(P + macros) if r.random() < 0.5 else r.choice(P) for _ in range(r.choice([1, 2, 5, r.choice(COUNTS[1:12])]))]
        spt.append("define(`%s',`{ %s }')\n" % (m, " ".join(it)))
    if r.random() < 0.3:
        spt.append("define(`all_file_perms',`{ %s }')\ndefine(`x_class_set',`{ file dir }')\n" % " ".join(P))
    r.shuffle(spt)
    if r.random() < 0.3:
        av.insert(0, "# comment\nclass file\nclass dir\n")
        del av[0]
    te = ["policy_module(pp, 1.0)", "type a_t;"]
    for _ in range(r.randint(1, 12)):
        cl = r.choice(classes + ["nope"]) if r.random() < 0.6 else "{ %s }" % " ".join(r.choice(classes + ["nope", "x_class_set"]) for _ in range(r.choice(COUNTS[1:14])))
        pl = r.choice(P + macros + ["*", "~read", "~{ read write }", "nope_perms"]) if r.random() < 0.5 else "{ %s }" % " ".join(r.choice(P + macros + ["nope"]) for _ in range(r.choice(COUNTS[1:16])))
        te.append("allow a_t self:%s %s;" % (cl, pl))
    return {"pp.te": "\n".join(te) + "\n", "access_vectors": "".join(av), "obj_perm_sets.spt": "".join(spt)}


def fc(rng):
    """Lines of file contexts, from sound to nonsense."""
    r = rng
    out = []
    w = lambda: r.choice([" ", "\t", "\t\t", "   ", " \t "])
    for _ in range(r.randint(1, 14)):
        k = r.random()
        path = r.choice(["/", "/a", "/usr/lib(64)?/x.*", "/.", "HOME_DIR/a", "/a[b", "/a\\.b", "/a(b|c", "a", "\"/x y\"", "<<none>>", "/" + name(r, size(r, 20000)), "/a" + r.choice("[](){}.*+?^$\\|") * r.randint(1, 5), "//", "/a//b/", "--"])
        obj = r.choice(["", "--", "-d", "-c", "-l", "-s", "-b", "-p", "-x", "-", "---", "-dd", "-" + name(r, size(r, 300))])
        seg = lambda d: r.choice([d] * 6 + ["", ":", " ", name(r, size(r, 3000)), "{x}", "$1", "`x'", "(", ")"])
        rng_ = r.choice(["s0", "s0", "s0 - s15:c0.c1023", "s0-s1", "mls_systemhigh", "", " ", ",", "s0,c0", name(r, size(r, 2000)), "s0:c0,c1", "s0, c0.c3", "s0)"])
        c = r.choice(["gen_context(%s:%s:%s,%s)", "gen_context(%s:%s:%s, %s)", "gen_context(%s:%s:%s,%s", "gen_context %s:%s:%s,%s)", "%s:%s:%s:%s", "gen_context(%s:%s:%s:%s)", "gen_context((%s:%s:%s,%s))",
                      "gen_context(%s:%s,%s%s)", "gen_context( %s : %s : %s , %s )", "gencontext(%s:%s:%s,%s)", "gen_context(%s:%s:%s,%s) x", "%s%s%s%s", "gen_context(%s:%s:%s,%s,c0)"]) % (
            seg("system_u"), seg("object_r"), seg("a_t"), rng_)
        c = r.choice([c] * 5 + ["<<none>>", "", "gen_context(", "gen_context()", "gen_context(:", "gen_context(::", "gen_context(:::)", "gen_context(,)", "gen_context(a", "gen_context(a:b", "gen_context(a:b:", "a:b:c", "a:b", "::", ":::", "a:b:c:"])
        l = path + w() + (obj + w() if obj or r.random() < 0.2 else "") + c + r.choice(["", "", " ", "\t", ")", " #x", "\r"])
        if k < 0.1:
            l = r.choice(["", " ", "\t", "#", "# x", "ifdef(`x',`", "')", "',`", "ifndef(`x',`", "', `", "'", "`", "ifdef(", "ifelse(`a',`b',`", "MACRO(", "MACRO(`/a -- gen_context(a:b:c,s0)')", "mac(" + l, "mac(`%s'" % l, "mac", "mac("])
        elif k < 0.2:
            l = damage(r, l).replace("\n", " ")
        elif k < 0.25:
            l = "".join(chr(r.randrange(256)) for _ in range(r.randint(0, 60))).replace("\n", "")
        elif k < 0.3:
            l = r.choice([" ", "\t"]) * size(r, 9000) + l
        elif k < 0.33:
            l = l + r.choice([" ", "a", "("]) * size(r, 70000)
        out.append(l)
    return "\n".join(out) + r.choice(["\n", "\n", "", "\n\n"])


def modules_conf(rng):
    r = rng
    out = []
    for _ in range(r.randint(0, 12)):
        n = r.choice(["alpha", "beta", "base", "a", "", name(r, size(r, 9000))])
        v = r.choice(["base", "module", "off", "", "x", name(r, size(r, 9000))])
        ws = lambda: r.choice(["", " ", "\t", "  ", " " * size(r, 5000)]) if r.random() < 0.8 else r.choice(["\r", "\v", "\f"])
        out.append(r.choice(["", "", "", "#", " "]) + ws() + n + ws() + r.choice(["=", "=", "=", "==", ":", "", "= =", "=a="]) + ws() + v + ws())
    if r.random() < 0.3:
        out.insert(r.randint(0, len(out)), r.choice(["", " ", "\t", "\n", "=", " = ", "#", "\x00", "a\x00=base", "=\x00", " " * 5000, "a" * 70000, "= base", "a ="]))
    return r.choice(["\n", "\n", "\r\n"]).join(out) + r.choice(["", "\n"])


def excerpt(rng):
    """A file with a syntax error next to long, odd or missing lines."""
    r = rng
    pad = lambda: r.choice([" ", "\t", "x ", ";", "# c", "\r", "type a; "]) * size(r, 20000)
    pre = "\n".join(r.choice(["", pad(), "type a;", "# " + "c" * size(r), "allow a b:c d;"]) for _ in range(r.choice([0, 1, 2, 3, 9])))
    mid = r.choice(["allow", "}", "'", "@", "\x00", "\xff", "optional_policy(`", "type a", '"unterminated', "allow a b:c {", "if (", "if (a) {", "0", "dnl", "gen_require(`", "allow a\n\n\n\nb:c\n\n\n}", "ifdef(`a',`"])
    return "policy_module(a, 1.0)\n" + pre + r.choice(["\n", " ", ""]) + pad() + mid + r.choice(["", "\n", pad(), pad() + "\n", "\n" + pad(), "\r\n", "\x00" * size(r, 9000)])


def noise(rng):
    r = rng
    k = r.randrange(5)
    n = size(r, 20000)
    if k == 0:
        return "".join(chr(r.randrange(256)) for _ in range(min(n, 3000)))
    if k == 1:
        return r.choice(["\x00", "(", "{", "`", "'", "\"", "#", "a", " ", "\n", "\r", "$", "~", "-", "\xff", "dnl ", "optional_policy(`", "{ ", "ifdef(`a',`", "!("]) * n
    if k == 2:
        return " ".join(r.choice(JUNK) for _ in range(r.choice(COUNTS)))
    if k == 3:
        return ""
    return damage(r, grammar.spell(r, grammar.sentence(r, r.choice(["<te>", "<if>", "<spt>", "<av>"]), 60)), 20)


def config(rng):
    r = rng
    items = ["severity", "disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros", "ordering_rules", "ordering_requires",
             "ordering_requires_same_flavor", "skip_checking_generated_fcs"]
    out = []
    for _ in range(r.randint(0, 12)):
        i = r.choice(items)
        if i in ("severity", "ordering_rules"):
            v = r.choice(["convention", "style", "warning", "error", "fatal", "refpolicy", "refpolicy-light", "refpolicy-lax", "", name(r, size(r, 9000)), "X"])
            v = r.choice(['"%s"', "%s", "'%s'"]) % v if v else '""'
        elif i.endswith("flavor") or i.startswith("skip"):
            v = r.choice(["true", "false", "yes", "no", "1", "maybe"])
        else:
            x = r.choice([lambda: r.sample(ALL_IDS, r.randint(0, 12)), lambda: ["bool", "class", "role", "attribute_role", "attribute", "type"][:r.choice([6, 6, 5, 1])],
                          lambda: [name(r, size(r, 3000)) for _ in range(r.randint(0, 4))], lambda: [r.choice(["system_u", "x", "", "C", "-", "W-", "W-9999999999", "E-008 "]) for _ in range(r.randint(0, 5))],
                          lambda: ["m%d" % n for n in range(r.choice(COUNTS))]])()
            v = "{%s}" % ", ".join('"%s"' % y for y in x)
        out.append("%s %s %s" % (i, r.choice(["=", "=", "=", "+="]), v))
    s = "\n".join(out) + r.choice(["", "\n"])
    if r.random() < 0.3:
        s = damage(r, s)
    if r.random() < 0.03:
        s = noise(r)
    return s


def disables(rng, text):
    """Adds selint comments of odd shapes at ends of lines."""
    r = rng
    l = text.split("\n")
    for _ in range(r.randint(1, 6)):
        i = r.randrange(len(l))
        ids = [r.choice(ALL_IDS + ["W-1", "E-99999999999", "C-0", "S-000001"]) for _ in range(r.choice([1, 1, 2, 5, 40, 400]))]
        l[i] += r.choice([" ", "", "\t"]) + r.choice(["#selint-disable:", "#selint-disable: ", "# selint-disable:", "#selint-disable", "#SELINT-DISABLE:"]) + r.choice([",", ", ", " ,", ",,"]).join(ids) + r.choice(["", "", " ", ","])
    return "\n".join(l)


def options(rng, conf=None, mode=None):
    """Mostly sound options."""
    r = rng
    o = []
    if mode if mode is not None else r.random() < 0.85:
        o.append("-s")
    if conf:
        o += ["-c", conf]
    for f, p in (("-S", 0.2), ("-F", 0.15), ("-v", 0.15), ("--summary-only", 0.1), ("--debug-parser", 0.02), ("--scan-hidden-dirs", 0.05)):
        if r.random() < p:
            o.append(f)
    if r.random() < 0.1:
        o += ["--color", r.choice(["on", "off", "auto", "always", "x"])]
    if r.random() < 0.15:
        o += ["-l", r.choice("CSWEFX")]
    k = r.random()
    if k < 0.6:
        o += [x for i in ALL_IDS for x in ("-e", i)]
    elif k < 0.8:
        o += [x for i in r.sample(ALL_IDS, 6) for x in (r.choice(["-d", "-e"]), i)]
    elif k < 0.85:
        o += ["-E"] + [x for i in r.sample(ALL_IDS, r.randint(0, 3)) for x in ("-e", i)]
    return o


def cmdline(rng, d, files):
    """Any command line over the files of a scratch directory."""
    r = rng
    pool = ["-s", "-r", "-S", "-F", "-v", "-E", "-h", "-V", "--help", "--version", "--source", "--recursive", "--summary", "--summary-only", "--fail", "--verbose", "--scan-hidden-dirs", "--debug-parser",
            "-", "--", "", "-x", "--nope", "-sr", "-rsSFv", "--sum", "--co", "--col=x", "--color=on", "--colo", "--level", "--level=W", "--context", "--context=", "--config", "-c", "-d", "-e", "-l", "-m",
            "--modules-conf", "-dC-001", "-eW-001", "-lC", "-lCC", "-l", "--color="]
    vals = ["", "C", "S", "W", "E", "F", "X", "C-001", "W-001", "W-1", "-", "E-0000000008", "x" * r.choice([1, 300, 5000]), "\xe4\xff", "on", "off", "auto", d, d + "/policy", d + "/none", "/dev/null", ".", "..",
            "%s%n%d", "C-001,C-002", "*", d + "/selint.conf"] + files
    a = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 9, 30])):
        k = r.random()
        a.append(r.choice(pool) if k < 0.5 else r.choice(vals) if k < 0.7 else r.choice(files or [d]))
    if r.random() < 0.5:
        a += r.sample(files, min(len(files), r.randint(0, 4)))
    bad = ("/", "..", "/dev/null")
    return [x for x in a if x not in ("/", "..")]
