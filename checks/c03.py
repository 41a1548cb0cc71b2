"""Syntax errors are never silent and valid policy is never rejected."""
import os
import re
import grammar
from corrupt import damage
from diff import workdir
from gen import Gen
from run import sane

PID = "C03"
RULE = ("An own description of the policy language (token rules and grammar, lib/grammar.py, recognised with Earley's algorithm) is the oracle.  'sentence': random "
        "sentences of that grammar, constructs combined and nested at random, in random layouts (spaces, tabs, carriage returns, m4 comments, several statements per "
        "line, with and without a final newline); 'world': generated modules; 'damage': either with one to eight tokens, characters or lines removed, moved, replaced or "
        "inserted, or cut anywhere; 'swap': files of the wrong kind; 'support': access_vectors and obj_perm_sets.spt.  The file is analysed alone or among sound "
        "files, checked or as context, named or found by a scan.  If the oracle says the file follows the language: status 0 (65 with -F and "
        "findings) and no F-001.  If not: status 70, no check finding, and the first F-001 names the file and the line of the first token "
        "after which no continuation follows the language (for a statement that is never allowed: the line on which it starts).  Non-trivial: a "
        "text of at least 12 tokens; distinct by token sequence and verdict.")
TECHNIQUE = "runtime monitoring: grammar-generated and mutated inputs, acceptance and error position compared with an independent recogniser of the language"
ASSUMPTIONS = ["nesting up to about 50 levels here (deeper nesting: C02)", "fc files are not part of the policy language (E-002 is decided by C16)",
               "texts are limited to 6000 tokens and 60 kB"]
CHUNK = 25


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("sentence", 4500 * k), ("world", 400 * k), ("damage", 8000 * k), ("swap", 500 * k), ("support", 1500 * k), ("nest", 500 * k)]


def prepare(env):
    pass


LINES = ["allow a b:c d;", "type a;", "foo(x)", "foo({ a b }, `c')", "attribute x;", ";", "role r types t;", "typeattribute a b, c;", "bool x;", "gen_require(` type a; ')",
         "permissive x;", "# c\n", "foo", "define(`a')", "refpolicywarn(`x y')", "genfscon a /b gen_context(a:b:c, s0)", "allow a b;", "allow { a b -c } ~{ d e }:* ~x;"]


def nested(rng, depth):
    """Blocks in blocks."""
    s = rng.choice(LINES)
    for _ in range(depth):
        more = lambda: " ".join(rng.choice(LINES) for _ in range(rng.choice([0, 0, 0, 1, 2])))
        a, b, c = more(), more(), rng.choice(LINES)
        k = rng.randrange(9)
        s = [lambda: "optional_policy(`%s')", lambda: "optional_policy(`%s',`" + c + "')", lambda: "tunable_policy(`x && (y || !z)',`%s')", lambda: "ifdef(`x',`%s',`" + c + "')",
             lambda: "ifelse(`a',`b',`" + c + "',`%s')", lambda: "if (a == b) { %s }", lambda: "if (!a) { " + c + " } else { %s }", lambda: "userdebug_or_eng(`%s')",
             lambda: "tunable_policy(`x',`" + c + "',`%s')"][k]().replace("%s", rng.choice(["\n", " ", "\n\t"]) + a + " " + s + " " + b + rng.choice(["\n", " "]))
    return s


SUPPORT = {"spt": "obj_perm_sets.spt", "av": "access_vectors"}


def check(env, out, rng, kind, name, text, world=None):
    """Runs selint with one file of interest."""
    toks = grammar.lex(text)
    if len(toks) > 6000 or len(text) > 60000:
        out.stat("too long: not judged")
        return
    v = grammar.verdict(text, kind, toks)
    with workdir(env) as d:
        paths, sup = ([], [])
        if world:
            paths, sup = world.write(d)
        role = rng.choice(["file", "file", "file", "scan", "context"]) if kind in ("te", "if") else "file"
        p = os.path.join(d, "ctx" if role == "context" else "policy", "zone", SUPPORT.get(name, name))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="latin-1", newline="") as f:
            f.write(text)
        base = os.path.basename(p)
        args = ["-s"] if role != "file" or kind in SUPPORT or rng.random() < 0.9 else []
        if kind in SUPPORT:
            sup = [x for x in sup if os.path.basename(x) != base]
        if role == "context":
            if not paths:
                q = os.path.join(d, "policy", "sound.te")
                os.makedirs(os.path.dirname(q))
                with open(q, "w") as f:
                    f.write("policy_module(sound, 1.0)\ntype sound_t;\n")
                paths = [q]
            args += ["--context=" + os.path.join(d, "ctx")]
        if kind in SUPPORT and not paths:
            q = os.path.join(d, "policy", "sound.te")
            with open(q, "w") as f:
                f.write("policy_module(sound, 1.0)\ntype sound_t;\n")
            paths = [q]
        opts = []
        for o, pr in (("-S", 0.15), ("-v", 0.1), ("-F", 0.2), ("--summary-only", 0.05)):
            if rng.random() < pr:
                opts.append(o)
        args += opts
        if role == "scan":
            args += ["-r", os.path.join(d, "policy")]
        else:
            mine = paths + ([p] if role == "file" else [])
            rng.shuffle(mine)
            args += sup + mine
        res = env.run(args, cwd=d)
        out.ran()
        x = sane(res)
        if x:
            out.violation(x, d, args, res=res)
            return
        err = [f for f in res.findings if f[2] == "F-001"]
        oth = [f for f in res.findings if f[2] != "F-001"]
        bad = None
        if v is None:
            if err:
                bad = "a file that follows the language is rejected: %s" % (err[0],)
            elif res.rc not in ((0, 65) if "-F" in opts else (0,)):
                bad = "status %d for a file that follows the language" % res.rc
        else:
            if not err:
                bad = "no syntax error (F-001) is printed; the file does not follow the language at line %d: %r" % v
            elif err[0][0] != base or err[0][1] != v[0]:
                bad = "the syntax error is reported at %s:%d, the language is left at %s:%d: %r" % (err[0][0], err[0][1], base, v[0], v[1])
            elif any(e[0] != base for e in err):
                bad = "a syntax error is reported in another file: %s" % (err,)
            elif kind in SUPPORT:
                if res.rc not in ((0, 65) if "-F" in opts else (0,)):
                    bad = "status %d after a broken support file" % res.rc
            elif res.rc != 70:
                bad = "status %d after a syntax error, expected 70" % res.rc
            elif oth:
                bad = "findings of checks after a syntax error: %s" % (oth[:3],)
        if bad:
            out.violation(bad, d, args, expected="accepted" if v is None else "syntax error at %s:%d (%s)" % ((base,) + v), actual=str(err[:3]), res=res)
            return
        out.stat("accepted %s" % kind if v is None else "rejected %s" % kind)
        out.stat("tokens", len(toks))
        if v is not None:
            out.stat("rejected at: " + (toks_kind(v[1])))
        if len(toks) >= 12:
            out.key(kind, role, v is None, tuple(t[0] for t in toks))
            out.sample({"kind": kind, "role": role, "verdict": "follows the language" if v is None else "left at line %d: %s" % v, "text": text[:160]})


def toks_kind(t):
    return t if re.fullmatch(r"[a-z_<>]+|end of file|[^\w\s]{1,2}", t) and (t in grammar.KW or not t[0].isalpha() or t == "end of file") else "word"


def world(rng):
    if rng.random() < 0.5:
        return None
    return Gen(rng, nmods=rng.randint(1, 2), size=0.3, config=False).make()


def case(env, kind, rng, out):
    what = rng.choice(["te", "if"])
    name = "broken_one." + what
    if kind == "sentence":
        check(env, out, rng, what, name, grammar.text(rng, what), world(rng) if rng.random() < 0.1 else None)
    elif kind == "nest":
        s = "policy_module(x, 1.0)\n" + nested(rng, rng.choice([1, 2, 3, 5, 10, 25, 50])) + "\n"
        if what == "if":
            s = "interface(`%s',`%s')\n" % ("x", s.split("\n", 1)[1])
        check(env, out, rng, what, name, s if rng.random() < 0.6 else damage(rng, s, 1))
    elif kind == "world":
        w = Gen(rng, nmods=rng.randint(1, 3), size=rng.choice([0.5, 1]), features={"messy": rng.choice([1, 4])}).make()
        f = rng.choice([f for f in w.files if f["name"].endswith((".te", ".if"))])
        check(env, out, rng, f["name"][-2:], "another_one." + f["name"][-2:], f["text"], world(rng))
    elif kind == "swap":
        src = rng.choice(["te", "if", "spt", "av"])
        s = grammar.text(rng, src)
        if rng.random() < 0.3:
            s += grammar.text(rng, rng.choice(["te", "if", "spt", "av"]))
        if rng.random() < 0.3:
            s = "".join(grammar.text(rng, what)) + s
        dst = rng.choice(["te", "if", "te", "if", "spt", "av"])
        check(env, out, rng, dst, dst if dst in SUPPORT else "broken_one." + dst, s)
    elif kind == "support":
        src = rng.choice(["spt", "av"])
        s = grammar.text(rng, src)
        check(env, out, rng, src, src, s if rng.random() < 0.5 else damage(rng, s), world(rng) if rng.random() < 0.2 else None)
    else:
        if rng.random() < 0.5:
            s = grammar.text(rng, what)
        else:
            w = Gen(rng, nmods=1, size=rng.choice([0.3, 0.8]), features={"messy": rng.choice([1, 4])}).make()
            f = rng.choice([f for f in w.files if f["name"].endswith((".te", ".if"))])
            s, what = f["text"], f["name"][-2:]
            name = "broken_one." + what
        if rng.random() < 0.1:
            s = s.replace("\n", "\r\n")
        ws = world(rng) if rng.random() < 0.3 else None
        for n in range(2):
            t = damage(rng, s, rng.choice([1, 1, 1, 1, 2, 3, 8]))
            check(env, out, rng, what, name, t, ws)
