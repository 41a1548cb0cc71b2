"""The supported policy language: lexical rules, grammar, recogniser (Earley) and sentence generator.

verdict(text, kind) -> None (follows the language) or (line, token) of the first place where no continuation
could make it follow the language.  kind: "te", "if", "spt" or "av".
"""
import re

KEYWORDS = ("policy_module module type typealias alias attribute bool typeattribute roleattribute role types attribute_role allow allowxperm auditallow "
            "auditallowxperm dontaudit dontauditxperm neverallow neverallowxperm type_transition type_member type_change range_transition role_transition "
            "optional_policy gen_require gen_bool gen_tunable require tunable_policy ifelse refpolicywarn class common inherits if else ifdef ifndef genfscon "
            "sid portcon netifcon nodecon fs_use_trans fs_use_xattr fs_use_task define gen_user gen_context permissive typebounds interface template "
            "userdebug_or_eng").split()
PUNCT = ["&&", "||", "!=", "==", "(", ")", ",", ".", "{", "}", ":", ";", "`", "'", "~", "*", "-", "^", "!"]
H = "[0-9A-Fa-f]{1,4}"
RULES = [  # (kind, pattern); the longest match counts, then the first
    ("DNL", r"dnl[^\n]*"),
    ("VERSION", r"[0-9]+\.[0-9]+(?:\.[0-9]+)?"), ("NUMBER", r"[0-9]+"),
    ("STRING", r"[a-zA-Z$/][a-zA-Z0-9_$*/-]*"), ("NUMSTR", r"[0-9a-zA-Z$/][a-zA-Z0-9_$*/-]*"),
    ("IPV4", r"[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}"),
    ("IPV6", r"(?:%s:){7}%s" % (H, H)), ("IPV6", r"(?:%s(?::%s)*)?::(?:%s(?::%s)*)?" % (H, H, H, H)),
    ("QUOTED", r'"[a-zA-Z0-9_.\-:~$]*"'), ("FTS", r"-[-ldbcsp][ \t]"),
    ("PUNCT", "|".join(re.escape(p) for p in PUNCT)),
    ("SELINT", r"#selint-disable: ?[CSWEF]-[0-9]+(?:, ?[CSWEF]-[0-9]+)*"), ("COMMENT", r"#[^\n]*"),
    ("WS", r"[ \t\n\r]"), ("UNKNOWN", r"[^\n]"),
]
RULES = [(k, re.compile(p)) for k, p in RULES]
KW = set(KEYWORDS)


def lex(text):
    """[(kind, text, line)] without blanks and m4 comments"""
    out = []
    i, n, line = 0, len(text), 1
    while i < n:
        best, kind = 0, None
        for k, p in RULES:
            m = p.match(text, i)
            if m and m.end() - i > best:
                best, kind = m.end() - i, k
        s = text[i:i + best]
        if kind == "STRING" and s in KW:
            kind = s
        elif kind == "PUNCT":
            kind = s
        if kind not in ("WS", "DNL"):
            out.append((kind, s, line))
        line += s.count("\n")
        i += best
    return out


G = r"""
file: | COMMENT* te | COMMENT* if | COMMENT* spt | COMMENT* av | COMMENT+
te: header line+
header: policy_module ( STRING , version ) | module STRING version ;
version: VERSION | NUMBER
line: stmt | stmt SELINT
stmt: decl | typeattribute STRING names ; | roleattribute STRING names ; | typealias STRING alias list ; | avrule | badav | allow list list ; | xrule
    | role STRING types list ; | trans | call | optional | require | ifdefblk | ifelseblk | warn | userdebug_or_eng ( ` line+ ' ) | STRING | tunable | boolblk
    | genfscon fsname STRING fscontext | sid STRING context | portcon STRING port context | netifcon STRING context context | nodecon IPV4 IPV4 context
    | nodecon IPV6 IPV6 context | fsuse STRING context ; | definition | user | permissive STRING ; | typebounds STRING STRING ; | ; | COMMENT
decl: type STRING ; | type STRING , names ; | type STRING alias list ; | type STRING alias list , names ; | attribute STRING ; | class STRING list ; | role STRING ;
    | attribute_role STRING ; | bool STRING ; | gen_bool ( STRING , STRING ) | gen_tunable ( ` STRING ' , STRING ) | gen_tunable ( STRING , STRING )
names: STRING | names , STRING
avrule: avflavor list list : list list ;
avflavor: allow | auditallow | dontaudit | neverallow
badav: notallow list list ;
notallow: auditallow | dontaudit | neverallow
xrule: xav list list : list STRING xlist ;
xav: allowxperm | auditallowxperm | dontauditxperm | neverallowxperm
xlist: { xitem+ } | ~ xlist | xitem
xitem: STRING | NUMSTR | NUMBER | -
list: { item+ } | ~ list | item | *
item: STRING | - STRING | QUOTED
trans: type_transition list list : list STRING ; | type_transition list list : list STRING QUOTED ; | type_member list list : list STRING ;
    | type_change list list : list STRING ; | range_transition list list : list range ; | role_transition list list STRING ; | role_transition list list : list STRING ;
call: STRING ( args ) | STRING ( )
args: arg | args , arg | args item
arg: xlist | QUOTED | ` item+ ' | ` '
optional: optopen line+ ' ) | optopen ' ) | optopen line+ ' , ` line+ ' )
optopen: optional_policy ( ` | optional_policy ( ` SELINT
require: genreq ` rline+ ' ) | genreq ` SELINT rline+ ' ) | genreq rline+ ) | require { rline+ } | require { SELINT rline+ }
genreq: gen_require ( | gen_require ( SELINT
rline: rbare | rbare SELINT
rbare: rflavor names ; | class STRING list ; | ifword ( ` STRING ' , ` rline+ ' ) | ifword ( ` STRING ' , rline+ ) | COMMENT
rflavor: type | attribute | role | attribute_role | bool
ifword: ifdef | ifndef
ifdefblk: ifword ( ` STRING ' , margs )
ifelseblk: ifelse ( margs )
margs: marg | margs , marg
marg: | ` ' | ` line+ ' | STRING
warn: refpolicywarn ( ` anym4 ' )
anym4: elem | elem anym4 | ` elem '
elem: STRING | ( | ) | { | } | , | . | : | ; | -
cond: STRING | ! cond | cond && cond | cond || cond | cond ^ cond | cond == cond | cond != cond | ( cond )
tunable: tunable_policy ( ` cond ' , margs ) | tunable_policy ( cond , margs )
boolblk: boolopen cond ) { line+ } | boolopen cond ) { line+ } else { line+ }
boolopen: if ( | if ( SELINT
fsname: STRING | NUMSTR
fscontext: context | FTS context
context: rawcon | gen_context ( rawcon ) | gen_context ( rawcon , range ) | gen_context ( rawcon , range , range ) | gen_context ( rawcon , range , )
rawcon: STRING : STRING : STRING | STRING : STRING : STRING : range
range: level - level | level
level: comp | comp : comp
comp: STRING | STRING . STRING
port: NUMSTR | NUMBER | NUMBER - NUMBER
fsuse: fs_use_trans | fs_use_xattr | fs_use_task
definition: define ( defname ) | define ( defname , defbody )
defname: ` STRING ' | STRING
defbody: | ` anym4 ' | STRING
user: gen_user ( maybe maybe item+ , range , range ) | gen_user ( maybe maybe item+ , range , range , range )
maybe: STRING , | ,
if: interface | interface ifline+
ifline: interface | COMMENT
interface: ifopen line+ ' ) | ifopen SELINT line+ ' ) | ifopen ' ) | ifopen SELINT ' )
ifopen: ifkw ( ` STRING ' , `
ifkw: interface | template
spt: sptdef | sptdef sptline+
sptline: sptdef | COMMENT
sptdef: define ( ` STRING ' , ` list ' ) | define ( ` STRING ' , ` list warn ' )
av: avdef avcont*
avcont: avdef | COMMENT
avdef: avclass | avcommon
avcommon: common STRING avperms
avclass: class STRING avperms | class STRING inherits STRING | class STRING inherits STRING avperms
avperms: { avperm+ }
avperm: STRING | COMMENT
"""


def _parse():
    prods = {}
    text = re.sub(r"\n    +", " ", G.strip())
    split = []
    for l in text.split("\n"):
        name, rhs = l.split(":", 1)
        split.append((name.strip(), rhs))
    names = {n for n, _ in split}
    assert len(names) == len(split)
    # the words that are both
    both = names & (KW | {"if", "interface"})
    where_rule = {("file", "if"), ("if", "interface"), ("ifline", "interface"), ("stmt", "require")}
    for name, rhs in split:
        key = "<%s>" % name
        alts = []
        cur = []
        toks = rhs.split()
        for t in toks + ["|END"]:
            if t in ("|", "|END"):
                alts.append(tuple(cur))
                cur = []
                continue
            rep = None
            base = t
            if len(t) > 1 and t[-1] in "+*" and t not in PUNCT:
                rep, base = t[-1], t[:-1]
            if base in names and (base not in both or (name, base) in where_rule):
                sym = "<%s>" % base
            else:
                sym = base
            if rep:
                l = "<%s%s>" % (base, rep) if not sym.startswith("<") else sym[:-1] + rep + ">"
                plus = l.replace("*>", "+>")
                prods.setdefault(plus, [(sym,), (plus, sym)])
                if rep == "*":
                    prods.setdefault(l, [(), (plus,)])
                sym = l
            cur.append(sym)
        prods[key] = alts
    return prods


PRODS = _parse()
# alternatives written with "|" as the or-operator of conditions: "||" is one word, so nothing is ambiguous
TERMINALS = {s for a in PRODS.values() for p in a for s in p if not (s.startswith("<") and s.endswith(">") and s in PRODS)}


class Earley:
    def __init__(self, start="<file>"):
        self.nts = sorted(PRODS)
        self.rules = []
        self.by = {}
        for n in self.nts:
            for p in PRODS[n]:
                self.by.setdefault(n, []).append(len(self.rules))
                self.rules.append((n, p))
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for n, p in self.rules:
                if n not in self.nullable and all(s in self.nullable for s in p):
                    self.nullable.add(n)
                    ch = True
        self.start = start

    def run(self, kinds, stop=()):
        """index of the first impossible token (len(kinds): end) or None; stop: rules whose completion is an error -> (origin, name)"""
        rules, by, nullable = self.rules, self.by, self.nullable
        waiting = []           # per position: symbol -> items waiting for it
        items = [(r, 0, 0) for r in by[self.start]]
        n = len(kinds)
        for pos in range(n + 1):
            seen = set(items)
            todo = list(items)
            wait = {}
            predicted = set()
            waiting.append(wait)
            done = False
            while todo:
                it = todo.pop()
                r, dot, org = it
                name, rhs = rules[r]
                if dot == len(rhs):
                    if name in stop and not (name == "<avclass>" and rhs[-1] == "STRING" and kinds[pos:pos + 1] == ["{"]):
                        return ("stop", org, name)
                    if name == self.start and org == 0:
                        done = True
                    for (r2, d2, o2) in list(waiting[org].get(name, ())):
                        x = (r2, d2 + 1, o2)
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
                    continue
                s = rhs[dot]
                wait.setdefault(s, []).append(it)
                if s in by:
                    if s not in predicted:
                        predicted.add(s)
                        for q in by[s]:
                            x = (q, 0, pos)
                            if x not in seen:
                                seen.add(x)
                                todo.append(x)
                    if s in nullable:
                        x = (r, dot + 1, org)
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
            if pos == n:
                return None if done else ("token", n)
            k = kinds[pos]
            items = [(r, d + 1, o) for (r, d, o) in wait.get(k, ())]
            if not items:
                return ("token", pos)
        return None


_E = Earley()
STOP = {"te": {"<badav>", "<ifopen>", "<sptdef>", "<avclass>", "<avcommon>"}, "if": {"<badav>", "<header>", "<sptdef>", "<avclass>", "<avcommon>"},
        "spt": {"<badav>", "<header>", "<ifopen>", "<avclass>", "<avcommon>"}, "av": {"<badav>", "<header>", "<ifopen>", "<sptdef>"}}


def verdict(text, kind, toks=None):
    toks = lex(text) if toks is None else toks
    r = _E.run([t[0] for t in toks], STOP[kind])
    if r is None:
        return None
    if r[0] == "stop":
        return toks[r[1]][2], r[2]
    if r[1] == len(toks):
        return text.count("\n") + 1, "end of file"
    return toks[r[1]][2], toks[r[1]][1]


# ------------------------------------------------------------------ sentences
_MIN = {}


def _minimal():
    """shortest derivation length of every rule"""
    ch = True
    while ch:
        ch = False
        for n in PRODS:
            for p in PRODS[n]:
                try:
                    l = 1 + sum(_MIN[s] if s in PRODS else 1 for s in p)
                except KeyError:
                    continue
                if l < _MIN.get(n, 10 ** 9):
                    _MIN[n] = l
                    ch = True


_minimal()


def sentence(rng, start, budget):
    """A random sentence: list of kinds."""
    out = []
    left = [budget]

    def go(s):
        if s not in PRODS:
            out.append(s)
            left[0] -= 1
            return
        alts = PRODS[s]
        if s.endswith("+>") and len(alts) == 2:
            item = alts[0][0]
            k = 1
            while left[0] > 0 and k < 40 and rng.random() < (0.75 if s in ("<line+>", "<ifline+>", "<rline+>") else 0.35):
                go(item)
                k += 1
            go(item)
            return
        if left[0] <= 0:
            def cost(p):
                return sum(_MIN[x] if x in PRODS else 1 for x in p)
            m = min(cost(p) for p in alts)
            alts = [p for p in alts if cost(p) <= m + 1]
        for x in rng.choice(alts):
            go(x)
    go(start)
    return out


WORDS = ["a", "foo_t", "bar_t", "file", "dir", "read", "write", "self", "s0", "c0", "system_u", "object_r", "x", "$1", "$2_t", "$*", "/usr/lib", "my-name", "T1", "true", "false",
         "types_t", "interfaces", "typeattr", "dn", "foo_if", "foo_template", "a_perms", "read_file_perms", "$1_$2", "/", "$", "role_r", "allowed", "x-y*"]
ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
HEX = "0123456789abcdefABCDEF"


def _some(r, chars, lo, hi):
    return "".join(r.choice(chars) for _ in range(r.randint(lo, hi)))


def _word(r):
    return r.choice(ALNUM[:52] + "$/") + _some(r, ALNUM + "_$*/-", 0, r.choice([1, 3, 8, 30]))


def _groups(r, n):
    return ":".join(_some(r, HEX, 1, 4) for _ in range(n))


TEXT = {
    "STRING": lambda r: r.choice(WORDS) if r.random() < 0.8 else _word(r),
    "NUMSTR": lambda r: r.choice(["1000-1001", "0x10", "9p", "8a_t", "1$", "00-ff", "7/a"]) if r.random() < 0.7 else r.choice("0123456789") + _some(r, ALNUM + "_$*/-", 1, 8),
    "NUMBER": lambda r: r.choice(["0", "1", "42", "65535", "007"]) if r.random() < 0.8 else _some(r, "0123456789", 1, 12),
    "VERSION": lambda r: r.choice(["1.0", "1.2.3", "0.0", "10.20.30"]) if r.random() < 0.7 else ".".join(_some(r, "0123456789", 1, 5) for _ in range(r.choice([2, 3]))),
    "IPV4": lambda r: r.choice(["127.0.0.1", "255.255.255.255", "0.0.0.0"]) if r.random() < 0.6 else ".".join(_some(r, "0123456789", 1, 3) for _ in range(4)),
    "IPV6": lambda r: r.choice(["::1", "::", "fe80::", "ff00::", "1:2:3:4:5:6:7:8", "a::b:c", "2001:db8::ff"]) if r.random() < 0.3 else
        _groups(r, 8) if r.random() < 0.3 else _groups(r, r.randint(0, 7)) + "::" + _groups(r, r.randint(0, 7)),
    "QUOTED": lambda r: r.choice(['""', '"a"', '"a.b-c:d~$1"', '"file"']) if r.random() < 0.7 else '"' + _some(r, ALNUM + "_.-:~$", 0, 12) + '"',
    "FTS": lambda r: "-" + r.choice("-ldbcsp") + r.choice(" \t"),
    "COMMENT": lambda r: r.choice(["#", "# foo", "## <summary>", "#selint-disable", "# it's `quoted", "#\ttab", "#!x", "# a; b"]),
    "SELINT": lambda r: r.choice(["#selint-disable:W-001", "#selint-disable: W-001, C-005", "#selint-disable:E-1"]) if r.random() < 0.6 else
        "#selint-disable:" + r.choice(["", " "]) + r.choice([",", ", "]).join(r.choice("CSWEF") + "-" + _some(r, "0123456789", 1, 4) for _ in range(r.randint(1, 4))),
}
WORDCH = re.compile(r"[A-Za-z0-9_$*/.:\"-]")


def spell(rng, kinds, final=None):
    """Text for a list of kinds, in a random layout that does not change the tokens."""
    out = []
    style = rng.random()
    for i, k in enumerate(kinds):
        t = TEXT[k](rng) if k in TEXT else k
        ws = lambda: rng.choice([" ", " ", " ", "\t", "\n", "\n\n", "  \n\t", "\r\n", " dnl it's a comment;\n"]) if style < 0.6 else rng.choice([" ", " ", "\n"])
        if k in ("COMMENT", "SELINT"):
            out.append(rng.choice(["", " ", "\n"]) + t)
            out.append("\n" + ("" if rng.random() < 0.7 else ws()) if i + 1 < len(kinds) or rng.random() < 0.8 else "")
            if rng.random() < 0.7 and i:
                out[-2] = " " + t
            continue
        prev = out[-1] if out else ""
        need = bool(prev and WORDCH.match(prev[-1]) and WORDCH.match(t[0])) or (prev[-1:] in ("&", "|", "!", "=") and t[0] in "&|=!") or (prev[-1:] == "-" or t[0] == "-")
        if need or (k == "dnl"):
            out.append(ws())
        elif rng.random() < (0.3 if style < 0.8 else 0.05):
            out.append(ws())
        elif prev and k not in PUNCT and rng.random() < 0.5:
            out.append(" ")
        out.append(t)
        if k == ";" and rng.random() < 0.5:
            out.append("\n")
    s = "".join(out)
    r = rng.random()
    return s + ("\n" if r < 0.8 else "" if r < 0.9 else "\n\n \t\n")


def text(rng, start, budget=None):
    """Random text of a kind of file: te, if, spt or av."""
    for _ in range(20):
        ks = sentence(rng, "<%s>" % start, budget or rng.choice([10, 40, 120, 400]))
        if rng.random() < 0.3:
            ks = ["COMMENT"] * rng.randint(1, 3) + ks
        s = spell(rng, ks)
        if [t[0] for t in lex(s)] == ks:
            return s
    return "# nothing\n"
