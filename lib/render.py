"""Renders statement objects to policy text and builds the reference AST with line numbers.

The statement objects are layout free; Layout decides white space, comments, blank lines and
where statements are split.  The line recorded for a statement is the line of its first token.
"""
from nodes import Node


class S:
    """A statement: kind plus fields."""

    def __init__(self, k, **f):
        self.k = k
        self.exc = f.pop("exc", ())       # suppression list at end / block opening
        self.exc_style = f.pop("exc_style", 0)
        self.__dict__.update(f)

    def __repr__(self):
        return "S(%s)" % self.__dict__


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$*/-\"")

COMMENTS = [
    "#", "# comment", "## <summary>a doc comment</summary>", "#########", "# allow a_t b_t:file read;",
    "#selint disable:C-001", "# selint-disable:C-001", "#selint-disable: X-001",
    "#selint-disable:C-001 because", "#selint-disable C-001", "# don't `quote' this, ok?",
    "# type evil_t;", "#\ttabs\tinside", "# policy_module(evil, 1.0)", "#selint-disable:", "#selint-enable:C-001",
    "#SELINT-DISABLE:S-003",
]


def a_comment(r):
    """A comment; some are nearly disable comments."""
    if r.random() < 0.6:
        return r.choice(COMMENTS)
    ids = ["W-001", "W-002", "C-005", "W-010", "S-009", "S-010", "W-003", "W-005", "W-006", "W-011", "C-006", "E-007", "S-003", "S-005", "C-001", "S-001", "E-008", "C-007"]
    a, b = r.choice(ids), r.choice(ids)
    return r.choice([
        "#selint-disable:%s %s" % (a, b), "#selint-disable:%s,,%s" % (a, b), "#selint-disable:%s;" % a, "#selint-disable :%s" % a, "#Selint-disable:%s" % a,
        "##selint-disable:%s" % a, "#selint-disable:  %s" % a, "#selint-disable:%s,  %s" % (a, b), "#selint-disable:%s ,%s" % (a, b), "#selint-disable:%s" % a.lower(),
        "#selint-disable:\t%s" % a, "#selint-disable:%s," % a, "#selint-disable:%s " % a, "#selint-disable:%s." % a, "#selint-disable:%s # why" % a, "#selint_disable:%s" % a,
        "#selint-disable;%s" % a, "#selint-disable:,%s" % a, "# selint-disable: %s" % a, "#selint-disable:%s and %s" % (a, b), "#selint-disable:(%s)" % a,
        "#selint-disable:%s:%s" % (a, b), "#selint-disable:%s%s" % (a, b), "#selint-disable:%s" % a.replace("-", ""), "#selint-disables:%s" % a, "#selint-disable=%s" % a,
        "# #selint-disable:%s" % a, "#x selint-disable:%s" % a, "#selint-disable:X%s" % a, "#selint-disable: %s -- %s" % (a, b)])


DNL = ["dnl", "dnl a comment", "dnl type evil_t;", "dnl ') } ,", "dnl # x"]


class Layout:
    def __init__(self, rng=None, split=0.0, blank=0.0, comment=0.0, dnl=0.0, trail=0.0,
                 join=0.0, crlf=False, longline=0.0, indent=0, spaces=0.0, final_newline=True, huge=0):
        self.rng = rng
        self.split = split
        self.blank = blank
        self.comment = comment
        self.dnl = dnl
        self.trail = trail
        self.join = join
        self.crlf = crlf
        self.longline = longline
        self.indent = indent
        self.spaces = spaces
        self.final_newline = final_newline
        self.huge = huge           # blank lines to insert somewhere

    @staticmethod
    def plain():
        return Layout()

    @staticmethod
    def random(rng):
        c = rng.random()
        if c < 0.25:
            return Layout(rng, indent=rng.choice([0, 1, 2]))
        if c < 0.35:
            return Layout(rng, split=0.5, spaces=0.4, blank=0.3, comment=0.3, dnl=0.1, trail=0.3,
                          indent=rng.choice([0, 1, 2]))
        return Layout(rng, split=rng.choice([0, 0, 0.05, 0.2]), blank=rng.choice([0, 0.1, 0.4]),
                      comment=rng.choice([0, 0.1, 0.4]), dnl=rng.choice([0, 0, 0.05]),
                      trail=rng.choice([0, 0.2]), join=rng.choice([0, 0, 0.1]),
                      crlf=rng.random() < 0.06, longline=rng.choice([0, 0, 0, 0.003]),
                      indent=rng.choice([0, 1, 2]), spaces=rng.choice([0, 0.1]),
                      final_newline=rng.random() > 0.08)


class Writer:
    def __init__(self, lay):
        self.lay = lay
        self.out = []
        self.line = 1
        self.last = "\n"       # last character written
        self.depth = 0
        self.at_stmt_start = True
        self.nolay = False     # no splitting inside (used where the language is line sensitive)

    def raw(self, t):
        if not t:
            return
        self.out.append(t)
        self.line += t.count("\n")
        self.last = t[-1]

    def nl(self):
        self.raw("\r\n" if self.lay.crlf else "\n")

    def _gap(self, need):
        lay = self.lay
        r = lay.rng
        if self.last == "\n":
            need = False
            if lay.indent:
                self.raw(("\t" * self.depth) if lay.indent == 1 else ("    " * self.depth))
        if r is None or self.nolay:
            if need:
                self.raw(" ")
            return
        if not self.at_stmt_start:
            if lay.split and r.random() < lay.split:
                k = r.random()
                if k < lay.dnl and self.last != "\n":
                    self.raw(" " + r.choice(DNL))
                    self.nl()
                else:
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        self.nl()
                self.raw(r.choice(["", "\t", "  ", "      "]))
                return
            if lay.longline and r.random() < lay.longline:
                self.raw(" " * r.choice([500, 8000, 8190, 8192, 8193, 16384, 20000]))
                return
        if lay.spaces and r.random() < lay.spaces:
            self.raw(r.choice([" ", "  ", "\t", " \t "]))
        elif need:
            self.raw(" ")

    def tok(self, *toks, nice=True):
        """Emit tokens of one statement."""
        first_line = None
        for t in toks:
            need = self.last in WORD and t[0] in WORD
            if not need and nice and t[0] in WORD and self.last not in "(`\n \t{:,~":
                need = True
            if not need and self.last == "{" or t == "}":
                need = True
            if not need and self.last == "," and t[0] in WORD:
                need = True
            self._gap(need)
            if first_line is None:
                first_line = self.line
            self.raw(t)
            self.at_stmt_start = False
        return first_line

    def text(self):
        return "".join(self.out)

    # --- between statements
    def between(self):
        """Called where comments and blank lines are allowed (not inside a statement)."""
        lay = self.lay
        r = lay.rng
        self.at_stmt_start = True
        if r is None:
            return
        if lay.huge and r.random() < 0.1:
            if self.last != "\n":
                self.nl()
            self.raw("\n" * lay.huge)
            lay.huge = 0
        while lay.blank and r.random() < lay.blank:
            if self.last != "\n":
                self.nl()
            self.raw(r.choice(["", "", " ", "\t"]))
            self.nl()
        if lay.dnl and r.random() < lay.dnl:
            if self.last != "\n":
                self.nl()
            self.raw(r.choice(DNL))
            self.nl()

    def comment_here(self):
        lay = self.lay
        r = lay.rng
        if r is not None and lay.comment and r.random() < lay.comment:
            if self.last != "\n":
                self.nl()
            self._ind()
            self.raw(a_comment(r))
            self.nl()

    def _ind(self):
        if self.last == "\n" and self.lay.indent:
            self.raw("\t" * self.depth if self.lay.indent == 1 else "    " * self.depth)

    def end_stmt(self, s=None, comment_ok=True, exc_ok=True):
        """End of a statement: optional disable comment / trailing comment, newline."""
        lay = self.lay
        r = lay.rng
        self.at_stmt_start = True
        if s is not None and s.exc and exc_ok:
            self.disable(s)
            return
        if r is not None and comment_ok and lay.trail and r.random() < lay.trail:
            self.raw(" " + a_comment(r))
            self.nl()
            return
        if r is not None and lay.join and r.random() < lay.join and self.last not in WORD:
            self.raw(" ")
            return
        self.nl()

    def disable(self, s):
        st = s.exc_style
        sep = ", " if st & 2 else ","
        t = "#selint-disable:" + (" " if st & 1 else "") + sep.join(s.exc)
        if self.last == "\n":
            raise AssertionError("disable comment must follow a token")
        self.raw(" " if not st & 4 else "")
        self.raw(t)
        self.raw("\n")


def sl_tokens(sl):
    """String list -> tokens.  A list is ['a','-b'] / ['~','a','b'] / ['*']"""
    if sl == ["*"]:
        return ["*"]
    if sl and sl[0] == "~":
        return ["~"] + sl_tokens_plain(sl[1:])
    return sl_tokens_plain(sl)


def sl_tokens_plain(sl, braces=False):
    if len(sl) == 1 and not braces:
        return [sl[0]]
    return ["{"] + list(sl) + ["}"]


def comma(names):
    out = []
    for i, n in enumerate(names):
        if i:
            out.append(",")
        out.append(n)
    return out


class Builder:
    """Mirrors statements into Nodes while writing them."""

    def __init__(self, lay, filename):
        self.w = Writer(lay)
        self.fn = filename
        self.root = Node("FILE", 0)
        self.cur = self.root

    def node(self, fl, line, exc=(), **d):
        n = Node(fl, line, d, exc)
        self.cur.add(n)
        return n

    def begin(self, fl, line, exc=(), **d):
        n = self.node(fl, line, exc, **d)
        self.cur = n
        n.add(Node("START", line))
        self.w.depth += 1
        return n

    def end(self):
        self.cur = self.cur.parent
        self.w.depth -= 1

    # ------------------------------------------------------------------ statements
    def stmts(self, body, force=False):
        w = self.w
        for s in body:
            w.between()
            w.comment_here()
            if s.exc and w.last != "\n":
                w.nl()              # a disable comment is about everything that begins on its line
            getattr(self, "r_" + s.k)(s)
        w.between()
        if body:
            w.comment_here()

    def _simple(self, s, toks, fl=None, **d):
        line = self.w.tok(*toks)
        n = None
        if fl:
            n = self.node(fl, line, s.exc, **d)
        self.w.end_stmt(s)
        return n

    def r_decl(self, s):
        kw = {"type": "type", "attribute": "attribute", "role": "role",
              "attribute_role": "attribute_role", "bool": "bool"}[s.flavor]
        toks = [kw, s.name]
        if s.flavor == "type":
            if getattr(s, "aliases", None):
                toks += ["alias"] + sl_tokens(s.aliases)
            if s.attrs:
                toks += [","] + comma(s.attrs)
        toks.append(";")
        line = self.w.tok(*toks)
        n = self.node("DECL", line, s.exc, flavor=s.flavor, name=s.name, attrs=list(s.attrs) if s.flavor == "type" else [])
        for a in getattr(s, "aliases", None) or []:
            n.add(Node("ALIAS", line, {"name": a}, s.exc))
        self.w.end_stmt(s)

    def r_boolmacro(self, s):
        if s.tunable and s.quoted:
            toks = ["gen_tunable", "(", "`", s.name, "'", ",", s.val, ")"]
        elif s.tunable:
            toks = ["gen_tunable", "(", s.name, ",", s.val, ")"]
        else:
            toks = ["gen_bool", "(", s.name, ",", s.val, ")"]
        self._simple(s, toks, "DECL", flavor="bool", name=s.name, attrs=[])

    def r_classdecl(self, s):
        self._simple(s, ["class", s.name] + sl_tokens_plain(s.perms, braces=getattr(s, "braces", True)) + [";"],
                     "DECL", flavor="class", name=s.name, attrs=list(s.perms))

    def r_av(self, s):
        toks = [s.flavor] + sl_tokens(s.src) + sl_tokens(s.tgt) + [":"] + sl_tokens(s.cls) + sl_tokens(s.perms) + [";"]
        self._simple(s, toks, "AV", flavor=s.flavor, src=list(s.src), tgt=list(s.tgt), cls=list(s.cls), perms=list(s.perms))

    def r_xav(self, s):
        p = s.perms
        pt = (["~"] + (["{"] + p[1:] + ["}"] if len(p) > 2 else [p[1]])) if p[0] == "~" else \
            (["{"] + p + ["}"] if len(p) > 1 else [p[0]])
        toks = [s.flavor + "xperm"] + sl_tokens(s.src) + sl_tokens(s.tgt) + [":"] + sl_tokens(s.cls) + ["ioctl"] + pt + [";"]
        self._simple(s, toks, "XAV", flavor=s.flavor, src=list(s.src), tgt=list(s.tgt), cls=list(s.cls), perms=list(p))

    def r_roleallow(self, s):
        self._simple(s, ["allow"] + sl_tokens(s.src) + sl_tokens(s.tgt) + [";"], "ROLE_ALLOW", src=list(s.src), tgt=list(s.tgt))

    def r_roletypes(self, s):
        self._simple(s, ["role", s.name, "types"] + sl_tokens(s.types) + [";"], "ROLE_TYPES", name=s.name, types=list(s.types))

    def r_tt(self, s):
        kw = {"tt": "type_transition", "tm": "type_member", "tc": "type_change", "rt": "range_transition"}[s.flavor]
        toks = [kw] + sl_tokens(s.src) + sl_tokens(s.tgt) + [":"] + sl_tokens(s.cls)
        if s.flavor == "rt":
            toks += s.dflt_tokens
        else:
            toks += [s.dflt]
        if s.flavor == "tt" and s.fname:
            toks.append('"%s"' % s.fname)
        toks.append(";")
        self._simple(s, toks, "TT", flavor=s.flavor, src=list(s.src), tgt=list(s.tgt), cls=list(s.cls), dflt=s.dflt)

    def r_roletrans(self, s):
        toks = ["role_transition"] + sl_tokens(s.src) + sl_tokens(s.tgt)
        if s.cls:
            toks += [":"] + sl_tokens(s.cls)
        toks += [s.dflt, ";"]
        self._simple(s, toks, "RT", src=list(s.src), tgt=list(s.tgt), cls=list(s.cls or []), dflt=s.dflt)

    def r_typealias(self, s):
        line = self.w.tok(*(["typealias", s.name, "alias"] + sl_tokens(s.aliases) + [";"]))
        n = self.node("TYPE_ALIAS", line, s.exc, name=s.name)
        for a in s.aliases:
            n.add(Node("ALIAS", line, {"name": a}, s.exc))
        self.w.end_stmt(s)

    def r_typeattr(self, s):
        self._simple(s, ["typeattribute", s.name] + comma(s.attrs) + [";"], "TYPE_ATTR", name=s.name, attrs=list(s.attrs))

    def r_roleattr(self, s):
        self._simple(s, ["roleattribute", s.name] + comma(s.attrs) + [";"], "ROLE_ATTR", name=s.name, attrs=list(s.attrs))

    def r_permissive(self, s):
        self._simple(s, ["permissive", s.name, ";"], "PERMISSIVE", name=s.name)

    def r_semicolon(self, s):
        self._simple(s, [";"], "SEMICOLON")

    def r_word(self, s):
        self._simple(s, [s.name], "WORD", name=s.name)

    def r_raw(self, s):
        """Statements without a node of their own (contexts, typebounds, warnings)."""
        line = self.w.tok(*s.toks)
        self.w.end_stmt(None)

    def r_comment(self, s):
        if self.w.last != "\n":
            self.w.nl()
        self.w._ind()
        self.w.raw(s.text)
        self.w.nl()

    def r_define(self, s):
        toks = ["define", "("] + (["`", s.name, "'"] if s.quoted else [s.name])
        if s.body is not None:
            toks += [",", "`"] + s.body + ["'"]
        toks += [")"]
        line = self.w.tok("define", "(")
        self.w.tok(*toks[2:])
        n = self.begin("DEFINE", line, s.exc)
        self.end()
        self.w.end_stmt(s)

    def r_call(self, s):
        toks = [s.name, "("]
        stored = []
        for i, a in enumerate(s.args):
            if i:
                toks.append(",")
            t, st = arg_tokens(a)
            toks += t
            stored += st
        toks.append(")")
        self._simple(s, toks, "IF_CALL", name=s.name, args=stored, nargs=len(s.args))

    # ---- blocks
    def _open_exc(self, s):
        if s.exc:
            self.w.disable(s)
        else:
            self.w.end_stmt(None)

    def r_optional(self, s):
        w = self.w
        line = w.tok("optional_policy", "(", "`")
        self.begin("OPTIONAL", line, s.exc)
        self._open_exc(s)
        self.stmts(s.body)
        if not s.body and s.els is not None:
            raise AssertionError("optional with else needs a body")
        self.end()
        if s.els is None:
            self._close("'", ")")
            w.end_stmt(None)
        else:
            self._close("'", ",")
            line = w.tok("`")
            self.begin("OPTIONAL_ELSE", line)
            w.end_stmt(None)
            self.stmts(s.els)
            self.end()
            self._close("'", ")")
            w.end_stmt(None)

    def _close(self, *toks):
        self.w.at_stmt_start = True
        self.w.tok(*toks, nice=False)

    def r_genreq(self, s):
        w = self.w
        line = w.tok("gen_require", "(")
        n = self.begin("GEN_REQ", line, s.exc, unquoted=not s.quoted)
        if s.quoted:
            if s.exc and s.exc_style & 8:
                w.disable(s)
                w.tok("`")
                w.end_stmt(None)
            else:
                w.tok("`")
                if s.exc:
                    w.disable(s)
                else:
                    w.end_stmt(None)
        else:
            self._open_exc(s)
        self.stmts(s.body)
        self.end()
        self._close(*(["'", ")"] if s.quoted else [")"]))
        w.end_stmt(None)

    def r_require(self, s):
        w = self.w
        line = w.tok("require")
        w.nolay = True
        w.tok("{")
        w.nolay = False
        self.begin("REQUIRE", line, s.exc)
        self._open_exc(s)
        self.stmts(s.body)
        self.end()
        self._close("}")
        w.end_stmt(None)

    def r_reqdecl(self, s):
        w = self.w
        if s.flavor == "class":
            line = w.tok(*(["class", s.names[0]] + sl_tokens_plain(s.perms, braces=getattr(s, "braces", True)) + [";"]))
            self.node("DECL", line, s.exc, flavor="class", name=s.names[0], attrs=list(s.perms))
        else:
            line = w.tok(*([s.flavor] + comma(s.names) + [";"]))
            for n in s.names:
                self.node("DECL", line, s.exc, flavor=s.flavor, name=n, attrs=[])
        w.end_stmt(s)

    def r_reqifdef(self, s):
        w = self.w
        toks = [s.kw, "(", "`", s.name, "'", ","] + (["`"] if s.quoted else [])
        line = w.tok(*toks)
        self.begin("IFDEF", line)
        w.end_stmt(None)
        self.stmts(s.body)
        self.end()
        self._close(*(["'", ")"] if s.quoted else [")"]))
        w.end_stmt(None)

    def _m4args(self, args):
        """args: list of None (empty) | ('word', w) | list of statements ([] -> `' )"""
        w = self.w
        for i, a in enumerate(args):
            if i:
                self._close(",")
            self.begin("M4_ARG", w.line)
            if a is None:
                pass
            elif isinstance(a, tuple):
                w.tok(a[1])
            else:
                w.tok("`")
                if len(a) == 1 and a[0].k == "word" and not a[0].exc:
                    line = w.tok(a[0].name)
                    self.node("WORD", line, (), name=a[0].name)
                elif a:
                    w.end_stmt(None)
                    self.stmts(a)
                self._close("'")
            self.end()

    def r_ifdef(self, s):
        w = self.w
        w.tok(s.kw, "(", "`", s.name, "'", ",")
        self.begin("IFDEF", w.line)
        self._m4args(s.args)
        self.end()
        self._close(")")
        w.end_stmt(None)

    def r_ifelse(self, s):
        w = self.w
        w.tok("ifelse", "(")
        self.begin("IFELSE", w.line)
        self._m4args(s.args)
        self.end()
        self._close(")")
        w.end_stmt(None)

    def r_tunable(self, s):
        w = self.w
        w.tok(*(["tunable_policy", "("] + (["`"] if s.quoted else [])))
        self.begin("TUNABLE", w.line)
        w.tok(*s.cond)
        w.tok(*((["'"] if s.quoted else []) + [","]))
        self._m4args(s.args)
        self.end()
        self._close(")")
        w.end_stmt(None)

    def r_boolean(self, s):
        w = self.w
        line = w.tok("if", "(")
        self.begin("BOOLEAN", line)
        w.tok(*s.cond)
        w.tok(")", "{")
        w.end_stmt(None)
        self.stmts(s.body)
        if s.els is not None:
            self._close("}")
            w.tok("else", "{")
            w.end_stmt(None)
            self.stmts(s.els)
        self.end()
        self._close("}")
        w.end_stmt(None)

    def r_userdebug(self, s):
        w = self.w
        w.tok("userdebug_or_eng", "(", "`")
        w.end_stmt(None)
        self.stmts(s.body)
        self._close("'", ")")
        w.end_stmt(None)

    # ---- files
    def te_file(self, f):
        w = self.w
        for c in f.get("lead", []):
            self.node("COMMENT", w.line)
            w.raw(c)
            w.nl()
        w.between()
        if f["bare"]:
            line = w.tok("module", f["header"], f["version"], ";")
            self.node("HEADER", line, (), name=f["header"], bare=True)
        else:
            line = w.tok("policy_module", "(", f["header"], ",", f["version"], ")")
            self.node("HEADER", line, (), name=f["header"], bare=False)
        w.end_stmt(None)
        self.stmts(f["body"])
        return self._finish()

    def if_file(self, f):
        """f['items']: list of ('comment', text) | S(interface)"""
        w = self.w
        for it in f["items"]:
            w.between()
            if it.k == "comment":
                if w.last != "\n":
                    w.nl()
                self.node("COMMENT", w.line)
                w.raw(it.text)
                w.nl()
            else:
                line = w.tok(it.kind, "(", "`", it.name, "'", ",", "`")
                self.begin("INTERFACE" if it.kind == "interface" else "TEMPLATE", line, it.exc, name=it.name)
                self._open_exc(it)
                self.stmts(it.body)
                self.end()
                self._close("'", ")")
                # a comment after the definition would be a node: none here
                w.nl()
        return self._finish()

    def _finish(self):
        t = self.w.text()
        lay = self.w.lay
        if not lay.final_newline and t.endswith("\n"):
            # the last token must not be a disable comment (needs its newline)
            last = t.rstrip("\r\n").rsplit("\n", 1)[-1]
            if "#selint-disable" not in last and "dnl" not in last and "#" not in last:
                t = t.rstrip("\r\n")
        return t, self.root


def arg_tokens(a):
    """argument -> (tokens, [(stored string, has_space)])"""
    k = a[0]
    if k == "w":
        return [a[1]], [(a[1], False)]
    if k == "q":
        return ['"%s"' % a[1]], [('"%s"' % a[1], False)]
    if k == "l":      # { a b }
        return ["{"] + list(a[1]) + ["}"], [(x, False) for x in a[1]]
    if k == "~":
        if len(a[1]) == 1:
            return ["~", a[1][0]], [("~", False), (a[1][0], False)]
        return ["~", "{"] + list(a[1]) + ["}"], [("~", False)] + [(x, False) for x in a[1]]
    if k == "b":      # `a b'
        return ["`"] + list(a[1]) + ["'"], [(x, False) for x in a[1]] if a[1] else [("", False)]
    if k == "s":      # a b c   (unquoted spaces)
        return list(a[1]), [(a[1][0], False)] + [(x, True) for x in a[1][1:]]
    raise AssertionError(k)
