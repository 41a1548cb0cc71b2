"""Reference AST: what the tool's documentation says a policy file consists of.

A Node corresponds to one statement / block.  The renderer (render.py) builds the tree
together with the text, so the model never parses anything.
"""


class Node:
    __slots__ = ("fl", "line", "d", "kids", "parent", "prev", "next", "exc")

    def __init__(self, fl, line, d=None, exc=None):
        self.fl = fl
        self.line = line
        self.d = d or {}
        self.kids = []
        self.parent = None
        self.prev = None
        self.next = None
        self.exc = exc or ()

    def add(self, n):
        n.parent = self
        if self.kids:
            n.prev = self.kids[-1]
            self.kids[-1].next = n
        self.kids.append(n)
        return n

    def __repr__(self):
        return "<%s@%s %r>" % (self.fl, self.line, self.d)


def preorder(nodes):
    for n in nodes:
        yield n
        if n.kids:
            yield from preorder(n.kids)


def names_in(n):
    """Identifiers a statement uses (exclusion marks removed)."""
    d = n.d
    fl = n.fl
    if fl in ("AV", "XAV"):
        r = d["src"] + d["tgt"]
    elif fl == "TT":
        r = d["src"] + d["tgt"] + [d["dflt"]]
    elif fl == "RT":
        r = d["src"] + d["tgt"] + [d["dflt"]]
    elif fl == "DECL":
        r = [d["name"]] + d["attrs"]
    elif fl == "IF_CALL":
        r = [a for a, _ in d["args"]]
    elif fl == "ROLE_ALLOW":
        r = d["src"] + d["tgt"]
    elif fl == "ROLE_TYPES":
        r = [d["name"]] + d["types"]
    elif fl in ("TYPE_ATTR", "ROLE_ATTR"):
        r = [d["name"]] + d["attrs"]
    elif fl in ("ALIAS", "TYPE_ALIAS", "PERMISSIVE"):
        r = [d["name"]]
    else:
        r = []
    return [x[1:] if x.startswith("-") else x for x in r]


REQ = ("GEN_REQ", "REQUIRE")
DEFS = ("INTERFACE", "TEMPLATE")


def in_require(n):
    p = n.parent
    while p is not None:
        if p.fl in REQ:
            return True
        p = p.parent
    return False


def enclosing_def(n):
    p = n.parent
    while p is not None:
        if p.fl in DEFS:
            return p
        p = p.parent
    return None
