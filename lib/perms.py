"""Reference model of the permission macro checks (S-009 and S-010)."""

BASE = ["ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom", "relabelto", "append",
        "map", "unlink", "link", "rename", "execute", "mounton", "open", "watch", "add_name", "remove_name",
        "reparent", "search", "rmdir", "execute_no_trans", "entrypoint"]
# What a permission reasonably brings along
EXT = {
    "ioctl": [], "getattr": [],
    "read": ["ioctl", "getattr", "search", "lock"],
    "lock": ["getattr"],
    "append": ["getattr"],
    "write": ["ioctl", "getattr", "append", "lock"],
    "create": ["getattr", "link"],
    "setattr": ["getattr"],
    "map": ["ioctl", "getattr"],
    "unlink": ["getattr", "rmdir"],
    "link": ["getattr"],
    "rename": ["getattr"],
    "open": ["getattr"],
    "execute": ["read", "getattr", "map"],
    "relabelfrom": ["getattr"], "relabelto": ["getattr"], "mounton": ["getattr"],
    "watch": ["read"],
    "add_name": ["write", "ioctl", "getattr", "append", "lock"],
    "remove_name": ["write", "ioctl", "getattr", "append", "lock"],
    "reparent": ["getattr"], "search": ["getattr"],
    "rmdir": ["unlink", "getattr"],
    "execute_no_trans": ["execute", "read", "getattr", "map"],
    "entrypoint": [],
}
CATS = {"dir": ["_dir_perms"], "lnk_file": ["_lnk_file_perms"], "chr_file": ["_chr_file_perms", "_term_perms"],
        "blk_file": ["_blk_file_perms"], "sock_file": ["_sock_file_perms"], "fifo_file": ["_fifo_file_perms"],
        "file": ["_file_perms"]}
SPECIAL = ["lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"]
ALIAS = {"chr_file": "term", "process": "signal"}
UNCOVERED = "?"


class Maybe(tuple):
    """Symbol of a finding that may also be left out."""


class All(tuple):
    """Symbol: every one of these names stands in the message as a word of its own."""


class PermModel:
    def __init__(self, macros):
        self.macros = macros            # name -> list of strings
        self.by_class = {c: [] for c in CATS}
        for name in macros:
            raw, _ = self.masks([name])
            if UNCOVERED in raw:
                continue
            c = self.category(name)
            if c:
                self.by_class[c].append((name, raw))

    @staticmethod
    def category(name):
        for c in ("dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file", "file"):
            if any(name.endswith(s) for s in CATS[c]):
                return c
        return None

    def masks(self, perms, seen=()):
        raw, ext = set(), set()
        for p in perms:
            if p in EXT:
                raw.add(p)
                ext.add(p)
                ext.update(EXT[p])
            elif p in self.macros and p not in seen:
                r, e = self.masks(self.macros[p], seen + (p,))
                raw |= r
                ext |= e
            else:                       # unknown, or a macro referring to itself
                raw.add(UNCOVERED)
                ext.add(UNCOVERED)
        return raw, ext

    def suggest(self, cls, perms):
        """The set of acceptable suggestions (macro names), or None.

        Several macros may be equally good; any of them may be suggested.  A macro that is
        already used among the equally good ones makes silence acceptable as well.
        """
        c = self.candidates(cls, perms)
        if not c:
            return None
        names = [n for n, _ in c]
        if all(n in perms for n in names):
            return None
        if any(n in perms for n in names):
            return Maybe(sorted(names))
        if len(names) == 1:
            return names[0]
        return tuple(sorted(names))

    def candidates(self, cls, perms):
        if cls not in self.by_class:
            return []
        raw, ext = self.masks(perms)
        if len(raw - {UNCOVERED}) < 2:
            return []
        ext = set(ext)
        if ext & {"create", "write"}:
            ext |= {"setattr", "getattr"}
        if ext & {"create", "unlink"}:
            ext |= {"rename", "getattr", "reparent"}
        best = []
        key = None
        for name, m in self.by_class[cls]:
            if m - ext:
                continue
            cov = len(m & raw)
            if cov < 2 or len(self.matched(perms, m & raw)) < 2:
                continue
            k = (cov, -len(m - raw))
            if key is None or k > key:
                key, best = k, [(name, m)]
            elif k == key:
                best.append((name, m))
        return best

    def matched(self, perms, mask):
        return [p for p in perms if self.masks([p])[0] <= mask]

    def message(self, name, perms):
        raw, _ = self.masks(perms)
        m, _ = self.masks([name])
        add = [p for p in BASE if p in m - raw]
        return "Suggesting permission macro: %s (replacing { %s }, would add %s)" % (
            name, " ".join(self.matched(perms, m & raw)), "{ %s }" % " ".join(add) if add else "(none)")

    # S-009
    def mismatch(self, cls, perms):
        if cls[0].endswith("_class_set"):
            return None
        netlink = all(c.startswith("netlink_") for c in cls)
        sock = all(c.endswith("_socket") for c in cls)
        for p in perms:
            if not p.endswith("_perms"):
                continue
            stem = p[:-len("_perms")]

            def fits(c):
                return stem.endswith(c) or (c in ALIAS and stem.endswith(ALIAS[c]))

            if all(fits(c) for c in cls):
                if "file" in cls and any(stem.endswith(s) for s in SPECIAL):
                    return p
                continue
            if netlink and p.endswith("_socket_perms"):
                continue
            if sock and not netlink and p.endswith("_socket_perms") and not p.endswith("netlink_socket_perms"):
                continue
            return p
        return None
