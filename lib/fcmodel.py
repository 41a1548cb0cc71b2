"""Reference model of the file context checks.

fc files are lists of line dicts built by the generator:
  {"k": "skip", "text": ...}                       not an entry (comment, blank, m4 construct, custom macro)
  {"k": "bad", "text": ...}                        malformed
  {"k": "custom", "macro": ..., "text": ...}       use of a macro: not an entry if configured, malformed otherwise
  {"k": "entry", "path", "obj", "ctx", "gen", "text"}
     ctx: None (<<none>>) or (user, role, type, range or None)
"""


from perms import All


def fc_findings(pol, f):
    out = []
    base = f["name"]
    gen = pol.cfg.skip_gen and (base in ("base.fc", "all_mods.fc") or base.endswith(".mod.fc"))
    for i, l in enumerate(f["lines"]):
        n = i + 1
        if l["k"] == "skip" or (l["k"] == "custom" and l["macro"] in pol.cfg.custom_fc_macros):
            continue
        if l["k"] in ("bad", "custom"):
            out.append((base, n, "E-002", None))
            continue
        if l["ctx"] is None:
            continue
        user, role, typ, rng = l["ctx"]
        m = pol.decl["type"].get(typ)
        if m is None:
            out.append((base, n, "E-005", All((typ,))))
        elif m != f["mod"] and not gen:
            out.append((base, n, "S-002", All((typ, m))))
        if pol.decl["user"].get(user) is None:
            out.append((base, n, "E-003", All((user,))))
        if pol.decl["role"].get(role) is None:
            out.append((base, n, "E-004", All((role,))))
        if l["gen"] and rng is None:
            out.append((base, n, "S-007", None))
        r = regex_issue(l["path"])
        if r:
            out.append((base, n, "W-004", "'%s' at position %d" % r))
    return out


def regex_issue(path):
    """First unescaped regular expression character: (char, position from 1) or None.

    Inside a bracket group nothing needs escaping; a period is fine when escaped or repeated; a
    repetition is fine when escaped or applied to a period or a group.
    """
    i = 0
    prev = ""
    n = len(path)
    while i < n:
        c = path[i]
        nxt = path[i + 1:i + 2]
        if c == "[" and prev != "\\":
            while i < n and not (path[i] == "]" and prev != "\\"):
                prev = path[i]
                i += 1
            # the closing bracket is looked at next
            if i < n:
                prev = "]"
                i += 1
            continue
        if c == "." and prev != "\\" and nxt not in ("*", "+", "?"):
            return c, i + 1
        if c in "+*" and prev not in ("\\", ".", "]", ")"):
            return c, i + 1
        prev = c
        i += 1
    return None
