"""Damaged policy files."""
import re

TOK = re.compile(r"dnl[^\n]*|#[^\n]*|\"[^\"\n]*\"|[A-Za-z0-9_$/.*-]+|\s+|.", re.S)
JUNK = ["{", "}", "(", ")", "`", "'", ";", ":", ",", "~", "*", "-", "|", "&&", "||", "!", "==", "\"", "\"abc\"", "allow", "type", "optional_policy(`", "')", "if", "else",
        "interface(`x',`", "template(`y',`", "gen_require(`", "require {", "ifdef(`a',`", "ifelse(`a',`b',`", "define(`a',`b')", "attribute", "role", "bool", "0x1", "10.0.0.1", "::1",
        "genfscon", "portcon", "range_transition", "type_transition", "x y", "$1", "$*", "s0 - s1:c0.c3", "policy_module(a, 1)", "module a 1;", "refpolicywarn(`x')", "gen_tunable(a, false)",
        "#selint-disable:W-001\n", "# c\n", "dnl x\n", "\x00", "\xff", "\x80\x81", "\r", "\t", "@", "%", "^", "=", "<", ">", "?", "\\", "[", "]", "and", "or", "not", "xor", "eq", "sensitivity",
        "class a", "sid a", "user", "constrain", "typealias a alias b;", "permissive", "tunable_policy(`", "boolean", "userdebug_or_eng(`", "neverallow", "allowxperm", "dominance", "9" * 50]


def tokens(text):
    return [t for t in TOK.findall(text) if t]


def damage(rng, text, n=None):
    """text with n random changes of tokens, characters or lines."""
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 8])):
        k = rng.random()
        if k < 0.7:
            t = tokens(text)
            idx = [i for i, x in enumerate(t) if not x.isspace()] or [0]
            if not t:
                return rng.choice(JUNK)
            i = rng.choice(idx)
            j = rng.choice(idx)
            op = rng.randrange(7)
            if op == 0:
                del t[i]
            elif op == 1:
                t.insert(i, t[j])
            elif op == 2:
                t[i] = t[j]
            elif op == 3:
                t[i], t[j] = t[j], t[i]
            elif op == 4:
                t.insert(i, rng.choice(JUNK) + rng.choice(["", " ", "\n"]))
            elif op == 5:
                t[i] = rng.choice(JUNK)
            else:
                a, b = sorted((i, min(len(t), i + rng.randint(1, 12))))
                if rng.random() < 0.5:
                    del t[a:b]
                else:
                    t[j:j] = t[a:b]
            text = "".join(t)
        elif k < 0.8:
            text = text[:rng.randint(0, len(text))]
        elif k < 0.9 and text:
            i = rng.randrange(len(text))
            text = text[:i] + rng.choice([chr(rng.randrange(256)), "", "\n", "'", "`", "x" * rng.choice([1, 300, 5000])]) + text[i + rng.randint(0, 1):]
        else:
            l = text.split("\n")
            i, j = rng.randrange(len(l)), rng.randrange(len(l))
            l[i:i + rng.randint(0, 3)] = l[j:j + rng.randint(0, 3)]
            text = "\n".join(l)
        if len(text) > 400000:
            text = text[:400000]
    return text
