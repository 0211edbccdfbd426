"""rules as data, and what their text means; used by the searches on grammars. A constituent is
('word', text, optional) | ('cat', name, args, optional) | ('regexp', text) | ('sep',) | ('osep',)"""


def quote(w, q="'"):
    return q + w.replace(q, "\\" + q) + q


def syn(cat, args, cons, rng):
    """the text of a rule; between two constituents there is either a separator (a space), an optional one (~) or nothing (+)"""
    out = f"{cat}({', '.join(args)}) ->" if args or rng.random() < .9 else f"{cat}() ->"
    for c in cons:
        if c[0] == "sep":
            out += " "
        elif c[0] == "osep":
            out += " ~ "
        elif c[0] == "glue":
            out += " + "
        elif c[0] == "word":
            out += " " + quote(c[1], rng.choice("'\"") if '"' not in c[1] and "'" not in c[1] else ("'" if '"' in c[1] else '"')) + ("?" if c[2] else "")
        elif c[0] == "regexp":
            out += " /" + c[1].replace("/", "\\/") + "/"
        else:
            out += f" {c[1]}({', '.join(c[2])})" + ("?" if c[3] else "")
    return out


def plain(cons):
    """as (text or category, args, kind, optional, separator)"""
    out = []
    for c in cons:
        if c[0] == "sep":
            out.append((" ", (), "word-form", False, True))
        elif c[0] == "osep":
            out.append((" ", (), "word-form", True, True))
        elif c[0] == "word":
            out.append((c[1], (), "word-form", c[2], False))
        elif c[0] == "regexp":
            out.append((c[1], (), "reg-exp", False, False))
        elif c[0] == "cat":
            out.append((c[1], tuple(c[2]), "relation", c[3], False))
    return out


def view(c):
    return (c.predicate, tuple(c.arguments), c.position_type, bool(c.optional), bool(c.separator))


def variants(cons):
    """cons: views. Choices from left to right; each choice splits what there is so far in: with (first), and without"""
    groups, i = [], 0
    while i < len(cons):
        c, n = cons[i], cons[i + 1] if i + 1 < len(cons) else None
        if i == 0 and c[3] and not c[4] and n and n[4]:
            groups.append(([c, n], True))
            i += 2
        elif c[4] and n and n[3] and not n[4]:
            groups.append(([c, n], True))
            i += 2
        else:
            groups.append(([c], c[3]))
            i += 1
    out = [()]
    for g, opt in groups:
        out = [o + tuple(g) for o in out] + (out if opt else [])
    return out
