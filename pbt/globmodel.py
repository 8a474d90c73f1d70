"""What a wildcard name refers to, written from docs/SYNTAX.md ("Wildcards") without regular expressions."""
from __future__ import annotations


def glob(pattern: str, name: str) -> bool:
    """Shell-style matching of the whole name; `*` also matches across directories."""
    toks = tokens(pattern)
    # ok[j]: the tokens so far match name[:j]
    ok = [True] + [False] * len(name)
    for kind, arg in toks:
        new = [False] * (len(name) + 1)
        if kind == "star":
            seen = False
            for j in range(len(name) + 1):
                seen = seen or ok[j]
                new[j] = seen
        else:
            for j, ch in enumerate(name):
                if ok[j] and accepts(kind, arg, ch):
                    new[j + 1] = True
        ok = new
    return ok[-1]


def tokens(pattern: str):
    out, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c == "*":
            out.append(("star", None))
        elif c == "?":
            out.append(("any", None))
        elif c == "[":
            j = i + 1
            if j < len(pattern) and pattern[j] == "!":
                j += 1
            if j < len(pattern) and pattern[j] == "]":
                j += 1
            while j < len(pattern) and pattern[j] != "]":
                j += 1
            if j < len(pattern):
                out.append(("set", pattern[i + 1 : j]))
                i = j
            else:
                out.append(("chr", "["))
        else:
            out.append(("chr", c))
        i += 1
    return out


def accepts(kind, arg, ch) -> bool:
    if kind == "any":
        return True
    if kind == "chr":
        return ch == arg
    neg = arg.startswith("!")
    body = arg[1:] if neg else arg
    hit, i = False, 0
    while i < len(body):
        if i + 2 < len(body) and body[i + 1] == "-":
            hit = hit or body[i] <= ch <= body[i + 2]
            i += 3
        else:
            hit = hit or ch == body[i]
            i += 1
    return hit != neg


def clean(name: str, wrap: str):
    """The canonical form of a (possibly wrapped) name; None if it is not acceptable."""
    if name.startswith(wrap):
        name = name[len(wrap) :]
    if name.endswith(wrap):
        name = name[: -len(wrap)]
    parts = [p for p in name.replace("\\", "/").split("/") if p]
    name = "/".join(parts)
    return None if ".." in name else name


def resolve(pattern: str, names, wrap: str = "__"):
    """(names matched directly, names matched anywhere below) -- the latter only count if the former have no values."""
    c = clean(pattern, wrap)
    if c is None:
        return [], []
    direct = [n for n in names if glob(c, n)]
    below = [n for n in names if glob("*/" + c, n)]
    return direct, below


def values(pattern: str, world: dict, wrap: str = "__"):
    """Values (sorted, without repetitions) of a name in {name: [value, ...]}."""
    direct, below = resolve(pattern, world, wrap)
    vals = [v for n in direct for v in world[n]]
    if not vals and not pattern.startswith("**"):
        vals = [v for n in below for v in world[n]]
    return sorted(set(vals))
