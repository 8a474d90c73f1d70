"""A normal form of parsed templates, for comparing structure and nothing else."""
from __future__ import annotations

from dynamicprompts.commands import (
    LiteralCommand,
    SamplingMethod,
    SequenceCommand,
    VariantCommand,
    WildcardCommand,
    WrapCommand,
)
from dynamicprompts.commands.variable_commands import (
    VariableAccessCommand,
    VariableAssignmentCommand,
)

import tmpl

MARK = {
    None: "",
    SamplingMethod.RANDOM: "~",
    SamplingMethod.COMBINATORIAL: "!",
    SamplingMethod.CYCLICAL: "@",
}


def _flat(parts):
    out = []
    for p in parts:
        if isinstance(p, list):
            sub = p
        else:
            sub = [p]
        for x in sub:
            if x[0] == "lit":
                if x[1] == "":
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + x[1])
                    continue
            out.append(x)
    return out


def of_command(c) -> list:
    """A list of normalised nodes."""
    if c is None:
        return []
    if isinstance(c, str):
        return _flat([("lit", c)])
    if isinstance(c, LiteralCommand):
        return _flat([("lit", c.literal)])
    if isinstance(c, SequenceCommand):
        return _flat([of_command(t) for t in c.tokens])
    if isinstance(c, VariantCommand):
        n = len(c.variants)
        return [
            (
                "var",
                MARK[c.sampling_method],
                min(c.min_bound, n),
                min(c.max_bound, n),
                c.separator,
                [(float(o.weight), of_command(o.value)) for o in c.variants],
            ),
        ]
    if isinstance(c, WildcardCommand):
        return [
            (
                "wc",
                MARK[c.sampling_method],
                of_command(c.wildcard),
                sorted((k, of_command(v)) for k, v in c.variables.items()),
            ),
        ]
    if isinstance(c, VariableAssignmentCommand):
        return [("set", c.name, of_command(c.value), bool(c.immediate), not c.overwrite)]
    if isinstance(c, VariableAccessCommand):
        return [("get", c.name, None if c.default is None else of_command(c.default))]
    if isinstance(c, WrapCommand):
        return [("wrap", of_command(c.wrapper), of_command(c.inner))]
    raise TypeError(f"unexpected command {c!r}")


def of_ast(seq, in_path=False) -> list:
    return _flat([_node(n, in_path) for n in seq])


def _node(n, in_path=False):
    t = n["t"]
    if t == "lit":
        return ("lit", n["s"])
    if t == "var":
        lo, hi = tmpl.bounds_of(n)
        if not n.get("b"):
            lo = hi = min(1, len(n["o"]))
        sep = n["sep"] if n.get("b") and n.get("sep") is not None else ","
        return (
            "var",
            n.get("m") or "",
            lo,
            hi,
            sep,
            [(1.0 if w is None else float(w), of_ast(o)) for w, o in n["o"]],
        )
    if t == "wc":
        path = [("lit", n["p"])] if isinstance(n["p"], str) else of_ast(n["p"], True)
        return (
            "wc",
            n.get("m") or "",
            path,
            sorted((k, of_ast(v)) for k, v in n.get("a", [])),
        )
    if t == "set":
        return ("set", n["n"], of_ast(n["v"]), bool(n.get("now")), bool(n.get("keep")))
    if t == "get":
        d = n.get("d")
        if in_path and d is None:
            d = [{"t": "lit", "s": n["n"]}]  # documented by the code's tests
        return ("get", n["n"], None if d is None else of_ast(d))
    if t == "wrap":
        return ("wrap", of_ast(n["w"]), of_ast(n["i"]))
    raise AssertionError(t)
