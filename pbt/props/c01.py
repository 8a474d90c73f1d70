"""Parsing recovers exactly the structure a template was written with."""
import big
import norm
import sut
import syntax
import tmpl
from core import Info, Test, expect_eq
from hypothesis import strategies as st

PROPERTY = "C01"
RULE = (
    "case = structure tree drawn over the whole documented syntax, written out as a template and "
    "parsed back; non-trivial = the template contains at least one command"
)


def check(case) -> Info:
    text = tmpl.render(case["tpl"])
    got = norm.of_command(sut.parse(text))
    want = norm.of_ast(case["tpl"])
    expect_eq(got, want, "parsed structure differs from what was written", template=text)
    kinds = tuple(sorted({n["t"] for n in tmpl.walk(case["tpl"])}))
    return Info(any(k != "lit" for k in kinds), kinds)


@st.composite
def large(draw):
    """Trees that are large in one respect, in a small setting."""
    kind = draw(
        st.sampled_from(["options", "bounds", "names", "weights", "path", "parameters", "text", "parts", "separator", "wrap", "layout", "deep"]),
    )
    top = {"bounds": 10**9, "text": 10000, "weights": 15, "wrap": 5000, "deep": 7, "parameters": 40, "layout": 2000}.get(kind, 160)
    n, m = draw(big.size(top)), draw(st.integers(0, 9))
    ws = big.words(min(n, 160))
    lit, two = tmpl.lit, [[None, [tmpl.lit("a")]], [None, [tmpl.lit("b c")]]]
    name = ("n_x-Y7" * n)[:n]
    var = {"t": "var", "o": two, "b": None, "sep": None, "m": draw(st.sampled_from(["", "~", "!", "@"]))}
    if kind == "options":
        node = var | {"o": [[None, [lit(w)]] for w in ws], "b": draw(st.sampled_from([None, ["n-m", 1, n], ["n-", n, 0]]))}
    elif kind == "bounds":
        node = var | {"b": [draw(st.sampled_from(["n", "n-m", "-m", "n-"])), n, n + m], "sep": draw(st.sampled_from([None, " & "]))}
        # as many options as it takes for the bounds to matter
        if n <= 200:
            node["o"] = [[None, [lit(f"o{i}")]] for i in range(n + m + 2)]
    elif kind == "names":
        node = draw(
            st.sampled_from(
                [
                    {"t": "get", "n": name, "d": None}, {"t": "get", "n": name, "d": [lit("x")]},
                    {"t": "wc", "p": "c", "m": "", "a": [[name, [lit("x")]]]},
                    {"t": "set", "n": name, "v": [lit("x")], "now": bool(m % 2), "keep": m > 4},
                ],
            ),
        )
    elif kind == "weights":
        digits = ("9182736455" * 2)[:n]
        node = var | {"o": [[w, [lit(f"o{i}")]] for i, w in enumerate([digits, f"{digits}.5", f"0.{digits}", f".{digits}", f"00{digits}"])]}
    elif kind == "path":
        node = {"t": "wc", "p": ("dir-x/" * n)[: n - 1] + "e", "m": var["m"], "a": []}
    elif kind == "parameters":
        node = {"t": "wc", "p": "c", "m": "", "a": [[f"p{i}", [lit(w)]] for i, w in enumerate(ws)]}
    elif kind == "text":
        s = big.prose(n, m)
        node = draw(st.sampled_from([lit(s), {"t": "get", "n": "v", "d": [lit(s)]}, var | {"o": [[None, [lit(s)]], *two]}, {"t": "set", "n": "v", "v": [lit(s)], "now": False, "keep": False}]))
    elif kind == "parts":
        seq = []
        for w in ws:
            seq += [draw(st.sampled_from([var, {"t": "get", "n": "v", "d": None}])) if len(ws) < 20 else var, lit(f" {w} ")]
        return {"tpl": seq}
    elif kind == "separator":
        node = var | {"b": ["n", 2, 2], "sep": big.prose(n, m)}
    elif kind == "wrap":
        node = {"t": "wrap", "w": [lit(big.prose(n, m) + " ... y")], "i": [lit("x" * m + "y"), var]}
    elif kind == "layout":
        node = lit("\n" * (n // 2) + " " * n + "x")
    else:
        node = var
        for i in range(n):
            node = draw(
                st.sampled_from(
                    [
                        var | {"o": [[None, [node]], two[1]]}, {"t": "get", "n": "v", "d": [node]},
                        {"t": "wrap", "w": [lit("...")], "i": [node]},
                    ],
                ),
            )
    seq = [node]
    if node["t"] != "lit" and draw(st.booleans()):
        seq = [lit("see "), node, lit(" there")]
    return {"tpl": seq}


TESTS = [
    Test("large", large, check, quick=400),
    Test("round-trip", lambda: syntax.seqs().map(lambda s: {"tpl": s}), check, quick=8000),
]
