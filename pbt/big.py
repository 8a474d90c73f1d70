"""Large but simple templates whose prompts are known without evaluating anything.

A case is {"kind", "n", "m"}: n is how large it is in the one respect the kind is about.
`build(case)` gives the template's text, its wildcards {name: [values]} and all of its
combinations in order.
"""
from __future__ import annotations

import dataclasses
import itertools

from hypothesis import strategies as st

VOCABULARY = ["oak", "red", "of a", "été", "x1,", "(soft:1.2)", "old man", "7", "wet;", "it's", "日本", "--", "[b]", "sky."]


def words(n: int, tag="w") -> list[str]:
    """n different words, in sorted order."""
    width = len(str(max(1, n - 1)))
    return [f"{tag}{i:0{width}d}" for i in range(n)]


def prose(n: int, m=0) -> str:
    """Exactly n characters of unremarkable text; no blanks at its ends."""
    out, size, i = [], 0, m
    while size < n:
        w = VOCABULARY[(i * i + m) % len(VOCABULARY)] + " "
        out.append(w)
        size += len(w)
        i += 1
    s = "".join(out)[:n]
    return s.strip() + "z" * (n - len(s.strip()))


def size(top: int, low: int = 1):
    """Mostly large, now and then small; shrinks towards the smallest."""
    cuts = [x for x in (30, 100, 300, 1000, 3000, 10000) if low < x < top]
    return st.one_of(*[st.integers(low, c) for c in (*cuts, top, top)])


# kind -> the largest n
KINDS = {
    "options": 300,  # of one variant
    "values": 1500,  # of one wildcard
    "option text": 6000,  # characters of each option
    "value text": 6000,
    "text": 12000,  # characters around a variant
    "blanks": 300,  # line breaks and blanks in the text
    "parts": 120,  # variants of one option each, and one of two
    "uses": 120,  # of the same wildcard, each with one value
    "names": 200,  # characters of a variable's name
    "path": 200,  # characters of a wildcard's name
    "levels": 40,  # directories above a wildcard
    "variables": 60,  # assigned
    "parameters": 30,  # passed to one wildcard
    "select": 35,  # two out of n options
    "select values": 35,
    "select all": 40,  # all of n options: the first of the orders
    "bounds": 10**6,  # as bounds of two options
    "separator": 200,  # characters
    "nested": 8,  # braces
    "chain": 14,  # wildcards within wildcards
    "wrap": 3000,  # characters before and after the ellipsis
    "wrap inner": 6000,  # characters put in
    "wraps": 10,  # within each other
    "unknown": 60,  # wildcards in one template
    "unknown names": 150,  # characters of an unknown wildcard's name
    "default": 3000,  # characters of a variable's default
    "weights": 12,  # digits of a weight
}
# what the cyclical sampler treats the same way
CYCLIC = [k for k in KINDS if k not in ("wrap", "wrap inner", "wraps", "select all")]


@dataclasses.dataclass
class Built:
    text: str
    wcs: dict
    want: object  # iterable of all prompts in order
    total: int


def build(case) -> Built:
    kind, n, m = case["kind"], case["n"], case["m"]
    wcs: dict = {}
    two = ["A", "B"]
    if kind == "options":
        ws = words(n)
        text, want = "{" + "|".join(ws) + "}", ws
    elif kind == "values":
        want = words(n)
        wcs["c"], text = want, "__c__"
    elif kind in ("option text", "value text"):
        want = [p + prose(n, m + i) for i, p in enumerate("abc")]
        text = "{" + "|".join(want) + "}"
        if kind == "value text":
            wcs["c"], text = want, "__c__"
    elif kind == "text":
        a, b = prose(n, m), prose(n // 2 + 1, m + 1)
        text, want = a + "{A|B}" + b, [a + x + b for x in two]
    elif kind == "blanks":
        a = "a" + "\n" * n + " " * n + "b"
        text, want = a + "{A|B}" + a, [a + x + a for x in two]
    elif kind == "parts":
        ws = words(n)
        text = " ".join("{" + w + "}" for w in ws) + " {A|B}"
        want = [" ".join(ws) + " " + x for x in two]
    elif kind == "uses":
        wcs["c"] = ["v"]
        text, want = "__c__ " * n + "{A|B}", ["v " * n + x for x in two]
    elif kind == "names":
        name = ("name_" * n)[:n]
        text, want = "${" + name + "={A|B}}${" + name + "}", two
    elif kind == "path":
        name = ("dir-x/" * n)[: n - 1] + "e"
        wcs[name], text, want = two, f"__{name}__", two
    elif kind == "levels":
        name = "/".join(words(n, "d"))
        wcs[name], text, want = two, f"__{name}__", two
    elif kind == "variables":
        ws = words(n)
        text = "".join("${" + f"v{i}={w}" + "}" for i, w in enumerate(ws))
        text += " ".join("${v" + str(i) + "}" for i in range(n)) + "{A|B}"
        want = [" ".join(ws) + x for x in two]
    elif kind == "parameters":
        ws = words(n)
        wcs["c"] = [" ".join("${p" + str(i) + ":-}" for i in range(n)) + " {A|B}"]
        text = "__c(" + ",".join(f"p{i}={w}" for i, w in enumerate(ws)) + ")__"
        want = [" ".join(ws) + " " + x for x in two]
    elif kind in ("select", "select values", "select all"):
        ws = words(n)
        k = n if kind == "select all" else min(2, n)
        body = "|".join(ws)
        if kind == "select values":
            wcs["c"], body = ws, "__c__"
        text = "{" + f"{k}$$ + $$" + body + "}"
        total = 1
        for i in range(k):
            total *= n - i
        return Built(text, wcs, (" + ".join(p) for p in itertools.permutations(ws, k)), total)
    elif kind == "bounds":
        lo, hi = (n, n + m) if m % 2 else (2, n + 2)
        text, want = "{" + f"{lo}-{hi}" + "$$-$$A|B}", ["A-B", "B-A"]
        if n == 1 and m % 2:
            want = ["A", "B", *want] if hi > 1 else two
    elif kind == "separator":
        s = prose(n, m)
        text, want = "{2$$" + s + "$$A|B}", [f"A{s}B", f"B{s}A"]
    elif kind == "nested":
        text, want = "x {" * n + "A|B" + "} y" * n, ["x " * n + w + " y" * n for w in two]
    elif kind == "chain":
        ws = words(n)
        for i, w in enumerate(ws):
            wcs[f"c{i}"] = [f"{w} __c{i + 1}__"]
        wcs[f"c{n}"], text, want = two, "__c0__", [" ".join(ws) + " " + x for x in two]
    elif kind == "wrap":
        a, b = prose(n, m), prose(n // 2 + 1, m + 1)
        text, want = "%{" + f"{a} ... {b}" + "$${A|B}}", [f"{a} {x} {b}" for x in two]
    elif kind == "wrap inner":
        want = [p + prose(n, m + i) for i, p in enumerate("ab")]
        text, want = "%{( ... )$${" + "|".join(want) + "}}", [f"( {x} )" for x in want]
    elif kind == "wraps":
        ws = words(n)
        text = "".join("%{" + w + " (...)$$" for w in ws) + "{A|B}" + "}" * n
        want = ["".join(f"{w} (" for w in ws) + x + ")" * n for x in two]
    elif kind == "unknown":
        text = " ".join(f"__nope{i}__" for i in range(n))
        want = [text + x for x in two]
        text += "{A|B}"
    elif kind == "unknown names":
        text = "__" + ("no/such-x/" * n)[: n - 1] + "e__"
        text, want = text + "{A|B}", [text + x for x in two]
    elif kind == "default":
        s = prose(n, m)
        text, want = "${nix:" + s + "{A|B}}", [s + x for x in two]
    elif kind == "weights":
        w = ("123456789" * 2)[:n]
        text, want = "{" + f"{w}.{w}::A|0.{w}::B" + "}", two
    else:
        raise AssertionError(kind)
    return Built(text, wcs, want, len(want))


@st.composite
def cases(draw, kinds=None, **extra):
    kind = draw(st.sampled_from(list(kinds or KINDS)))
    out = {"kind": kind, "n": draw(size(KINDS[kind])), "m": draw(st.integers(0, 9))}
    for k, s in extra.items():
        out[k] = draw(s)
    return out


# ------------------------------------------------------------------- checks


def draws(case) -> int:
    """How many random prompts to ask for (wildcards' values are parsed anew for each)."""
    n = case.get("count", 12)
    return min(n, 150) if case["kind"] in ("parameters", "chain") else n


def compare(case, methods=("comb", "cyc", "random"), limit=2500):
    """The case's prompts under the given samplers."""
    import sut
    from core import Info, expect, expect_eq

    b = build(case)
    wm = sut.WildcardManager(root_map={"": [b.wcs]})
    want = list(itertools.islice(b.want, limit))
    complete = b.total <= limit
    info = {"kind": case["kind"], "n": case["n"], "template": b.text}
    if "comb" in methods:
        got = sut.CombinatorialPromptGenerator(wm).generate(b.text, None if complete else limit)
        expect_eq(len(got), len(want), "number of combinatorial prompts", **info)
        expect_eq(got, want, "combinatorial prompts", **info)
    if "cyc" in methods and case["kind"] in CYCLIC and complete:
        # (the rounds of a cycle are those of the combinations)
        n = min(len(want) + 10, limit)
        got = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(b.text), n)
        expect_eq(got, [want[i % len(want)] for i in range(n)], "cyclical prompts", **info)
    if "random" in methods:
        n = draws(case)
        got = sut.RandomPromptGenerator(wm, seed=case.get("seed", 1)).generate(b.text, n)
        expect_eq(len(got), n, "number of random prompts", **info)
        if complete:
            possible = set(want)
            expect(all(p in possible for p in got), "impossible random prompt", got=[p for p in got if p not in possible][:3], **info)
            # each of N equally likely prompts is missed with probability (1 - 1/N)^n
            if case["kind"] not in ("weights",) and len(possible) * 60 <= n:
                expect_eq(set(got), possible, "random prompts cover all there are", **info)
    return Info(case["n"] > 20, (case["kind"],))
