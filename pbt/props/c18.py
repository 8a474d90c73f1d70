"""Wrapping puts the inner prompt where the first ellipsis is, and changes nothing else."""
import big
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import lit

PROPERTY = "C18"
RULE = (
    "case = wrapper and inner texts made of dots, ellipsis characters and other text, written in place, as "
    "variants, wildcards, variables or nested wraps; every prompt compared with the reference; non-trivial = "
    "the wrapper has an ellipsis and text around it"
)
ASSUMPTIONS = ["the cyclical sampler does not support wrapping (it says so by raising NotImplementedError)"]

PIECES = [
    ".", "..", "...", "....", ".....", "…", "⋮", "⋯", "⋰", "⋱", "︙", "᠁", "……", "a", "b ", " c", ", ", "é",
    "x.y", "0.5", " ", "1.", "e.g.", "‥", "。", "・・・", "…...", "...…", "· · ·", "\n", "\t", "(", ")", "\\1", "\\g<0>",
    "日本", "%", "{", "&",
]
SAFE = [p for p in PIECES if p not in ("%", "{")]


def texts(n=5):
    return st.lists(st.sampled_from(SAFE), max_size=n).map(lambda ps: "".join(ps).lstrip())


@st.composite
def sides(draw):
    """How one side of a wrap is written: [kind, texts]"""
    kind = draw(st.sampled_from(["text", "text", "variant", "wildcard", "variable", "mixed", "blank"]))
    n = 1 if kind in ("text", "variable") else draw(st.integers(1, 3))
    out = []
    for _ in range(n):
        t = draw(texts())
        if kind == "wildcard":
            t = " ".join(t.split())  # one line of a file
        if kind in ("variant", "wildcard", "mixed", "blank") and (t in out or not t):
            t = f"t{len(out)}"
        out.append(t)
    return [kind, out]


def side_seq(side, tag, wcs, sets):
    kind, ts = side
    if kind == "text":
        return [lit(ts[0])] if ts[0] else []
    if kind == "variant":
        return [tmpl.variant(ts)]
    if kind == "wildcard":
        wcs[f"w{tag}"] = [[[lit(t)], 1] for t in ts]
        return [tmpl.wc(f"w{tag}")]
    if kind == "variable":
        sets.append({"t": "set", "n": f"v{tag}", "v": [lit(ts[0])] if ts[0] else [], "now": False, "keep": False})
        return [{"t": "get", "n": f"v{tag}", "d": None}]
    if kind == "blank":  # may well come to whitespace only, or with whitespace around it
        return [tmpl.variant(["", *ts]), lit([" ", "\n ", "  "][len(ts) - 1]), tmpl.variant([ts[0], ""])]
    return [lit("<."), tmpl.variant(ts), lit(".>")]


def build(case):
    wcs, sets = {}, []
    seq = side_seq(case["inner"], "i", wcs, sets)
    for k, outer in enumerate(case["outers"]):
        seq = [{"t": "wrap", "w": side_seq(outer, f"o{k}", wcs, sets), "i": seq}]
    if case["around"]:
        seq = [lit("pre ... "), *seq, lit(" … post"), tmpl.variant(["", "2nd"])]
    return sets + seq, wcs


def check(case) -> Info:
    tpl, wcs = build(case)
    world = sut.ref_world(wcs)
    text = tmpl.render(tpl)
    want = ref.comb(tpl, world, cap=3000)
    wm = sut.manager(wcs)
    info = {"template": text, "wildcards": sut.world_texts(wcs)}
    got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text), len(want) + 5)
    expect_eq(got, want, "combinatorial prompts", **info)
    for p in sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, 6):
        expect(p in set(want), "impossible random prompt", prompt=p, **info)
    if len(want) == 1 and not wcs:
        got = sut.RandomPromptGenerator(wm).generate(text, 2)
        expect_eq(got, want * 2, "random prompts", **info)
    marked = any(ref.wrap_text(t, "\0") != t + "\0" for _, ts in case["outers"] for t in ts)
    return Info(marked, tuple(sorted({k for k, _ in case["outers"]} | {f"inner {case['inner'][0]}"})))


def check_independent(case) -> Info:
    """Both sides are drawn anew for every prompt, and independently."""
    wm = sut.WildcardManager(root_map={"": [{"style": ["(...)", "[...]", "<...>"]}]})
    outer = "__style__" if case["wild"] else "{(...)|[...]|<...>}"
    text = "%{" + outer + "$${a|b|c}}"
    got = sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, 400)
    want = {f"{x}{i}{y}" for x, y in ("()", "[]", "<>") for i in "abc"}
    # 9 equally likely results: missing one of them in 400 draws has probability < 1e-19
    expect_eq(set(got), want, "every combination of both sides occurs", template=text)
    return Info(True)


TESTS = [
    Test("large", lambda: big.cases(["wrap", "wrap inner", "wraps"]), big.compare, quick=120),
    Test(
        "wrapping",
        lambda: st.fixed_dictionaries(
            {
                "inner": sides(),
                "outers": st.lists(sides(), min_size=1, max_size=2),
                "around": st.booleans(),
                "seed": st.integers(0, 10**6),
            },
        ),
        check,
        quick=4000,
    ),
    Test(
        "independent sides",
        lambda: st.fixed_dictionaries({"wild": st.booleans(), "seed": st.integers(0, 10**9)}),
        check_independent,
        quick=16,
    ),
]
