"""Cyclical sampling goes through the values in order, all parts in step, endlessly."""
import itertools

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C11"
RULE = (
    "case = template + wildcards, the first prompts of the endless cycle compared with a reference; "
    "non-trivial = at least two different prompts occur"
)


def check(case) -> Info:
    tpl, wcs, n = case["tpl"], case["wcs"], case["n"]
    text = tmpl.render(tpl)
    try:
        want = list(itertools.islice(ref.cycle(tpl, sut.ref_world(wcs)), n))
    except ref.TooBig:
        return Info(False, ("too big",))
    got = sut.take(sut.context(sut.CYC, wcs).sample_prompts(text), n)
    expect_eq(got, want, "cyclical prompts differ", template=text, wildcards=sut.world_texts(wcs))
    got = sut.take(sut.context(sut.CYC, wcs).sample_prompts(text, n), n + 5)
    expect_eq(got, want, "cyclical prompts differ with a limit", template=text)
    return Info(len(set(want)) > 1, gens.features(tpl, wcs))


def check_sync(case) -> Info:
    """Parts of different lengths: prompt number i uses value i (mod length) of every part."""
    words = [[f"p{j}v{i}" for i in range(k)] for j, k in enumerate(case["lens"])]
    method = case["method"]
    texts, wcs = [], {}
    for j, ws in enumerate(words):
        if case["wild"][j % len(case["wild"])]:
            name = f"w{j}"
            wcs[name] = list(ws)
            texts.append(f"__{'' if method == 'cyc' else '@'}{name}__")
            ws.sort()
        else:
            texts.append("{" + ("" if method == "cyc" else "@") + "|".join(ws) + "}")
    text = " & ".join(texts)
    n = case["n"]
    want = [" & ".join(ws[i % len(ws)] for ws in words) for i in range(n)]
    wm = sut.WildcardManager(root_map={"": [wcs]})
    if method == "cyc":
        got = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(text), n)
    else:
        got = sut.RandomPromptGenerator(wm, seed=n).generate(text, n)
    expect_eq(got, want, "parts are not in step", template=text)
    expect(len(got) == n, "the cycle ended")
    return Info(len(words) > 1 and max(map(len, words)) > 1)


TESTS = [
    Test("large", lambda: big.cases(big.CYCLIC), lambda c: big.compare(c, ["cyc"]), quick=240),
    Test(
        "reference",
        lambda: gens.cases(Opts(missing=True, dressed=True), weights=False, n=st.integers(1, 40)),
        check,
        quick=2400,
    ),
    Test(
        "weighted",
        lambda: gens.cases(Opts(missing=True, dressed=True, bounds=False), weights=True, n=st.integers(1, 40)),
        check,
        quick=800,
    ),
    Test(
        "in step",
        lambda: st.fixed_dictionaries(
            {
                "lens": st.lists(st.integers(1, 9), min_size=1, max_size=4),
                "wild": st.lists(st.booleans(), min_size=1, max_size=4),
                "n": st.one_of(*[st.integers(1, 80)] * 9, st.sampled_from([1100, 2600, 10100])),
                "method": st.sampled_from(["cyc", "@"]),
            },
        ),
        check_sync,
        quick=1200,
    ),
]
