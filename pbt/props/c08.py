"""Random generation returns exactly as many prompts as asked for, all of them possible."""
import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C08"
RULE = (
    "case = template + wildcards + number of prompts; every prompt must be in the reference set of possible "
    "prompts; non-trivial = at least 2 possible prompts"
)


def check(case) -> Info:
    tpl, wcs, n = case["tpl"], case["wcs"], case["n"]
    try:
        want = ref.language(tpl, sut.ref_world(wcs), cap=3000)
    except ref.TooBig:
        return Info(False, ("too big",))
    text = tmpl.render(tpl)
    gen = sut.RandomPromptGenerator(sut.manager(wcs), seed=case["seed"])
    got = gen.generate(text, n)
    expect_eq(len(got), n, "number of prompts", template=text)
    for p in got:
        expect(p in want, "impossible prompt", prompt=p, template=text, wildcards=sut.world_texts(wcs), possible=sorted(want)[:20])
    got = gen.generate(text)
    expect_eq(len(got), 1, "number of prompts by default", template=text)
    expect(got[0] in want, "impossible prompt", prompt=got[0], template=text)
    got = gen.generate(text, num_images=n, seeds=list(range(n)) or None)
    expect_eq(len(got), n, "number of prompts with seeds", template=text)
    expect(all(p in want for p in got), "impossible prompt with seeds", got=got, template=text)
    return Info(len(want) >= 2, gens.features(tpl, wcs))


def extra():
    return {"n": st.sampled_from([0, 1, 2, 3, 5, 8, 25]), "seed": st.integers(0, 2**32)}


@st.composite
def with_zeros(draw):
    """Some options and wildcard values get weight zero, as many as may be left out."""
    case = draw(gens.cases(Opts(wrap=True, missing=True, dressed=True, depth=2), weights=True, **extra()))
    seqs = [case["tpl"], *(s for v in case["wcs"].values() for s, _ in v)]
    nodes = [n for s in seqs for n in tmpl.walk(s) if n["t"] == "var"]
    for n in nodes:
        spare = len(n["o"]) - max(1, tmpl.bounds_of(n)[1])
        for i in draw(st.lists(st.integers(0, len(n["o"]) - 1), max_size=max(0, spare), unique=True)):
            n["o"][i][0] = draw(st.sampled_from(["0", "0.0", "0"]))
    if not any(n.get("b") and ref.is_single_wildcard(n) for n in nodes):
        for v in case["wcs"].values():
            for i in draw(st.lists(st.integers(0, len(v) - 1), max_size=len(v) - 1, unique=True)):
                v[i][1] = 0
    return case


TESTS = [
    Test(
        "large",
        lambda: big.cases(count=st.sampled_from([0, 1, 12, 120, 400, 2000]), seed=st.integers(0, 10**9)),
        lambda c: big.compare(c, ["random"]),
        quick=240,
    ),
    Test("weights of zero", with_zeros, check, quick=1200),
    Test("possible", lambda: gens.cases(Opts(wrap=True, missing=True, dressed=True), **extra()), check, quick=2000),
    Test(
        "weighted",
        lambda: gens.cases(Opts(missing=True, dressed=True), weights=True, **extra()),
        check,
        quick=1200,
    ),
]
