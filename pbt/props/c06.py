"""Combinatorial generation enumerates exactly the combinations of the template."""
import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect_eq
from tmpl import Opts

PROPERTY = "C06"
RULE = (
    "case = generated template + wildcards, all prompts compared in order with a reference "
    "enumeration; non-trivial = the template has at least 2 combinations"
)
O = Opts(wrap=True, missing=True, dressed=True)


def check(case) -> Info:
    tpl, wcs = case["tpl"], case["wcs"]
    try:
        want = ref.comb(tpl, sut.ref_world(wcs), cap=500)
    except ref.TooBig:
        return Info(False, ("too big",))
    text = tmpl.render(tpl)
    gen = sut.CombinatorialPromptGenerator(sut.manager(wcs))
    got = gen.generate(text, max_prompts=len(want) + 20)
    expect_eq(got, want, "combinatorial prompts differ", template=text, wildcards=sut.world_texts(wcs))
    return Info(len(want) >= 2, gens.features(tpl, wcs))


TESTS = [
    Test("large", big.cases, lambda c: big.compare(c, ["comb"]), quick=240),
    Test("enumeration", lambda: gens.cases(O), check, quick=6000),
    Test("weighted", lambda: gens.cases(Opts(missing=True, dressed=True), weights=True), check, quick=2000),
]
