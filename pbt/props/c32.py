"""Generators compose: batches repeat the inner generator, the dummy repeats the template."""
import gens
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from dynamicprompts.generators.promptgenerator import PromptGenerator
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C32"
RULE = (
    "case = a stack of composed generators over a recording or real generator, with any template text and "
    "arguments; result compared with that of the innermost generator called directly; non-trivial = at least two "
    "batches and two prompts"
)


class Recorder(PromptGenerator):
    """Prompts that tell calls and positions apart."""

    def __init__(self, sizes):
        self.sizes = sizes
        self.calls = []

    def generate(self, *args, **kwargs):
        k = len(self.calls)
        self.calls.append((args, kwargs))
        return [f"call {k} prompt {i}" for i in range(self.sizes[k % len(self.sizes)])]


def check_batches(case) -> Info:
    inner = Recorder(case["sizes"])
    gen = inner
    total = 1
    for b in case["batches"]:
        gen = sut.BatchedCombinatorialPromptGenerator(gen, batches=b)
        total *= b
    args = [case["text"]] + ([case["max"]] if case["max"] is not None else [])
    got = gen.generate(*args, **case["kw"])
    want = [f"call {k} prompt {i}" for k in range(total) for i in range(case["sizes"][k % len(case["sizes"])])]
    expect_eq(got, want, "prompts of all batches, in order")
    expect_eq(len(inner.calls), total, "calls of the inner generator")
    for a, kw in inner.calls:
        seen = {**dict(zip(["template", "max_prompts"], a)), **kw}
        expect_eq(seen.pop("template"), case["text"], "template for the inner generator")
        expect_eq(seen.pop("max_prompts"), 1000 if case["max"] is None else case["max"], "limit for the inner generator")
        expect_eq(seen, case["kw"], "arguments for the inner generator")
    again = gen.generate(*args, **case["kw"])
    expect_eq(len(inner.calls), 2 * total, "calls of the inner generator, second time")
    expect(isinstance(again, list), "a list of prompts")
    return Info(total > 1 and len(want) > 1)


def check_real(case) -> Info:
    wcs, k, b = case["wcs"], case["k"], case["b"]
    text = tmpl.render(case["tpl"])
    comb = sut.CombinatorialPromptGenerator(sut.manager(wcs))
    one = comb.generate(text, k)
    batched = sut.BatchedCombinatorialPromptGenerator(comb, batches=b)
    expect_eq(batched.generate(text, k), one * b, "batches of combinations", template=text)
    expect_eq(batched.generate(text, max_prompts=k), one * b, "batches of combinations", template=text)
    expect_eq(sut.BatchedCombinatorialPromptGenerator(comb).generate(text, k), one, "one batch", template=text)
    # random prompts go on from batch to batch
    rnd = sut.RandomPromptGenerator(sut.manager(wcs), seed=case["seed"])
    stream = [p for _ in range(b) for p in rnd.generate(text, k)]
    rnd = sut.RandomPromptGenerator(sut.manager(wcs), seed=case["seed"])
    expect_eq(sut.BatchedCombinatorialPromptGenerator(rnd, b).generate(text, k), stream, "batches of random prompts", template=text)
    return Info(b > 1 and len(one) > 1)


def check_dummy(case) -> Info:
    text, n = case["text"], case["n"]
    gen = sut.DummyGenerator()
    expect_eq(gen.generate(text), [text], "dummy")
    expect_eq(gen.generate(text, n), [text] * n, "dummy")
    expect_eq(gen.generate(text, num_images=n, seeds=[1], other=2), [text] * n, "dummy")
    b = sut.BatchedCombinatorialPromptGenerator(gen, case["b"])
    expect_eq(b.generate(text, n), [text] * (n * case["b"]), "batched dummy")
    return Info(n > 1)


anything = st.one_of(st.text(max_size=20), st.sampled_from(["{a|b}", "", "__x__", "${x", "{{ jinja }}"]))


TESTS = [
    Test(
        "batches",
        lambda: st.fixed_dictionaries(
            {
                "sizes": st.one_of(
                    st.lists(st.integers(0, 4), min_size=1, max_size=4),
                    st.lists(st.sampled_from([0, 1, 999, 1000, 1001, 3000]), min_size=1, max_size=2),
                ),
                "batches": st.one_of(
                    st.lists(st.integers(0, 4), min_size=1, max_size=3), st.integers(0, 60).map(lambda b: [b]),
                ),
                "text": anything,
                "max": st.one_of(st.none(), st.integers(0, 2000)),
                "kw": st.dictionaries(st.sampled_from(["seeds", "other", "x"]), st.one_of(st.integers(0, 9), st.sampled_from([None, False, "", []]))),
            },
        ),
        check_batches,
        quick=1500,
    ),
    Test(
        "real generators",
        lambda: gens.cases(
            Opts(depth=2, wrap=True, missing=True), k=st.integers(0, 12), b=st.integers(0, 4), seed=st.integers(0, 10**6),
        ),
        check_real,
        quick=800,
    ),
    Test(
        "dummy",
        lambda: st.fixed_dictionaries({"text": anything, "n": st.integers(0, 9), "b": st.integers(0, 4)}),
        check_dummy,
        quick=2000,
    ),
]
