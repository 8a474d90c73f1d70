"""A generator's seed determines its prompts, whatever else happens in the process."""
import random

import big
import gens
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C13"
RULE = (
    "case = seed + history of calls on a seeded generator, replayed with other generators, global random numbers "
    "and other templates in between; non-trivial = the prompts are not all equal"
)
O = Opts(wrap=True, missing=True, dressed=True, depth=2)


def disturb(kind: int, wcs, i: int):
    """Something unrelated that uses randomness."""
    if kind == 1:
        random.seed(i)
    elif kind == 2:
        random.random()
        random.shuffle([1, 2, 3])
    elif kind == 3:
        sut.RandomPromptGenerator(sut.manager(wcs), seed=i).generate("{a|b|c} {d|e}", 3)
    elif kind == 4:
        sut.RandomPromptGenerator(sut.manager(wcs), unlink_seed_from_prompt=True).generate("{a|b|c} {d|e}", 2, seeds=i)
    elif kind == 5:
        sut.CombinatorialPromptGenerator(sut.manager(wcs)).generate("{~a|b|c} {d|e}", 3)


def check(case) -> Info:
    wcs, seed = case["wcs"], case["seed"]
    texts = [tmpl.render(t) for t in case["tpls"]]
    calls = [(texts[i % len(texts)], n) for i, n in case["calls"]]

    def run(disturbances):
        gen = sut.RandomPromptGenerator(sut.manager(wcs), seed=seed)
        out = []
        for i, (text, n) in enumerate(calls):
            if disturbances:
                disturb(disturbances[i % len(disturbances)], wcs, i)
            out.append(gen.generate(text, n))
        return out

    first = run([])
    before = random.getstate()
    second = run([])
    expect(random.getstate() == before, "a seeded generator uses the global random numbers", calls=calls)
    expect_eq(second, first, "same seed, different prompts", seed=seed, calls=calls)
    expect_eq(run(case["noise"]), first, "prompts depend on unrelated activity", seed=seed, calls=calls, noise=case["noise"])
    # one generator interleaved with another one of the same seed
    a = sut.RandomPromptGenerator(sut.manager(wcs), seed=seed)
    b = sut.RandomPromptGenerator(sut.manager(wcs), seed=seed)
    got_a, got_b = [], []
    for text, n in calls:
        got_a.append(a.generate(text, n))
        got_b.append(b.generate(text, n))
    expect_eq(got_a, first, "interleaved generators", calls=calls)
    expect_eq(got_b, first, "interleaved generators (second)", calls=calls)
    # the same through a context with the same random numbers
    ctx = sut.context(sut.RANDOM, wcs, seed=seed)
    got = [sut.take(ctx.sample_prompts(text, n), n + 1) for text, n in calls]
    expect_eq(got, first, "sampling context", calls=calls)
    return Info(len({p for ps in first for p in ps}) > 1, ("seed 0",) if seed == 0 else ())


BIG = "{" + "|".join(f"o{i}" for i in range(10)) + "}"


def check_seed_matters(case) -> Info:
    """Different seeds (and no seed, or an unlinked one) give different streams."""
    text = " ".join([BIG] * 9)  # 10^9 outcomes
    a, b = case["a"], case["b"]
    pa = sut.RandomPromptGenerator(seed=a).generate(text, 3)
    pb = sut.RandomPromptGenerator(seed=b).generate(text, 3)
    if a != b:
        expect(pa != pb, "different seeds, same prompts", seeds=(a, b))
    else:
        expect_eq(pa, pb, "same seeds", seed=a)
    for kw in ({"unlink_seed_from_prompt": True}, {"unlink_seed_from_prompt": True, "seed": a}, {}):
        state = random.getstate()
        p1 = sut.RandomPromptGenerator(**kw).generate(text, 2)
        random.setstate(state)
        p2 = sut.RandomPromptGenerator(**kw).generate(text, 2)
        expect(p1 != p2, "unseeded generators repeat themselves", options=kw)
    # unlinked and unseeded generators take no part in what others are seeded with
    for kw in ({"unlink_seed_from_prompt": True}, {}):
        lonely = sut.RandomPromptGenerator(**kw)
        got = []
        for kw2 in ({}, {"unlink_seed_from_prompt": True}, {"seed": b}):
            other = sut.RandomPromptGenerator(**kw2)
            for _ in range(2):
                other.generate(text, 2, seeds=[a, b])
                got += lonely.generate(text, 1)
        expect(len(set(got)) == len(got), "a generator repeats itself after seeded prompts of another one", options=kw, got=got)
    one = sut.RandomPromptGenerator(seed=a)
    x, y = one.generate(text, 1), one.generate(text, 1)
    expect(x != y, "a seeded generator repeats itself from call to call", seed=a)
    return Info(a != b)


seeds = st.one_of(st.sampled_from([0, 1, 2**32, -1, 2**64 + 1, 999]), st.integers(0, 2**40))


@st.composite
def cases(draw):
    case = draw(gens.cases(O, weights=draw(st.booleans())))
    oo = Opts(wrap=True, missing=True, dressed=True, depth=2, wildcards=tuple(case["wcs"]), markers="@~!"[: draw(st.sampled_from([0, 0, 3]))])
    case["tpls"] = [case.pop("tpl"), *draw(st.lists(tmpl.sequences(oo), max_size=2))]
    case["calls"] = [list(c) for c in draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 6)), min_size=1, max_size=4))]
    case["noise"] = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    case["seed"] = draw(seeds)
    if any(gens.has({"tpl": t, "wcs": case["wcs"]}, "wrap") for t in case["tpls"]):
        # (wraps are not available to cyclical sampling)
        for t in case["tpls"]:
            for n in tmpl.walk(t):
                if n.get("m") == "@":
                    n["m"] = ""
    return case


def check_many(case) -> Info:
    """Many prompts, in one call or in several."""
    b = big.build(case)
    wm = sut.WildcardManager(root_map={"": [b.wcs]})
    text, seed = b.text + " {p|q|r}", case["seed"]

    def run(*counts):
        gen = sut.RandomPromptGenerator(wm, seed=seed)
        return [p for n in counts for p in gen.generate(text, n)]

    n = big.draws(case)
    first = run(n)
    expect_eq(run(n), first, "same seed, different prompts", seed=seed, template=text)
    expect_eq(run(n // 3, n - n // 3), run(n // 3, n - n // 3), "same seed, different prompts in two calls", seed=seed, template=text)
    expect(len(set(first)) > 1 or n < 60, "the prompts of one seed never vary", seed=seed, template=text)
    return Info(n > 20, (case["kind"],))


TESTS = [
    Test("many", lambda: big.cases(count=st.sampled_from([1, 30, 200, 1200]), seed=seeds), check_many, quick=40),
    Test("history", cases, check, quick=1000),
    Test(
        "seed matters",
        lambda: st.fixed_dictionaries({"a": st.integers(0, 2**40), "b": st.integers(0, 2**40)}),
        check_seed_matters,
        quick=56,
    ),
]
