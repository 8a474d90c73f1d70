"""Per-prompt seeds: each prompt depends on its own seed only."""
import random

import big
import gens
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C14"
RULE = (
    "case = template + list of seeds; the prompt at every position must be the one its seed gives alone, on a "
    "fresh generator; non-trivial = at least two seeds and two different prompts"
)


def check(case) -> Info:
    wcs, seeds = case["wcs"], case["seeds"]
    text = tmpl.render(case["tpl"])
    n = len(seeds)
    wm = sut.manager(wcs)

    def fresh(**kw):
        return sut.RandomPromptGenerator(sut.manager(wcs), **kw)

    alone = [fresh(seed=i).generate(text, 1, seeds=[s])[0] for i, s in enumerate(seeds)]
    gen = sut.RandomPromptGenerator(wm, seed=case["ctor"])
    for _ in range(case["warm"]):
        gen.generate(text, 2)
    together = gen.generate(text, n, seeds=list(seeds))
    expect_eq(together, alone, "prompts do not depend on their own seeds only", template=text, seeds=seeds)
    rev = gen.generate(text, n, seeds=list(reversed(seeds)))
    expect_eq(rev, alone[::-1], "reversed seeds", template=text, seeds=seeds)
    expect_eq(gen.generate(text, n, seeds=tuple(seeds) if case["tuple"] else list(seeds)), alone, "again", template=text)
    # one seed for all
    s = seeds[0]
    expect_eq(gen.generate(text, n, seeds=s), [alone[0]] * n, "int seed", template=text, seed=s)
    expect_eq(gen.generate(text, n, seeds=[s]), [alone[0]] * n, "single seed", template=text, seed=s)
    expect_eq(gen.generate(text, num_images=n, seeds=[s] * n), [alone[0]] * n, "repeated seed", template=text, seed=s)
    # a mismatch is an error, not a silent reuse or drop
    for bad in (n - 1, n + 1, n + 3):
        if bad > 0 and n != 1:
            try:
                got = gen.generate(text, bad, seeds=list(seeds))
            except ValueError:
                pass
            else:
                expect(False, "wrong number of seeds is accepted", template=text, seeds=seeds, prompts=bad, got=got)
    # nothing to generate from
    for empty in ("", None):
        got = gen.generate(empty, n, seeds=list(seeds))
        expect(set(got) <= {""}, "prompts of an empty template", got=got, seeds=seeds)
    # no seeds: a plain run, equal to that of an identically seeded generator
    expect_eq(
        fresh(seed=case["ctor"]).generate(text, n, seeds=[]),
        fresh(seed=case["ctor"]).generate(text, n),
        "empty list of seeds",
        template=text,
    )
    expect_eq(
        fresh(seed=case["ctor"]).generate(text, n, seeds=None),
        fresh(seed=case["ctor"]).generate(text, n),
        "no seeds",
        template=text,
    )
    # the global random numbers are none of its business
    state = random.getstate()
    gen.generate(text, n, seeds=list(seeds))
    expect(random.getstate() == state, "global random state changed", template=text)
    return Info(n >= 2 and len(set(alone)) >= 2, gens.features(case["tpl"], wcs))


BIG = " ".join(["{" + "|".join(f"o{i}" for i in range(10)) + "}"] * 12)  # 10^12 outcomes


def check_different(case) -> Info:
    """Different seeds, however large or close, give different prompts."""
    a, b = case["a"], case["a"] ^ (1 << case["bit"])
    gen = sut.RandomPromptGenerator(seed=case["ctor"])
    pa, pb = gen.generate(BIG, 2, seeds=[a, b])
    expect(pa != pb, "different seeds, same prompts", seeds=(a, b))
    qa, qb = gen.generate(BIG, 1, seeds=a)[0], gen.generate(BIG, 1, seeds=[b])[0]
    expect_eq([qa, qb], [pa, pb], "seeds alone", seeds=(a, b))
    return Info(True, ("more than 32 bits",) if max(a, b) >= 2**32 else ())


seeds = st.lists(
    st.one_of(st.sampled_from([0, 1, 2**32 - 1, 2**32, 5]), st.integers(0, 2**40)),
    min_size=1,
    max_size=6,
)


def strategy(weights):
    return gens.cases(
        Opts(wrap=True, missing=True, depth=3),
        weights=weights,
        seeds=seeds,
        ctor=st.integers(0, 1000),
        warm=st.integers(0, 2),
        tuple=st.booleans(),
    )


def check_many(case) -> Info:
    """Very many seeds at once."""
    n, a, step = case["n"], case["a"], case["step"]
    given = [a + i * step for i in range(n)]
    gen = sut.RandomPromptGenerator(seed=1)
    got = gen.generate(BIG, n, seeds=given)
    expect_eq(len(got), n, "number of prompts", n=n)
    for i in sorted({0, n // 3, n // 2, n - 2, n - 1, case["pick"] % n} & set(range(n))):
        alone = sut.RandomPromptGenerator(seed=2).generate(BIG, 1, seeds=[given[i]])
        expect_eq(got[i], alone[0], "prompt does not depend on its own seed only", position=i, seed=given[i], n=n)
    # two of n*n/2 pairs among 10^12 prompts agree by chance with probability < 1e-5 for n = 2000
    expect(len(set(got)) >= n - 1, "different seeds, same prompts", n=n, different=len(set(got)))
    expect_eq(gen.generate(BIG, n, seeds=a), [got[0]] * n, "one seed for many prompts", n=n)
    return Info(n > 20)


TESTS = [
    Test(
        "many seeds",
        lambda: st.fixed_dictionaries(
            {"n": big.size(1200), "a": st.integers(0, 2**33), "step": st.sampled_from([1, 7, 1000, 2**32]), "pick": st.integers(0, 10**6)},
        ),
        check_many,
        quick=24,
    ),
    Test("own seed", lambda: strategy(False), check, quick=700),
    Test("own seed, weighted wildcards", lambda: strategy(True), check, quick=500),
    Test(
        "different seeds",
        lambda: st.fixed_dictionaries(
            {
                "a": st.one_of(st.sampled_from([0, 1, 5]), st.integers(0, 2**32), st.integers(0, 2**70)),
                "bit": st.integers(0, 69), "ctor": st.integers(0, 1000),
            },
        ),
        check_different,
        quick=160,
    ),
]
