"""Random choices follow the stated weights, independently of one another."""
import itertools
import math
from collections import Counter

import big
import sut
import tmpl
from core import Info, Test, expect
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.item import WildcardItem
from hypothesis import strategies as st

PROPERTY = "C09"
RULE = (
    "case = one or two weighted choices and a seed, drawn thousands of times; every outcome's frequency must lie "
    "within 7.5 standard deviations of its exact probability; non-trivial = at least two outcomes of different "
    "probability or of joint structure"
)
SIGMAS = 7.5  # two-sided tail 6e-14 per outcome; the runs are seeded, so a result never flips


def check_counts(counts: Counter, probs: dict, n: int, what: str, **details):
    for outcome in counts:
        expect(
            probs.get(outcome, 0) > 0,
            f"{what}: outcome that should never occur",
            outcome=outcome,
            probabilities=dict(list(probs.items())[:20]),
            **details,
        )
    for outcome, p in probs.items():
        sd = math.sqrt(n * p * (1 - p))
        off = abs(counts[outcome] - n * p)
        expect(
            off <= SIGMAS * sd + 6,
            f"{what}: frequency is off",
            outcome=outcome,
            observed=counts[outcome],
            expected=n * p,
            sigmas=off / sd if sd else None,
            draws=n,
            **details,
        )


def selection_probs(words, weights, lo, hi):
    """Exact distribution of ordered choices without replacement."""
    out = Counter()
    n = len(words)
    lo, hi = min(lo, n), min(hi, n)
    for k in range(lo, hi + 1):
        for sel in itertools.permutations(range(n), k):
            p, rest = 1 / (hi - lo + 1), sum(weights)
            for i in sel:
                p *= weights[i] / rest if rest else 0
                rest -= weights[i]
            out[tuple(words[i] for i in sel)] += p
    return out


WEIGHTS = [1, 1, 1, 2, 3, 0.5, 0.1, 10, 2.5, 0, 7, 25]
# weights close to each other, on either side of whole numbers
NARROW = [[0.6, 1.4], [1, 1.4, 0.7], [1, 1.9], [0.1, 0.4], [0.9, 0.3], [2, 2.9], [0.01, 0.04], [0.001, 0.003, 0.004], [0.0002, 0.0001], [5000, 10000], [100, 250], [1.5, 2.5]]


def fmt(w):
    return f"{w:g}"


def term(part, name):
    """(template text, wildcards, exact distribution of its texts)"""
    words, weights, lo, hi, wild, sep = (part[k] for k in ("words", "weights", "lo", "hi", "wild", "sep"))
    head = "" if lo == hi == 1 else f"{lo}-{hi}$${sep}$$"
    dist = Counter()
    for sel, p in selection_probs(words, weights, lo, hi).items():
        dist[sep.join(sel)] += p
    if wild:
        entries = [w if x == 1 else WildcardItem(w, float(x)) for w, x in zip(words, weights)]
        wcs = {name: ListWildcardCollection(entries)}
        text = f"__{name}__" if not head and wild == 1 else "{" + head + f"__{name}__" + "}"
        return text, wcs, dist
    opts = "|".join((f"{fmt(x)}::" if x != 1 else "") + w for w, x in zip(words, weights))
    return "{" + head + opts + "}", {}, dist


def check_one(case) -> Info:
    text, wcs, dist = term(case["part"], "w")
    n = case["n"]
    wm = sut.WildcardManager(root_map={"": [wcs]})
    gen = sut.RandomPromptGenerator(wm, seed=case["seed"])
    counts = Counter(gen.generate(text, n))
    check_counts(counts, dist, n, "single choice", template=text, part=case["part"])
    # and nested: as the option of another variant, half of the time
    text2 = "{" + text + "|0zz}"
    n2 = n // 2
    counts = Counter(gen.generate(text2, n2))
    dist2 = {k: p / 2 for k, p in dist.items()}
    dist2["0zz"] = 0.5
    check_counts(counts, dist2, n2, "nested choice", template=text2, part=case["part"])
    return Info(len([p for p in dist.values() if p]) >= 2, ("wildcard" if case["part"]["wild"] else "variant",))


def check_joint(case) -> Info:
    """Two choices in one prompt, and the same choice in successive prompts, are independent."""
    t1, w1, d1 = term(case["a"], "wa")
    t2, w2, d2 = term(case["b"], "wb")
    wm = sut.WildcardManager(root_map={"": [{**w1, **w2}]})
    text = f"{t1}#{t2}".replace("#", " / ")
    n = 2500
    prompts = sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, n)
    joint = {f"{x} / {y}": p * q for x, p in d1.items() for y, q in d2.items()}
    check_counts(Counter(prompts), joint, n, "two choices", template=text, parts=[case["a"], case["b"]])
    firsts = [p.split(" / ")[0] for p in prompts]
    lag = Counter(zip(firsts[0::2], firsts[1::2]))
    pairs = {(x, y): p * q for x, p in d1.items() for y, q in d1.items()}
    check_counts(lag, pairs, n // 2, "successive prompts", template=text)
    return Info(len(d1) > 1 and len(d2) > 1)


def check_separate(case) -> Info:
    """The same holds over many short calls and over many seeds."""
    text, wcs, dist = term(case["part"], "w")
    wm = sut.WildcardManager(root_map={"": [wcs]})
    n = 1200
    gen = sut.RandomPromptGenerator(wm, seed=case["seed"])
    counts = Counter(gen.generate(text, 1)[0] for _ in range(n))
    check_counts(counts, dist, n, "many calls", template=text)
    got = gen.generate(text, n, seeds=[case["seed"] + i for i in range(n)])
    check_counts(Counter(got), dist, n, "many seeds", template=text)
    unseeded = sut.RandomPromptGenerator(wm)
    counts = Counter(unseeded.generate(text, n))
    check_counts(counts, dist, n, "unseeded", template=text)
    return Info(len([p for p in dist.values() if p]) >= 2)


@st.composite
def parts(draw, max_words=6, select=True):
    n = draw(st.integers(1, max_words))
    words = [f"o{i}" for i in range(n)]
    palette = draw(st.sampled_from([WEIGHTS, WEIGHTS, *NARROW])) if draw(st.booleans()) else WEIGHTS
    weights = draw(st.lists(st.sampled_from(palette), min_size=n, max_size=n))
    lo = hi = 1
    if select and draw(st.booleans()):
        top = min(n, 4)
        lo = draw(st.integers(0, top))
        hi = draw(st.integers(lo, top))
    positive = sum(1 for w in weights if w > 0)
    if positive < max(1, hi):
        weights = [w or 1 for w in weights]
    return {
        "words": words, "weights": weights, "lo": lo, "hi": hi,
        "wild": draw(st.sampled_from([0, 0, 1, 2])),
        "sep": draw(st.sampled_from([" and ", "+", ";"])),
    }


seeds = st.integers(0, 2**31)
def check_many(case) -> Info:
    """Choices among very many values: each as likely as its weight says."""
    n, seed, wild = case["n"], case["seed"], case["wild"]
    ws = big.words(n)
    weights = [case["weights"][i % len(case["weights"])] for i in range(n)]
    if wild:
        entries = [w if x == 1 else WildcardItem(w, float(x)) for w, x in zip(ws, weights)]
        wm, text = sut.WildcardManager(root_map={"": [{"w": ListWildcardCollection(entries)}]}), "__w__"
    else:
        wm, text = None, "{" + "|".join((f"{fmt(x)}::" if x != 1 else "") + w for w, x in zip(ws, weights)) + "}"
    if case["split"]:
        text += " {x|y}"
    draws = 8000
    counts = Counter(p.split()[0] for p in sut.RandomPromptGenerator(wm, seed=seed).generate(text, draws))
    probs = {w: x / sum(weights) for w, x in zip(ws, weights)}
    expect(set(counts) <= set(ws), "outcome that should never occur", template=text)
    # whole stretches of the values, since each of them alone is rare
    step = max(1, n // 8)
    for i in range(0, n, step):
        part = ws[i : i + step]
        p = sum(probs[w] for w in part)
        expect(
            abs(sum(counts[w] for w in part) - draws * p) <= SIGMAS * math.sqrt(draws * p * (1 - p)) + 6,
            "many values: frequency is off", values=part, observed=sum(counts[w] for w in part), expected=draws * p, template=text,
        )
    return Info(n > 20, ("wildcard" if wild else "variant",))


TESTS = [
    Test(
        "many values",
        lambda: st.fixed_dictionaries(
            {
                "n": big.size(300), "seed": seeds, "wild": st.booleans(), "split": st.booleans(),
                "weights": st.lists(st.sampled_from([1, 1, 2, 0.5, 3]), min_size=1, max_size=5),
            },
        ),
        check_many,
        quick=48,
    ),
    Test("single", lambda: st.fixed_dictionaries({"part": parts(), "seed": seeds, "n": st.sampled_from([2000, 6000])}), check_one, quick=200),
    Test("joint", lambda: st.fixed_dictionaries({"a": parts(4), "b": parts(4), "seed": seeds}), check_joint, quick=120),
    Test("separate", lambda: st.fixed_dictionaries({"part": parts(5), "seed": seeds}), check_separate, quick=56),
]
