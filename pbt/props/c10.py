"""Choosing several values: as many as asked for, never one twice, joined as asked."""
import itertools
import math
import random

import big
import sut
from core import Info, Test, expect, expect_eq
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.item import WildcardItem
from hypothesis import strategies as st

PROPERTY = "C10"
RULE = (
    "case = options (inline, or the values of a wildcard, possibly weighted or nested), bounds and separator, "
    "sampled by all samplers; non-trivial = more than one option may be chosen"
)
SEPS = [None, " and ", ", ", " ", "-", "|", " | ", "/", "::", "+", "...", "&", "~", "!", "=", "_", "\\", " , ", ";;", ")(", "\n", "  ", "\t", " \n", "\u3000", ",\n", "日", ". ", "(", "@@"]


def bounds_text(form, lo, hi):
    return {"n": f"{lo}", "n-m": f"{lo}-{hi}", "-m": f"-{hi}", "n-": f"{lo}-"}[form]


def allowed(form, lo, hi, n):
    if form == "n":
        hi = lo
    elif form == "-m":
        lo = 1
    elif form == "n-":
        hi = n
    lo, hi = min(lo, hi), max(lo, hi)
    return min(lo, n), min(hi, n)


def options_of(case):
    """Option texts, and for each option the set of what it may become."""
    n = case["n"]
    texts, results = [], []
    for i in range(n):
        kind = case["kinds"][i % len(case["kinds"])]
        if kind == "nested":
            texts.append("{" + f"N{i}a|N{i}b" + "}")
            results.append({f"N{i}a", f"N{i}b"})
        elif kind == "alike" and (case["sep"] or ",").strip():  # texts that are easily taken for one another
            t = ["alike", "ALIKE", "alike ", "Alike", "alike\u00a0", "a like", "alike\t"][i % 7] + "x" * (i // 7)
            texts.append(t)
            results.append({t})
        elif kind == "spaced":
            texts.append(f"S{i} x")
            results.append({f"S{i} x"})
        else:
            texts.append(f"P{i}")
            results.append({f"P{i}"})
    return texts, results


def count(results, a, b) -> int:
    """Number of ordered selections of a to b of the options, whatever each becomes."""
    total = 0
    for k in range(a, b + 1):
        for sel in itertools.permutations(results, k):
            total += math.prod(len(r) for r in sel)
            if total > 100:
                return total
    return total


def check(case) -> Info:
    form, lo, hi = case["b"]
    texts, results = options_of(case)
    n = len(texts)
    sep = case["sep"]
    head = bounds_text(form, lo, hi) + "$$" + ("" if sep is None else sep + "$$")
    joiner = "," if sep is None else sep
    weights = case["weights"]
    wm = None
    if case["wild"]:
        entries = []
        for i, t in enumerate(texts):
            w = weights[i % len(weights)]
            entries.append(t if w == 1 else WildcardItem(t, float(w)))
        wm = sut.WildcardManager(root_map={"": [{"w": ListWildcardCollection(entries)}]})
        body = "__w__"
    else:
        body = "|".join(
            (f"{weights[i % len(weights)]}::" if weights[i % len(weights)] != 1 else "") + t
            for i, t in enumerate(texts)
        )
    text = "<" + "{" + head + body + "}" + ">"
    a, b = allowed(form, lo, hi, n)

    owner = {r: i for i, rs in enumerate(results) for r in rs}

    def split(prompt, what):
        expect(prompt.startswith("<") and prompt.endswith(">"), f"{what}: surroundings", prompt=prompt, template=text)
        inner = prompt[1:-1]
        if inner == "":
            return []
        return inner.split(joiner) if joiner.strip() else split_ws(inner, joiner)

    def split_ws(inner, joiner):
        # a blank separator: the spaced options contain blanks themselves
        out, rest = [], inner
        while rest:
            for r in sorted(owner, key=len, reverse=True):
                if rest == r:
                    out.append(r)
                    return out
                if rest.startswith(r + joiner):
                    out.append(r)
                    rest = rest[len(r) + len(joiner) :]
                    break
            else:
                return [*out, rest]
        return out

    def judge(prompt, what):
        chosen = split(prompt, what)
        for c in chosen:
            expect(c in owner, f"{what}: not one of the options", part=c, prompt=prompt, template=text)
        picked = [owner[c] for c in chosen]
        expect(len(set(picked)) == len(picked), f"{what}: an option is chosen twice", prompt=prompt, template=text)
        expect(a <= len(picked) <= b, f"{what}: wrong number of values", prompt=prompt, template=text, low=a, high=b)
        return tuple(picked)

    num = 30
    gen = sut.RandomPromptGenerator(wm, seed=case["seed"])
    got = gen.generate(text, num)
    expect_eq(len(got), num, "random: number of prompts", template=text)
    for p in got:
        judge(p, "random")
    got = sut.CombinatorialPromptGenerator(wm).generate(text, max_prompts=60)
    picks = [judge(p, "combinatorial") for p in got]
    expect(len(got) >= 1, "combinatorial: no prompts", template=text)
    total = count(results, a, b)
    if total < 60:
        # (as many distinct valid selections as there are: all of them)
        expect_eq(len(got), total, "combinatorial: number of selections", template=text)
    if b - a in (1, 2) and n <= 6:
        sizes = {len(judge(p, "random")) for p in gen.generate(text, 200)}
        # a size is missed with probability < 3 * (2/3)^200 < 1e-34
        expect_eq(sizes, set(range(a, b + 1)), "random: sizes that occur", template=text)
    expect_eq(len(got), len(set(got)), "combinatorial: repeated prompts", template=text)
    expect([len(p) for p in picks] == sorted(len(p) for p in picks), "combinatorial: order", template=text, got=got)
    ctx = sut.SamplingContext(sut.CYC, wm or sut.WildcardManager(), rand=random.Random(1))
    for p in sut.take(ctx.sample_prompts(text), 30):
        judge(p, "cyclical")
    return Info(n >= 2 and b >= 2, ("wildcard" if case["wild"] else "inline", f"form {form}", "n>=10" if n >= 10 else "n<10"))


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 16)))
    wild = draw(st.booleans())
    weights = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3, 0.5, 10, 2.5]), min_size=1, max_size=n))
    if wild and any(w != 1 for w in weights):
        # weighted values occur repeatedly outside of random sampling; keep that enumeration short
        n, weights = min(n, 5), [min(w, 2.5) for w in weights]
    m = n + 3
    return {
        "n": n,
        "kinds": draw(st.lists(st.sampled_from(["plain", "plain", "nested", "spaced", "alike"]), min_size=1, max_size=n)),
        "b": [draw(st.sampled_from(["n", "n-m", "n-m", "-m", "n-"])), draw(st.integers(0, m)), draw(st.integers(0, m))],
        "sep": draw(st.sampled_from(SEPS)),
        "weights": weights,
        "wild": wild,
        "seed": draw(st.integers(0, 2**32)),
    }


def check_equal(case) -> Info:
    """Options that are equal, or become equal: prompts come nevertheless, and from the options only."""
    opts, k = case["opts"], case["k"]
    text = "{" + f"{k}$$ + $$" + "|".join(opts) + "}"
    wm = sut.WildcardManager(root_map={"": [{"c": ["a", "b"], "one": ["a"]}]})
    values = {"__c__": {"a", "b"}, "__one__": {"a"}, "{a|b}": {"a", "b"}, "{a}": {"a"}}
    possible = {v for o in opts for v in values.get(o, {o})}
    got = sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, 5)
    expect_eq(len(got), 5, "random: number of prompts", template=text)
    comb = sut.CombinatorialPromptGenerator(wm).generate(text, 30)
    cyc = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(text), 5)
    expect_eq(len(cyc), 5, "cyclical: number of prompts", template=text)
    for p in got + comb + cyc:
        parts = p.split(" + ") if p else []
        expect(set(parts) <= possible and len(parts) <= k, "not a selection of the options", prompt=p, template=text)
    if len(possible) >= k and len(opts) >= k:
        distinct = any(
            len(set(sel)) == k
            for combo in itertools.permutations([values.get(o, {o}) for o in opts], k)
            for sel in itertools.product(*combo)
        )
        if distinct:
            expect(len(comb) > 0, "combinatorial: no prompts", template=text)
    for p in comb:
        parts = p.split(" + ") if p else []
        expect_eq(len(parts), len(set(parts)), "combinatorial: a value twice", prompt=p, template=text)
    return Info(len(set(opts)) < len(opts), ("equal options",) if len(set(opts)) < len(opts) else ())


def check_empty(case) -> Info:
    """An empty option counts as a value like any other."""
    k, sep, words = case["k"], case["sep"], case["words"]
    opts = list(words)
    opts.insert(min(case["at"], len(opts)), "")
    k = min(k, len(opts))
    text = "<{" + f"{k}$${sep}$$" + "|".join(opts) + "}>"

    def joined(sel):
        s = sep.join(sel)
        if len(sel) > 1:  # one separator at either end is left out
            s = s[len(sep) :] if s.startswith(sep) else s
            s = s[: -len(sep)] if s.endswith(sep) else s
        return f"<{s}>"

    want = [joined(sel) for sel in itertools.permutations(opts, k)]
    got = sut.take(sut.SamplingContext(sut.COMB, sut.WildcardManager()).sample_prompts(text), len(want) + 1)
    expect_eq(got, want, "combinatorial prompts", template=text)
    got = sut.take(sut.SamplingContext(sut.CYC, sut.WildcardManager()).sample_prompts(text), len(want) + 1)
    expect_eq(got, want + want[:1], "cyclical prompts", template=text)
    got = sut.RandomPromptGenerator(seed=case["seed"]).generate(text, 20)
    expect(set(got) <= set(want), "random prompts", got=got, template=text)
    return Info(k > 1)


def check_large(case) -> Info:
    """Many options to choose many of."""
    n, k, wild, sep = case["n"], min(case["k"], case["n"]), case["wild"], case["sep"]
    ws = big.words(n)
    wm = sut.WildcardManager(root_map={"": [{"w": ws}]})
    text = "{" + f"{k}$${sep}$$" + ("__w__" if wild else "|".join(ws)) + "}"
    first = list(itertools.islice(itertools.permutations(ws, k), 20))
    got = sut.CombinatorialPromptGenerator(wm).generate(text, 20)
    expect_eq(got, [sep.join(p) for p in first], "combinatorial: first selections", template=text)
    chosen = set()
    for p in sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, 8):
        parts = p.split(sep)
        expect_eq(len(parts), k, "random: number of values", template=text)
        expect(len(set(parts)) == k and set(parts) <= set(ws), "random: not a selection", prompt=p, template=text)
        chosen.update(ws.index(x) // max(1, n // 4) for x in parts)
    # every quarter of the options is missed with probability at most (3/4)^160 in all
    if 8 * k >= 160 and n >= 8:
        expect(chosen >= {0, 1, 2, 3}, "random: some of the options are never chosen", chosen=sorted(chosen), template=text)
    return Info(k >= 8, ("wildcard" if wild else "inline",))


TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {
                "n": big.size(150), "k": big.size(60), "wild": st.booleans(),
                "sep": st.sampled_from([" + ", ", ", "|", " and then "]), "seed": st.integers(0, 10**9),
            },
        ),
        check_large,
        quick=120,
    ),
    Test(
        "empty option",
        lambda: st.fixed_dictionaries(
            {
                "k": st.integers(1, 4), "sep": st.sampled_from([s for s in SEPS if s]),
                "words": st.lists(st.sampled_from(["P", "Q r", "S", "T"]), min_size=1, max_size=4, unique=True),
                "at": st.integers(0, 4), "seed": st.integers(0, 10**6),
            },
        ),
        check_empty,
        quick=200,
    ),
    Test("several", cases, check, quick=2600),
    Test(
        "equal options",
        lambda: st.fixed_dictionaries(
            {
                "opts": st.lists(st.sampled_from(["a", "a", "b", "__c__", "__one__", "{a|b}", "{a}", "x"]), min_size=2, max_size=4),
                "k": st.integers(0, 4), "seed": st.integers(0, 10**6),
            },
        ),
        check_equal,
        quick=600,
    ),
]
