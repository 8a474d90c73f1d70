"""Limits cut the enumeration off after its first prompts, however large it is."""
import itertools

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C07"
RULE = (
    "case = template + limit; the limited result must be the beginning of the full one; non-trivial = the limit "
    "is smaller than the number of combinations"
)


def check_prefix(case) -> Info:
    tpl, wcs = case["tpl"], case["wcs"]
    try:
        full = ref.comb(tpl, sut.ref_world(wcs), cap=300)
    except ref.TooBig:
        return Info(False, ("too big",))
    text = tmpl.render(tpl)
    gen = sut.CombinatorialPromptGenerator(sut.manager(wcs))
    limits = sorted({0, 1, len(full) // 2, max(0, len(full) - 1), len(full), len(full) + 1, case["k"]})
    for k in limits:
        expect_eq(gen.generate(text, max_prompts=k), full[:k], f"limit {k}", template=text, total=len(full))
        expect_eq(gen.generate(text, k), full[:k], f"positional limit {k}", template=text)
    expect_eq(gen.generate(text), full, "default limit", template=text)
    expect_eq(gen.generate(text, max_prompts=None), full, "no limit", template=text)
    ctx = sut.context(sut.COMB, wcs)
    expect_eq(sut.take(ctx.sample_prompts(text, case["k"]), 10**6), full[: case["k"]], "context", template=text)
    expect_eq(sut.take(ctx.sample_prompts(text), 10**6), full, "context, no limit", template=text)
    batched = sut.BatchedCombinatorialPromptGenerator(gen, batches=2)
    expect_eq(batched.generate(text, case["k"]), full[: case["k"]] * 2, "batched", template=text)
    return Info(case["k"] < len(full), gens.features(tpl, wcs))


# ------------------------------------------------------- enormous templates


def part_stream(part):
    """All texts of one part, lazily and in order."""
    kind, n, lo, hi = part
    words = [f"w{i}" for i in range(n)]
    if kind == "wc":
        words.sort()
        return iter(words)
    if kind == "wcsel":
        words.sort()
    if kind == "one":
        return iter(words)
    before, after = ("<", ">") if kind == "wrap" else ("", "")
    return (
        before + " & ".join(sel) + after
        for k in range(min(lo, n), min(hi, n) + 1)
        for sel in itertools.permutations(words, k)
    )


def part_text(i, part):
    kind, n, lo, hi = part
    words = "|".join(f"w{j}" for j in range(n))
    if kind == "one":
        return "{" + words + "}"
    if kind == "wc":
        return f"__wc{i}__"
    if kind == "wcsel":
        return "{" + f"{lo}-{hi}$$ & $$__wc{i}__" + "}"
    if kind == "wrap":
        return "%{<...>$${" + f"{lo}-{hi}$$ & $$" + words + "}}"
    return "{" + f"{lo}-{hi}$$ & $$" + words + "}"


def first(parts, k):
    """The first k combinations (last part varies fastest), without enumerating the rest."""
    if not parts or k == 0:
        return [""][:k]
    out = []
    tail = first(parts[1:], k)
    for x in part_stream(parts[0]):
        for t in tail:
            out.append(x + " " + t)
            if len(out) == k:
                return out
    return out


def size(part):
    kind, n, lo, hi = part
    if kind in ("one", "wc"):
        return n
    total = 0
    for k in range(min(lo, n), min(hi, n) + 1):
        x = 1
        for i in range(k):
            x *= n - i
        total += x
    return total


def check_huge(case) -> Info:
    parts, k = case["parts"], case["k"]
    text = "".join(part_text(i, p) + " " for i, p in enumerate(parts))
    wm = sut.WildcardManager(
        root_map={"": [{f"wc{i}": [f"w{j}" for j in range(p[1])] for i, p in enumerate(parts)}]},
    )
    total = 1
    for p in parts:
        total *= size(p)
    want = first(parts, min(k, 1000))
    got = sut.CombinatorialPromptGenerator(wm).generate(text, max_prompts=k)
    expect_eq(got, want, "first prompts of an enormous template", template=text, total=total)
    if case["dflt"] and total > 1000:
        got = sut.CombinatorialPromptGenerator(wm).generate(text)
        expect(len(got) == 1000, "default limit is not 1000", got=len(got), template=text)
        expect_eq(got[:50], first(parts, 50), "default limit", template=text)
    # a random sample of it is just as cheap
    got = sut.RandomPromptGenerator(wm, seed=k).generate(text, 3)
    expect(len(got) == 3, "random sample of an enormous template", got=got)
    return Info(k < total, ("total > 10^9",) if total > 10**9 else ())


@st.composite
def huge(draw):
    parts = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["one", "sel", "wc", "wcsel", "wrap"]))
        n = draw(st.sampled_from([2, 3, 10, 25, 40]))
        lo = draw(st.integers(0, min(n, 12)))
        hi = draw(st.integers(lo, n))
        parts.append([kind, n, lo, hi])
    return {"parts": parts, "k": draw(st.sampled_from([0, 1, 2, 7, 30, 120])), "dflt": draw(st.integers(0, 9)) == 0}


# ----------------------------------------------------------- deep definitions


def deep_values(level, depth, shape):
    """All prompts of the definition at this level, lazily and in order."""
    if level == depth:
        yield from ("x", "y")
        return
    for pre, post in shape[level % len(shape)]:
        for v in deep_values(level + 1, depth, shape):
            yield pre + v + post


def check_deep(case) -> Info:
    """Definitions within definitions: every level doubles the number of prompts, not the cost of the first ones."""
    depth, k, kind = case["depth"], case["k"], case["kind"]
    shape = [sorted((f"{a}{i} ", f" {b}") for i, (a, b) in enumerate(opts)) for opts in case["shape"]]
    m = {}
    if kind == "wildcards":
        for i in range(depth):
            m[f"w{i}"] = [f"{a}__w{i + 1}__{b}" for a, b in shape[i % len(shape)]]
        m[f"w{depth}"] = ["x", "y"]
        text = "__w0__"
    else:
        text = "{x|y}"
        for i in reversed(range(depth)):
            if kind == "variants":
                text = "{" + "|".join(f"{a}{text}{b}" for a, b in shape[i % len(shape)][:1]) + "}"
            else:
                text = "${" + f"v{i}:" + shape[i % len(shape)][0][0] + text + shape[i % len(shape)][0][1] + "}"
        shape = [s[:1] for s in shape]
    wm = sut.WildcardManager(root_map={"": [m]})
    want = list(itertools.islice(deep_values(0, depth, shape), k))
    got = sut.CombinatorialPromptGenerator(wm).generate(f"< {text} >", k)
    expect_eq(got, [f"< {w} >" for w in want], "first prompts of deep definitions", template=text, wildcards=m)
    return Info(depth >= 10, (kind, "depth>=12" if depth >= 12 else "depth<12"))


@st.composite
def deep(draw):
    kind = draw(st.sampled_from(["wildcards", "wildcards", "variants", "variables"]))
    return {
        "kind": kind,
        "depth": draw(st.integers(1, 24 if kind == "wildcards" else 12)),
        "k": draw(st.integers(1, 6)),
        "shape": draw(
            st.lists(st.lists(st.tuples(st.sampled_from("abc"), st.sampled_from("pq")).map(list), min_size=1, max_size=3), min_size=1, max_size=3),
        ),
    }


# -------------------------------------------------------------- huge weights


def check_heavy(case) -> Info:
    """A value's repetitions are not listed before they are needed."""
    values, k = case["values"], case["k"]
    coll = sut.ListWildcardCollection([sut.WildcardItem(t, float(w)) for t, w in values])
    wm = sut.WildcardManager(root_map={"": [{"w": coll, "v": ["see __w__"]}]})
    text, per = {
        "alone": ("__w__", lambda t: [t]),
        "between": ("a __w__ b", lambda t: [f"a {t} b"]),
        "with options": ("__w__{x|y}", lambda t: [t + "x", t + "y"]),
        "variable": ("${u=__w__}${u}", lambda t: [t]),
        "wrap": ("%{(...)$$__w__}", lambda t: [f"({t})"]),
        "value": ("__v__", lambda t: [f"see {t}"]),
        "option": ("{__w__ !|z}", lambda t: [f"{t} !"]),
    }[case["form"]]
    want = (p for t, w in sorted(values) for _ in range(max(1, int(w))) for p in per(t))
    got = sut.CombinatorialPromptGenerator(wm).generate(text, k)
    expect_eq(got, list(itertools.islice(want, k)), "first prompts with huge weights", template=text, values=values)
    return Info(k > 1, (case["form"],))


def heavy():
    return st.fixed_dictionaries(
        {
            "values": st.lists(
                st.tuples(st.sampled_from(["a", "b", "c"]), st.sampled_from([3, 1.5e8, 3e8])).map(list),
                min_size=1, max_size=3, unique_by=lambda v: v[0],
            ).filter(lambda vs: any(w > 10 for _, w in vs)),
            "form": st.sampled_from(["alone", "between", "with options", "variable", "wrap", "value"]),
            "k": st.integers(0, 12),
        },
    )


def check_many(case) -> Info:
    """Limits far above the usual ones, cut at exactly the place asked for."""
    b = big.build(case)
    wm = sut.WildcardManager(root_map={"": [b.wcs]})
    k = case["k"]
    text, tail = b.text, ["z"]
    if case["times"] > 1:
        tail = big.words(case["times"], "z")
        text = text + "{" + "|".join(tail) + "}"
    else:
        text += "z"
    want = list(itertools.islice((p + t for p in b.want for t in tail), k))
    info = {"kind": case["kind"], "n": case["n"], "limit": k, "template": text}
    got = sut.CombinatorialPromptGenerator(wm).generate(text, max_prompts=k)
    expect_eq(len(got), len(want), "number of prompts under a limit", **info)
    expect_eq(got, want, "prompts under a limit", **info)
    got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text, k), k + 10)
    expect_eq(len(got), len(want), "number of prompts of a context", **info)
    return Info(k < b.total * case["times"], (case["kind"],))


TESTS = [
    Test(
        "many",
        lambda: big.cases(
            ["options", "values", "select", "select values", "select all"],
            times=st.sampled_from([1, 2, 40]), k=st.one_of(st.integers(0, 300), st.integers(900, 4200)),
        ),
        check_many,
        quick=100,
        cpu_limit=20,
    ),
    Test("heavy", heavy, check_heavy, quick=120, cpu_limit=4),
    Test("deep", deep, check_deep, quick=400, cpu_limit=20),
    Test(
        "prefix",
        lambda: gens.cases(Opts(wrap=True, missing=True, dressed=True, depth=2), k=st.integers(0, 40)),
        check_prefix,
        quick=700,
    ),
    Test("huge", huge, check_huge, quick=500, cpu_limit=20),
]
