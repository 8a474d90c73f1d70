"""Jinja template functions return what they promise for any arguments."""
import itertools
import json
import math
import random

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C25"
RULE = (
    "case = one Jinja function with generated arguments (items, weights, ranges, templates, wildcards); exact "
    "results for the deterministic functions, set of possible results, coverage and frequencies for the random "
    "ones; non-trivial = more than one possible result"
)
DEFAULTS = {k: getattr(tmpl.DEFAULT, k) for k in ("vs", "ve", "ww", "as_", "ae", "ws", "we")}
WORDS = ["red", "green", "blue sky", "it's", "été", "日本", "a\"b", "x\\y", "", " pad ", "{{", "%}", "7", "<b>", "&amp;"]


def jlist(items):
    """A Jinja literal of strings, numbers and lists."""
    if isinstance(items, str):
        return json.dumps(items, ensure_ascii=False)
    if isinstance(items, list):
        return "[" + ", ".join(map(jlist, items)) + "]"
    return repr(items)


def items(n_min=1, n_max=6, unique=True):
    return st.lists(st.sampled_from(WORDS), min_size=n_min, max_size=n_max, unique=unique)


def emit(expr):
    """A template whose prompt is the JSON form of an expression (undisturbed by escaping)."""
    return "{{ (" + expr + ") | tojson }}"


def run(expr, n=1, wm=None, **kw):
    out = sut.JinjaGenerator(wm, **kw).generate(emit(expr), n)
    expect_eq(len(out), n, "number of prompts", expression=expr)
    return [json.loads(o.replace("\\u0027", "'")) for o in out]


def check_choice(case) -> Info:
    words, n = case["items"], 60 * len(case["items"])
    random.seed(case["seed"])
    got = run("choice(" + ", ".join(map(jlist, words)) + ")", n)
    expect(set(got) <= set(words), "a value that is not among the items", got=sorted(set(got)))
    # each item is missed by 60*k draws with probability < exp(-60)
    expect_eq(set(got), set(words), "every item is chosen")
    worst = max(abs(got.count(w) - 60) for w in words)
    expect(worst <= 60 + 8 * math.sqrt(60) and min(got.count(w) for w in words) >= 8, "choices are far from even", counts={w: got.count(w) for w in words})
    return Info(len(words) > 1)


def check_weighted(case) -> Info:
    pairs, n = case["pairs"], 1500
    random.seed(case["seed"])
    got = run("weighted_choice(" + ", ".join(f"({jlist(v)}, {w})" for v, w in pairs) + ")", n)
    total = sum(w for _, w in pairs)
    for v, w in pairs:
        p = w / total
        k = got.count(v)
        # 7 standard deviations: about 1e-11 per item
        expect(abs(k - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 5 * (0 < p < 1), "frequency does not follow the weight", item=v, expected=n * p, got=k, pairs=pairs)
    expect(all(g in [v for v, _ in pairs] for g in got), "a value that is not among the items")
    return Info(len({w for _, w in pairs}) > 1)


def check_numbers(case) -> Info:
    lo, hi = sorted(case["range"])
    random.seed(case["seed"])
    got = run(f"randint({lo}, {hi})", 150)
    expect(all(isinstance(g, int) and lo <= g <= hi for g in got), "number outside of the range", got=sorted(set(got)))
    if hi - lo <= 2:
        expect_eq(set(got), set(range(lo, hi + 1)), "every number occurs, both ends included")
    got = run("random()", 60)
    expect(all(0 <= g < 1 for g in got), "random number outside of [0, 1)", got=got)
    expect(len(set(got)) > 50 and min(got) < 0.5 < max(got), "random numbers do not vary", got=got)
    return Info(hi > lo)


def check_permutations(case) -> Info:
    words, low, high = case["items"], case["low"], case["high"]
    # (filters give iterators, ranges and strings are collections too)
    arg = jlist(words) + case.get("filter", "")
    args = f"{arg}, {low}" + ("" if high is None else f", {high}")
    got = [tuple(g) for g in run(f"permutations({args})")[0]]
    top = low if high is None else high
    want = []
    for k in range(low, top + 1):
        want += arrangements(words, k)
    expect_eq(got, want, "permutations", items=words, low=low, high=high)
    for g, k in ((None, low), (high, low)):
        text = "abcd"[: len(words)]
        args = f"{jlist(text)}, {k}" + ("" if g is None else f", {g}")
        chars = [tuple(x) for x in run(f"permutations({args})")[0]]
        want_c = [c for size in range(k, (k if g is None else g) + 1) for c in arrangements(list(text), size)]
        expect_eq(chars, want_c, "permutations of characters", items=text, low=k, high=g)
    return Info(len(want) > 1)


def arrangements(words, k):
    if k == 0:
        return [()]
    if k > len(words):
        return []
    out = []
    for i, w in enumerate(words):
        out += [(w, *rest) for rest in arrangements(words[:i] + words[i + 1 :], k - 1)]
    return out


def check_sampling(case) -> Info:
    """all_combinations, random_sample and wildcard agree with the template language."""
    tpl, wcs = case["tpl"], case["wcs"]
    d = tmpl.Delims(**case["d"]) if case.get("d") else tmpl.DEFAULT
    cfg = sut.parser_config(d)
    world = sut.ref_world(wcs, d=d)
    try:
        want = ref.comb(tpl, world, cap=300)
        lang = ref.language(tpl, world, cap=2000)
    except ref.TooBig:
        return Info(False, ("too big",))
    text = tmpl.render(tpl, d)
    wm = sut.manager(wcs, d)
    info = {"template": text, "wildcards": sut.world_texts(wcs, d)}
    expect_eq(run(f"all_combinations({jlist(text)})", wm=wm, parser_config=cfg)[0], want, "all_combinations", **info)
    got = run(f"random_sample({jlist(text)})", 6, wm=wm, parser_config=cfg)
    expect(all(g in lang for g in got), "random_sample", got=got, **info)
    for name in wcs:
        try:
            want_w = ref.comb([tmpl.wc(name)], world, cap=300)
        except ref.TooBig:
            continue
        expect_eq(run(f"wildcard({jlist(name)})", wm=wm, parser_config=cfg)[0], want_w, "wildcard", wildcard=name, **info)
        expect_eq(run(f"wildcard({jlist(d.ww + name + d.ww)})", wm=wm, parser_config=cfg)[0], want_w, "wrapped wildcard", wildcard=name, **info)
    # several calls in one template do not disturb each other
    both = run(f"[all_combinations({jlist(text)}), permutations([1, 2], 2), all_combinations({jlist(text)})]", wm=wm, parser_config=cfg)[0]
    expect_eq(both, [want, [[1, 2], [2, 1]], want], "several calls", **info)
    return Info(len(want) > 1, gens.features(tpl, wcs))


CUSTOM = [
    {"vs": "<", "ve": ">", "ws": "%<", "we": ">"},
    {"ww": "**"},
    {"vs": "[", "ve": "]", "ww": "@@", "ws": "%[", "we": "]"},
    {"vs": "«", "ve": "»", "ww": "§", "as_": "$(", "ae": ")", "ws": "%«", "we": "»"},
]
PLAIN = ("red", "green", "blue", "cat", "été", "日本", "ice cream", "x1", "A4", "owl", "a b c")


@st.composite
def custom(draw):
    case = draw(gens.cases(Opts(words=PLAIN, wrap=True, missing=True, depth=2)))
    for seq in [case["tpl"], *(s for v in case["wcs"].values() for s, _ in v)]:
        for n in tmpl.walk(seq):
            if n["t"] == "lit":
                n["s"] = "".join(c for c in n["s"] if c.isalnum() or c == " ").strip() or "w"
            if n["t"] == "var" and n.get("sep") is not None and not n["sep"].strip().isalpha():
                n["sep"] = " and "
    case["d"] = {**DEFAULTS, **draw(st.sampled_from(CUSTOM))}
    for name, entries in case["wcs"].items():  # values stay pairwise different
        case["wcs"][name] = list({tmpl.render(e[0]): e for e in reversed(entries)}.values())[::-1]
    return case


def check_large(case) -> Info:
    """Many arguments, long arguments, large selections."""
    kind, n = case["kind"], case["n"]
    random.seed(case["seed"])
    if kind == "choice":
        words = big.words(n)
        got = run("choice(" + ", ".join(map(jlist, words)) + ")", 2000)
        halves = [g in set(words[n // 2 :]) for g in got]
        expect(set(got) <= set(words), "a value that is not among the items")
        # 2000 draws: each half has at least a third of the items
        expect(n < 2 or 300 < sum(halves) < 1700, "choices are far from even", second_half=sum(halves), n=n)
    elif kind == "weighted_choice":
        words = big.words(n)
        got = run("weighted_choice(" + ", ".join(f"({jlist(w)}, {1 if i < n // 2 else 3})" for i, w in enumerate(words)) + ")", 2000)
        p = (n - n // 2) * 3 / (n // 2 + (n - n // 2) * 3)
        k = sum(g in set(words[n // 2 :]) for g in got)
        expect(abs(k - 2000 * p) <= 7 * math.sqrt(2000 * p * (1 - p)) + 5, "frequency does not follow the weight", expected=2000 * p, got=k, n=n)
    elif kind == "permutations":
        n = min(n, 7)
        words = big.words(n)
        for low, high in ((n, None), (max(0, n - 1), n), (1, n)):
            args = f"{jlist(words)}, {low}" + ("" if high is None else f", {high}")
            want = [p for k in range(low, (low if high is None else high) + 1) for p in itertools.permutations(words, k)]
            expect_eq([tuple(g) for g in run(f"permutations({args})")[0]], want, "permutations", n=n, low=low, high=high)
    elif kind == "many permutations":
        n = min(n, 45)
        words = big.words(n)
        expect_eq([tuple(g) for g in run(f"permutations({jlist(words)}, 1, 2)")[0]], [(w,) for w in words] + list(itertools.permutations(words, 2)), "permutations", n=n)
    elif kind == "randint":
        hi = 10**n if n < 25 else 10**25
        got = run(f"randint({-hi}, {hi})", 200)
        expect(all(-hi <= g <= hi for g in got) and min(got) < 0 < max(got) and max(map(abs, got)) > hi // 10, "numbers do not use their range", n=n)
    else:
        b = big.build({"kind": case["what"], "n": n, "m": 3})
        wm = sut.WildcardManager(root_map={"": [b.wcs]})
        if b.total > 1200:
            return Info(False)
        want = list(b.want)
        expect_eq(run(f"all_combinations({jlist(b.text)})", wm=wm)[0], want, "all_combinations", template=b.text)
        got = run(f"random_sample({jlist(b.text)})", 3, wm=wm)
        expect(set(got) <= set(want), "random_sample", got=got, template=b.text)
        for name in b.wcs:
            if "{" not in repr(b.wcs) and "__" not in repr(b.wcs):
                expect_eq(run(f"wildcard({jlist(name)})", wm=wm)[0], b.wcs[name], "wildcard", name=name)
    return Info(n > 5, (kind,))


TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["choice", "weighted_choice", "permutations", "many permutations", "randint", "sampling", "sampling"]),
                "what": st.sampled_from(["options", "values", "text", "value text", "path", "variables", "select", "bounds", "chain"]),
                "n": big.size(300), "seed": st.integers(0, 10**9),
            },
        ),
        check_large,
        quick=120,
    ),
    Test("choice", lambda: st.fixed_dictionaries({"items": items(), "seed": st.integers(0, 10**9)}), check_choice, quick=160),
    Test(
        "weighted_choice",
        lambda: st.fixed_dictionaries(
            {
                "pairs": st.lists(
                    st.tuples(st.sampled_from(WORDS), st.sampled_from([0, 1, 2, 5, 0.5, 10, 0.1, 1])).map(list),
                    min_size=1, max_size=5, unique_by=lambda p: p[0],
                ).filter(lambda ps: sum(w for _, w in ps) > 0),
                "seed": st.integers(0, 10**9),
            },
        ),
        check_weighted,
        quick=160,
    ),
    Test(
        "numbers",
        lambda: st.fixed_dictionaries(
            {"range": st.lists(st.integers(-4, 4) | st.integers(-10**6, 10**6), min_size=2, max_size=2), "seed": st.integers(0, 10**9)},
        ),
        check_numbers,
        quick=300,
    ),
    Test(
        "permutations",
        lambda: st.fixed_dictionaries(
            {
                "items": items(0, 5, unique=False), "low": st.integers(0, 6),
                "high": st.one_of(st.none(), st.integers(0, 6)),
                "filter": st.sampled_from(["", "", " | map('string')", " | select('string')", " | list"]),
            },
        ),
        check_permutations,
        quick=1500,
    ),
    Test("sampling", lambda: gens.cases(Opts(wrap=True, missing=True, depth=2)), check_sampling, quick=800),
    Test("sampling with custom delimiters", custom, check_sampling, quick=300),
]
