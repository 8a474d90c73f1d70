"""Explicit sampler marks apply to exactly the part that carries them."""
import itertools

import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C12"
RULE = (
    "case = parts with explicit sampler marks (variants, wildcards, variables, nested) under one of the three "
    "default samplers; every prompt is matched piece by piece against enumeration order, cycle position or set "
    "of possible values; non-trivial = some part's sampler differs from the default"
)
SEP = " ; "


def matches(prompt: str, pieces) -> bool:
    """Whether the prompt is the pieces' concatenation; a piece is a text or a set of texts."""
    if not pieces:
        return prompt == ""
    head, rest = pieces[0], pieces[1:]
    texts = [head] if isinstance(head, str) else head
    return any(prompt.startswith(t) and matches(prompt[len(t) :], rest) for t in texts)


def effective(default: str, mark: str) -> str:
    kind = {"": default, "!": "comb", "~": "rand", "@": "cyc"}[mark]
    if default != "comb" and kind == "comb":
        return default  # endless samplers cannot contain a finite one
    return kind


def written(part, i):
    """(prefix assignments, sequence) of a part as written in the template."""
    node, how = part["node"], part["how"]
    if how == "var":  # through a variable that is evaluated on use
        return [{"t": "set", "n": f"v{i}", "v": [node], "now": False, "keep": False}], [{"t": "get", "n": f"v{i}", "d": None}]
    if how == "chain":  # through variables that stand for one another, in the order of use
        chain = [[node], [{"t": "get", "n": f"v{i}", "d": None}], [{"t": "get", "n": f"b{i}", "d": None}]]
        sets = [
            {"t": "set", "n": f"{n}{i}", "v": value, "now": False, "keep": False} for n, value in zip("vbu", chain)
        ]
        return sets, [{"t": "get", "n": f"u{i}", "d": None}]
    if how == "default":
        return [], [{"t": "get", "n": f"v{i}", "d": [node]}]
    if how == "fallback":  # the context's value for unknown variables
        return [], [{"t": "get", "n": f"unknown{i}", "d": None}]
    return [], [node]


def check(case) -> Info:
    default, wcs = case["default"], case["wcs"]
    parts = case["parts"]
    sets, seq = [], [lit("> ")]
    for i, p in enumerate(parts):
        s, body = written(p, i)
        sets += s
        seq += [*body, lit(SEP)]
    text = tmpl.render(sets + seq)
    world = sut.ref_world(wcs)
    kinds = [effective(default, p["node"]["m"]) for p in parts]
    n = case["n"]
    try:
        values = []
        for p, k in zip(parts, kinds):
            if k == "comb":
                values.append(ref.comb([p["node"]], world, cap=60))
            elif k == "cyc":
                values.append(list(itertools.islice(ref.cycle([p["node"]], world), 100)))
            else:
                values.append(ref.language([p["node"]], world, cap=300))
    except ref.TooBig:
        return Info(False, ("too big",))
    comb_axes = [v for v, k in zip(values, kinds) if k == "comb"]
    if default == "comb":
        combos = list(itertools.islice(itertools.product(*comb_axes), n))
    else:
        combos = [()] * n
    method = {"comb": sut.COMB, "rand": sut.RANDOM, "cyc": sut.CYC}[default]
    fallback = [p["node"] for p in parts if p["how"] == "fallback"]
    ctx = sut.context(
        method, wcs, seed=case["seed"], unknown_variable_value=sut.parse(tmpl.render(fallback[:1])) if fallback else None,
    )
    got = sut.take(ctx.sample_prompts(text, n), n + 1)
    expect_eq(len(got), len(combos), "number of prompts", template=text, got=got, default=default)
    for i, (prompt, combo) in enumerate(zip(got, combos)):
        combo = list(combo)
        pieces = ["> "]
        for v, k in zip(values, kinds):
            if k == "comb":
                pieces.append(combo.pop(0))
            elif k == "cyc":
                pieces.append(v[i])
            else:
                pieces.append(v)
            pieces.append(SEP)
        expect(
            matches(prompt, pieces),
            f"prompt {i} does not follow the samplers of its parts",
            prompt=prompt,
            template=text,
            default=default,
            pieces=[p if isinstance(p, str) else sorted(p)[:8] for p in pieces],
            wildcards=sut.world_texts(wcs),
        )
    mixed = any(k != default for k in kinds)
    return Info(mixed, (f"default {default}", *sorted({f"{default} with {k}" for k in kinds})))


@st.composite
def cases(draw):
    default = draw(st.sampled_from(["comb", "comb", "rand", "cyc"]))
    o = Opts(depth=2, max_opts=4)
    wcs = draw(gens.worlds(o, n_names=2))
    oo = Opts(depth=2, max_opts=4, wildcards=tuple(wcs), dressed=True)
    parts = []
    for _ in range(draw(st.integers(1, 4))):
        node = draw(tmpl.commands(oo, 0))
        node["m"] = draw(st.sampled_from(["", "@", "~", "!"]))
        parts.append({"node": node, "how": draw(st.sampled_from(["plain", "plain", "plain", "var", "chain", "default", "fallback"]))})
        if [p["how"] for p in parts].count("fallback") > 1:  # (there is one such value only)
            parts[-1]["how"] = "plain"
    return {"default": default, "wcs": wcs, "parts": parts, "n": draw(st.sampled_from([1, 7, 20, 60])), "seed": draw(st.integers(0, 10**6))}


def check_nested(case) -> Info:
    """Under combinatorial sampling, a marked part inside an option or value adds one value per occurrence."""
    opts = case["opts"]
    texts, want = [], []
    for i, (mark, words) in enumerate(opts):
        if not mark:
            texts.append(f"n{i}")
            want.append([f"n{i}"])
        else:
            texts.append(f"n{i}=" + "{" + mark + "|".join(words) + "}")
            want.append([f"n{i}=" + (words[0] if mark == "@" else "\0")])
    flat = [w[0] for w in want]
    tail = ["x", "y"]
    wm = sut.WildcardManager(root_map={"": [{"w": texts}]})
    for text, order in (
        ("{" + "|".join(texts) + "} {x|y}", flat),
        ("__w__ {x|y}", [f for _, f in sorted(zip(texts, flat))]),
        ("%{" + "... {x|y}$${" + "|".join(texts) + "}}", None),
    ):
        got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text, 200), 200)
        if order is None:
            expected = [f"{f} {t}" for t in tail for f in flat]
        else:
            expected = [f"{f} {t}" for f in order for t in tail]
        expect_eq(len(got), len(expected), "number of prompts", template=text, got=got[:10])
        for g, e in zip(got, expected):
            if "\0" in e:
                pre, post = e.split("\0")
                i = int(pre[1:-1])
                ok = g.startswith(pre) and g.endswith(post) and g[len(pre) : len(g) - len(post)] in opts[i][1]
            else:
                ok = g == e
            expect(ok, "prompt with a nested mark", got=g, want=e, template=text)
    return Info(any(m for m, _ in opts))


def check_chosen(case) -> Info:
    """A marked option among several chosen ones: the others are enumerated completely, it is drawn or cycles."""
    k, words, mark, axes = case["k"], case["words"], case["mark"], case["axes"]
    at = min(case["at"], len(axes))
    finite = [[f"{chr(65 + i)}{j}" for j in range(n)] for i, n in enumerate(axes)]
    options = ["{" + "|".join(f) + "}" for f in finite]
    options.insert(at, "{" + mark + "|".join(words) + "}")
    text = "{" + f"{k}$$ + $$" + "|".join(options) + "}"
    wm = sut.WildcardManager(root_map={"": [{"w": words}]})
    if case["wildcard"]:
        text = text.replace(options[at], "__" + mark + "w__")
        words = sorted(words)
    got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text), 2000)
    positions = finite[:at] + [None] + finite[at:]
    want = []
    for order in itertools.permutations(range(len(options)), min(k, len(options))):
        combos = itertools.product(*([None] if i == at else positions[i] for i in order))
        for n, c in enumerate(combos):
            # (a part that comes first goes on with every prompt; after others it starts anew)
            want.append((c, n if order[0] == at else None))
    expect_eq(len(got), len(want), "number of prompts", template=text, got=got[:12])
    for g, (c, n) in zip(got, want):
        parts = g.split(" + ")
        expect_eq(len(parts), len(c), "number of values", prompt=g, template=text)
        for p, w in zip(parts, c):
            if w is not None:
                expect_eq(p, w, "enumerated value", prompt=g, template=text)
            elif mark == "@" and n is not None:
                expect_eq(p, words[n % len(words)], "the cyclical value goes on with every prompt", prompt=g, template=text)
            else:
                expect(p in words, "impossible value", prompt=g, template=text)
    return Info(len(axes) > 0 and k > 1)


def check_bare(case) -> Info:
    """Marked choices that are a whole wildcard value or wrap side stay finite under combinatorial sampling."""
    words, mark = case["words"], case["mark"]
    marked = "{" + mark + "|".join(words) + "}"
    wm = sut.WildcardManager(root_map={"": [{"w": [marked, "zz"]}]})
    for text, prefix, count in (
        ("__w__ {x|y}", "", 4),
        ("%{... {x|y}$$" + marked + "}", "", 2),
        ("%{" + marked + " ...$${x|y}}", "", 2),
    ):
        got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text), 50)
        expect_eq(len(got), count, "number of prompts", template=text, got=got[:10])
        for g in got:
            a, _, b = g.rpartition(" ")
            expect(b in ("x", "y") and (a in words or a == "zz"), "impossible prompt", prompt=g, template=text)
            if mark == "@" and a != "zz":
                expect_eq(a, words[0], "a fresh cycle starts at its first value", template=text, prompt=g)
    return Info(True)


def check_whole(case) -> Info:
    """A template that as a whole is a marked part (or a variable with such a value) is sampled as marked."""
    node, default, wcs, n = case["node"], case["default"], case["wcs"], case["n"]
    sets, body = written({"node": node, "how": case["how"]}, 0)
    text = tmpl.render(sets + body)
    kind = effective(default, node["m"])
    world = sut.ref_world(wcs)
    try:
        if kind == "comb":
            want = ref.comb([node], world, cap=60)[:n]
        elif kind == "cyc":
            want = list(itertools.islice(ref.cycle([node], world), n))
        else:
            want = ref.language([node], world, cap=300)
    except ref.TooBig:
        return Info(False, ("too big",))
    method = {"comb": sut.COMB, "rand": sut.RANDOM, "cyc": sut.CYC}[default]
    got = sut.take(sut.context(method, wcs, seed=case["seed"]).sample_prompts(text, n), n + 1)
    if default == "comb" and kind != "comb" and case["how"] != "default" and sets:
        n = 1  # (a part of a sequence, in which nothing else varies)
        want = want if kind == "rand" else want[:1]
    if kind == "rand":
        expect(len(got) == n and all(g in want for g in got), "random prompts", template=text, got=got, default=default)
    else:
        expect_eq(got, want, "prompts", template=text, default=default)
    return Info(kind != default, (f"{default} with {kind}",))


def check_large(case) -> Info:
    """Marked parts with many values."""
    default, sizes, marks = case["default"], case["sizes"], case["marks"]
    axes = [[f"{chr(97 + i)}{j:04d}" for j in range(n)] for i, n in enumerate(sizes)]
    texts, data = [], {}
    for i, (a, m) in enumerate(zip(axes, marks)):
        if case["wildcards"]:
            data[f"w{i}"] = a
            texts.append(f"__{m}w{i}__")
        else:
            texts.append("{" + m + "|".join(a) + "}")
    text = "> " + SEP.join(texts)
    kinds = [effective(default, m) for m in marks]
    n = case["n"]
    method = {"comb": sut.COMB, "rand": sut.RANDOM, "cyc": sut.CYC}[default]
    ctx = sut.SamplingContext(method, sut.WildcardManager(root_map={"": [data]}))
    got = sut.take(ctx.sample_prompts(text, n), n + 1)
    if default == "comb":
        combos = list(itertools.islice(itertools.product(*(a for a, k in zip(axes, kinds) if k == "comb")), n))
    else:
        combos = [()] * n
    expect_eq(len(got), len(combos), "number of prompts", sizes=sizes, marks=marks)
    for i, (g, combo) in enumerate(zip(got, combos)):
        combo = list(combo)
        parts = g[2:].split(SEP)
        expect_eq(len(parts), len(axes), "number of parts", prompt=g)
        for p, a, k in zip(parts, axes, kinds):
            if k == "comb":
                expect_eq(p, combo.pop(0), f"enumerated value of prompt {i}", sizes=sizes, marks=marks, default=default)
            elif k == "cyc":
                expect_eq(p, a[i % len(a)], f"cyclical value of prompt {i}", sizes=sizes, marks=marks, default=default)
            else:
                expect(p in a, "impossible value", prompt=g)
    # all of a random part's many values can come up, its last tenth as well as its first
    for j, (a, k) in enumerate(zip(axes, kinds)):
        if k == "rand" and len(got) >= 300:
            seen = [a.index(g[2:].split(SEP)[j]) * 10 // len(a) for g in got]
            expect(0 in seen and (len(a) - 1) * 10 // len(a) in seen, "300 random values are all from one end", sizes=sizes)
    return Info(len(set(kinds)) > 1, tuple(sorted(set(kinds))))


def check_blank(case) -> Info:
    """A marked part may come to nothing but whitespace."""
    default, m, blanks = case["default"], case["m"], case["blanks"]
    kind = effective(default, m)
    text = case["before"] + "{" + m + "|".join(f"1::{b}" for b in blanks) + "}." + "{p|q}" * case["after"]
    method = {"comb": sut.COMB, "rand": sut.RANDOM, "cyc": sut.CYC}[default]
    got = sut.take(sut.context(method, {}, seed=case["seed"]).sample_prompts(text), 40)
    tails = {"".join(x) for x in itertools.product("pq", repeat=case["after"])}
    want = {f"{case['before']}{b}.{t}" for b in blanks for t in tails}
    expect(got and set(got) <= want, "prompts", template=text, got=got[:10], default=default, want=sorted(want))
    if kind == default == "comb":
        expect_eq(set(got), want, "prompts", template=text)
    return Info(kind != default, (f"{default} with {kind}",))


TESTS = [
    Test(
        "blank",
        lambda: st.fixed_dictionaries(
            {
                "default": st.sampled_from(["comb", "comb", "rand", "cyc"]), "m": st.sampled_from(["~", "@", "!", ""]),
                "blanks": st.lists(st.sampled_from([" ", "  ", "\n", " x", "y ", "", "z", "\t", " \n"]), min_size=1, max_size=4, unique=True),
                "before": st.sampled_from(["", "a", "a ", "(\n"]), "after": st.integers(0, 2), "seed": st.integers(0, 10**6),
            },
        ),
        check_blank,
        quick=300,
    ),
    Test(
        "large",
        lambda: st.integers(1, 3).flatmap(
            lambda k: st.fixed_dictionaries(
                {
                    "default": st.sampled_from(["comb", "rand", "cyc"]),
                    "sizes": st.lists(st.sampled_from([1, 7, 40, 101, 150, 300]), min_size=k, max_size=k),
                    "marks": st.lists(st.sampled_from(["", "@", "~", "!"]), min_size=k, max_size=k),
                    "wildcards": st.booleans(),
                    "n": st.sampled_from([20, 101, 320, 700]),
                },
            ),
        ),
        check_large,
        quick=60,
    ),
    Test(
        "whole",
        lambda: cases().map(
            lambda c: {**c, "node": c["parts"][0]["node"], "how": c["parts"][0]["how"].replace("fallback", "plain")},
        ),
        check_whole,
        quick=600,
    ),
    Test("mixed", cases, check, quick=3000),
    Test(
        "nested",
        lambda: st.fixed_dictionaries(
            {
                "opts": st.lists(
                    st.tuples(st.sampled_from(["", "@", "~"]), tmpl.plain_words(1, 4)).map(list),
                    min_size=1,
                    max_size=4,
                ),
            },
        ),
        check_nested,
        quick=600,
    ),
    Test(
        "chosen",
        lambda: st.fixed_dictionaries(
            {
                "k": st.integers(1, 3),
                "words": tmpl.plain_words(1, 4),
                "mark": st.sampled_from(["@", "@", "~"]),
                "axes": st.lists(st.integers(1, 4), min_size=1, max_size=3),
                "at": st.integers(0, 3),
                "wildcard": st.booleans(),
            },
        ),
        check_chosen,
        quick=500,
    ),
    Test(
        "bare",
        lambda: st.fixed_dictionaries({"words": tmpl.plain_words(1, 5), "mark": st.sampled_from(["@", "~"])}),
        check_bare,
        quick=200,
    ),
]
