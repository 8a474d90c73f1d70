"""Variables: what is assigned is what is used, evaluated when and as often as stated."""
import dataclasses
import itertools

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C15"
RULE = (
    "case = assignments (immediate or not, overwriting or not, to anything) and uses (with and without defaults, "
    "nested, in wildcard values) compared with a reference under every sampler; non-trivial = some variable is "
    "both assigned and used"
)
NAMES = ("a", "b", "season", "my-var", "X_1")
# (names that are easily taken for one another)
LOOKALIKES = ("v", "V", "v_", "_v", "v-", "-v", "vv", "v1", "v-1", "v_1")


def check(case) -> Info:
    tpl, wcs = case["tpl"], case["wcs"]
    unknown = case["unknown"]
    text = tmpl.render(tpl)
    world = sut.ref_world(wcs, unknown=unknown)
    kw = {} if unknown is None else {"unknown_variable_value": unknown}
    used = {n["n"] for n in tmpl.walk(tpl) if n["t"] == "get"}
    assigned = {n["n"] for n in tpl if n["t"] == "set"}
    everywhere = [n for s in [tpl, *(s for v in wcs.values() for s, _ in v)] for n in tmpl.walk(s)]
    undefined = {n["n"] for n in everywhere if n["t"] == "get" and n.get("d") is None}
    labels = list(gens.features(tpl, wcs))

    def run(method, n):
        ctx = sut.context(method, wcs, seed=case["seed"], **kw)
        return sut.take(ctx.sample_prompts(text), n)

    def guarded(reference, method, n):
        """Reference and code must agree on whether some variable is undefined."""
        try:
            want = reference()
        except ref.UndefinedVariable as e:
            want = e
        except ref.TooBig:
            return None, None
        if isinstance(want, ref.UndefinedVariable):
            labels.append("undefined")
            try:
                # (the reference looks at all combinations of a part first)
                got = run(method, 4000 if method is sut.COMB else n)
            except KeyError as e:
                expect(
                    any(name in str(e) for name in undefined), "the error does not name the variable", error=str(e), variables=sorted(undefined),
                )
                return None, None
            if len(got) == 4000:
                return None, None
            expect(False, f"{method}: undefined variable goes unnoticed", template=text, variable=str(want), got=got)
        return want, run(method, n)

    want, got = guarded(lambda: ref.comb(tpl, world, cap=300), sut.COMB, 320)
    if want is not None:
        expect_eq(got, want, "combinatorial prompts", template=text, wildcards=sut.world_texts(wcs))
    want, got = guarded(lambda: list(itertools.islice(ref.cycle(tpl, world), 12)), sut.CYC, 12)
    if want is not None:
        expect_eq(got, want, "cyclical prompts", template=text, wildcards=sut.world_texts(wcs))
    # (random sampling may or may not come across an undefined variable)
    try:
        want = ref.language(tpl, world, cap=2000)
    except ref.TooBig:
        want = None
    except ref.UndefinedVariable:
        want = None
    if want is not None:
        for p in run(sut.RANDOM, 8):
            expect(p in want, "impossible random prompt", prompt=p, template=text, wildcards=sut.world_texts(wcs))
    return Info(bool(used & assigned), tuple(sorted(set(labels))))


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(draw(st.sampled_from([NAMES, LOOKALIKES]))), min_size=1, max_size=3, unique=True))
    o = Opts(depth=2, max_opts=3, max_parts=3, weights=False, bounds=draw(st.booleans()))
    # wildcard values may read the variables too; a value never refers to itself
    wcs = draw(gens.worlds(dataclasses.replace(o, variables=tuple(names)), n_names=2))
    flat = {k: v for k, v in wcs.items() if not any(n["t"] == "get" for s, _ in v for n in tmpl.walk(s))}
    nested = {k for k, v in flat.items() if not any(n["t"] == "wc" and n["p"] not in flat for s, _ in v for n in tmpl.walk(s))}
    tpl = []
    ready = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(names))
        others = tuple(n for n in ready if n != name)
        # an assigned value may use variables assigned earlier (and never later re-assigned to depend on it)
        value_o = dataclasses.replace(o, wildcards=tuple(nested), variables=() if name in ready else others)
        value = draw(tmpl.option_seq(value_o, 1))
        tpl.append(
            {"t": "set", "n": name, "v": value, "now": draw(st.booleans()), "keep": draw(st.booleans())},
        )
        if name not in ready:
            ready.append(name)
        if draw(st.integers(0, 3)) == 0:
            tpl.append(lit(draw(st.sampled_from([" ", ", ", "x "]))))
    body_o = dataclasses.replace(o, wildcards=tuple(wcs), variables=tuple(names))
    tpl += draw(tmpl.sequences(body_o))
    for name in draw(st.lists(st.sampled_from(names), max_size=2)):
        tpl += [lit(" "), {"t": "get", "n": name, "d": None}]
    if draw(st.integers(0, 3)) == 0:  # the order of assignments among the rest of the prompt is free
        sets = [n for n in tpl if n["t"] == "set"]
        rest = [n for n in tpl if n["t"] != "set"]
        tpl = merge_literals([rest[0], *sets, *rest[1:]])
    return {
        "tpl": merge_literals(tpl), "wcs": wcs,
        "unknown": draw(st.sampled_from([None, None, "?", "", "unknown value", " padded \n"])),
        "seed": draw(st.integers(0, 10**6)),
    }


def merge_literals(seq):
    out = []
    for n in seq:
        if n["t"] == "lit" and out and out[-1]["t"] == "lit":
            out[-1] = lit(out[-1]["s"] + n["s"])
        else:
            out.append(n)
    return out


def check_once(case) -> Info:
    """Immediate values are drawn once and shared by all uses; others are drawn for every use."""
    words, uses = case["words"], case["uses"]
    if case["wild"]:
        wm = sut.WildcardManager(root_map={"": [{"w": words, "use": ["${v}"]}]})
        value = "__w__"
    else:
        wm = sut.WildcardManager(root_map={"": [{"use": ["${v}"]}]})
        value = "{" + "|".join(words) + "}"
    use = ["${v}", "{${v}}", "__use__", "${v:zz}", "${w}"]
    refs = [use[u] for u in uses]
    text = "${v=" + ("!" if case["now"] else "") + value + "}${w=${v}}" + " / ".join(refs)
    draws = []
    for seed in range(25):
        got = sut.RandomPromptGenerator(wm, seed=case["seed"] + seed).generate(text, 2)
        for p in got:
            vals = p.split(" / ")
            expect(len(vals) == len(refs) and all(v in words for v in vals), "impossible prompt", prompt=p, template=text)
            if case["now"]:
                expect(len(set(vals)) == 1, "immediate variable has several values in one prompt", prompt=p, template=text)
            draws.append(vals)
    if len(words) >= 4 and case["now"]:
        expect(len({d[0] for d in draws}) > 1, "the value is never redrawn", template=text)
    if len(words) >= 4 and not case["now"] and len(refs) > 1:
        expect(any(len(set(d)) > 1 for d in draws), "uses of a non-immediate variable always agree", template=text)
    return Info(len(words) > 1 and len(refs) > 1, ("immediate" if case["now"] else "on use",))


def check_only_assignments(case) -> Info:
    """Assignments leave no text, even if there is nothing else."""
    text = tmpl.render(case["sets"])
    for method in (sut.COMB, sut.RANDOM, sut.CYC):
        got = sut.take(sut.context(method, {"c": [[[lit("x")], 1]]}).sample_prompts(text, 3), 5)
        expect_eq(got, [""] * (1 if method is sut.COMB else 3), f"{method} prompts of assignments only", template=text)
    return Info(True)


@st.composite
def assignments(draw):
    o = Opts(depth=2, wildcards=("c",), missing=True)
    return [
        {"t": "set", "n": draw(st.sampled_from(NAMES)), "v": draw(tmpl.option_seq(o, 1)), "now": draw(st.booleans()), "keep": draw(st.booleans())}
        for _ in range(draw(st.integers(1, 3)))
    ]


TESTS = [
    Test("large", lambda: big.cases(["names", "variables", "default", "text"]), big.compare, quick=120),
    Test("only assignments", lambda: st.fixed_dictionaries({"sets": assignments()}), check_only_assignments, quick=300),
    Test("reference", cases, check, quick=3000),
    Test(
        "evaluated once",
        lambda: st.fixed_dictionaries(
            {
                "words": tmpl.plain_words(1, 7),
                "uses": st.lists(st.integers(0, 4), min_size=1, max_size=5),
                "now": st.booleans(),
                "wild": st.booleans(),
                "seed": st.integers(0, 10**6),
            },
        ),
        check_once,
        quick=240,
    ),
]
