"""Parameters reach the wildcard they are passed to, all the way down, and nothing else."""
import dataclasses
import itertools

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C16"
RULE = (
    "case = wildcards whose values use parameters (with defaults, own assignments, other parameterised wildcards) "
    "and a template passing values, compared with a reference under every sampler; non-trivial = a passed value "
    "is used"
)
PARAMS = ("s", "colour", "my-p")
VALUES = ["0", "1", "2", "winter", "a b", "7", "été", "x-y", "red/blue", "it's", "9 lives", "a=b", "k:v", "x=", "a|b", "wow!", "q?;", "A4", "under_score", "~x", "[b]", "<c>", "é=è", "/y", "...", "wait...", "a...b", "x.y.", "1.5", "UPPER Case", "…", "10::x", "a  b", "x\ty", "__nope__", "日本", "c\nd", "- x -", "\"q\"", "\\n", "1$$x"[:1]]


@st.composite
def args(draw, names=PARAMS):
    out = []
    for name in draw(st.lists(st.sampled_from(names), max_size=2, unique=True)):
        if draw(st.integers(0, 3)):
            v = [lit(draw(st.sampled_from(VALUES)))]
        else:
            v = draw(
                st.sampled_from(
                    [
                        [tmpl.variant(["p", "q"])], [tmpl.variant(["x y", "z"])], [tmpl.variant(["r"])],
                        [lit("pre "), tmpl.variant(["p", "q"]), lit("-post")], [],
                        [tmpl.variant(["p=1", "q:2"]), lit("="), tmpl.variant(["3", "4"])],
                        [{"t": "get", "n": "other", "d": [lit("none")]}],
                    ],
                ),
            )
        out.append([name, v])
    return out


# layout around the names and values of parameters
spaces = st.one_of(
    st.just({}), st.just({}),
    st.lists(st.sampled_from(["", "", " ", "  ", "\n ", "\t"]), min_size=4, max_size=4).map(lambda sp: {"sp": sp}),
)


@st.composite
def paths(draw, names):
    """A wildcard's name, sometimes computed from a variable that may be a parameter as well."""
    name = draw(st.sampled_from(names))
    if draw(st.integers(0, 2)):
        return name
    head, tail = name[:-1], name[-1:]
    return [lit(head), {"t": "get", "n": draw(st.sampled_from(PARAMS)), "d": draw(st.sampled_from([None, [lit(tail)]]))}]


@st.composite
def value(draw, earlier, in_set):
    """One wildcard value: text, uses of parameters, own assignments, earlier wildcards."""
    seq = []
    if in_set and draw(st.integers(0, 2)) == 0:
        seq.append(
            {
                "t": "set", "n": draw(st.sampled_from(PARAMS)),
                "v": [draw(st.sampled_from([lit("own"), tmpl.variant(["o1", "o2"])]))],
                "now": draw(st.booleans()), "keep": draw(st.booleans()),
            },
        )
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 5))
        if k <= 2:
            d = [lit(draw(st.sampled_from(["dflt", "none", "d d"])))] if draw(st.integers(0, 4)) else None
            seq.append({"t": "get", "n": draw(st.sampled_from(PARAMS)), "d": d})
        elif k == 3:
            seq.append(tmpl.variant(["l", "r"]))
        elif earlier:
            node = tmpl.wc(draw(paths(earlier)), a=draw(args())) | draw(spaces)
            if draw(st.integers(0, 2)) == 0:  # as the only option of a variant
                node = {"t": "var", "o": [[None, [node]]], "b": draw(st.sampled_from([None, ["n", 1, 1], ["n", 2, 2]])), "sep": None, "m": ""}
            seq.append(node)
        seq.append(lit(draw(st.sampled_from([" ", ".", " of ", ", "]))))
    seq.append(lit("end"))
    out = []
    for n in seq:
        if n["t"] == "lit" and out and out[-1]["t"] == "lit":
            out[-1] = lit(out[-1]["s"] + n["s"])
        else:
            out.append(n)
    return out


@st.composite
def cases(draw):
    names = ["t0", "t1", "t2", "dir/t3"][: draw(st.integers(1, 4))]
    wcs = {}
    for i, name in enumerate(names):
        entries, seen = [], set()
        for _ in range(draw(st.integers(1, 2))):
            seq = draw(value(names[:i], True))
            text = tmpl.render(seq)
            if text.strip() == text and text not in seen:
                seen.add(text)
                entries.append([seq, 1])
        wcs[name] = entries or [[[lit("plain")], 1]]
    tpl = []
    if draw(st.integers(0, 2)) == 0:
        tpl.append({"t": "set", "n": draw(st.sampled_from(PARAMS)), "v": [lit(draw(st.sampled_from(["outer", "0", "1", "2"])))], "now": False, "keep": draw(st.booleans())})
    for _ in range(draw(st.integers(1, 3))):
        node = tmpl.wc(draw(paths(names)), a=draw(args())) | draw(spaces)
        if draw(st.integers(0, 3)) == 0:
            node = {"t": "var", "o": [[None, [node]]], "b": draw(st.sampled_from([None, ["n", 2, 2]])), "sep": None, "m": ""}
        tpl += [node, lit(" + ")]
    # after (and between) the wildcards, their parameters are not visible
    tpl += [{"t": "get", "n": draw(st.sampled_from(PARAMS)), "d": [lit("outside")]}]
    return {"tpl": tpl, "wcs": wcs, "unknown": draw(st.sampled_from(["?", "?", None])), "seed": draw(st.integers(0, 10**6))}


def check(case) -> Info:
    tpl, wcs, unknown = case["tpl"], case["wcs"], case["unknown"]
    text = tmpl.render(tpl)
    world = sut.ref_world(wcs, unknown=unknown)
    kw = {} if unknown is None else {"unknown_variable_value": unknown}
    info = {"template": text, "wildcards": sut.world_texts(wcs)}

    def run(method, n):
        return sut.take(sut.context(method, wcs, seed=case["seed"], **kw).sample_prompts(text), n)

    passed = any(n["t"] == "wc" and n.get("a") for n in tmpl.walk(tpl))
    for method, reference, n in (
        (sut.COMB, lambda: ref.comb(tpl, world, cap=200), 210),
        (sut.CYC, lambda: list(itertools.islice(ref.cycle(tpl, world), 10)), 10),
    ):
        try:
            want = reference()
        except (ref.TooBig, RecursionError):  # (a computed name may lead back to its own wildcard)
            continue
        except ref.UndefinedVariable as e:
            try:
                # (the reference looks at all combinations first)
                got = run(method, 4000 if method is sut.COMB else n)
            except (KeyError, RecursionError):
                continue
            if len(got) == 4000:
                continue
            expect(False, "undefined variable goes unnoticed", variable=str(e), got=got, **info)
        expect_eq(run(method, n), want, f"{method} prompts", **info)
    try:
        want = ref.language(tpl, world, cap=2000)
    except (ref.TooBig, ref.UndefinedVariable, RecursionError):
        want = None
    if want is not None:
        for p in run(sut.RANDOM, 6):
            expect(p in want, "impossible random prompt", prompt=p, possible=sorted(want)[:10], **info)
    return Info(passed, gens.features(tpl, wcs))


TESTS = [
    Test("large", lambda: big.cases(["parameters"]), big.compare, quick=40),
    Test("scoping", cases, check, quick=2400),
]
del dataclasses, Opts
