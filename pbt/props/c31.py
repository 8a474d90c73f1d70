"""What was generated before, by whom and how far, never shows in later prompts."""
import random

import gens
import norm
import sut
import tmpl
from core import Info, Test, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C31"
RULE = (
    "case = templates and wildcards with a history of operations on shared generators, contexts, parsed templates "
    "and partly consumed results; every result compared with that of a fresh object; non-trivial = some object is "
    "used at least twice"
)


class Shared:
    def __init__(self, wcs):
        self.wm = sut.manager(wcs)
        self.comb = sut.CombinatorialPromptGenerator(self.wm)
        self.ctx = {
            m: sut.SamplingContext(default_sampling_method=m, wildcard_manager=self.wm, rand=random.Random(3))
            for m in (sut.COMB, sut.CYC)
        }
        for m in (sut.COMB, sut.CYC):  # contexts with values of their own
            self.ctx["own " + m.value] = sut.SamplingContext(
                default_sampling_method=m, wildcard_manager=self.wm, rand=random.Random(3),
                variables={"v": sut.parse("{own1|own2}"), "u": sut.parse("own u")},
            )
        self.rand = sut.RandomPromptGenerator(self.wm, seed=5)
        self.parsed = {}


def check(case) -> Info:
    wcs = case["wcs"]
    texts = [tmpl.render(t) for t in case["tpls"]]
    no_cycle = [gens.has({"tpl": t, "wcs": wcs}, "wrap") for t in case["tpls"]]
    shared = Shared(wcs)
    fresh = {}
    trees = {t: norm.of_command(sut.parse(t)) for t in texts}

    def want(kind, i, n):
        key = (kind, i)
        if key not in fresh:
            s = Shared(wcs)
            if kind == "gen":
                fresh[key] = s.comb.generate(texts[i], 12)
            else:
                fresh[key] = sut.take(s.ctx[kind].sample_prompts(texts[i]), 12)
        return fresh[key][:n]

    open_iters = []  # (iterator, kind, template number, how many taken)
    uses = 0
    for op, i, n in case["ops"]:
        i %= len(texts)
        text = texts[i]
        kind = sut.COMB if no_cycle[i] or n % 2 else sut.CYC
        if op.startswith("own"):
            op, kind = op[4:], "own " + kind.value
        info = {"template": text, "ops": case["ops"], "wildcards": sut.world_texts(wcs)}
        if op == "gen":
            expect_eq(shared.comb.generate(text, n), want("gen", i, n), "generator", **info)
        elif op == "ctx":
            expect_eq(sut.take(shared.ctx[kind].sample_prompts(text, n), n + 1), want(kind, i, n), "context", **info)
        elif op == "parsed":
            if i not in shared.parsed:
                shared.parsed[i] = sut.parse(text)
            expect_eq(sut.take(shared.ctx[kind].sample_prompts(shared.parsed[i], n), n + 1), want(kind, i, n), "parsed template", **info)
            expect_eq(norm.of_command(shared.parsed[i]), trees[text], "the parsed template has changed", **info)
        elif op == "open":
            open_iters.append([iter(shared.ctx[kind].sample_prompts(text)), kind, i, 0])
        elif op == "next" and open_iters:
            it = open_iters[n % len(open_iters)]
            for _ in range(1 + n % 3):
                if it[3] >= 12:
                    break
                got = sut.take(it[0], 1)
                expect_eq(got, want(it[1], it[2], 12)[it[3] : it[3] + 1], "partly consumed results", **{**info, "template": texts[it[2]]})
                it[3] += 1
        elif op == "random":
            shared.rand.generate(text, n)
        elif op == "parse":
            expect_eq(norm.of_command(sut.parse(text)), trees[text], "parsing again", **info)
        elif op == "values":
            for name in wcs:
                vals = shared.wm.get_values(name)
                expect_eq(
                    sorted(vals.string_values), sorted(t for t, _ in sut.world_texts(wcs)[name]), "wildcard values", **info,
                )
        uses += 1
    return Info(uses > 1, tuple(sorted({op for op, _, _ in case["ops"]})))


@st.composite
def cases(draw, min_ops=1, max_ops=14):
    o = Opts(depth=2, wrap=draw(st.booleans()), missing=True, dressed=True)
    case = draw(gens.cases(o))
    oo = Opts(depth=2, wrap=o.wrap, missing=True, dressed=True, wildcards=tuple(case["wcs"]))
    tpls = [case.pop("tpl"), *draw(st.lists(tmpl.sequences(oo), max_size=2))]
    for k in range(len(tpls)):
        if draw(st.integers(0, 2)) == 0:
            # a variable, the same name in every template
            v = draw(tmpl.option_seq(Opts(depth=2, wildcards=tuple(case["wcs"])), 1))
            tpls[k] = [
                {"t": "set", "n": "v", "v": v, "now": draw(st.booleans()), "keep": draw(st.booleans())},
                {"t": "get", "n": "v", "d": None},
                *tpls[k],
            ]
        elif draw(st.integers(0, 1)) == 0:  # only used, with a default
            tpls[k] = [{"t": "get", "n": draw(st.sampled_from("vvu")), "d": [lit("none")]}, *tpls[k]]
    case["tpls"] = tpls
    ops = st.tuples(
        st.sampled_from(["gen", "ctx", "own ctx", "own open", "own parsed", "parsed", "open", "next", "next", "next", "random", "parse", "values"]),
        st.integers(0, 2),
        st.integers(0, 10),
    ).map(list)
    case["ops"] = draw(st.lists(ops, min_size=min_ops, max_size=max_ops))
    return case


@st.composite
def variable_cases(draw):
    """Short templates that assign and use the same variables, on contexts with values of their own."""
    wcs = {"c": [[[lit("c1")], 1], [[{"t": "get", "n": "v", "d": [lit("dv")]}], 1]]}
    value = st.sampled_from([[lit("x1")], [tmpl.variant(["x1", "x2"])], [tmpl.wc("c")], []])
    part = st.one_of(
        st.builds(
            lambda n, v, now, keep: [{"t": "set", "n": n, "v": v, "now": now, "keep": keep}],
            st.sampled_from("vvuz"), value, st.booleans(), st.booleans(),
        ),
        st.sampled_from("vvuz").map(lambda n: [lit(" "), {"t": "get", "n": n, "d": [lit("none")]}]),
        st.just([lit(" "), tmpl.wc("c")]),
        st.just([lit(" "), {**tmpl.wc("c"), "a": [["v", [lit("pv")]]]}]),
    )
    tpls = draw(
        st.lists(st.lists(part, min_size=1, max_size=3).map(lambda ps: [*[n for p in ps for n in p], lit(" end")]), min_size=2, max_size=3),
    )
    # a variable is not assigned a value that uses it: no use of "c" in a value of v
    for t in tpls:
        for n in tmpl.walk(t):
            if n["t"] == "set" and n["n"] == "v" and any(m["t"] == "wc" for m in tmpl.walk(n["v"])):
                n["v"] = [lit("x3")]
    ops = st.tuples(
        st.sampled_from(["own ctx", "own ctx", "own open", "own parsed", "ctx", "next", "next"]), st.integers(0, 2), st.integers(0, 10),
    ).map(list)
    return {"wcs": wcs, "tpls": tpls, "ops": draw(st.lists(ops, min_size=3, max_size=10))}


TESTS = [
    Test("history", cases, check, quick=900),
    Test("long history", lambda: cases(25, 60), check, quick=60),
    Test("variables", variable_cases, check, quick=500),
]
