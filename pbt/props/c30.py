"""Ignoring whitespace squashes it in the finished prompts, and changes nothing else."""
import dataclasses

import big
import gens
import sut
import tmpl
from core import Info, Test, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C30"
RULE = (
    "case = template + wildcards full of whitespace, generated with and without ignoring it by every kind of "
    "generator and the same seeds; non-trivial = some prompt changes"
)
WORDS = (
    "a", "b", "x  y", "x y", "\u00a0n", "t\tt", "l\nl", "end ", "end  ", "  mid", "\u3000z", "é \n é", "", "c , d", "w\u2003w", "\r\nq", "x\u200by",
)


def squash(s: str) -> str:
    """Runs of whitespace become one space, none is left at the ends."""
    out, gap = "", False
    for ch in s:
        if ch.isspace():
            gap = True
        else:
            out += (" " if gap and out else "") + ch
            gap = False
    return out


def check(case) -> Info:
    wcs, n, seed = case["wcs"], case["n"], case["seed"]
    text = tmpl.render(case["tpl"])
    plain, changed = [], False

    def both(make, run, what):
        nonlocal changed
        a = run(make(False))
        b = run(make(True))
        expect_eq(b, [squash(p) for p in a], f"{what}: prompts without whitespace", template=text, plain=a)
        changed |= a != b
        plain.extend(a)

    both(lambda iw: sut.CombinatorialPromptGenerator(sut.manager(wcs), ignore_whitespace=iw), lambda g: g.generate(text, 3 * n), "combinatorial")
    both(lambda iw: sut.RandomPromptGenerator(sut.manager(wcs), seed=seed, ignore_whitespace=iw), lambda g: g.generate(text, n), "random")
    seeds = [seed + i for i in range(n)]
    both(lambda iw: sut.RandomPromptGenerator(sut.manager(wcs), ignore_whitespace=iw), lambda g: g.generate(text, n, seeds=seeds), "random, seeds")
    for method in (sut.RANDOM, sut.COMB) if gens.has(case, "wrap") else (sut.RANDOM, sut.COMB, sut.CYC):
        both(
            lambda iw: sut.context(method, wcs, seed=seed, ignore_whitespace=iw),
            lambda ctx: sut.take(ctx.sample_prompts(text, n), n + 1),
            method.value,
        )
    # by default, whitespace is kept
    expect_eq(
        sut.CombinatorialPromptGenerator(sut.manager(wcs)).generate(text, n),
        sut.CombinatorialPromptGenerator(sut.manager(wcs), ignore_whitespace=False).generate(text, n),
        "default",
        template=text,
    )
    return Info(changed, gens.features(case["tpl"], wcs))


@st.composite
def cases(draw):
    o = Opts(depth=2, wrap=True, missing=True, dressed=True, words=WORDS)
    case = draw(gens.cases(o))
    tail = draw(st.sampled_from(["", " ", "  \n", "\t", " end", "  .  "]))
    if tail:
        case["tpl"] = [*case["tpl"], lit(tail)]
    if draw(st.booleans()):
        # a wildcard parameter or a variable with whitespace
        v = draw(tmpl.option_seq(dataclasses.replace(o, wildcards=tuple(case["wcs"])), 1))
        if not any(n["t"] == "wrap" for n in tmpl.walk(v)):
            case["tpl"] = [
                {"t": "set", "n": "v", "v": v, "now": False, "keep": False},
                lit(draw(st.sampled_from(["\n", "", "  "]))) if draw(st.booleans()) else lit("x "),
                {"t": "get", "n": "v", "d": None},
                *case["tpl"],
            ]
    case["n"] = draw(st.integers(1, 6))
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def check_jinja(case) -> Info:
    """The same for Jinja templates, and for generators on top of others."""
    seps = case["seps"]
    body = "".join(f"{{% prompt %}}{w}{{{{ x }}}}{s}{{% endprompt %}}" for w, s in zip(case["words"], seps))
    text = "{% for x in [" + ", ".join(repr(s) for s in case["items"]) + "] %}" + body + "{% endfor %}"
    if case["plain"]:
        text = "".join(w + s for w, s in zip(case["words"], seps)) + " end\n {{ choice(['a', 'a']) }} "

    def run(iw, outer):
        g = sut.JinjaGenerator(ignore_whitespace=iw)
        if outer:
            g = sut.BatchedCombinatorialPromptGenerator(g, 2)
        return g.generate(text, case["n"]) if case["plain"] else g.generate(text)

    for outer in (False, True):
        a, b = run(False, outer), run(True, outer)
        expect_eq(b, [squash(p) for p in a], "Jinja prompts without whitespace", template=text, plain=a)
    expect_eq(sut.JinjaGenerator().generate(text), sut.JinjaGenerator(ignore_whitespace=False).generate(text), "default", template=text)
    return Info(a != b, ("equal prompts",) if len(set(b)) < len(b) else ())


BLANKS = ["", " ", "  ", "\n", "\t ", " \n ", "\u00a0 "]

def check_runs(case) -> Info:
    """Long runs of whitespace, many of them, long texts."""
    n, kind = case["n"], case["kind"]
    ch = case["ch"]
    text = {
        "run": "a" + ch * n + "{b|c}" + ch * n, "lead": ch * n + "{a|b}", "many": ("x" + ch * 2) * n + "{a|b}" + ch,
        "long": big.prose(20 * n, n % 9).replace(" ", ch * 2) + "{a|b}", "in option": "{a" + ch * n + "z|b" + ch * n + "}",
        "value": "__w__", "joined": "{2$$" + ch * (n % 60 + 1) + "$$a|b}",
    }[kind]
    wm = sut.WildcardManager(root_map={"": [{"w": ["a" + ch * n + "b", ("x" + ch * 2) * n + "end"]}]})
    for make in (
        lambda iw: sut.CombinatorialPromptGenerator(wm, ignore_whitespace=iw),
        lambda iw: sut.RandomPromptGenerator(wm, seed=n, ignore_whitespace=iw),
    ):
        a, b = make(False).generate(text, 3), make(True).generate(text, 3)
        expect_eq(b, [squash(p) for p in a], "prompts without whitespace", kind=kind, n=n, plain=a)
    body = "{% prompt %}" + f"a{ch * n}b{ch}" + "{% endprompt %}"
    expect_eq(sut.JinjaGenerator(ignore_whitespace=True).generate(body), [squash(f"a{ch * n}b")], "Jinja prompt without whitespace", n=n)
    return Info(True, (kind,))


TESTS = [
    Test(
        "runs",
        lambda: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["run", "lead", "many", "long", "in option", "value", "joined"]), "n": big.size(600),
                "ch": st.sampled_from([" ", "\n", "\t", "\u00a0", " \n", "\u3000"]),
            },
        ),
        check_runs,
        quick=200,
    ),
    Test("squash", cases, check, quick=1200),
    Test(
        "jinja",
        lambda: st.fixed_dictionaries(
            {
                "words": st.lists(st.sampled_from(["a", "b ", " c", "a  b", "\n"]), min_size=1, max_size=3),
                "seps": st.lists(st.sampled_from(BLANKS), min_size=3, max_size=3),
                "items": st.lists(st.sampled_from(["x", "x ", " x", "y", ""]), min_size=1, max_size=4),
                "plain": st.booleans(), "n": st.integers(1, 4),
            },
        ),
        check_jinja,
        quick=300,
    ),
]
