"""Wildcards stand for their values, in any place; unknown ones for themselves."""
import itertools

import big
import gens
import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts, lit

PROPERTY = "C19"
RULE = (
    "case = template and wildcards (values may be templates using other wildcards), compared with the same "
    "template with every wildcard written out as a variant of its values; or a template with unknown wildcards in "
    "any place, compared with literal text in that place; non-trivial = some wildcard is replaced"
)


def inline(seq, wcs):
    """Replace every known wildcard by a variant of its values, recursively."""
    out = []
    for n in seq:
        n = dict(n)
        if n["t"] == "wc" and n["p"] in wcs:
            entries = sorted(wcs[n["p"]], key=lambda e: tmpl.render(e[0]))
            out.append({"t": "var", "o": [[None, inline(s, wcs)] for s, _ in entries], "b": None, "sep": None, "m": n["m"]})
            continue
        if n["t"] == "var":
            n["o"] = [[w, inline(s, wcs)] for w, s in n["o"]]
        elif n["t"] == "wrap":
            n["w"], n["i"] = inline(n["w"], wcs), inline(n["i"], wcs)
        out.append(n)
    return out


def check_inline(case) -> Info:
    tpl, wcs = case["tpl"], case["wcs"]
    try:
        size = len(ref.comb(tpl, sut.ref_world(wcs), cap=300))
        lang = ref.language(tpl, sut.ref_world(wcs), cap=1500)
    except ref.TooBig:
        return Info(False, ("too big",))
    text, flat = tmpl.render(tpl), tmpl.render(inline(tpl, wcs))
    wm = sut.manager(wcs)
    none = sut.WildcardManager()
    info = {"template": text, "written out": flat, "wildcards": sut.world_texts(wcs)}
    a = sut.CombinatorialPromptGenerator(wm).generate(text, max_prompts=size + 20)
    b = sut.CombinatorialPromptGenerator(none).generate(flat, max_prompts=size + 20)
    # (equal prompts of different origin are listed once per origin by wildcards, once by variants)
    expect_eq(list(dict.fromkeys(a)), list(dict.fromkeys(b)), "prompts with wildcards and with their values", **info)
    for p in sut.RandomPromptGenerator(wm, seed=case["seed"]).generate(text, 5):
        expect(p in lang, "impossible prompt", prompt=p, **info)
    if not gens.has(case, "wrap"):
        n = 9
        a = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(text), n)
        b = sut.take(sut.SamplingContext(sut.CYC, none).sample_prompts(flat), n)
        expect_eq(a, b, "cyclical prompts with wildcards and with their values", **info)
    return Info(text != flat and size > 1, gens.features(tpl, wcs))


def inline_cases():
    # sole wildcard options, bounds over wildcards: see C10
    return gens.cases(Opts(wrap=True, bounds=False, weights=False, missing=True, single_wc_option=False), seed=st.integers(0, 10**6))


MISSING = [
    "nope", "no/such", "absent*", "colou?r", "[xyz]", "**/deep", "UPPER", "été", "with space", "a.b", "x-1",
    "trailing/", "/leading", "back\\slash", "..", "../c", "c/..", "q//b", "one_two", "c d", "empty", "emptyfile/x",
    " or ", " lead", "trail ", " c ", "tab\tx", "two\nlines",
]


@st.composite
def missing_cases(draw):
    """A template whose literal words include the texts of unknown wildcards."""
    o = Opts(depth=3, wrap=draw(st.booleans()), variables=("v", "w"), weights=draw(st.booleans()), empties=False)
    wcs = draw(gens.worlds(Opts(depth=2), n_names=2))
    oo = Opts(**{**o.__dict__, "wildcards": tuple(wcs), "words": (*(f"\0{m}\0" for m in MISSING), *tmpl.PLAIN[:6])})
    sets = []
    for v in ("v", "w"):
        inner = Opts(**{**oo.__dict__, "variables": (), "wrap": False})
        sets.append({"t": "set", "n": v, "v": draw(tmpl.option_seq(inner, 1)), "now": draw(st.booleans()), "keep": False})
    # unknown wildcards inside the values of known ones
    for name in wcs:
        if draw(st.booleans()):
            m = draw(st.sampled_from(MISSING))
            if all(tmpl.render(s) != f"x \0{m}\0" for s, _ in wcs[name]):
                wcs[name] = [*wcs[name], [[lit(f"x \0{m}\0")], 1]]
    tpl = sets + draw(tmpl.sequences(oo))
    return {"tpl": tpl, "wcs": wcs, "args": draw(st.booleans()), "mark": draw(st.sampled_from(["", "", "~", "@", "!"])), "seed": draw(st.integers(0, 10**6))}


def substitute(seq, make):
    """Split literals at the marked unknown wildcards and let `make` write them."""
    out = []
    for n in seq:
        n = dict(n)
        if n["t"] == "lit" and "\0" in n["s"]:
            for i, piece in enumerate(n["s"].split("\0")):
                if i % 2:
                    out.append(make(piece))
                elif piece:
                    out.append(lit(piece))
            continue
        if n["t"] == "var":
            n["o"] = [[w, substitute(s, make)] for w, s in n["o"]]
        elif n["t"] == "wrap":
            n["w"], n["i"] = substitute(n["w"], make), substitute(n["i"], make)
        elif n["t"] == "set":
            n["v"] = substitute(n["v"], make)
        elif n["t"] == "get" and n.get("d") is not None:
            n["d"] = substitute(n["d"], make)
        out.append(n)
    return out


def check_missing(case) -> Info:
    args = [["p", [lit("5")]]] if case["args"] else []
    # marks other than the sampler's own turn the part into a single draw; use them on literals only
    written = substitute(case["tpl"], lambda name: tmpl.wc(name, a=args))
    wcs = {k: [[substitute(s, lambda name: tmpl.wc(name)), w] for s, w in v] for k, v in case["wcs"].items()}
    known = set(wcs)
    text = tmpl.render(written)
    world = sut.ref_world(wcs)
    wm = sut.manager({**wcs, "empty": [], "emptyfile/x": []})
    info = {"template": text, "wildcards": sut.world_texts(wcs)}
    seed = case["seed"]
    try:
        want = ref.comb(written, world, cap=150)
    except ref.TooBig:
        want = None
    if want is not None:
        got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text), len(want) + 5)
        expect_eq(got, want, "combinatorial prompts with unknown wildcards", **info)
    if not gens.has({"tpl": written, "wcs": wcs}, "wrap"):
        many = 300 if seed % 16 == 1 else 8
        got = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(text), many)
        want = list(itertools.islice(ref.cycle(written, world), many))
        expect_eq(got, want, "cyclical prompts with unknown wildcards", **info)
    try:
        lang = ref.language(written, world, cap=1000)
    except ref.TooBig:
        lang = None
    if lang is not None:
        many = 300 if seed % 16 == 0 else 4
        got = sut.RandomPromptGenerator(wm, seed=seed).generate(text, many)
        expect_eq(len(got), many, "number of random prompts with unknown wildcards", **info)
        for p in got:
            expect(p in lang, "impossible prompt with unknown wildcards", prompt=p, **info)
    n = sum(1 for x in tmpl.walk(written) if x["t"] == "wc" and x["p"] not in known)
    return Info(n > 0, gens.features(written, wcs))


def check_dynamic(case) -> Info:
    """The name that was looked up and not found is the one that is shown."""
    ww, names = case["wrap"], case["names"]
    cfg = sut.ParserConfig(wildcard_wrap=ww)
    known = {"known": ["K1", "K2"]}
    wm = sut.WildcardManager(root_map={"": [known]}, wildcard_wrap=ww)
    path = {
        "choice": "{" + "|".join(names) + "}",
        "variable": "${n:" + names[0] + "}",
        "assigned": "${n}",
        "part": "dir/{" + "|".join(names) + "}/x",
    }[case["how"]]
    text = f"{ww}{path}{'(n=other)' if case['arg'] else ''}{ww}"
    if case["boxed"]:
        text = "{" + text + "}"
    if case["how"] == "assigned":
        text = "${n=" + names[-1] + "}" + text
    possible = {
        "choice": names, "variable": names[:1], "assigned": names[-1:], "part": [f"dir/{n}/x" for n in names],
    }[case["how"]]
    allowed = {f"{ww}{n}{ww}" for n in possible if n not in known}
    if "known" in possible:
        allowed |= {"K1", "K2"}
    for method in (sut.RANDOM, sut.COMB, sut.CYC):
        for k in range(3):
            ctx = sut.SamplingContext(method, wm, parser_config=cfg, rand=sut.random.Random(case["seed"] + k))
            for p in sut.take(ctx.sample_prompts(text, 3), 3):
                expect(p in allowed, "impossible prompt", prompt=p, template=text, allowed=sorted(allowed), method=str(method))
    return Info(True, (case["how"],))


TESTS = [
    Test("large", lambda: big.cases(["values", "value text", "uses", "path", "levels", "chain", "unknown", "unknown names"]), big.compare, quick=160),
    Test("written out", inline_cases, check_inline, quick=1800),
    Test("unknown", missing_cases, check_missing, quick=1800),
    Test(
        "dynamic names",
        lambda: st.fixed_dictionaries(
            {
                "wrap": st.sampled_from(["__", "__", "**", "<>", "=="]),
                "names": st.lists(st.sampled_from(["nope", "known", "gone", "x1"]), min_size=1, max_size=3, unique=True),
                "how": st.sampled_from(["choice", "variable", "assigned", "part"]),
                "arg": st.booleans(), "boxed": st.booleans(), "seed": st.integers(0, 10**6),
            },
        ),
        check_dynamic,
        quick=400,
    ),
]
