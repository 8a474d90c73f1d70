"""Custom delimiters change how templates are written, and nothing else."""
import copy
import dataclasses
import itertools
import random

import big
import gens
import norm
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Delims, Opts, lit

PROPERTY = "C04"
RULE = (
    "case = one template + wildcards written with the default and with custom delimiters, parsed and sampled "
    "with both; or one text read with several delimiters in turn; non-trivial = at least one delimiter differs and occurs in the template"
)
# words that stay clear of all delimiters used here
WORDS = ("red", "green", "blue", "cat", "été", "日本", "ice cream", "x1", "A4", "owl", "it's", "a b c")
VARIANT = [("{", "}"), ("<", ">"), ("[", "]"), ("«", "»"), ("{{", "}}"), ("((", "))"), ("<<", ">>"), ("⟦", "⟧"), ("^", "&")]
WRAP = ["__", "**", "@@", "++", "~~~", "==", "§", "¤¤"]
VAR = [("${", "}"), ("$[", "]"), ("$<", ">"), ("$(", ")"), ("€{", "}"), ("@@{", "}"), ("$", ";")]
# (a wrap's start contains a brace: otherwise `{2$$%[...$$x]}` reads as having a separator)
WRAPC = [("%{", "}"), ("¥{", "}"), ("%{", "]"), ("%%{", "}"), None]


@st.composite
def delims(draw):
    vs, ve = draw(st.sampled_from(VARIANT))
    ww = draw(st.sampled_from(WRAP))
    as_, ae = draw(st.sampled_from(VAR))
    ws, we = draw(st.sampled_from(WRAPC)) or ("%" + vs, ve)
    return {"vs": vs, "ve": ve, "ww": ww, "as_": as_, "ae": ae, "ws": ws, "we": we}


def conflicts(d: Delims) -> bool:
    """Delimiters that could be mistaken for one another or for text of the cases."""
    used = [d.vs, d.ve, d.ww, d.as_, d.ws]
    for i, a in enumerate(used):
        for j, b in enumerate(used):
            if i != j and (a.startswith(b) or b.startswith(a)):
                return True
    if d.vs == "((" and (d.ae == ")" or d.we == ")"):
        return True
    # closers must not be openers' first characters
    return d.ae in (d.vs, d.ww) or d.we in (d.vs, d.ww)


def check(case) -> Info:
    d = Delims(**case["d"])
    if conflicts(d):
        return Info(False, ("skipped: ambiguous delimiters",))
    tpl, wcs = case["tpl"], case["wcs"]
    text, alt = tmpl.render(tpl), tmpl.render(tpl, d)
    cfg = sut.parser_config(d)
    expect_eq(
        norm.of_command(sut.parse(alt, parser_config=cfg)),
        norm.of_command(sut.parse(text)),
        "structure differs under custom delimiters",
        default=text,
        custom=alt,
    )
    for method in (sut.RANDOM, sut.COMB, sut.CYC):
        if method is sut.CYC and gens.has(case, "wrap"):
            continue  # cyclical sampling has no wraps
        plain = sut.context(method, wcs, seed=5)
        other = sut.context(method, wcs, seed=5, d=d)
        # (the values' texts differ, so their sorted orders may)
        plain.wildcard_manager.sort_wildcards = other.wildcard_manager.sort_wildcards = False
        expect_eq(
            sut.take(other.sample_prompts(alt), 6),
            sut.take(plain.sample_prompts(text), 6),
            f"{method} prompts differ under custom delimiters",
            default=text,
            custom=alt,
            wildcards=sut.world_texts(wcs, d),
        )
    wm, wm0 = sut.manager(wcs, d), sut.manager(wcs)
    wm.sort_wildcards = wm0.sort_wildcards = False
    a = sut.RandomPromptGenerator(wm, seed=9, parser_config=cfg).generate(alt, 3)
    b = sut.RandomPromptGenerator(wm0, seed=9).generate(text, 3)
    expect_eq(a, b, "random generator", default=text, custom=alt)
    if not any(n.get("m") == "~" for n in tmpl.walk(tpl)):  # (the combinatorial generator takes no seed)
        a = sut.CombinatorialPromptGenerator(wm, parser_config=cfg).generate(alt, 5)
        b = sut.CombinatorialPromptGenerator(wm0).generate(text, 5)
        expect_eq(a, b, "combinatorial generator", default=text, custom=alt)
    return Info(alt != text, tuple(k for k in case["d"] if getattr(d, k) != getattr(tmpl.DEFAULT, k)))


@st.composite
def cases(draw):
    o = Opts(words=WORDS, wrap=True, variables=("v", "w2"), markers="", depth=2, weights=True, empties=False)
    case = draw(gens.cases(dataclasses.replace(o, variables=())))
    oo = dataclasses.replace(o, wildcards=tuple(case["wcs"]))
    if draw(st.booleans()):
        case["tpl"] = draw(tmpl.sequences(oo))
    sets = []
    for name in ("v", "w2"):
        sets.append(
            {
                "t": "set",
                "n": name,
                "v": draw(tmpl.option_seq(dataclasses.replace(oo, variables=()), 2)),
                "now": draw(st.booleans()),
                "keep": draw(st.booleans()),
            },
        )
    case["tpl"] = sets + case["tpl"]
    clean(case["tpl"])
    for entries in case["wcs"].values():
        for seq, _ in entries:
            clean(seq)
    case["d"] = draw(delims())
    if not set("".join(case["d"].values())) & set("~!@") and draw(st.integers(0, 2)) == 0:
        for n in tmpl.walk(case["tpl"]):  # sampler marks
            if n["t"] in ("var", "wc") and draw(st.integers(0, 3)) == 0:
                n["m"] = draw(st.sampled_from("~!" if gens.has(case, "wrap") else "~!@"))
    if "(" not in "".join(case["d"].values()) and ")" not in "".join(case["d"].values()):
        # parameters, and values that use them
        names = [n for n in case["wcs"] if draw(st.booleans())]
        for name in names:
            for entry in case["wcs"][name]:
                if draw(st.booleans()):
                    default = draw(st.sampled_from([None, [lit("none")], [tmpl.variant(["d1", "d2"])]]))
                    entry[0] = entry[0] + [lit(" in "), {"t": "get", "n": draw(st.sampled_from(PARAMS)), "d": default or [lit("no")]}]
        for n in list(tmpl.walk(case["tpl"])):
            if n["t"] == "wc" and draw(st.booleans()):
                n["a"] = [
                    [p, copy.deepcopy(draw(st.sampled_from(ARGS)))]
                    for p in draw(st.lists(st.sampled_from(PARAMS), min_size=1, max_size=2, unique=True))
                ]
    return case


PARAMS = ("p", "q1", "v")
ARGS = [
    [lit("red")], [lit("ice cream")], [tmpl.variant(["x1", "owl"])], [lit("a "), tmpl.variant(["cat", "été"]), lit(" b")],
    [tmpl.variant(["red", "blue"], b=["n", 2, 2], sep=" or ")], [{"t": "get", "n": "w2", "d": [lit("none")]}],
    [{"t": "get", "n": "zz", "d": [tmpl.variant(["u1", "u2"])]}],
]


def clean(seq):
    """Keep literal text and separators clear of every delimiter in use."""
    for n in tmpl.walk(seq):
        if n["t"] == "lit":
            s = n["s"]
            for bad in "<>()[]{}^&_*@+~=§%$;|":
                s = s.replace(bad, "")
            n["s"] = s or "w"
        if n["t"] == "var" and n.get("sep") is not None:
            n["sep"] = n["sep"] if n["sep"] in (" and ", ", ", " ", "/", " or ", "sep") else " and "


def outcome(text, d, wcs):
    """Structure and prompts of a text under some delimiters, or that it is no template."""
    cfg = sut.parser_config(Delims(**d))
    try:
        c = sut.parse(text, parser_config=cfg)
    except Exception as e:
        return type(e).__name__
    wm = sut.WildcardManager(root_map={"": [wcs]}, wildcard_wrap=d["ww"])
    try:
        prompts = sut.CombinatorialPromptGenerator(wm, parser_config=cfg).generate(text, 6)
    except Exception as e:
        prompts = type(e).__name__
    return repr([norm.of_command(c), prompts])


def check_mixed(case) -> Info:
    """The same text read with different delimiters, in the same process, in any order."""
    wcs = {"c": ["c1", "c2"], "w": ["{a|b}", "<a|b>", "[a|b]", "__c__", "$[v:1]"]}
    ds = [*case["ds"], dataclasses.asdict(tmpl.DEFAULT)]
    texts = []
    for d in ds:
        d = Delims(**d)
        texts.append(f"{d.vs}a|b{d.ve} {d.ww}c{d.ww} {d.ww}w{d.ww} {d.as_}v:1{d.ae} {d.ws}x ...$$y{d.we}")
        texts.append(f"{d.vs}2$$/$$a|b|c{d.ve}")
        texts.append(f"z {d.as_}v=1{d.ae}{d.vs}{d.as_}v{d.ae}|{d.ww}c{d.ww}{d.ve}")
    text = texts[case["text"] % len(texts)]
    order = [ds[i % len(ds)] for i in case["order"]]
    # each time with another ending, so that every text but the last is new to the process
    tag = f"t{case['tag']}q"
    alone = [outcome(f"{text} {tag}{i}.", d, wcs).replace(f"{tag}{i}.", "END") for i, d in enumerate(order)]
    mixed = [outcome(f"{text} {tag}x.", d, wcs).replace(f"{tag}x.", "END") for d in order]
    for d, a, m in zip(order, alone, mixed):
        expect_eq(m, a, "reading a text with some delimiters depends on how it was read before", template=text, delimiters=d)
    return Info(len({repr(a) for a in alone}) > 1)


DISTINCT = [
    {"vs": "⟦", "ve": "⟧", "ww": "§", "as_": "$⟦", "ae": "⟧", "ws": "%⟦", "we": "⟧"},
    {"vs": "«", "ve": "»", "ww": "¤¤", "as_": "$«", "ae": "»", "ws": "%«", "we": "»"},
    {"vs": "<<", "ve": ">>", "ww": "@@", "as_": "$<<", "ae": ">>", "ws": "%<<", "we": ">>"},
    {"vs": "<<<", "ve": ">>>", "ww": "~~~~", "as_": "€€<", "ae": ">>>", "ws": "¥¥<", "we": ">>>"},
]


def check_large(case) -> Info:
    """Large templates under other delimiters."""
    b = big.build(case)
    d = case["d"]
    alt, wcs = b.text, b.wcs
    for old, new in (("$$", "\3"), ("${", "\1"), ("%{", "\2"), ("{", d["vs"]), ("}", d["ve"]), ("__", d["ww"]), ("\1", d["as_"]), ("\2", d["ws"]), ("\3", "$$")):
        alt = alt.replace(old, new)
        wcs = {k: [v.replace(old, new) for v in vs] for k, vs in wcs.items()}
    cfg = sut.parser_config(Delims(**d))
    wm = sut.WildcardManager(root_map={"": [wcs]}, wildcard_wrap=d["ww"])
    wm.sort_wildcards = False
    want = list(itertools.islice(b.want, 60))
    got = sut.CombinatorialPromptGenerator(wm, parser_config=cfg).generate(alt, 60)
    expect_eq(got, want, "combinatorial prompts under custom delimiters", template=alt)
    if "unknown" not in case["kind"]:
        got = sut.RandomPromptGenerator(wm, parser_config=cfg, seed=1).generate(alt, 3)
        expect(len(got) == 3, "random prompts under custom delimiters", template=alt, got=got)
    return Info(True, (case["kind"],))


TESTS = [
    Test(
        "large",
        lambda: big.cases([k for k in big.KINDS if "unknown" not in k], d=st.sampled_from(DISTINCT)),
        check_large,
        quick=160,
    ),
    Test("equivalence", cases, check, quick=2200),
    Test(
        "mixed",
        lambda: st.fixed_dictionaries(
            {
                "ds": st.lists(delims(), min_size=1, max_size=3), "text": st.integers(0, 11),
                "order": st.lists(st.integers(0, 3), min_size=2, max_size=5), "tag": st.integers(0, 10**9),
            },
        ),
        check_mixed,
        quick=500,
    ),
]
