"""Any text is either a template or is rejected with the parser's own error."""
import random

import big
import pyparsing as pp
import sut
import syntax
import tmpl
from core import Info, Test, Violation, expect
from dynamicprompts.commands import Command
from hypothesis import strategies as st

PROPERTY = "C03"
RULE = (
    "case = token soup, mutated valid template or arbitrary text; it must parse or raise the parse error, "
    "and if it parses it must produce prompts with every sampler; non-trivial = contains a syntax character"
)
SOUP = [
    "{", "}", "|", "$$", "${", "%{", "__", "#", "//", "/*", "*/", "::", "2", "1-2", "-", "=", "!", "~", "@", "?",
    ":", "(", ")", ",", "a", "b", " ", "\n", "...", "x y", "0.5", "é", "_", "$", "%", "{a|b}", "__c__", "${x=",
    "${x}", "${x:", "\t", "**", "\\", '"', "'", "2$$", "{2$$", "1-2$$ and $$", "(x=a)", "__c(x=a)__", "%{a...b$$", "0",
]
# (no zero weights, and no explicit samplers: those may make a combinatorial template endless)
SAFE_SOUP = [t for t in SOUP if t not in ("~", "@", "!", "0", "0.5", "#", "-")]


def soups(tokens, n):
    return st.lists(st.sampled_from(tokens), min_size=1, max_size=n).map("".join)


@st.composite
def mutants(draw):
    text = tmpl.render(draw(syntax.seqs(max_level=2)))
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(text)))
        kind = draw(st.integers(0, 3))
        if kind == 0:
            text = text[:i] + text[i + 1 :]
        elif kind == 1:
            text = text[:i] + draw(st.sampled_from(SOUP)) + text[i:]
        elif kind == 2:
            j = draw(st.integers(0, len(text)))
            text = text[:i] + text[min(i, j) : max(i, j)][:20] + text[i:]
        else:
            j = min(len(text), i + draw(st.integers(1, 6)))
            text = text[:i] + text[j:]
    return text


def check_parse(case) -> Info:
    text = case["s"]
    try:
        cmd = sut.parse(text)
    except pp.ParseException as e:
        # the error says where
        expect(isinstance(e.loc, int) and 0 <= e.loc <= len(text), "parse error without a location", text=text)
        labels = ("rejected",)
    else:
        expect(isinstance(cmd, Command), "not a command", got=cmd, text=text)
        labels = ("accepted",)
    return Info(any(c in text for c in "{}$%#|_"), labels)


WM = {"c": ["p", "q {a|b}", "${x}"], "a": ["r"], "e": ["r", "{r}"], "i": ["{2$$a|{a}}"], "d": ["u __i__", "{2$$u|v}"]}


def check_sample(case) -> Info:
    text = case["s"]
    try:
        sut.parse(text)
    except pp.ParseException:
        return Info(False, ("rejected",))
    labels = ["accepted"]
    for method in (sut.RANDOM, sut.COMB, sut.CYC):
        ctx = sut.SamplingContext(
            method,
            sut.WildcardManager(root_map={"": [WM]}),
            rand=random.Random(1),
            unknown_variable_value="u",
        )
        try:
            got = sut.take(ctx.sample_prompts(text), 4)
        except RecursionError:
            expect("${" in text, "recursion without variables", text=text)
            labels.append("recursive")
            continue
        except NotImplementedError:
            expect((method is sut.CYC or "@" in text) and "%{" in text, "unsupported", text=text, method=method)
            labels.append("cyclical wrap")
            continue
        except Exception as e:
            raise Violation(f"{method} sampling of an accepted template fails with {e!r}\n  text = {text!r}") from e
        if text:
            if method is sut.COMB:
                # (there may be no two different values to choose)
                expect(len(got) >= 1 or "$$" in text or "__" in text, "no prompts at all", text=text)
            else:
                expect(len(got) == 4, "an endless sampler stopped", text=text, method=method, got=got)
    return Info(any(c in text for c in "{}$%|_"), tuple(labels))


@st.composite
def well_formed(draw):
    """A template over the whole syntax; weights are positive and selections few enough for the eager cyclical sampler."""
    seq = draw(syntax.seqs(max_level=2))
    for n in tmpl.walk(seq):
        if n["t"] == "var":
            n["o"] = [["2" if w == "0" else w, o] for w, o in n["o"]]
            if len(n["o"]) > 4:
                n["b"] = n["sep"] = None
        if n["t"] == "wc" and draw(st.booleans()):
            n["p"] = draw(st.sampled_from(["c", "a", "*", "none"]))
    return tmpl.render(seq)


IMPOSSIBLE = ["{2$$a|{a}}", "{2$$x|${y:x}}", "{3$$a|b|{a}}", "{2$${a|b}|{a}}", "{2$$__a__|r}", "{2-3$$__e__|__e__}"]
PLACES = [
    "%s", "${x=%s}${x}", "${x=!%s}${x}", "${x=!%s}b", "__%s__", "__c/%s__", "{__%s__}", "{2$$__%s__|c}", "%%{%s...$$a}",
    "%%{a...$$%s}", "{%s|b}", "{2$$%s|b|c}", "${x:%s}", "{__a__|__%s__}", "__i__", "{__i__}", "{2$$__i__}", "__d__",
    "${x=!__i__}${x}", "{1-2$$%s|%s}", "{2$$&$$__i__|__i__}", "__a(x=%s)__",
]


@st.composite
def impossible(draw):
    """Selections for which there may be no combination, in any place."""
    text = "".join(
        draw(st.sampled_from(["", "a ", "{p|q}", "__c__"])) + draw(st.sampled_from(PLACES)).replace("%s", draw(st.sampled_from(IMPOSSIBLE))).replace("%%", "%")
        for _ in range(draw(st.integers(1, 2)))
    )
    if draw(st.booleans()):
        text = draw(st.sampled_from(PLACES)).replace("%s", text if not text.startswith("${x=") else "{2$$a|{a}}").replace("%%", "%")
    return text


OPENERS = [
    ("{", "}"), ("{a|", "}"), ("{", "|b}"), ("${a:", "}"), ("%{a...$$", "}"), ("%{", "$$y}"), ("{2$$", "}"), ("{1-2$$ and $$", "|c}"), ("{2::", "}"),
    ("__${a:", "}__"), ("__{", "}__"), ("__p/", "__"), ("${x=", "}"), ("${x=!", "}"), ("{~a|", "}"), ("__c(a=", ")__"), ("{a $$", "}"), ("(", ")"),
]


@st.composite
def nested(draw):
    """Nests of the same few constructs, with openers or closers possibly missing."""
    kinds = draw(st.lists(st.sampled_from(OPENERS), min_size=1, max_size=3))
    n, m = draw(st.integers(1, 12)), draw(st.integers(-2, 2))
    chosen = [kinds[i % len(kinds)] for i in range(n)]
    text = "".join(o for o, _ in chosen) + draw(st.sampled_from(["x", "", "a|b", "{", "__c__"]))
    closers = [c for _, c in reversed(chosen)]
    if m < 0:
        closers = closers[:m]
    elif m:
        closers.insert(draw(st.integers(0, len(closers))), draw(st.sampled_from(SOUP)))
    return text + "".join(closers)


@st.composite
def long_texts(draw):
    """Large templates, whole or damaged in one place."""
    b = big.build(draw(big.cases()))
    text = b.text
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(text)))
        text = text[:i] + draw(st.sampled_from(SOUP)) + text[i + draw(st.integers(0, 2)) :]
    return text


TESTS = [
    Test("nested", lambda: nested().map(lambda s: {"s": s}), check_parse, quick=3000, cpu_limit=10),
    Test("long", lambda: long_texts().map(lambda s: {"s": s}), check_parse, quick=300, cpu_limit=15),
    Test("long soup", lambda: soups(SOUP, 250).map(lambda s: {"s": s}), check_parse, quick=300, cpu_limit=15),
    Test("sampling what cannot be", lambda: impossible().map(lambda s: {"s": s}), check_sample, quick=2000),
    Test("soup", lambda: soups(SOUP, 14).map(lambda s: {"s": s}), check_parse, quick=14000),
    Test("mutants", lambda: mutants().map(lambda s: {"s": s}), check_parse, quick=4000),
    Test("any text", lambda: st.text(max_size=30).map(lambda s: {"s": s}), check_parse, quick=2000),
    Test("sampling", lambda: soups(SAFE_SOUP, 10).map(lambda s: {"s": s}), check_sample, quick=10000),
    Test("sampling the whole syntax", lambda: well_formed().map(lambda s: {"s": s}), check_sample, quick=2500),
]
