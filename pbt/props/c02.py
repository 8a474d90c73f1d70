"""Text outside of the syntax comes through unchanged."""
import string

import big
import sut
import tmpl
from core import Info, Test, expect_eq
from hypothesis import strategies as st

PROPERTY = "C02"
RULE = (
    "case = free text (any Unicode except the characters the syntax claims) used as a whole template, "
    "around variants, as an option and as a wildcard value; non-trivial = the text is not purely "
    "alphanumeric (which takes a shortcut past the parser)"
)

SPECIAL = "{#$%"
alphabet = st.one_of(
    st.sampled_from(string.ascii_letters + string.digits),
    st.sampled_from(" \t\n.,;:!?'\"()[]<>=+-*&^~@`\\/|}_\r\x0b\x0c"),
    st.sampled_from("éñßΩж日本語🎨\u0301\u200dİǅ½²٣\u00a0\u2003\u2028…⋯ﬁÅ\u212b"),
    st.characters(blacklist_categories=("Cs",), blacklist_characters=SPECIAL),
)
raw = st.one_of(
    st.text(alphabet, min_size=1, max_size=40),
    st.lists(st.sampled_from(tmpl.WORDS), min_size=1, max_size=8).map(" ".join),
    st.sampled_from(
        [
            "(masterpiece:1.2), best quality", "a  b   c", " lead", "trail ", "\n", " ", "\t\tx", "a, b, , c,",
            "http://x.org/a//b", "1girl, solo, :3", "C:\\dir\\file", "a/*b*/c", "x // y", "a|b}", "__", "_",
            "it's 1:2", "AND", "[a:b:0.5]", "<lora:x:1>", "…", "a...b", "!", "@", "~", "2::a", "a_b_", "3-4",
        ],
    ),
)


def free_text(s: str) -> str:
    """Drop what would be syntax: the wildcard wrap, and comments where they are recognised."""
    while "__" in s:
        s = s.replace("__", "_")
    while s.lstrip().startswith(("//", "/*")):
        s = s.lstrip()[1:]
    return s or "x"


def check_alone(case) -> Info:
    s, n = case["s"], case["n"]
    expect_eq(sut.RandomPromptGenerator(seed=3).generate(s, n), [s] * n, "random", text=s)
    expect_eq(sut.CombinatorialPromptGenerator().generate(s), [s], "combinatorial", text=s)
    got = sut.take(sut.context(sut.CYC).sample_prompts(s), n)
    expect_eq(got, [s] * n, "cyclical", text=s)
    return Info(not s.isalnum(), ("outer whitespace",) if s != s.strip() else ())


def inner_text(s: str) -> str:
    """Text as an option: `|` and `}` are syntax there, leading whitespace is layout."""
    s = free_text(s.replace("|", "/").replace("}", ")"))
    s = s.lstrip(" \t\r\n") or "x"
    s = free_text(s)
    if s[0] in "0123456789.+-~!@":
        s = "n" + s
    return s.strip("_") or "x"


def check_inside(case) -> Info:
    a, b, o, v = case["a"], case["b"], inner_text(case["o"]), case["v"]
    a, b = a.strip("_"), b.strip("_")
    while b.lstrip().startswith(("//", "/*")):
        b = b.lstrip()[1:]
    v = free_text(v).strip().strip("_") or "x"
    v = free_text(v)
    text = f"{a}{{{o}|zz}}{b}"
    want = [f"{a}{o}{b}", f"{a}zz{b}"]
    got = sut.CombinatorialPromptGenerator().generate(text)
    if o == "zz":
        want = want[:1]
    expect_eq(got, want, "text around and in a variant", template=text)
    v = case["pad"][0] + v + case["pad"][1]  # values in memory are not trimmed
    wm = sut.WildcardManager(root_map={"": [{"w": [v]}]})
    text = f"{a}__w__{b}"
    want = f"{a}{v}{b}"
    for seed in (1, 2):
        got = sut.RandomPromptGenerator(wm, seed=seed).generate(text, 2)
        expect_eq(got, [want] * 2, "text around and in a wildcard, random", template=text, value=v)
    expect_eq(sut.CombinatorialPromptGenerator(wm).generate(text), [want], "… combinatorial", template=text, value=v)
    got = sut.take(sut.SamplingContext(sut.CYC, wm).sample_prompts(text), 2)
    expect_eq(got, [want] * 2, "… cyclical", template=text, value=v)
    return Info(not (o.isalnum() and v.isalnum()))


PADS = ["", "", "", " ", "  ", "\u00a0", "\n", "\t", "\u3000"]
texts = raw.map(free_text)


@st.composite
def long_texts(draw):
    """Prose, runs of one character and runs of blanks, up to many thousands of characters."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["prose", "run", "tags"]))
        if kind == "prose":
            out.append(big.prose(draw(big.size(20000)), draw(st.integers(0, 9))))
        elif kind == "run":
            out.append(draw(st.sampled_from([" ", "\n", ".", ",", "(", "\t", "a", "é", "-", "\u00a0", ")", "🎨"])) * draw(big.size(3000)))
        else:
            out.append(", ".join(f"tag {i}" for i in range(draw(big.size(1500)))))
    return free_text("".join(out))


TESTS = [
    Test("long", lambda: st.fixed_dictionaries({"s": long_texts(), "n": st.integers(1, 3)}), check_alone, quick=160),
    Test(
        "long inside",
        lambda: st.fixed_dictionaries({"a": texts, "b": long_texts(), "o": long_texts(), "v": long_texts(), "pad": st.just(["", ""])}),
        check_inside,
        quick=60,
    ),
    Test(
        "alone",
        lambda: st.fixed_dictionaries({"s": texts, "n": st.integers(0, 4)}),
        check_alone,
        quick=10000,
    ),
    Test(
        "inside",
        lambda: st.fixed_dictionaries({"a": texts, "b": texts, "o": raw, "v": raw, "pad": st.lists(st.sampled_from(PADS), min_size=2, max_size=2)}),
        check_inside,
        quick=4000,
    ),
]
