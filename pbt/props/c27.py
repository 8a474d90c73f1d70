"""Attention is added to one phrase of a prompt, within the configured range, and nothing else changes."""
import math
import random
import re

import big
import sut
from core import Info, Test, expect, expect_eq
from dynamicprompts.generators.attentiongenerator import AttentionGenerator
from dynamicprompts.generators.promptgenerator import PromptGenerator
from hypothesis import strategies as st

PROPERTY = "C27"
RULE = (
    "case = prompts made of phrases, punctuation and existing emphasis, with an attention range and an inner "
    "generator; the added emphasis is located, removed again and compared; non-trivial = some prompt has two "
    "phrases or more"
)
PHRASES = [
    "cat", "cathedral", "purple cat singing opera", "art", "artistic", "été", "日本 garden", "it's", "a", "best quality",
    "1girl", "f/8", "x", "semi-real", "art", "o'clock", "C", "50mm lens", "under_score", "{odd}", "$5", "a+b", "[b]",
    "\\1", "\\g<0>", "^", "*", "^x^", "cat food", "the cat",
    "Cat", "CAT", "ART", "Été", "Best Quality", "ARTistic", "ſ", "s", "S", "İ", "i", "a cat and a cat",
]
GLUE = [", ", ",", "; ", ". ", "! ", "? ", " (", ") ", ": ", "(", "):", " , ", "... ", ",, ", ":1.3), ", "\n, ", " - "]
NON_PHRASES = ["12", "", "-", "123, 45", "...", "!?", "1.5", "(", "  "]


@st.composite
def prompts(draw):
    if draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from(NON_PHRASES))
    n = draw(st.sampled_from([1, 2, 3, 4, 5] * 5 + [30, 90]))
    s = draw(st.sampled_from(["", "", " ", "(", "12, "]))
    few = draw(st.lists(st.sampled_from(PHRASES), min_size=2, max_size=4)) if n > 5 or draw(st.integers(0, 3)) == 0 else PHRASES
    for i in range(n):
        s += draw(st.sampled_from(few)) if n <= 5 else f"{few[i % len(few)]} {i}"
        if i + 1 < n or draw(st.booleans()):
            s += draw(st.sampled_from(GLUE))
    return s


PUNCTUATION = set(",;:.?!()")
ASCII_PUNCT = set("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")


def phrases(prompt: str) -> list[str]:
    """Maximal pieces between punctuation, without outer space; not mere numbers or symbols."""
    out, cur = [], ""
    for ch in prompt + ",":
        if ch in PUNCTUATION:
            cur = cur.strip()
            if cur and not cur.isdigit() and not all(c in ASCII_PUNCT for c in cur):
                out.append(cur)
            cur = ""
        else:
            cur += ch
    return out


def explain(prompt: str, got: str, lo: float, hi: float):
    """The (phrase, weight) that was emphasized, or None."""
    for k in sorted(set(phrases(prompt)), key=len, reverse=True):
        for m in re.finditer(re.escape("(" + k + ":") + r"(\d+(?:\.\d+)?)\)", got):
            w = m.group(1)
            mark = f"({k}:{w})"
            if len(got) - len(prompt) not in [(len(mark) - len(k)) * i for i in range(1, 200)]:
                continue
            if not lo <= float(w) <= hi or len(w.partition(".")[2]) > 2:
                continue
            if restores(prompt, got, k, mark):
                return k, float(w)
    return None


def restores(prompt, got, k, mark) -> bool:
    """Whether `got` is `prompt` with some whole occurrences of `k` replaced by `mark`."""
    i = j = n = 0
    while j < len(got):
        if got.startswith(mark, j) and prompt.startswith(k, i) and not prompt[i:].startswith(mark):
            before, after = prompt[:i][-1:], prompt[i + len(k) :][:1]
            if word(before) or word(after):
                return False
            i, j, n = i + len(k), j + len(mark), n + 1
        elif i < len(prompt) and prompt[i] == got[j]:
            i, j = i + 1, j + 1
        else:
            return False
    return i == len(prompt) and n > 0


def word(ch: str) -> bool:
    return ch.isalnum() or ch == "_"


class Recorder(PromptGenerator):
    def __init__(self, prompts):
        self.prompts = prompts
        self.calls = []

    def generate(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return list(self.prompts)


def check(case) -> Info:
    lo, hi = sorted(case["range"])
    random.seed(case["seed"])
    inner = Recorder(case["prompts"])
    gen = AttentionGenerator(inner, min_attention=case["range"][0], max_attention=case["range"][1])
    got = gen.generate("a template", 5, max_prompts=7)
    expect_eq(inner.calls, [(("a template", 5), {"max_prompts": 7})], "arguments for the inner generator")
    expect_eq(len(got), len(case["prompts"]), "number of prompts")
    for p, g in zip(case["prompts"], got):
        if not phrases(p):
            expect_eq(g, p, "prompt without phrases")
            continue
        expect(explain(p, g, lo, hi) is not None, "not the prompt with emphasis on one phrase", prompt=p, got=g, range=[lo, hi])
    return Info(any(len(phrases(p)) > 1 for p in case["prompts"]))


def check_spread(case) -> Info:
    """Every phrase may be picked, and weights use the whole range."""
    random.seed(case["seed"])
    words = case["words"]
    prompt = ", ".join(words)
    lo, hi = sorted(case["range"])
    gen = AttentionGenerator(sut.DummyGenerator(), *case["range"])
    n = 40 * len(words)
    picked, weights = [], []
    for _ in range(n):
        (g,) = gen.generate(prompt)
        e = explain(prompt, g, lo, hi)
        expect(e is not None, "not the prompt with emphasis on one phrase", prompt=prompt, got=g)
        picked.append(e[0])
        weights.append(e[1])
    # a phrase is missed with probability < exp(-40)
    expect_eq(set(picked), set(words), "every phrase is picked")
    if hi - lo >= 0.2:
        mid = (lo + hi) / 2
        expect(min(weights) < mid < max(weights) if n >= 40 else True, "weights do not vary", weights=sorted(set(weights)))
    return Info(len(words) > 1)


def ranges():
    w = st.integers(0, 150).map(lambda i: i / 100)
    return st.lists(w, min_size=2, max_size=2)


def check_default(case) -> Info:
    random.seed(case["seed"])
    for p in case["prompts"]:
        for g in AttentionGenerator().generate(p):
            if phrases(p):
                expect(explain(p, g, 0.1, 0.9) is not None, "not the prompt with emphasis on one phrase", prompt=p, got=g)
            else:
                expect_eq(g, p, "prompt without phrases")
        random_gen = AttentionGenerator(sut.RandomPromptGenerator(seed=case["seed"]), 0.5, 0.5)
        got = random_gen.generate("{cat|dog}, {red|blue}", 4)
        want = {f"{a}, {b}" for a in ("cat", "dog") for b in ("red", "blue")}
        expect_eq(len(got), 4, "number of prompts")
        expect(all(g.replace("(", "").replace(":0.5)", "") in want and g.count(":0.5") == 1 for g in got), "prompts", got=got)
    return Info(True)


def check_many(case) -> Info:
    """Prompts of very many or very long phrases: any of them may be emphasized."""
    random.seed(case["seed"])
    n, width = case["n"], case["width"]
    words = [w + " x" * (width // 2) for w in big.words(n, "word")]
    prompt = ", ".join(words)
    gen = AttentionGenerator(sut.DummyGenerator(), 1.1, 1.3)
    picked = []
    for _ in range(60):
        (g,) = gen.generate(prompt)
        m = re.fullmatch(r"(.*?)\(([^():]*):(\d+(?:\.\d+)?)\)(.*)", g, re.S)
        expect(m is not None, "no emphasis", n=n, width=width, got=g)
        expect_eq(m[1] + m[2] + m[4], prompt, "not the prompt with emphasis on one phrase", n=n, width=width)
        expect(m[2] in words and 1.1 <= float(m[3]) <= 1.3, "emphasis", phrase=m[2], weight=m[3], n=n)
        picked.append(words.index(m[2]))
    # each third is missed with probability < (3/4)^60 < 1e-7 for n >= 6; the runs are seeded
    if n >= 12:
        thirds = {i * 3 // n for i in picked}
        expect_eq(thirds, {0, 1, 2}, "some phrases are never picked", picked=picked, n=n)
    prompts = [f"p{i} a, b" for i in range(n)]
    got = AttentionGenerator(Recorder(prompts), 1.1, 1.3).generate("t")
    expect_eq([re.sub(r"[()]|:1(\.\d+)?", "", g) for g in got], prompts, "prompts", n=n)
    return Info(n > 20)


TESTS = [
    Test(
        "many",
        lambda: st.fixed_dictionaries({"n": big.size(300), "width": st.sampled_from([1, 1, 10, 80, 600]), "seed": st.integers(0, 10**9)}).filter(
            lambda c: c["n"] * c["width"] < 20000,
        ),
        check_many,
        quick=48,
    ),
    Test(
        "emphasis",
        lambda: st.fixed_dictionaries(
            {"prompts": st.lists(prompts(), max_size=14), "range": ranges(), "seed": st.integers(0, 10**9)},
        ),
        check,
        quick=8000,
    ),
    Test(
        "spread",
        lambda: st.fixed_dictionaries(
            {
                "words": st.lists(st.sampled_from(["red cat", "dog", "owl", "été", "oak tree", "7up"]), min_size=1, max_size=5, unique=True),
                "range": ranges(), "seed": st.integers(0, 10**9),
            },
        ),
        check_spread,
        quick=300,
    ),
    Test(
        "defaults",
        lambda: st.fixed_dictionaries({"prompts": st.lists(prompts(), min_size=1, max_size=3), "seed": st.integers(0, 10**9)}),
        check_default,
        quick=400,
    ),
]
del math
