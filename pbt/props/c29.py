"""Feeling lucky: the query asks for what the prompt says, the answer's prompts come back, failures are reported."""
import json
import random
from urllib.parse import parse_qs, urlsplit

import big
import requests
import sut
from core import Info, Test, expect, expect_eq
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException, PromptGenerator
from hypothesis import strategies as st

PROPERTY = "C29"
RULE = (
    "case = query text (any Unicode, URL characters, templates, blank), an answer of the search service (well-formed "
    "or broken in some way) and a number of prompts; the request actually made and the result are observed; "
    "non-trivial = the query has characters that need escaping, or the answer is broken"
)
ASSUMPTIONS = ["no network: requests are intercepted where the HTTP library would send them"]


class Service:
    """Stands in for the network below the HTTP library."""

    def __init__(self, status=200, body=b"", error=None):
        self.status, self.body, self.error = status, body, error
        self.urls = []

    def __enter__(self):
        self.saved = requests.adapters.HTTPAdapter.send

        def send(adapter, request, **kw):
            self.urls.append(request.url)
            expect_eq(request.method, "GET", "request method")
            if self.error:
                raise self.error
            r = requests.Response()
            r.status_code = self.status
            r._content = self.body
            r.url = request.url
            r.request = request
            r.encoding = "utf-8"
            return r

        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *exc):
        requests.adapters.HTTPAdapter.send = self.saved

    def query(self) -> str:
        expect_eq(len(self.urls), 1, "number of requests", urls=self.urls)
        u = urlsplit(self.urls[0])
        expect_eq((u.scheme, u.netloc, u.path, u.fragment), ("https", "lexica.art", "/api/v1/search", ""), "address", url=self.urls[0])
        q = parse_qs(u.query, keep_blank_values=True, strict_parsing=True)
        expect_eq(sorted(q), ["q"], "query parameters", url=self.urls[0])
        expect_eq(len(q["q"]), 1, "query parameters", url=self.urls[0])
        return q["q"][0]


class Recorder(PromptGenerator):
    def __init__(self, prompts):
        self.prompts = prompts
        self.calls = []

    def generate(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return list(self.prompts)


def answer(prompts) -> bytes:
    return json.dumps({"images": [{"id": i, "prompt": p, "model": "m"} for i, p in enumerate(prompts)]}).encode()


def check_query(case) -> Info:
    text, n = case["text"], case["n"]
    with Service(body=answer(case["answers"])) as s:
        if case["inner"] is None:
            got = FeelingLuckyGenerator().generate(text, n)
            query = text
        else:
            inner = Recorder([case["inner"], "something else"][: 1 + n % 2])
            got = FeelingLuckyGenerator(inner).generate(text, n, a=1)
            expect_eq(len(inner.calls), 1, "calls of the inner generator")
            args, kwargs = inner.calls[0]
            expect_eq(args[0], text, "template for the inner generator")
            expect_eq(kwargs.get("a"), 1, "arguments for the inner generator")
            query = case["inner"]
    asked = s.query()
    if query.strip() == "":
        expect(asked.isdigit(), "blank query: a random number is asked for", asked=asked)
    else:
        expect_eq(asked, query, "query", url=s.urls)
    expect(isinstance(got, list) and len(got) == n, "number of prompts", got=got, want=n)
    expect(all(g in case["answers"] for g in got), "prompts that are not in the answer", got=got, answers=case["answers"])
    return Info(not query.isalnum(), ("blank",) if not query.strip() else ())


def check_templates(case) -> Info:
    """The query is the first prompt of the template."""
    random.seed(case["seed"])
    want = set(sut.CombinatorialPromptGenerator().generate(case["text"], 100))
    with Service(body=answer(["x"])) as s:
        FeelingLuckyGenerator(sut.RandomPromptGenerator(seed=case["seed"])).generate(case["text"], 2)
    expect(s.query() in want, "query", asked=s.query(), possible=want)
    (first,) = sut.RandomPromptGenerator(seed=case["seed"]).generate(case["text"], 1)
    expect_eq(s.query(), first, "query of a seeded generator")
    return Info(True)


BROKEN = {
    "status": dict(status=500, body=answer(["x"])),
    "not found": dict(status=404, body=answer(["x"])),
    "forbidden": dict(status=403, body=b"{}"),
    "too many": dict(status=429, body=answer(["x", "y"])),
    "connection": dict(error=requests.ConnectionError("no route")),
    "timeout": dict(error=requests.Timeout("slow")),
    "os error": dict(error=OSError("odd")),
    "html": dict(body=b"<html>busy</html>"),
    "empty": dict(body=b""),
    "no images": dict(body=b'{"error": "quota"}'),
    "no image": dict(body=b'{"images": []}'),
    "null": dict(body=b"null"),
    "list": dict(body=b"[]"),
    "text images": dict(body=b'{"images": "abc"}'),
    "no prompt": dict(body=b'{"images": [{"id": 3}]}'),
    "null images": dict(body=b'{"images": null}'),
    "truncated": dict(body=answer(["x", "y"])[:-3]),
}


def check_broken(case) -> Info:
    with Service(**BROKEN[case["kind"]]) as s:
        try:
            got = FeelingLuckyGenerator().generate(case["text"], case["n"])
        except GeneratorException:
            pass
        else:
            expect(False, "a failure is not reported", kind=case["kind"], got=got)
    # and the same generator works afterwards
    with Service(body=answer(["fine"])) as s2:
        expect_eq(FeelingLuckyGenerator().generate(case["text"], 1), ["fine"], "after a failure")
    del s, s2
    return Info(True, (case["kind"],))


def check_spread(case) -> Info:
    """Every image's prompt may come back."""
    random.seed(case["seed"])
    answers = [f"p{i}" for i in range(case["k"])]
    with Service(body=answer(answers)):
        got = FeelingLuckyGenerator().generate("x", 60 * case["k"])
    # one is missed with probability < k * exp(-60)
    expect_eq(set(got), set(answers), "prompts that never come back")
    blanks = set()
    for _ in range(6):
        with Service(body=answer(["x"])) as s:
            FeelingLuckyGenerator().generate(" ", 1)
        blanks.add(s.query())
    expect(len(blanks) > 1, "blank queries always ask for the same", asked=blanks)
    return Info(case["k"] > 1)


NASTY = ["a & b", "50% off", "c++", "q=1&x=2", "#tag", "a?b", "é", "日本語", "🎨 art", "a/b", "a\\b", "%20", "a;b", "x y  z", "\"q\"", "line\nbreak", "tab\t", "+", "&", " lead", "trail "]
texts = st.one_of(
    st.sampled_from(NASTY),
    st.lists(st.sampled_from(NASTY), min_size=1, max_size=3).map("".join),
    st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\x00"), min_size=1, max_size=12),
    st.sampled_from(["", " ", "\n", "\t ", "cat"]),
)
TEMPLATES = ["{a & b|c+d}", "{2$$#1|é|%25}".replace("%", "pct").replace("#", "no"), "cat {x|y}", "a/{b|c}?", "${x=a&b}${x} ${x}"]


@st.composite
def long_queries(draw):
    piece = draw(st.sampled_from([*NASTY, "cat "]))
    text = draw(st.sampled_from([big.prose(draw(big.size(3000)), 3), piece * draw(big.size(300)), " " * draw(big.size(300))]))
    return {"text": text, "inner": draw(st.sampled_from([None, None, text[::-1]])), "n": draw(big.size(400)), "answers": [f"p{i} " + "x" * (i * i) for i in range(draw(st.integers(1, 30)))]}


TESTS = [
    Test("long query", long_queries, check_query, quick=200),
    Test(
        "query",
        lambda: st.fixed_dictionaries(
            {
                "text": texts,
                "inner": st.one_of(st.none(), texts),
                "n": st.integers(0, 12),
                "answers": st.lists(st.sampled_from(["p1", "été, x", "", "日本", "a\nb", "{odd}"]), min_size=1, max_size=5),
            },
        ),
        check_query,
        quick=4000,
    ),
    Test(
        "templates",
        lambda: st.fixed_dictionaries({"text": st.sampled_from(TEMPLATES), "seed": st.integers(0, 10**6)}),
        check_templates,
        quick=300,
    ),
    Test(
        "failures",
        lambda: st.fixed_dictionaries({"kind": st.sampled_from(sorted(BROKEN)), "text": texts, "n": st.integers(1, 4)}),
        check_broken,
        quick=1500,
    ),
    Test(
        "spread",
        lambda: st.fixed_dictionaries({"k": st.one_of(st.integers(1, 8), st.integers(1, 120)), "seed": st.integers(0, 10**6)}),
        check_spread,
        quick=100,
    ),
]
