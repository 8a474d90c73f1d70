"""Layout and comments do not change the prompts of a template."""
import dataclasses

import big
import gens
import sut
import tmpl
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st
from tmpl import Opts

PROPERTY = "C05"
RULE = (
    "case = template + layout choices; written compactly and with whitespace and comments at the places where "
    "the syntax allows layout, sampled both ways with the same seeds; non-trivial = at least one insertion"
)
NOTES = ["note", "{a|b}", "__c__ | x", "}", "${x=1}", "it's /* odd", "", "#", "%{a$$b", "TODO: $5 & 100%"]


class Layout:
    """Renders a template with insertions taken from a list of integers."""

    def __init__(self, picks, comments: bool):
        self.picks = list(picks)
        self.comments = comments
        self.used = 0

    def next(self) -> int:
        return self.picks.pop(0) if self.picks else 0

    def gap(self) -> str:
        """Layout where whitespace is insignificant."""
        k = self.next()
        plain = ["", "", " ", "\n", "\t", "  \n\t", "\r\n"]
        if not self.comments:
            s = plain[k % len(plain)]
        else:
            note = NOTES[k % len(NOTES)]
            line = note.replace("*/", "")
            options = plain + [f"# {note}\n", f"\n  # {note}\n\t", f"#{note}\n#{note}\n", f"/* {line} */ ", f"// {note}\n", "#\n", "//\n", "/**/", "/*\n*/", "# x\r\n", f"/*{line}\n{line}*/\n"]
            s = options[k % len(options)]
        self.used += bool(s)
        return s

    def render(self, seq, top=False) -> str:
        return "".join(
            # (within options, wider spaces may make otherwise equal options different)
            self.space(n["s"]) if top and n["t"] == "lit" else self.node(n)
            for n in seq
        )

    def space(self, s: str) -> str:
        """Widen existing single spaces of a literal (compared after squashing)."""
        if not self.comments:
            return s
        out = []
        for c in s:
            if c == " ":
                k = self.next()
                note = NOTES[k % len(NOTES)]
                options = [" ", "  ", "\n", f" # {note}\n", f"\n#{note}\n\t", " #\n", "#\n "]
                c2 = options[k % len(options)]
                self.used += c2 != " "
                out.append(c2)
            else:
                out.append(c)
        return "".join(out)

    def node(self, n) -> str:
        t = n["t"]
        g = self.gap
        if t == "lit":
            return n["s"]
        if t == "var":
            head = n.get("m") or ""
            if n.get("b"):
                head += tmpl.render_bound(n["b"]) + "$$"
                if n.get("sep") is not None:
                    head += n["sep"] + "$$"
            opts = []
            for w, seq in n["o"]:
                # (after a weight, whitespace is text)
                opts.append(g() + ("" if w is None else f"{w}::") + self.render(seq))
            return "{" + (g() if not head else "") + head + "|".join(opts) + "}"
        if t == "wc":
            return tmpl.render_node(n)
        if t == "set":
            return (
                "${" + g() + n["n"] + g() + ("?" if n.get("keep") else "") + "="
                + ("!" if n.get("now") else "") + g() + self.render(n["v"]) + "}"
            )
        if t == "get":
            if n.get("d") is None:
                return "${" + g() + n["n"] + g() + "}"
            return "${" + g() + n["n"] + g() + ":" + g() + self.render(n["d"]) + "}"
        if t == "wrap":
            return "%{" + g() + self.render(n["w"]) + "$$" + g() + self.render(n["i"]) + "}"
        raise AssertionError(t)


def compare(case, comments) -> Info:
    tpl, wcs = case["tpl"], case["wcs"]
    text = tmpl.render(tpl)
    lay = Layout(case["picks"], comments)
    spaced = (lay.gap() if comments else "") + lay.render(tpl, top=True)
    for method in (sut.RANDOM, sut.COMB, sut.CYC):
        if method is sut.CYC and gens.has(case, "wrap"):
            continue
        a = sut.context(method, wcs, seed=7, unknown_variable_value="u", ignore_whitespace=comments)
        b = sut.context(method, wcs, seed=7, unknown_variable_value="u", ignore_whitespace=comments)
        expect_eq(
            sut.take(b.sample_prompts(spaced), 5),
            sut.take(a.sample_prompts(text), 5),
            f"layout changes {method} prompts",
            compact=text,
            laid_out=spaced,
        )
    return Info(lay.used > 0, gens.features(tpl))


@st.composite
def cases(draw):
    o = Opts(wrap=True, dressed=True, variables=("v",), depth=2, weights=True, empties=False, words=tuple(w for w in tmpl.PLAIN))
    case = draw(gens.cases(dataclasses.replace(o, variables=())))
    oo = dataclasses.replace(o, wildcards=tuple(case["wcs"]))
    case["tpl"] = draw(tmpl.sequences(oo))
    if draw(st.booleans()):
        case["tpl"] = [
            {
                "t": "set", "n": "v", "v": draw(tmpl.option_seq(dataclasses.replace(oo, variables=()), 1)),
                "now": draw(st.booleans()), "keep": draw(st.booleans()),
            },
            *case["tpl"],
        ]
    case["picks"] = draw(st.lists(st.integers(0, 400), min_size=1, max_size=25))
    return case


def check_long(case) -> Info:
    """Long and many comments, much layout."""
    kind, n, m = case["kind"], case["n"], case["m"]
    s = {
        "blanks": " " * n, "lines": "\n" * n, "line comment": "# " + big.prose(n, m) + "\n",
        "block comment": "/* " + big.prose(n, m) + " */", "slashes": "// " + big.prose(n, m) + "\n",
        "comments": "# {a|b} __c__ }\n" * min(n, 150), "mixed": " \n\t# x\n/* y */" * min(n, 40),
        "block lines": "/*" + "\n * {z}" * min(n, 300) + "\n*/",
    }[kind]
    text = "{" + s + "a|" + s + "{x|y}}${" + s + "v" + s + "=" + s + "p}" + " q ${v}%{" + s + "(...)$$" + s + "b}"
    if s.startswith("#") or not s.strip():
        text = s + text
    want = [f"{x} q p(b)" for x in ("a", "x", "y")]
    gen = sut.CombinatorialPromptGenerator(ignore_whitespace=True)
    expect_eq(gen.generate(text), want, "prompts of a template with much layout", kind=kind, n=n)
    got = sut.RandomPromptGenerator(seed=m, ignore_whitespace=True).generate(text, 3)
    expect(set(got) <= set(want), "impossible random prompt", got=got, kind=kind, n=n)
    return Info(n > 20, (kind,))


LONG = ["blanks", "lines", "line comment", "block comment", "slashes", "comments", "mixed", "block lines"]
TESTS = [
    Test(
        "long",
        lambda: st.fixed_dictionaries({"kind": st.sampled_from(LONG), "n": big.size(5000), "m": st.integers(0, 9)}),
        check_long,
        quick=160,
    ),
    Test("whitespace", cases, lambda c: compare(c, False), quick=1800),
    Test("comments", cases, lambda c: compare(c, True), quick=1800),
]
