"""Generator of templates that exercises the whole documented syntax (for parsing checks).

Every literal is drawn from an alphabet that is legal where it is put; no two
literals are adjacent, so that the written structure is the only reading.
"""
from __future__ import annotations

import string

from hypothesis import strategies as st

import tmpl
from tmpl import lit

TOP_PUNCT = " .,;:!?'\"()[]<>=+-*&^~@`\\/|}_\n\t"
OPT_PUNCT = " .,;:!?'\"()[]<>=+-*&^~@`\\/_\n\t"
UNI = "éñßΩж日本語中🎨🚀\u0301\u200dİǅ،؟½²٣\u00a0\u2003\u2028…⋯"

VAR_NAMES = ["a", "x", "season", "my_var", "my-var", "_v", "-v", "A1", "x2y", "V", "Name_9-z"]
WC_PATHS = [
    "c", "colours", "a/b", "a/b/c-d", "under_score/x", "colours*", "artists/**", "**", "x?", "[ab]c",
    "no ext.txt", "UPPER/Case", "1", "9/8", "日本/é", "a.b", "a-b_c", "with space", "x,y", "a;b", "a'b", "/lead",
    "t/", "a\\b", "a:b", "@x"[1:], "!x"[1:],
]


def texts(punct, min_size=1, max_size=10):
    alphabet = string.ascii_letters + string.digits + punct * 2 + UNI
    return st.one_of(
        st.sampled_from(tmpl.PLAIN),
        st.lists(st.sampled_from(alphabet), min_size=min_size, max_size=max_size).map("".join),
    )


_TOP, _OPT = texts(TOP_PUNCT), texts(OPT_PUNCT)


def clean(s: str, *, start: str, no_lead_ws: bool, end_cmd=True) -> str:
    """Remove what would not be literal text at this place."""
    while "__" in s:
        s = s.replace("__", "_")
    s = s.strip("_")  # must not merge with a wildcard's wrap
    if no_lead_ws:
        # (option text loses the parser's whitespace at its start; don't start with any)
        s = s.lstrip(" \t\r\n")
    while s.startswith(("//", "/*")):
        s = s[1:].lstrip(" \t\r\n") if no_lead_ws else s[1:]
    if s == "/":  # could be completed to a comment by following text; it is not, but keep clear
        s = ""
    s = s.strip("_")
    if no_lead_ws:
        s = s.lstrip(" \t\r\n")
    return s


@st.composite
def literal(draw, where):
    """where: top | opt (option or nested) | first (start of an option) | val"""
    s = draw(_TOP if where == "top" else _OPT)
    s = clean(s, start="", no_lead_ws=where in ("first", "val", "head"))
    if where in ("first", "head"):
        # not to be mistaken for a weight, a marker or bounds
        if where == "head":
            while s[:1] in ("~", "!", "@"):
                s = s[1:].lstrip()
        if s[:1].isdigit() or s[:1] in ("+", "-", "."):
            s = "n" + s
        s = clean(s, start="", no_lead_ws=True)
    if where == "val":
        while s[:1] in ("!",):
            s = s[1:]
        s = clean(s, start="", no_lead_ws=True)
    return s


@st.composite
def seqs(draw, where="top", level=0, max_level=3, first="opt"):
    """where: top (assignments allowed, | and } are text) or opt."""
    if level >= max_level:
        n = 0
    else:
        n = draw(st.sampled_from([2, 1, 3, 0, 1, 4] if level == 0 else [0, 1, 0, 0, 2]))
    out = []

    def add_literal(kind, required=False):
        s = draw(literal(kind))
        if s or required:
            out.append(lit(s or "w"))

    if n == 0:
        add_literal(first if where == "opt" else "top", required=where == "top")
        return out
    if draw(st.booleans()):
        add_literal(first if where == "opt" else "top")
    for i in range(n):
        cmd = draw(command(where, level, max_level))
        out.append(cmd)
        if draw(st.booleans()):
            s = draw(literal("top" if where == "top" else "opt"))
            if s:
                out.append(lit(s))
    return out


@st.composite
def command(draw, where, level, max_level):
    kinds = ["var", "var", "var", "wc", "get", "wrap"]
    if where == "top":
        kinds += ["set", "set"]
    k = draw(st.sampled_from(kinds))
    sub = level + 1
    if k == "var":
        n = draw(st.sampled_from([2, 3, 1, 4, 2, 12]))
        if level >= 1:
            n = min(n, 3)
        marker = draw(st.sampled_from(["", "", "", "~", "!", "@"]))
        b = sep = None
        if draw(st.booleans()):
            form = draw(st.sampled_from(["n", "n-m", "-m", "n-"]))
            hi_n = draw(st.sampled_from([n, n + 2, 30]))
            b = [form, draw(st.integers(0, hi_n)), draw(st.integers(0, hi_n))]
            if draw(st.booleans()):
                sep = draw(st.sampled_from(tmpl.SEPARATORS))
        opts = []
        for i in range(n):
            w = draw(
                st.sampled_from(
                    [None, None, None, "1", "2", "0.5", "10", ".25", "3.", "0", "100.75", "1.0", "007"],
                ),
            )
            head = "head" if i == 0 and not marker else "first"
            seq = draw(seqs("opt", sub, max_level, first=head)) if n <= 4 else draw(
                seqs("opt", 9, 3, first=head),
            )
            opts.append([w, seq])
        return {"t": "var", "o": opts, "b": b, "sep": sep, "m": marker}
    if k == "wc":
        marker = draw(st.sampled_from(["", "", "~", "!", "@"]))
        style = draw(st.integers(0, 5))
        path = draw(st.sampled_from(WC_PATHS))
        if style == 4:
            d = draw(st.sampled_from([None, None, [lit("dflt")], [tmpl.variant(["a", "b"])], [lit("p-"), tmpl.variant(["q"])]]))
            path = [lit("p/"), {"t": "get", "n": draw(st.sampled_from(VAR_NAMES)), "d": d}]
        elif style == 5:
            path = [
                tmpl.variant(draw(tmpl.plain_words(1, 3).map(lambda ws: [w.replace("(", "").replace(")", "") for w in ws]))),
                lit("/x"),
            ]
        args = []
        for name in draw(st.lists(st.sampled_from(VAR_NAMES), max_size=2, unique=True)):
            if draw(st.booleans()):
                v = [lit(draw(st.sampled_from(["winter", "a b", "7", "été", "x-y", "red/blue", "it's"])))]
            else:
                v = [tmpl.variant(draw(st.sampled_from([["a", "b"], ["x y", "z"], ["q"]])))]
            args.append([name, v])
        return {"t": "wc", "p": path, "m": marker, "a": args}
    if k == "get":
        d = None
        if draw(st.booleans()):
            d = draw(seqs("opt", sub, max_level, first="val"))
        return {"t": "get", "n": draw(st.sampled_from(VAR_NAMES)), "d": d}
    if k == "set":
        return {
            "t": "set",
            "n": draw(st.sampled_from(VAR_NAMES)),
            "v": draw(seqs("opt", sub, max_level, first="val")),
            "now": draw(st.booleans()),
            "keep": draw(st.booleans()),
        }
    w = draw(seqs("opt", sub, max_level, first="val"))
    i = draw(seqs("opt", sub, max_level, first="val"))
    return {"t": "wrap", "w": w, "i": i}
