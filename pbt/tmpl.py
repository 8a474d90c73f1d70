"""Templates as plain JSON data, their rendering to template text, and generators.

A template is a list of nodes (a sequence).  Nodes are dicts with a "t" key:

  {"t":"lit","s":text}
  {"t":"var","o":[[weight|None, seq],...],"b":None|[form,lo,hi],"sep":None|str,"m":""|"~"|"!"|"@"}
       forms: "n" -> n$$   "n-m" -> lo-hi$$   "-m" -> -hi$$   "n-" -> lo-$$
  {"t":"wc","p":path(str)|seq,"m":marker,"a":[[name, seq],...],"sp":spaces around names and values}
  {"t":"set","n":name,"v":seq,"now":bool,"keep":bool}
  {"t":"get","n":name,"d":None|seq}
  {"t":"wrap","w":seq,"i":seq}
"""
from __future__ import annotations

import dataclasses

from hypothesis import strategies as st


@dataclasses.dataclass(frozen=True)
class Delims:
    vs: str = "{"
    ve: str = "}"
    ww: str = "__"
    as_: str = "${"
    ae: str = "}"
    ws: str = "%{"
    we: str = "}"


DEFAULT = Delims()


def num(w) -> str:
    """Render a weight; weights are kept as strings to preserve their spelling."""
    return str(w)


def render(seq, d: Delims = DEFAULT) -> str:
    return "".join(render_node(n, d) for n in seq)


def render_bound(b) -> str:
    form, lo, hi = b
    return {
        "n": f"{lo}",
        "n-m": f"{lo}-{hi}",
        "-m": f"-{hi}",
        "n-": f"{lo}-",
    }[form]


def render_node(n, d: Delims = DEFAULT) -> str:
    t = n["t"]
    if t == "lit":
        return n["s"]
    if t == "var":
        head = n.get("m") or ""
        if n.get("b"):
            head += render_bound(n["b"]) + "$$"
            if n.get("sep") is not None:
                head += n["sep"] + "$$"
        opts = []
        for w, seq in n["o"]:
            opts.append(("" if w is None else f"{num(w)}::") + render(seq, d))
        return d.vs + head + "|".join(opts) + d.ve
    if t == "wc":
        path = n["p"] if isinstance(n["p"], str) else render(n["p"], d)
        args = ""
        if n.get("a"):
            sp = n.get("sp") or ["", "", "", ""]
            args = "(" + ",".join(f"{sp[0]}{k}{sp[1]}={sp[2]}{render(v, d)}{sp[3]}" for k, v in n["a"]) + ")"
        return d.ww + (n.get("m") or "") + path + args + d.ww
    if t == "set":
        return (
            d.as_
            + n["n"]
            + ("?" if n.get("keep") else "")
            + "="
            + ("!" if n.get("now") else "")
            + render(n["v"], d)
            + d.ae
        )
    if t == "get":
        dflt = "" if n.get("d") is None else ":" + render(n["d"], d)
        return d.as_ + n["n"] + dflt + d.ae
    if t == "wrap":
        return d.ws + render(n["w"], d) + "$$" + render(n["i"], d) + d.we
    raise AssertionError(t)


def lit(s):
    return {"t": "lit", "s": s}


def variant(options, b=None, sep=None, m="", weights=None):
    weights = weights or [None] * len(options)
    return {
        "t": "var",
        "o": [[w, o if isinstance(o, list) else [lit(o)]] for w, o in zip(weights, options)],
        "b": b,
        "sep": sep,
        "m": m,
    }


def wc(path, m="", a=None):
    return {"t": "wc", "p": path, "m": m, "a": a or []}


def bounds_of(node) -> tuple[int, int]:
    """Number of picks [lo, hi], clamped to the number of options."""
    n = len(node["o"])
    b = node.get("b")
    if not b:
        return (1, 1) if n else (0, 0)
    form, lo, hi = b
    if form == "n":
        hi = lo
    elif form == "-m":
        lo = 1
    elif form == "n-":
        hi = n
    lo, hi = min(lo, hi), max(lo, hi)
    return min(lo, n), min(hi, n)


def walk(seq):
    for n in seq:
        yield n
        for sub in children(n):
            yield from walk(sub)


def children(n):
    t = n["t"]
    if t == "var":
        return [s for _, s in n["o"]]
    if t == "wc":
        subs = [v for _, v in n.get("a", [])]
        if not isinstance(n["p"], str):
            subs.append(n["p"])
        return subs
    if t == "set":
        return [n["v"]]
    if t == "get":
        return [n["d"]] if n.get("d") is not None else []
    if t == "wrap":
        return [n["w"], n["i"]]
    return []


def depth(seq) -> int:
    return max((1 + max((depth(s) for s in children(n)), default=0) for n in seq), default=0)


# --------------------------------------------------------------------------
# generators

WORDS = [
    "a", "b", "c", "red", "green", "blue", "x1", "7", "42", "cat dog", "oil on canvas",
    "f/1.8", "(soft:1.2)", "[best]", "it's", "semi-real", "e.g. this", "back\\slash",
    "tail,", ";x", "été", "日本語", "straße", "ñandú", "🎨", "👩‍🚀 suit", "مرحبا", "a\u0301b",
    "x\u00a0y", "Ω≈ç", "q?", "wow!", "a=b", "k:v", "<lora:foo:0.8>", "@home", "~tilde",
    "under_score", "3.5mm", "1-2", "two  spaces", "&amp;", "\"quoted\"", "^", "`tick`", "a*b",
    "line\nbreak", "tab\there", "50mm lens", "A", "Cat", "CAT", "naïve", "ﬁ", "İ", "ß", "0",
    "ends.", "..two", "C++", "x/y", "~", "!bang", "-", "—dash", "¿que?", "a+b", "e\u0301",
]

# Words that need no care wherever they are put (options, values, file lines, ...)
PLAIN = [
    "red", "green", "blue", "cat", "dog", "owl", "oak", "elm", "fir", "sun", "rain", "snow",
    "gold", "silver", "iron", "été", "日本", "straße", "Ωmega", "ice cream", "old man", "x1",
    "7up", "semi-real", "under_score", "it's", "(soft:1.2)", "A4", "Cat", "(b)", "k:v", "🎨",
]


# Texts that are easily taken for one another
FAMILIES = [
    ["a", "A", "a ", "a\u00a0", "á", "a\u0301", "ａ"], ["cat", "Cat", "CAT", "cat ", "cats", "cat,", "cat\t"],
    ["1", "1.0", "01", "1 ", "١"], ["x", "x x", "x,x", "xx", "x ", "x  x"], ["straße", "STRASSE", "strasse", "Straße"],
    ["b", "b-", "b.", "b;", "(b)", "b:"], ["old man", "Old man", "old  man", "old man ", "oldman", "old\nman"],
]


def plain_words(n_min, n_max, unique=True):
    return st.lists(st.sampled_from(PLAIN), min_size=n_min, max_size=n_max, unique=unique)


@st.composite
def distinct_words(draw, n_min=1, n_max=6, big=14):
    """Pairwise different short texts; occasionally many of them."""
    n = draw(st.one_of(st.integers(n_min, n_max), st.integers(n_min, big)))
    style = draw(st.integers(0, 3))
    if style == 0:
        return [f"w{i}" for i in range(n)]
    if style == 2 and n <= 6:
        fam = draw(st.sampled_from(FAMILIES))
        return draw(st.lists(st.sampled_from(fam), min_size=min(n, len(fam)), max_size=n, unique=True))
    if style == 1:
        return [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    return draw(st.lists(st.sampled_from(PLAIN), min_size=n, max_size=n, unique=True))


SEPARATORS = [
    " and ", ", ", "; ", " ", "-", "|", " | ", "/", "::", "+", " or ", " x ", "...", "&", "--", " , ",
    "~", "!", "@", "0", "=", "_", "\\", "' '", "sep",
    "、", " – ", " · ", "é", "\n", ",\t", "🎨",
]


@dataclasses.dataclass(frozen=True)
class Opts:
    """What a generated template may contain."""

    depth: int = 3
    weights: bool = True
    bounds: bool = True
    wildcards: tuple[str, ...] = ()
    missing: bool = False
    markers: str = ""  # sampler markers allowed anywhere
    top_markers: str = ""  # sampler markers allowed on top-level parts only
    wrap: bool = False
    variables: tuple[str, ...] = ()  # readable variables
    zero: bool = True  # lower bounds of zero
    empties: bool = True
    max_opts: int = 4
    max_parts: int = 4
    words: tuple[str, ...] = tuple(PLAIN)
    single_wc_option: bool = True
    dressed: bool = False  # wildcards with parameters and computed names
    families: bool = True  # options that are easily taken for one another


TEXT_GLUE = ["", "", "", " ", " ", ", ", " of ", "a ", " the ", ".", "\n", "  ", " - ", "(", ") ", "/"]
OPTION_GLUE_START = ["", "", "an ", "x", "(", "é "]
WEIGHTS = [None, None, None, "1", "2", "3", "0.5", "0.1", "10", "1.0", "2.5", ".5", "4."]


@st.composite
def sequences(draw, o: Opts, in_option=False, level=0):
    """A non-empty sequence: literals around at most `max_parts` commands."""
    top = o.max_parts if level == 0 else 2
    n_parts = draw(st.sampled_from([k for k in (2, 1, 3, 0, 4, 5) if (0 if level else 1) <= k <= top]))
    seq = []
    if in_option:
        first = draw(st.sampled_from(OPTION_GLUE_START))
    else:
        first = draw(st.sampled_from(TEXT_GLUE))
    if n_parts == 0:
        return [lit(draw(st.sampled_from(o.words)))]
    if first:
        seq.append(lit(first))
    for i in range(n_parts):
        seq.append(draw(commands(o, level)))
        glue = draw(st.sampled_from(TEXT_GLUE))
        if glue:
            if glue.startswith("/") and i + 1 < n_parts:
                glue = "-"
            seq.append(lit(_safe_after_command(glue)))
    return seq


def _safe_after_command(s: str) -> str:
    # text right after a command must not start a comment
    return " " + s if s.startswith(("/", "#")) else s


@st.composite
def commands(draw, o: Opts, level=0):
    kinds = ["var"] * 4
    if o.wildcards:
        kinds += ["wc"] * 3
    if o.missing:
        kinds += ["missing"]
    if o.variables:
        kinds += ["get"] * 2
    if o.wrap:
        kinds += ["wrap"]
    k = draw(st.sampled_from(kinds))
    marks = o.markers + (o.top_markers if level == 0 else "")
    mark = ""
    if marks:
        mark = draw(st.sampled_from(["", "", *marks]))
    if k == "wc":
        node = wc(draw(st.sampled_from(o.wildcards)), mark)
        if o.dressed:
            name = node["p"]
            how = draw(st.integers(0, 5))
            if how == 0 and len(name) > 1 and name[-2] != "/":  # the name ends with a variable's default
                node["p"] = [lit(name[:-1]), {"t": "get", "n": "unset", "d": [lit(name[-1])]}]
            elif how == 1:
                node["p"] = [{"t": "var", "o": [[None, [lit(name)]]], "b": None, "sep": None, "m": ""}]
            if draw(st.integers(0, 4)) == 0:
                node["a"] = [["p", [lit(name[-1])]]]
        return node
    if k == "missing":
        return wc(draw(st.sampled_from(["nope", "no/such", "absent*"])), mark)
    if k == "get":
        name = draw(st.sampled_from(o.variables))
        default = None
        if draw(st.booleans()):
            others = tuple(v for v in o.variables if v != name)
            default = draw(option_seq(dataclasses.replace(o, variables=others), level + 1))
        return {"t": "get", "n": name, "d": default}
    if k == "wrap":
        return draw(wraps(o, level + 1))
    return draw(variants(o, level, mark))


@st.composite
def option_seq(draw, o: Opts, level):
    if level >= o.depth or draw(st.integers(0, 9)) < 6:
        if o.empties and draw(st.integers(0, 14)) == 0:
            return []
        return [lit(draw(st.sampled_from(o.words)))]
    return draw(sequences(o, in_option=True, level=level))


@st.composite
def variants(draw, o: Opts, level=0, mark=""):
    top = o.max_opts if level == 0 else min(3, o.max_opts)
    n = draw(st.sampled_from([k for k in (2, 3, 2, 1, 3, 4, 5) if k <= top]))
    opts, seen = [], set()
    if o.families and draw(st.integers(0, 6)) == 0:
        o = dataclasses.replace(o, words=tuple(draw(st.sampled_from(FAMILIES))))
    for _ in range(n):
        seq = draw(option_seq(o, level + 1))
        key = render(seq)
        if key in seen:  # options are kept pairwise different
            continue
        seen.add(key)
        w = draw(st.sampled_from(WEIGHTS)) if o.weights else None
        opts.append([w, seq])
    if (
        not o.single_wc_option
        and len(opts) == 1
        and len(opts[0][1]) == 1
        and opts[0][1][0]["t"] == "wc"
    ):
        opts.append([None, [lit("zz")]])
    b = sep = None
    if o.bounds and draw(st.integers(0, 2)) == 0:
        b = draw(bounds(len(opts), zero=o.zero))
        if draw(st.booleans()):
            sep = draw(st.sampled_from(SEPARATORS))
    node = {"t": "var", "o": opts, "b": b, "sep": sep, "m": mark}
    return node


@st.composite
def bounds(draw, n, zero=True):
    low = 0 if zero else 1
    form = draw(st.sampled_from(["n", "n-m", "n-m", "-m", "n-"]))
    lo = draw(st.integers(low, n + 2))
    hi = draw(st.integers(low, n + 2))
    if form == "-m" and hi == 0 and not zero:
        hi = 1
    return [form, lo, hi]


ELLIPSES = ["...", "....", "…", "⋮", "⋯", "⋰", "⋱", "︙", "᠁", "……", "⋯…"]


@st.composite
def wraps(draw, o: Opts, level):
    before = draw(st.sampled_from(["", "photo of ", "a ", "<", "(é "]))
    after = draw(st.sampled_from(["", ", hdr", " end", ">", ":1.2)", " (x ... y)", "…"]))
    mark = draw(st.sampled_from(ELLIPSES))
    w = []
    if before:
        w.append(lit(before))
    inner_o = dataclasses.replace(o, wrap=level < 2 and o.wrap)
    if draw(st.integers(0, 3)) == 0 and level < o.depth:
        w.append(draw(variants(dataclasses.replace(inner_o, missing=False), level)))
        w.append(lit(" "))
    w.append(lit(mark + after))
    i = draw(option_seq(inner_o, level))
    return {"t": "wrap", "w": w, "i": i}
