"""Wildcard files are read as documented: text, JSON and YAML, with comments, hierarchies and weights."""
import json

import big
import ref
import scratch
import sut
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C21"
RULE = (
    "case = a directory of text, JSON and YAML files written from generated contents (comments, blank lines, line "
    "ends, byte order marks, nested maps, weights in both spellings, entries to be ignored); names, values and "
    "weights compared with an independent reading; non-trivial = at least one value and one of: comment, weight, "
    "nesting, ignored entry"
)

WORDS = [
    "red", "blue sky", "Eero Järnefelt", "T-shirt", "日本", "it's", "a, b", "{x|y}", "__other__", "${v:1} z", "f/1.8",
    "(x:1.2)", "end.", "🎨 art", "x=y", "k: v", "- dash", "100", "true", "null", "~", "a\tb", "@home", "\"q\"", "'s'",
    "a\u2028b", "x\x0cy", "p\x85q", "v\x0bw", "m\x1cn", "o\u00a0o", "z\u200bz", "\u3000".join("wx"), "x\u2029y",
    "yes", "1e3", "[b]", "<lora:x:1>", "*star", "&amp", "!bang", "|", ">", "%", "é" * 30, "x " * 60 + "end", "0x1F", "1_000", "a::b", "{3::a|b} c", "4::x", "::", "c::",
]
WEIGHTS = ["2", "3", "0.5", "1.5", "10", "0.1", "1", "7.25", "0"]
NAMES = ["a", "b", "colour", "finnish", "dutch", "x-y", "été", "Z", "k 1", "deep", "n_1", "_x", "a.b", ".h", "12", "true", "A", "x:y", "-", "txt"]


# ---------------------------------------------------------------- text files

def raw_lines():
    word = st.sampled_from(WORDS)
    return st.lists(
        st.one_of(
            word.map(lambda w: ["value", w, w]),
            st.tuples(st.sampled_from(["  ", "\t", ""]), word, st.sampled_from(["  ", "\t", " \u00a0", ""])).map(
                lambda t: ["value", "".join(t), t[1]],
            ),
            word.map(lambda w: ["value", f"2::{w}", f"2::{w}"]),  # no weights in text files
            word.map(lambda w: ["value", f"{w} # tail", f"{w} # tail"]),  # only whole lines are comments
            word.map(lambda w: ["comment", f"# {w}", None]),
            word.map(lambda w: ["comment", f"  #{w}", None]),
            st.sampled_from(["#", "##", " # "]).map(lambda s: ["comment", s, None]),
            st.sampled_from(["", " ", "\t", "   "]).map(lambda s: ["blank", s, None]),
        ),
        max_size=12,
    )


def text_file():
    return st.fixed_dictionaries(
        {
            "kind": st.just("txt"), "lines": raw_lines(), "eol": st.sampled_from(["\n", "\n", "\r\n", "\r"]),
            "final": st.booleans(), "bom": st.sampled_from([False, False, False, True]),
            "junk": st.sampled_from([False, False, False, True]),
        },
    )


def read_text(f):
    return [[v, 1.0] for kind, _, v in f["lines"] if kind == "value"]


def write_text(f) -> bytes:
    body = f["eol"].join(raw for _, raw, _ in f["lines"]) + (f["eol"] if f["final"] else "")
    data = body.encode("utf-8")
    if f["junk"]:  # bytes that are no UTF-8, within a comment
        data += f["eol"].encode() + b"# caf\xe9" + f["eol"].encode()
    return (b"\xef\xbb\xbf" if f["bom"] else b"") + data


# ---------------------------------------------------------- structured files

def items():
    word = st.sampled_from(WORDS)
    weight = st.sampled_from(WEIGHTS)
    return st.one_of(
        word,
        word,
        st.tuples(weight, word).map(lambda t: f"{t[0]}::{t[1]}"),
        st.tuples(weight, word, st.sampled_from([" ", "  ", ""]), st.sampled_from([" ", "", ", "])).map(lambda t: f"{t[0]}::{t[2]}{t[1]}{t[3]}"),
        word.map(lambda w: f" {w} "),
        st.tuples(st.sampled_from(["3x", "1.2.3", "5 ", "1,5"]), word).filter(lambda t: t[0] != "5 ").map(lambda t: f"{t[0]}::{t[1]}"),
        word.map(lambda w: f"x::{w}"),
        st.tuples(word, weight).map(lambda t: {"text": t[0], "weight": float(t[1])}),
        st.tuples(word, weight).map(lambda t: {"content": t[0], "weight": float(t[1])}),
        word.map(lambda w: {"text": w}),
        st.just({"weight": 5}),
        # entries that cannot be understood
        st.tuples(word, st.sampled_from(["heavy", None, [2], "", {"x": 1}])).map(lambda t: {"text": t[0], "weight": t[1]}),
        st.sampled_from([{"text": ["x"]}, {"text": {"a": "b"}, "weight": 2}, {"content": [], "text": ""}, {"text": None}]),
        st.tuples(word, st.sampled_from(["2", "0.5"])).map(lambda t: {"content": t[0], "weight": t[1]}),
        word.map(lambda w: {"text": "", "content": w, "weight": 3}),
        st.tuples(st.sampled_from([1984, 2.5, -3]), weight).map(lambda t: {"text": t[0], "weight": float(t[1])}),
        st.sampled_from([{"text": 1984}, {"content": 7}]),
        # weights nothing can be drawn with
        st.tuples(word, st.sampled_from([float("inf"), float("nan"), -1, -0.5, "inf", "-2"])).map(lambda t: {"text": t[0], "weight": t[1]}),
        word.map(lambda w: f"1e999::{w}"),
        st.sampled_from(["", None, 12345, 0, 1.5, True, False]),
        st.just([]),
        word.map(lambda w: [w]),
    )


def trees(depth=3):
    leaf = st.one_of(
        st.lists(items(), min_size=1, max_size=6),
        st.lists(items(), min_size=1, max_size=6),
        st.sampled_from(WORDS),
        st.sampled_from([None, 12345, 0, "", [], {}, 1.5, True]),
    )
    if depth == 0:
        return leaf
    return st.dictionaries(
        st.sampled_from(NAMES),
        st.one_of(leaf, leaf, trees(depth - 1)) if depth > 1 else leaf,
        max_size=4,
    )


def structured_file():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["json", "yaml"]),
            "data": st.one_of(
                trees(), trees(), trees(),
                st.lists(st.one_of(st.sampled_from(WORDS), st.sampled_from([None, 5, {"a": 1}])), max_size=5),
                st.sampled_from([None, 5, "text", [], {}]),
            ),
            "ascii": st.booleans(), "flow": st.booleans(), "bom": st.sampled_from([False, False, False, True]),
            "eol": st.sampled_from(["\n", "\n", "\r\n"]),
        },
    )


def parse_weight(x):
    try:
        w = float(x)
    except (TypeError, ValueError):
        return None
    return w if 0 <= w < float("inf") else None


def parse_item(x):
    """[text, weight] of a list entry, or None if it is to be ignored."""
    if isinstance(x, str) and x:
        head, sep, tail = x.partition("::")
        if sep and head[:1].isdigit():
            w = parse_weight(head)
            return [x, 1.0] if w is None else [tail, w]
        return [x, 1.0]
    if isinstance(x, dict):
        text = x.get("text") or x.get("content")
        w = parse_weight(x.get("weight", 1))
        if text and isinstance(text, (str, int, float)) and w is not None:
            return [str(text), w]
    return None


def read_tree(data, prefix, out, maybe):
    for k, v in data.items():
        name = f"{prefix}{k}"
        if isinstance(v, str) and v:
            v = [v]
        if isinstance(v, list) and v:
            vals = [i for i in map(parse_item, v) if i]
            if vals:
                out[name] = vals
            else:
                maybe.add(name)  # a collection without values
        elif isinstance(v, dict):
            read_tree(v, name + "/", out, maybe)


def write_structured(f) -> bytes:
    if f["kind"] == "json":
        s = json.dumps(f["data"], ensure_ascii=f["ascii"], indent=None if f["flow"] else 1)
    else:
        import yaml

        # (YAML takes more characters for line ends than JSON and text files do, if unescaped)
        unescaped = not f["ascii"] and not any(c in json.dumps(f["data"], ensure_ascii=False) for c in "\x85\u2028\u2029")
        s = yaml.safe_dump(f["data"], allow_unicode=unescaped, default_flow_style=f["flow"], width=70)
        if isinstance(f["data"], dict) and f["data"] and not f["flow"]:
            keys = "1234: 5678  # not a name\n7:\n  - seven\nnull: x\n1.5: [y]\n"
            s = "# a comment\n" + (s + keys if len(f["data"]) % 2 else keys + s)
    s = s.replace("\n", f["eol"])
    return (b"\xef\xbb\xbf" if f["bom"] else b"") + s.encode("utf-8")


# --------------------------------------------------------------------- cases

@st.composite
def cases(draw):
    files, n = {}, draw(st.integers(1, 4))
    for i in range(n):
        d = draw(st.sampled_from(["", "", "sub/", "sub/deeper/", "été/", "with space/"]))
        f = draw(st.one_of(text_file(), structured_file(), structured_file()))
        # every file gets a directory of its own, so that no two define the same name
        stem = draw(st.sampled_from(["f", "colours", "v1.2", "日本", "a-b"]))
        files[f"{d}d{i}/{stem}.{f['kind']}"] = f
    return {"files": files, "broken": draw(st.booleans())}


def check(case) -> Info:
    want, maybe = {}, set()
    labels = set()
    with scratch.directory() as d:
        root = d / "w"
        root.mkdir()
        for rel, f in case["files"].items():
            labels.add(f["kind"])
            where, _, base = rel.rpartition("/")
            stem = base.rpartition(".")[0]
            if f["kind"] == "txt":
                scratch.put(root, rel, write_text(f))
                name = f"{where}/{stem}"
                vals = read_text(f)
                if vals:
                    want[name] = vals
                else:
                    maybe.add(name)
                if any(k != "value" for k, _, _ in f["lines"]):
                    labels.add("comments or blanks")
            else:
                scratch.put(root, rel, write_structured(f))
                if isinstance(f["data"], dict):
                    out, may = {}, set()
                    read_tree(f["data"], f"{where}/", out, may)
                    want.update(out)
                    maybe |= may
                    if any(w != 1 for vs in out.values() for _, w in vs):
                        labels.add("weights")
                    if any(n.count("/") > where.count("/") + 1 for n in out):
                        labels.add("nested")
                elif isinstance(f["data"], list):
                    vals = [[x, 1.0] for x in f["data"] if isinstance(x, str)]
                    if vals:
                        want[f"{where}/{stem}"] = vals
                        labels.add("flat list")
        if case["broken"]:
            scratch.put(root, "broken/one.json", '{"a": ["x",')
            scratch.put(root, "broken/two.yaml", "a: [x\nb: {")
            scratch.put(root, "broken/three.json", b'{"a": ["\xff\xfe"]}')
            labels.add("broken file")
        wm = sut.WildcardManager(root)
        wm.sort_wildcards = wm.dedup_wildcards = False
        info = {"files": {k: (write_text(f) if f["kind"] == "txt" else write_structured(f)) for k, f in case["files"].items()}}
        names = {n for n in wm.get_collection_names() if not n.startswith("broken/")}
        expect(set(want) <= names, "missing collections", missing=sorted(set(want) - names), **info)
        expect(names <= set(want) | maybe, "surplus collections", surplus=sorted(names - set(want) - maybe), **info)
        for name, vals in want.items():
            got = [[str(i), float(getattr(i, "weight", 1))] for i in wm.get_file(name).get_values()]
            expect_eq(got, vals, "values and weights", collection=name, **info)
            if "[" in name or "*" in name:
                continue
            got = [[str(i), float(getattr(i, "weight", 1))] for i in wm.get_values(name)]
            expect_eq(got, vals, "values and weights", collection=name, **info)
            plain = [v for v, _ in vals if not set(v) & set("{}$%#|_~@!")]
            if len(plain) == len(vals) and not set(name) & set("()$#{}") and all("//" not in v for v, _ in vals):
                prompts = sut.CombinatorialPromptGenerator(wm).generate(f"__{name}__", max_prompts=2000)
                expect_eq(prompts, [v for v, w in vals for _ in range(ref.repeats(w))], "prompts", collection=name, **info)
                labels.add("prompts")
    return Info(bool(want) and len(labels) > 1, tuple(sorted(labels)))


def check_rewrite(case) -> Info:
    """What is written through the library is what is read back."""
    contents = [write_text(f).decode("utf-8", "ignore").lstrip("\ufeff") for f in case["versions"]]
    with scratch.directory() as d:
        scratch.put(d, "w/x.txt", "first\n")
        wm = sut.WildcardManager(d / "w")
        f = wm.get_file("x")
        expect_eq(list(f.get_values()), ["first"], "values before")
        for v, text in zip(case["versions"], contents):
            f.write_text(text)
            expect_eq(list(f.get_values()), [t for t, _ in read_text(v)], "values after rewriting", contents=text)
            expect_eq(f.read_text(), text.replace("\r\n", "\n").replace("\r", "\n"), "contents after rewriting")
            wm.clear_cache()
            expect_eq(
                wm.get_values("x").string_values, sorted({t for t, _ in read_text(v)}), "values of the manager", contents=text,
            )
    return Info(len(contents) > 1)


def check_large(case) -> Info:
    """Long files and long lines."""
    n, width, kind = case["n"], case["width"], case["kind"]
    vals = [f"{'x' * (width - 1 if width else 0)}v{i}" for i in range(n)]
    with scratch.directory() as d:
        if kind == "txt":
            scratch.put(d, "w/big.txt", "".join(f"{v}\n# c{i}\n" for i, v in enumerate(vals)))
        elif kind == "json":
            scratch.put(d, "w/big.json", json.dumps({"big": vals}))
        elif kind == "yaml":
            scratch.put(d, "w/big.yaml", "big:\n" + "".join(f"  - {v}\n" for v in vals))
        else:  # many files
            vals = vals[: min(n, 300)]
            for i, v in enumerate(vals):
                scratch.put(d, f"w/many/f{i}.txt", v)
        wm = sut.WildcardManager(d / "w")
        name = "many/*" if kind == "files" else "big"
        got = wm.get_values(name).string_values
        expect(got == sorted(vals), "values of a large file", kind=kind, n=len(vals), got=len(got))
        wm.sort_wildcards = wm.dedup_wildcards = False
        if kind != "files":
            expect(wm.get_values(name).string_values == vals, "values of a large file", kind=kind, n=len(vals))
        got = sut.CombinatorialPromptGenerator(wm).generate(f"__{name}__", 3)
        if kind != "files":
            expect_eq(got, vals[:3], "prompts", kind=kind)
    return Info(n * width > 10000)


def check_deep(case) -> Info:
    """Structured files: deep, with many names, with long names, with long lists of weighted entries."""
    kind, n, ext = case["kind"], case["n"], case["ext"]
    if kind == "deep":
        n = min(n, 40)
        data = {"leaf": ["x", "y"]}
        for w in reversed(big.words(n, "d")):
            data = {w: data, f"{w}x": ["side"]}
        want = {"/".join([*big.words(n, "d")[:i], f"{w}x"]): [["side", 1.0]] for i, w in enumerate(big.words(n, "d"))}
        want["/".join([*big.words(n, "d"), "leaf"])] = [["x", 1.0], ["y", 1.0]]
    elif kind == "names":
        data = {w: [w] for w in big.words(n)}
        want = {w: [[w, 1.0]] for w in data}
    elif kind == "long names":
        data = {"n" * n: ["x"]}
        want = {"n" * n: [["x", 1.0]]}
    elif kind == "weights":
        data = {"big": [f"{i + 2}::{w}" if i % 2 else {"text": w, "weight": i + 2} for i, w in enumerate(big.words(n))]}
        want = {"big": [[w, i + 2.0] for i, w in enumerate(big.words(n))]}
    elif kind == "digits":
        digits = ("1928374655" * 2)[: min(n, 14)]
        data = {"big": [f"{digits}::a", f"{digits}.5::b", f"0.{digits}::c", {"text": "d", "weight": float(digits)}]}
        want = {"big": [["a", float(digits)], ["b", float(digits + ".5")], ["c", float("0." + digits)], ["d", float(digits)]]}
    else:
        s = [big.prose(k, n % 7) for k in (n, n // 2 + 1, 10 * n)]
        data = {"big": [s[0], f"2::{s[1]}x", {"text": s[2] + "y", "weight": 3}]}
        want = {"big": [[s[0], 1.0], [s[1] + "x", 2.0], [s[2] + "y", 3.0]]}
    f = {"kind": ext, "data": data, "ascii": case["flow"], "flow": case["flow"], "eol": "\n", "bom": False}
    with scratch.directory() as d:
        scratch.put(d, f"w/f.{ext}", write_structured(f))
        wm = sut.WildcardManager(d / "w")
        wm.sort_wildcards = wm.dedup_wildcards = False
        expect_eq(wm.get_collection_names(), set(want), "names of collections", kind=kind, n=n)
        for name, vals in want.items():
            got = [[str(i), float(getattr(i, "weight", 1))] for i in wm.get_values(name)]
            expect_eq(got, vals, "values and weights", collection=name, kind=kind, n=n)
    return Info(n > 20, (kind,))


TESTS = [
    Test(
        "deep",
        lambda: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["deep", "names", "long names", "weights", "digits", "texts"]), "n": big.size(400),
                "ext": st.sampled_from(["json", "yaml"]), "flow": st.booleans(),
            },
        ),
        check_deep,
        quick=100,
    ),
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["txt", "txt", "json", "yaml", "files"]),
                "n": st.sampled_from([1, 2, 300, 1100, 2500]), "width": st.sampled_from([1, 5, 60, 300, 5000]),
            },
        ).filter(lambda c: c["n"] * c["width"] < 10**6 and not (c["kind"] == "yaml" and c["n"] * c["width"] > 10**5)),
        check_large,
        quick=40,
    ),
    Test("files", cases, check, quick=2600),
    Test("rewrite", lambda: st.fixed_dictionaries({"versions": st.lists(text_file(), min_size=1, max_size=3)}), check_rewrite, quick=800),
]
