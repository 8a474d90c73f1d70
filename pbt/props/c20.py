"""Wildcard names and patterns find exactly the collections they describe."""
import big
import globmodel
import scratch
import sut
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C20"
RULE = (
    "case = a set of collections in nested directories and a name or pattern (globs, wrapped, odd slashes); "
    "values, matches and prompts compared with an independent resolution; non-trivial = the pattern matches "
    "some collection but not all"
)

SEGMENTS = ["a", "b", "ab", "a1", "a2", "A", "cat", "cats", "x-y", "sub", "sub2", "été", "日本", "a b", "a.b", "c_d", "[x]", "_a", "a_", "-a", "a."]


def names():
    return st.lists(st.sampled_from(SEGMENTS), min_size=1, max_size=3).map("/".join)


MIXED = ["b", "B", "a", "A", "c", "É", "e", "z", "10", "9", "b a", "B2", "ß", "_", "Zoë", "zoe"]


@st.composite
def worlds(draw):
    ns = draw(st.lists(names(), min_size=1, max_size=7, unique=True))
    world = {}
    for i, n in enumerate(ns):
        k = draw(st.integers(0, 3)) if draw(st.integers(0, 4)) == 0 else draw(st.integers(1, 3))
        vals = [f"v{i}{chr(97 + j)}" for j in range(k)]
        if draw(st.integers(0, 2)) == 0:  # upper and lower case, accents, digits: what sorted means
            vals = draw(st.lists(st.sampled_from(MIXED), max_size=4, unique=True))
        if draw(st.integers(0, 3)) == 0:
            vals.append("shared")
        world[n] = vals
    return world


PIECES = ["*", "**", "?", "[ab]", "[!a]", "[a-c]", "a*", "*s", "?at", "*1", "[", "a[0-9]", "*.*", "[]x]", "[!]]", "c?t*"]


@st.composite
def patterns(draw, world):
    """Mostly derived from an existing name, so that something matches."""
    name = draw(st.sampled_from(sorted(world)))
    segs = name.split("/")
    how = draw(st.integers(0, 7))
    if how == 0:
        pass
    elif how == 1:
        segs[draw(st.integers(0, len(segs) - 1))] = draw(st.sampled_from(PIECES))
    elif how == 2:  # blur one character
        i = draw(st.integers(0, len(segs) - 1))
        j = draw(st.integers(0, len(segs[i]) - 1))
        ch = segs[i][j]
        rep = draw(st.sampled_from(["?", "*", f"[{ch}z]", f"[!{ch}]", "[a-z]", "[!0-9]"]))
        segs[i] = segs[i][:j] + rep + segs[i][j + 1 :]
    elif how == 3:
        segs = [draw(st.sampled_from(["*", "**", "sub*", "**"])), segs[-1]]
    elif how == 4:
        segs = segs[-1:]  # the last part only
    elif how == 5:
        segs = [*segs[:-1], "*"]
    elif how == 6:
        segs = [draw(st.sampled_from(PIECES + SEGMENTS)) for _ in range(draw(st.integers(1, 3)))]
    else:
        segs = segs[1:] or segs
    sep = draw(st.sampled_from(["/", "/", "/", "/", "//", "\\", "\\\\", "/\\", "///"]))
    p = sep.join(segs)
    if draw(st.integers(0, 5)) == 0:
        p = draw(st.sampled_from(["/", "//", "\\"])) + p
    if draw(st.integers(0, 5)) == 0:
        p += draw(st.sampled_from(["/", "//", "\\"]))
    return p


@st.composite
def cases(draw):
    world = draw(worlds())
    return {
        "world": world,
        "patterns": draw(st.lists(patterns(world), min_size=1, max_size=4)),
        "wrap": draw(st.sampled_from(["__", "__", "__", "@@", "<>", "%%", "wc:"])),
        "wrapped": draw(st.booleans()),
    }


def judge(wm, world, pattern, wrap, wrapped):
    asked = wrap + pattern + wrap if wrapped else pattern
    direct, _ = globmodel.resolve(asked, world, wrap)
    want = globmodel.values(asked, world, wrap)
    info = {"wildcard": asked, "collections": world}
    expect_eq(wm.get_values(asked).string_values, want, "values", **info)
    expect_eq(wm.get_values(asked).string_values, want, "values when asked again", **info)
    got = sorted([str(v) for v in c.get_values()] for c in wm.match_collections(asked))
    expect_eq(got, sorted(world[n] for n in direct), "matching collections", **info)
    name = globmodel.clean(asked, wrap)
    if name in world:
        expect_eq(list(wm.get_file(asked).get_values()), world[name], "collection by name", **info)
    else:
        try:
            c = wm.get_file(asked)
        except (KeyError, ValueError):
            pass
        else:
            expect(False, "a collection that does not exist", got=repr(c), **info)
    return direct, want


def check(case) -> Info:
    world, wrap = case["world"], case["wrap"]
    wm = sut.WildcardManager(root_map={"": [world]}, wildcard_wrap=wrap)
    expect_eq(wm.get_collection_names(), set(world), "names of collections")
    labels = set()
    for p in case["patterns"]:
        direct, want = judge(wm, world, p, wrap, case["wrapped"])
        labels.add("direct" if direct else "below" if want else "none")
        if 0 < len(direct) < len(world):
            labels.add("selective")
    return Info("selective" in labels or "below" in labels, tuple(sorted(labels)))


def check_prompt(case) -> Info:
    """The same through prompts."""
    world = case["world"]
    wm = sut.WildcardManager(root_map={"": [world]})
    labels = set()
    for p in case["patterns"]:
        if p.startswith(("~", "!", "@", "//", "/*", "_")) or p.endswith("_") or "(" in p:
            continue
        want = globmodel.values(p, world)
        text = f"A __{p}__ B"
        got = sut.CombinatorialPromptGenerator(wm).generate(text)
        expect_eq(got, [f"A {v} B" for v in want] or [text], "combinatorial prompts", template=text, collections=world)
        got = sut.RandomPromptGenerator(wm).generate(text, 3)
        expect(all(g in ([f"A {v} B" for v in want] or [text]) for g in got), "random prompts", template=text, collections=world, got=got)
        labels.add("values" if want else "none")
    return Info("values" in labels, tuple(sorted(labels)))


def check_files(case) -> Info:
    """The same for directories of text files."""
    world = case["world"]
    with scratch.directory() as d:
        root = d / "wildcards"
        root.mkdir()
        for n, vals in world.items():
            scratch.put(root, n + ".txt", "\n".join(vals) + "\n")
        wm = sut.WildcardManager(root if case["wrapped"] else str(root), case["wrap"])
        expect_eq(wm.get_collection_names(), set(world), "names of collections")
        labels = set()
        for p in case["patterns"]:
            direct, want = judge(wm, world, p, case["wrap"], case["wrapped"])
            labels.add("direct" if direct else "below" if want else "none")
            if 0 < len(direct) < len(world):
                labels.add("selective")
    return Info("selective" in labels or "below" in labels, tuple(sorted(labels)))


def check_wrapping(case) -> Info:
    wrap, name = case["wrap"], case["name"]
    wm = sut.WildcardManager(wildcard_wrap=wrap)
    w = wm.to_wildcard(name)
    expect(wm.is_wildcard(w), "a wrapped name is a wildcard", wrapped=w)
    expect_eq(wm.to_wildcard(w), w, "wrapping a wrapped name changes nothing")
    if not name.startswith(wrap) and not name.endswith(wrap):
        expect_eq(w, wrap + name + wrap, "wrapped name")
        expect(not wm.is_wildcard(name), "a plain name is no wildcard", name=name)
    expect_eq(wm.wildcard_wrap, wrap, "configured wrap")
    return Info(wrap != "__" or name.startswith(wrap) != name.endswith(wrap))


def check_large(case) -> Info:
    """Many collections, deep directories, long names."""
    kind, n, files = case["kind"], case["n"], case["files"]
    if kind == "many":
        names = [f"m/{w}" for w in big.words(n)]
        patterns = ["m/*", "*", "**", names[-1], f"m/w*{n % 10}", "w*", "m/w0*"]
    elif kind == "deep":
        n = min(n, 40)
        names = ["/".join(big.words(k, "d")) for k in sorted({1, 2, n // 2 + 1, n})]
        patterns = [*names, names[-1].rpartition("/")[2], "**", names[-1].rpartition("/")[0] + "/*", "*/" + names[-1].rpartition("/")[2]]
    elif kind == "long":
        names = ["x" * min(n, 200), "x" * min(n, 200) + "y", "y" * min(n, 200)]
        patterns = [*names, "x*", "*y", names[0][:-1] + "?"]
    else:  # many directories
        names = [f"{w}/leaf" for w in big.words(n)]
        patterns = ["*/leaf", "leaf", "w*/leaf", names[-1]]
    world = {name: [f"v{i}"] for i, name in enumerate(names)}
    with scratch.directory() as d:
        if files:
            for name, vals in world.items():
                scratch.put(d, f"w/{name}.txt", "\n".join(vals))
            wm = sut.WildcardManager(d / "w")
        else:
            wm = sut.WildcardManager(root_map={"": [world]})
        expect_eq(wm.get_collection_names(), set(world), "names of collections", kind=kind, n=n)
        for p in patterns:
            want = globmodel.values(p, world)
            expect_eq(wm.get_values(p).string_values, want, "values", wildcard=p, kind=kind, n=n, files=files)
            got = sut.CombinatorialPromptGenerator(wm).generate(f"A __{p}__", 3)
            expect_eq(got, [f"A {v}" for v in want[:3]] or [f"A __{p}__"], "prompts", wildcard=p, kind=kind, n=n, files=files)
    return Info(n > 20, (kind,))


TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {"kind": st.sampled_from(["many", "deep", "long", "directories"]), "n": big.size(400), "files": st.booleans()},
        ),
        check_large,
        quick=80,
    ),
    Test("collections", cases, check, quick=12000),
    Test("prompts", cases, check_prompt, quick=1200),
    Test("files", cases, check_files, quick=2000),
    Test(
        "wrapping",
        lambda: st.fixed_dictionaries(
            {
                "wrap": st.sampled_from(["__", "@@", "<>", "%%", "wc:", "**"]),
                "name": st.tuples(
                    st.sampled_from(["", "", "__", "@@", "<>"]), names(), st.sampled_from(["", "", "__", "@@", "<>"]),
                ).map("".join),
            },
        ),
        check_wrapping,
        quick=2000,
    ),
]
