"""Definitions that refer to themselves are reported, all others work however they are shared."""
import itertools

import ref
import sut
import tmpl
from core import Info, Test, expect, expect_eq, plain_recursion_limit
from hypothesis import strategies as st
from tmpl import lit

PROPERTY = "C17"
RULE = (
    "case = a graph of definitions (variables or wildcards referring to each other, certainly or only in some "
    "option) and the definition used; recursion is decided on the graph; non-trivial = at least two definitions "
    "are involved"
)
ASSUMPTIONS = [
    "a prompt that needs a wildcard containing itself ends in Python's own RecursionError; "
    "chains of up to 25 definitions are well within the interpreter's default recursion limit",
]


NAMES = [[f"v{i}" for i in range(6)], ["v", "V", "vV", "VV", "v_", "v-"], ["ab", "a", "abc", "A", "aB", "a1"]]


def name(i, case):
    return NAMES[case.get("names", 0)][i]


@st.composite
def graphs(draw, kinds=("certain", "option", "weird")):
    n = draw(st.integers(1, 6))
    nodes = []
    forward_only = draw(st.booleans())  # half of the graphs have no cycle at all
    for i in range(n):
        parts = []
        for _ in range(draw(st.integers(0, 2))):
            low = i + 1 if forward_only else 0
            if low >= n:
                continue
            parts.append([draw(st.sampled_from(kinds)), draw(st.integers(low, n - 1))])
        nodes.append(parts)
    return {"nodes": nodes, "use": draw(st.integers(0, n - 1)), "bare": draw(st.booleans()), "names": draw(st.integers(0, 2)), "seed": draw(st.integers(0, 999))}


def edges(nodes, certain_only):
    return {
        i: {j for kind, j in parts if not certain_only or kind == "certain" or kind == "weird"}
        for i, parts in enumerate(nodes)
    }


def reachable(g, start):
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += g[i]
    return seen


def recursive(g, start) -> bool:
    """Whether a cycle can be reached from `start`."""
    return any(i in reachable(g, j) for i in reachable(g, start) for j in g[i])


def value(nodes, i, refer, bare):
    """The definition's value: its parts, each ended by something unique to it."""
    seq = []
    for kind, j in nodes[i]:
        if kind == "certain":
            seq.append(refer(j))
        elif kind == "option":
            seq.append({"t": "var", "o": [[None, [lit(f"o{i}")]], [None, [refer(j)]]], "b": None, "sep": None, "m": ""})
        else:  # the only option of a variant
            seq.append({"t": "var", "o": [[None, [refer(j)]]], "b": ["n", 1, 1], "sep": None, "m": ""})
        seq.append(lit("."))
    if bare and len(seq) == 2:
        return seq[:1]  # nothing but the reference
    return [*seq, lit(f"e{i}")]


def verdicts(case, tpl, wcs, text):
    nodes, use = case["nodes"], case["use"]
    must = recursive(edges(nodes, True), use)
    may = recursive(edges(nodes, False), use)
    info = {"template": text, "wildcards": sut.world_texts(wcs)}
    world = sut.ref_world(wcs)
    for method in (sut.COMB, sut.CYC, sut.RANDOM):
        ctx = sut.context(method, wcs, seed=case["seed"])
        n = 1200 if method is sut.COMB else 6
        try:
            with plain_recursion_limit():
                got = sut.take(ctx.sample_prompts(text), n)
        except RecursionError:
            expect(may, f"{method}: reported as recursive, but it is not", **info)
            continue
        expect(not must, f"{method}: recursive definition goes unnoticed", got=got[:5], **info)
        if may:
            # the recursion is in an option: only an enumeration of everything must come across it
            expect(
                method is not sut.COMB or len(got) == n,
                f"{method}: recursive definition goes unnoticed", got=got[:5], **info,
            )
            continue
        try:
            if method is sut.COMB:
                expect_eq(got, ref.comb(tpl, world, cap=1000), "combinatorial prompts", **info)
            elif method is sut.CYC:
                expect_eq(got, list(itertools.islice(ref.cycle(tpl, world), n)), "cyclical prompts", **info)
            else:
                lang = ref.language(tpl, world, cap=1000)
                expect(all(g in lang for g in got), "impossible random prompt", got=got, **info)
        except ref.TooBig:
            pass
    involved = len(reachable(edges(nodes, False), use))
    return Info(involved > 1 or may, ("recursive" if must else "recursive in an option" if may else "not recursive",))


def check_variables(case) -> Info:
    nodes = case["nodes"]

    def refer(j):
        return {"t": "get", "n": name(j, case), "d": None}

    tpl = [
        {"t": "set", "n": name(i, case), "v": value(nodes, i, refer, case["bare"]), "now": False, "keep": False}
        for i in range(len(nodes))
    ]
    tpl += [lit("> "), refer(case["use"])]
    return verdicts(case, tpl, {}, tmpl.render(tpl))


def check_through_wildcards(case) -> Info:
    """Variables that refer to one another by way of wildcards using them."""
    nodes = case["nodes"]
    wcs = {f"w{i}": [[[{"t": "get", "n": name(i, case), "d": None}], 1]] for i in range(len(nodes))}
    tpl = [
        {"t": "set", "n": name(i, case), "v": value(nodes, i, lambda j: tmpl.wc(f"w{j}"), case["bare"]), "now": False, "keep": False}
        for i in range(len(nodes))
    ]
    tpl += [lit("> "), tmpl.wc(f"w{case['use']}")]
    return verdicts(case, tpl, wcs, tmpl.render(tpl))


def check_wildcards(case) -> Info:
    nodes = case["nodes"]
    if recursive(edges(nodes, False), case["use"]) and not recursive(edges(nodes, True), case["use"]):
        # endless, but legitimate for random sampling; a single optional reference keeps it small
        if sum(len(p) for p in nodes) != 1:
            return Info(False, ("skipped: endless",))
    wcs = {
        f"w{i}": [[value(nodes, i, lambda j: tmpl.wc(f"w{j}"), case["bare"]), 1]] for i in range(len(nodes))
    }
    tpl = [lit("> "), tmpl.wc(f"w{case['use']}")]
    return verdicts(case, tpl, wcs, tmpl.render(tpl))


def check_chain(case) -> Info:
    """Long chains and shared definitions are no recursion."""
    n, kind = case["n"], case["kind"]
    wcs = {}
    if kind == "wildcards":
        wcs = {f"w{i}": [f"__w{i + 1}__" if i < n else "end"] for i in range(n + 1)}
        text = "__w0__ __w0__"
    elif kind == "variables":
        sets = [f"${{v{i}=${{v{i + 1}}}}}" for i in range(n)] + [f"${{v{n}=end}}"]
        if case["rev"]:
            sets.reverse()
        text = "".join(sets) + "${v0} ${v0}"
    elif kind == "immediate":
        text = f"${{v{n}=!end}}" + "".join(f"${{v{i}=!${{v{i + 1}}}}}" for i in reversed(range(n))) + "${v0} ${v0}"
    elif kind == "many":  # one definition, used many times
        text = "${v=end}${u=${v}}" + "${u}${v}" * (n * 10)
        want = "endend" * (n * 10)
    elif kind == "many wildcards":
        wcs = {"a": ["__b__"], "b": ["x"]}
        text = "__a__,__b__," * (n * 6 + 1) + "."
        want = "x,x," * (n * 6 + 1) + "."
    elif kind == "wide":  # many definitions that use the same one
        sets = ["${v=end}"] + [f"${{v{i}=${{v}}}}" for i in range(n * 6)]
        if case["rev"]:
            sets.reverse()
        text = "".join(sets) + "> " + "".join(f"${{v{i}}}" for i in range(n * 6))
        want = "> " + "end" * (n * 6)
    elif kind == "shared":  # every variable uses the next one twice
        d = min(n, 4)
        text = "".join(f"${{v{i}=${{v{i + 1}}}${{v{i + 1}}}}}" for i in range(d)) + f"${{v{d}=x}}${{v0}}"
        want = "x" * 2**d
    else:  # defaults within defaults
        d = min(n, 8)
        text = "${d:" * 0 + "".join(f"${{u{i}:" for i in range(d)) + "end" + "}" * d + " end"
    if kind in ("wildcards", "variables", "immediate", "defaults"):
        want = "end end"
    wm = sut.WildcardManager(root_map={"": [wcs]})
    for method in (sut.COMB, sut.RANDOM, sut.CYC):
        got = sut.take(sut.SamplingContext(method, wm).sample_prompts(text, 2), 2)
        expect_eq(got, [want] * (1 if method is sut.COMB else 2), "a chain of definitions", template=text)
    return Info(n > 1, (kind,))


def check_long_cycle(case) -> Info:
    """However long the way round, a definition that comes back to itself is reported."""
    n, kind = case["n"], case["kind"]
    wcs = {}
    if kind == "wildcards":
        wcs = {f"w{i}": [f"__w{(i + 1) % n}__"] for i in range(n)}
        text = "__w0__"
    elif kind == "through wildcards":
        wcs = {f"w{i}": [f"${{v{(i + 1) % n}}}"] for i in range(n)}
        text = "".join(f"${{v{i}=__w{i}__}}" for i in range(n)) + "${v0}"
    else:
        text = "".join(f"${{v{i}=${{v{(i + 1) % n}}}}}" for i in range(n)) + "${v0}"
    wm = sut.WildcardManager(root_map={"": [wcs]})
    for method in (sut.COMB, sut.RANDOM, sut.CYC):
        try:
            with plain_recursion_limit():
                got = sut.take(sut.SamplingContext(method, wm).sample_prompts(text, 2), 2)
        except RecursionError:
            continue
        expect(False, f"{method}: a recursive definition goes unnoticed", template=text, got=got)
    return Info(n > 1, (kind,))


TESTS = [
    Test(
        "long cycles",
        lambda: st.fixed_dictionaries(
            {"n": st.integers(1, 60), "kind": st.sampled_from(["wildcards", "through wildcards", "variables"])},
        ),
        check_long_cycle,
        quick=60,
    ),
    Test("variables", graphs, check_variables, quick=3000),
    Test("variables through wildcards", graphs, check_through_wildcards, quick=1200),
    Test("wildcards", graphs, check_wildcards, quick=100),
    Test(
        "chains",
        lambda: st.fixed_dictionaries(
            {
                "n": st.integers(0, 25), "rev": st.booleans(),
                "kind": st.sampled_from(["wildcards", "variables", "immediate", "shared", "defaults", "many", "many wildcards", "wide"]),
            },
        ),
        check_chain,
        quick=300,
    ),
]
