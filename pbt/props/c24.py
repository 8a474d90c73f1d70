"""Several wildcard roots act as one tree; computed wildcard names refer to it like written ones."""
import warnings

import big
import globmodel
import scratch
import sut
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C24"
RULE = (
    "case = a root map (several prefixes, each with in-memory maps and directories, overlapping) with lookups, or a "
    "wildcard name computed from variables, parameters and choices; compared with the merged model; non-trivial = "
    "at least two roots contribute, or the name is computed"
)
PREFIXES = ["", "p", "p/q", "/r/", "r", "été", "p/", "a"]
LEAVES = ["x", "y", "sub/x", "sub/deep/z", "q/x", "X", "v1.5", "v1.6", "sub.d/x", "x.txt", "a-b_c", ".x", "x.", "_x", "x_", "-", " x"]
LOOKUPS = ["x", "p/x", "*", "p/*", "r/x", "**/x", "q/x", "p/q/x", "*/x", "z", "sub/x", "r/sub/x", "été/*", "a/x", "deep/z", "X", "v1.5", "v1", "v1.*", "sub.d/x", "x.txt", ".x", "x.", "_x", "x_", "-", "p/.x", " x"]


def full_name(prefix, leaf):
    return "/".join(p for p in f"{prefix}/{leaf}".split("/") if p)


@st.composite
def root_maps(draw):
    roots, n = [], 0
    for prefix in draw(st.lists(st.sampled_from(PREFIXES), min_size=1, max_size=4, unique=True)):
        items = []
        for _ in range(draw(st.integers(0, 3))):
            kind = draw(st.sampled_from(["map", "map", "dir", "collections", "no dir", "file"]))
            leaves = draw(st.lists(st.sampled_from(LEAVES), max_size=4, unique=True))
            content = {}
            for leaf in leaves:
                n += 1
                content[leaf] = [f"v{n}{c}" for c in "ab"[: draw(st.integers(1, 2))]]
                if kind == "map" and draw(st.integers(0, 3)) == 0:  # anything with a text
                    content[leaf].insert(draw(st.integers(0, 1)), draw(st.sampled_from([0, 7, 1.5, "", "0", " "])))
            items.append([kind, content])
        roots.append([prefix, items])
    return {"roots": roots, "lookups": draw(st.lists(st.sampled_from(LOOKUPS), min_size=1, max_size=6))}


def check(case) -> Info:
    with scratch.directory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        root_map, world, contributing, k = {}, {}, 0, 0
        for prefix, items in case["roots"]:
            out = []
            for kind, content in items:
                k += 1
                if kind == "map":
                    out.append({n: list(v) for n, v in content.items()})
                elif kind == "collections":
                    out.append({n: sut.ListWildcardCollection(list(v)) for n, v in content.items()})
                elif kind == "dir":
                    root = d / f"root{k}"
                    root.mkdir()
                    for n, v in content.items():
                        scratch.put(root, n + ".txt", "\n".join(v))
                    out.append(root)
                elif kind == "file":  # not a directory: skipped
                    out.append(scratch.put(d, f"file{k}.txt", "SKIPPED"))
                    content = {}
                else:
                    out.append(d / "does-not-exist")
                    content = {}
                if content:
                    contributing += 1
                content = {n: [str(x) for x in v] for n, v in content.items()}
                for n, v in content.items():  # later roots take precedence
                    world[full_name(prefix, n)] = v
            root_map[prefix] = out
        wm = sut.WildcardManager(root_map=root_map)
        info = {"root map": {p: [str(i) for i in v] for p, v in root_map.items()}}
        expect_eq(wm.get_collection_names(), set(world), "names of collections", **info)
        for name, vals in world.items():
            expect_eq(list(wm.get_file(name).get_values()), vals, "values of a collection", collection=name, **info)
        for p in case["lookups"]:
            expect_eq(wm.get_values(p).string_values, globmodel.values(p, world), "values", wildcard=p, **info)
        try:
            sut.WildcardManager(d, root_map=root_map)
        except ValueError:
            pass
        else:
            expect(not root_map, "path and root map together are accepted")
    return Info(contributing > 1)


WORLD = {
    "colours-warm": ["red", "orange"], "colours-cold": ["blue"], "dir/warm/x": ["wx1", "wx2"], "dir/cold/x": ["cx"],
    "warm": ["w"], "cold": ["c"], "both/dir/warm/x": ["never"],
    "via": ["__colours-${t}__", "__colours-${t}__!"], "default": ["__colours-${t:warm}__"],
}


def check_computed(case) -> Info:
    value = case["value"]
    shape = case["shape"]
    get = {"plain": "${t}", "default": "${t:" + value + "}"}[case["get"]]
    text = shape.replace("@", get)
    names = {value}
    if case["set"] == "assigned":
        text = "${t=" + value + "}" + text
    elif case["set"] == "immediate":
        text = "${t=!" + value + "}" + text
    elif case["set"] == "chosen":
        text = "${t=!{" + value + "|cold}}" + text
        names = {value, "cold"}
    elif case["set"] == "kept":
        text = "${t=" + value + "}${t?=neither}" + text
    elif case["get"] == "plain":
        return Info(False)  # the name of an undefined variable: see C16
    wm = sut.WildcardManager(root_map={"": [WORLD]})

    def possible(v):
        name = shape.replace("@", v).strip("_")
        vals = globmodel.values(name, WORLD) or [f"__{name}__"]
        out = []
        for x in vals:
            if "${t" in x:
                if case["set"] == "not":
                    return None  # (the variable itself is not defined here)
                inner = globmodel.values(f"colours-{v}", WORLD) or [f"__colours-{v}__"]
                out += [i + ("!" if x.endswith("!") else "") for i in inner]
            else:
                out.append(x)
        return out

    lists = [possible(v) for v in sorted(names)]
    if any(x is None for x in lists):
        return Info(False)
    allowed = {x for xs in lists for x in xs}
    info = {"template": text, "allowed": sorted(allowed)}
    got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts(text), 20)
    if len(names) == 1:
        expect_eq(set(got), allowed, "combinatorial prompts", **info)
    expect(set(got) <= allowed and got, "combinatorial prompts", got=got, **info)
    for method in (sut.RANDOM, sut.CYC):
        seen = set()
        for s in range(12 if method is sut.RANDOM else 1):
            ctx = sut.SamplingContext(method, wm, rand=sut.random.Random(case["seed"] + s))
            got = sut.take(ctx.sample_prompts(text), 12)
            expect(set(got) <= allowed, f"{method} prompts", got=got, **info)
            seen |= set(got)
        # missing one of at most 4 equally likely values in 144 draws has probability < 1e-17
        if len(names) == 1 and len(allowed) <= 4:
            expect_eq(seen, allowed, f"{method} prompts cover the values", **info)
    return Info(True, (case["set"], case["get"]))


def check_many(case) -> Info:
    """Many roots, many places for the same root, long prefixes."""
    kind, n = case["kind"], case["n"]
    world, root_map = {}, {}
    with scratch.directory() as d:
        def place(i, content):
            if case["dirs"] and i % 3 == 1:
                for name, vals in content.items():
                    scratch.put(d, f"r{i}/{name}.txt", "\n".join(vals))
                return d / f"r{i}"
            return content

        if kind == "roots":
            for i in range(n):
                root_map[f"p{i}"] = [place(i, {"x": [f"v{i}"]})]
                world[f"p{i}/x"] = [f"v{i}"]
        elif kind == "places":
            root_map["p"] = []
            for i in range(n):
                root_map["p"].append(place(i, {f"x{i}": [f"v{i}"], "x": [f"last{i}"]}))
                world[f"p/x{i}"] = [f"v{i}"]
                world["p/x"] = [f"last{i}"]
        else:
            prefix = "/".join(big.words(min(n, 40), "d"))
            root_map[prefix] = [place(1, {"x": ["v"]})]
            root_map[""] = [place(2, {prefix + "/y": ["w"], "z": ["q"]})]
            world = {prefix + "/x": ["v"], prefix + "/y": ["w"], "z": ["q"]}
        wm = sut.WildcardManager(root_map=root_map)
        expect_eq(wm.get_collection_names(), set(world), "names of collections", kind=kind, n=n)
        for p in [*world, "*/x", "**", "p/*", "x"]:
            expect_eq(wm.get_values(p).string_values, globmodel.values(p, world), "values", wildcard=p, kind=kind, n=n)
    return Info(n > 5, (kind,))


TESTS = [
    Test(
        "many",
        lambda: st.fixed_dictionaries({"kind": st.sampled_from(["roots", "places", "prefix"]), "n": big.size(60), "dirs": st.booleans()}),
        check_many,
        quick=80,
    ),
    Test("root maps", root_maps, check, quick=4000),
    Test(
        "computed names",
        lambda: st.fixed_dictionaries(
            {
                "value": st.sampled_from(["warm", "cold", "tepid", "w*", "*"]),
                "shape": st.sampled_from(["__colours-@__", "__dir/@/x__", "__@__", "__@/x__", "__via__", "__default__", "__*-@__"]),
                "set": st.sampled_from(["assigned", "immediate", "chosen", "kept", "not"]),
                "get": st.sampled_from(["plain", "default"]),
                "seed": st.integers(0, 10**6),
            },
        ),
        check_computed,
        quick=700,
    ),
]
