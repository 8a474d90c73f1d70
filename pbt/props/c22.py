"""Settings of a wildcard manager take effect at once, and caching is never noticed."""
import globmodel
import scratch
import sut
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C22"
RULE = (
    "case = a history of operations on one wildcard manager (asking for values, changing sort, dedup and shuffle "
    "settings, editing files and clearing the cache, sampling, asking for many names), every answer compared with "
    "a stateless model; non-trivial = values are asked for again after something changed"
)
WORDS = ["b", "a", "c", "B", "A", "zz", "é", "a a", "10", "9", "Z", "b2", "_x", "日本"]
NAMES = ["x", "y", "sub/x", "sub/z", "sub/deep/w", "Y", "_x", "x_"]
ASK = [*NAMES, "*", "sub/*", "?", "**/x", "z", "w", "__x__", "__*__", "nope", "sub\\x", "/y", "deep/w", "[xy]", "sub/**", "__w__", "_x", "x_", "x/", "/_x", "_x_", "X"]


def values():
    return st.lists(st.sampled_from(WORDS), max_size=7)


def operations(min_size=2, max_size=16):
    return st.lists(
        st.one_of(
            st.tuples(st.just("get"), st.sampled_from(ASK)),
            st.tuples(st.just("get"), st.sampled_from(ASK)),
            st.tuples(st.just("get"), st.sampled_from(ASK)),
            st.tuples(st.just("sort"), st.booleans()),
            st.tuples(st.just("dedup"), st.booleans()),
            st.tuples(st.just("shuffle"), st.booleans()),
            st.tuples(st.just("clear"), st.none()),
            st.tuples(st.just("edit"), st.tuples(st.sampled_from(NAMES), values()).map(list)),
            st.tuples(st.just("rewrite"), st.tuples(st.sampled_from(NAMES), values()).map(list)),
            st.tuples(st.just("add"), st.tuples(st.sampled_from([*NAMES, "new", "sub/new"]), values()).map(list)),
            st.tuples(st.just("remove"), st.sampled_from(NAMES)),
            st.tuples(st.just("hold"), st.tuples(st.sampled_from(NAMES), values()).map(list)),
            st.tuples(st.just("prompt"), st.sampled_from(["x", "sub/x", "w", "nope", "*"])),
            st.tuples(st.just("many"), st.integers(90, 130)),
            st.tuples(st.just("names"), st.none()),
            st.tuples(st.just("mutate"), st.sampled_from(ASK)),
        ).map(list),
        min_size=min_size,
        max_size=max_size,
    )


def ordered(pattern, world, sort, dedup):
    """Values in the order in which they are served."""
    direct, below = globmodel.resolve(pattern, world)
    vals = [v for n in direct for v in world[n]]
    if not vals and not pattern.startswith("**"):
        vals = [v for n in below for v in world[n]]
    if dedup:
        vals = list(dict.fromkeys(vals))
    return sorted(vals) if sort else vals


def check(case) -> Info:
    with scratch.directory() as d:
        return run(case, d)


def run(case, d) -> Info:
    world = {n: list(v) for n, v in zip(NAMES, case["values"])}
    files = case["files"]
    root = d / "w"
    root.mkdir()

    def write(name):
        scratch.put(root, name + ".txt", "".join(v + "\n" for v in world[name]))

    if files:
        for n in world:
            write(n)
        wm = sut.WildcardManager(root)
    else:
        memory = {n: list(v) for n, v in world.items()}
        root_map = {"": [memory]}
        wm = sut.WildcardManager(root_map=root_map)
    sort = dedup = True
    shuffle = False
    changed = asked = False
    again = False
    labels = set()
    history = []

    def compare(got, pattern, what):
        want = ordered(pattern, world, sort, dedup)
        info = {"wildcard": pattern, "collections": world, "history": history, "sort": sort, "dedup": dedup, "shuffle": shuffle}
        # the order of several files is the file system's when not sorting
        if shuffle or (files and not sort):
            expect_eq(sorted(got), sorted(want), what, **info)
        else:
            expect_eq(got, want, what, **info)

    for op, arg in case["ops"]:
        history.append([op, arg])
        labels.add(op)
        if op == "get":
            vals = wm.get_values(arg)
            compare(list(vals.string_values), arg, "values")
            compare([str(v) for v in vals], arg, "values, iterated")
            expect_eq(len(vals), len(ordered(arg, world, sort, dedup)), "number of values")
            again = again or (asked and changed)
            asked = True
        elif op == "mutate":
            # what a caller does with an answer is the caller's business
            ans = wm.get_all_values(arg)
            compare(list(ans), arg, "all values")
            ans.append("INTRUDER")
            ans.reverse()
        elif op == "sort":
            wm.sort_wildcards = sort = arg
            expect_eq(wm.sort_wildcards, arg, "setting")
            changed = True
        elif op == "dedup":
            wm.dedup_wildcards = dedup = arg
            expect_eq(wm.dedup_wildcards, arg, "setting")
            changed = True
        elif op == "shuffle":
            wm.shuffle_wildcards = shuffle = arg
            changed = True
        elif op == "clear":
            wm.clear_cache()
        elif op in ("edit", "rewrite"):
            name, vals = arg
            if name not in world or not files:
                continue
            world[name] = list(vals)
            if op == "edit":
                write(name)
            else:
                wm.get_file(name).write_text("".join(v + "\n" for v in vals))
            wm.clear_cache()
            changed = True
        elif op == "add":  # a collection that was not there, or is now another
            name, vals = arg
            world.pop(name, None)
            world[name] = list(vals)
            if files:
                write(name)
            elif name not in memory and len(vals) % 2:  # in a dictionary of its own
                for other in root_map[""]:
                    other.pop(name, None)
                root_map[""].append({name: list(vals)})
            else:
                for other in root_map[""]:
                    other.pop(name, None)
                root_map[""][-1][name] = list(vals)  # (the last one, so names stay in order)
            wm.clear_cache()
            changed = True
        elif op == "remove":
            if arg not in world:
                continue
            del world[arg]
            if files:
                (root / (arg + ".txt")).unlink()
            else:
                for other in root_map[""]:
                    other.pop(arg, None)
            wm.clear_cache()
            changed = True
        elif op == "hold":  # a collection at hand shows what is written to it
            name, vals = arg
            if name not in world or not files:
                continue
            f = wm.get_file(name)
            expect_eq(list(f.get_values()), world[name], "values of a collection", history=history)
            world[name] = list(vals)
            f.write_text("".join(v + "\n" for v in vals))
            expect_eq(list(f.get_values()), vals, "values of a collection after writing to it", history=history)
            wm.clear_cache()
            changed = True
        elif op == "prompt":
            got = sut.CombinatorialPromptGenerator(wm).generate(f"__{arg}__", max_prompts=500)
            if ordered(arg, world, sort, dedup):
                compare(got, arg, "prompts")
            else:
                expect_eq(got, [f"__{arg}__"], "prompts")
        elif op == "many":
            for i in range(arg):
                # different spellings of the same thing, and things that do not exist
                p = ["x" + "/" * (i // 2), f"nope{i}"][i % 2]
                compare(list(wm.get_values(p).string_values), p, "values among many")
        elif op == "names":
            expect_eq(wm.get_collection_names(), set(world), "names of collections")
    return Info(again, tuple(sorted(labels)))


def check_shuffled(case) -> Info:
    """Shuffling is fresh every time and leaves no traces."""
    words = case["words"]
    wm = sut.WildcardManager(root_map={"": [{"w": words}]})
    wm.shuffle_wildcards = True
    orders = {tuple(wm.get_values("w").string_values) for _ in range(40)}
    for o in orders:
        expect_eq(sorted(o), sorted(words), "shuffled values are the same values")
    expect(len(orders) > 1, "40 shuffles of 4 or more values are all the same", words=words)
    prompts = {tuple(sut.CombinatorialPromptGenerator(wm).generate("__w__")) for _ in range(40)}
    expect(all(sorted(p) == sorted(words) for p in prompts), "all prompts occur once", words=words)
    expect(len(prompts) > 1, "40 shuffled enumerations are all the same", words=words)
    wm.shuffle_wildcards = False
    expect_eq(wm.get_values("w").string_values, sorted(words), "values are sorted again")
    return Info(True)


def many_words():
    return st.lists(st.sampled_from(WORDS), min_size=4, max_size=8, unique=True)


def check_large(case) -> Info:
    """Collections with many values under changing settings."""
    n, copies = case["n"], case["copies"]
    vals = [f"v{(i * 7919) % n:05d}" for i in range(n)] * copies
    with scratch.directory() as d:
        if case["files"]:
            scratch.put(d, "big.txt", "".join(v + "\n" for v in vals))
            wm = sut.WildcardManager(d)
        else:
            wm = sut.WildcardManager(root_map={"": [{"big": vals}]})
        for sort, dedup in case["settings"]:
            wm.sort_wildcards = sort
            wm.dedup_wildcards = dedup
            want = list(dict.fromkeys(vals)) if dedup else vals
            want = sorted(want) if sort else want
            expect_eq(list(wm.get_values("big").string_values), want, "values", sort=sort, dedup=dedup)
            expect_eq(len(wm.get_values("big")), len(want), "number of values", sort=sort, dedup=dedup)
            expect_eq(list(wm.get_all_values("big")), want, "all values", sort=sort, dedup=dedup)
            got = sut.take(sut.SamplingContext(sut.COMB, wm).sample_prompts("__big__"), len(want) + 1)
            expect_eq(got, want, "prompts", sort=sort, dedup=dedup)
        if case["files"]:
            vals = vals[: len(vals) // 2]
            scratch.put(d, "big.txt", "".join(v + "\n" for v in vals))
            wm.clear_cache()
            expect_eq(sorted(set(wm.get_values("big").string_values)), sorted(set(vals)), "values after editing")
    return Info(n * copies > 100)


TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {
                "n": st.integers(50, 1500), "copies": st.integers(1, 3), "files": st.booleans(),
                "settings": st.lists(st.tuples(st.booleans(), st.booleans()).map(list), min_size=1, max_size=4),
            },
        ),
        check_large,
        quick=60,
    ),
    Test(
        "long history",
        lambda: st.fixed_dictionaries(
            {"values": st.lists(values(), min_size=2, max_size=6), "files": st.booleans(), "ops": operations(30, 80)},
        ),
        check,
        quick=100,
    ),
    Test(
        "history",
        lambda: st.fixed_dictionaries(
            {"values": st.lists(values(), min_size=2, max_size=6), "files": st.booleans(), "ops": operations()},
        ),
        check,
        quick=6000,
    ),
    Test("shuffled", lambda: st.fixed_dictionaries({"words": many_words()}), check_shuffled, quick=160),
]

