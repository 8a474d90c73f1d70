"""Wildcards never reach outside of the directories they were configured with."""
import os
import sys

import globmodel
import scratch
import sut
from core import Info, Test, expect, expect_eq
from hypothesis import strategies as st

PROPERTY = "C23"
RULE = (
    "case = configured directories next to directories that are off limits (siblings, parents, hidden, other file "
    "types) and names trying to get there; values, collections, prompts and the files actually opened are "
    "observed; non-trivial = the name refers to an existing file that is off limits"
)
ASSUMPTIONS = ["symbolic links inside a configured directory are followed on purpose and not part of this property"]

_opened: list | None = None


def _audit(event, args):
    if _opened is not None and event in ("open", "os.listdir", "os.scandir"):
        _opened.append(str(args[0]))


sys.addaudithook(_audit)


class watching:
    """Record every file or directory opened in the meantime."""

    def __enter__(self):
        global _opened
        _opened = self.paths = []
        return self.paths

    def __exit__(self, *exc):
        global _opened
        _opened = None


INSIDE = {
    "x": ["in x"], "sub/x": ["in sub x"], "sub/y": ["in sub y"], "k/one": ["in k one"], "..dots": ["in dots"],
    "a..b": ["in a..b"], "...": ["in ellipsis"],
}
OUTSIDE = [
    "secret.txt", "other/secret.txt", "other/x.txt", "w2/x.txt", "w-extra/x.txt", "secret.json", "secret.yaml", "x.txt",
]
# inside the directory, but not wildcards
IGNORED = [
    "w/.hidden/secret.txt", "w/sub/.git/secret.txt", "w/.hidden/deep/secret.txt", "w/notes.md", "w/secret.text",
    "w/secret.txt.bak", "w/secret", "w/sub/secret.yml", "w/secret.TXT", "w/secret.jsonl", "w/.hidden/s.yaml",
    "w/secret.py", "w/txt", "w/secret.csv", "w/.2020/secret.txt", "w/sub/.1/secret.txt", "w/sub/.Trash-1/secret.yaml",
    "w/. /secret.txt", "w/._x/secret.txt",
]


def build(d):
    for name, vals in INSIDE.items():
        if name == "k/one":
            continue
        scratch.put(d, f"w/{name}.txt", "\n".join(vals) + "\n")
    scratch.put(d, "w/pantry.yaml", "k:\n  one:\n    - in k one\n")
    for rel in OUTSIDE + IGNORED:
        body = "SECRET\n"
        if rel.endswith((".json", ".jsonl")):
            body = '{"secret": ["SECRET"], "x": ["SECRET"]}'
        elif rel.endswith((".yaml", ".yml")):
            body = "secret:\n  - SECRET\nx:\n  - SECRET\n"
        scratch.put(d, rel, body)


@st.composite
def attempts(draw):
    """A name, as a list of path segments; "ROOT" stands for the absolute scratch directory."""
    up = draw(st.sampled_from([[], [".."], ["..", ".."], ["sub", ".."], ["sub", "..", ".."], ["."], ["..."], ["ROOT"], ["ROOT", "w", ".."], ["~"], [".hidden"], ["*", ".."], ["sub", ".git"], ["**"], ["", ".."], [".*"], ["[.][.]"], ["?."], ["??"], [".."] * 5, [".."] * 12, ["sub"] + [".."] * 7, ["sub", ".."] * 6 + [".."], ["."] * 9 + [".."]]))
    tail = draw(
        st.sampled_from(
            [
                ["secret"], ["secret.txt"], ["other", "secret"], ["other", "x"], ["w2", "x"], ["*"], ["x"], ["w-extra", "x"],
                ["sub", "x"], ["secret*"], ["..", "secret"], [".hidden", "secret"], ["**"], ["..dots"], ["a..b"], ["..."],
                ["other", "*"], ["w", "x"], ["secret.json"], ["notes"], ["deep", "secret"], ["s"], ["k", "one"], [".hidden", "*"], [".2020", "secret"], ["sub", ".1", "*"], ["._x", "secret"],
            ],
        ),
    )
    sep = draw(st.sampled_from(["/", "/", "/", "\\", "//", "/./"]))
    lead = draw(st.sampled_from(["", "", "", "/", "./", "\\"]))
    return lead + sep.join([*up, *tail])


def check(case) -> Info:
    with scratch.directory() as d:
        build(d)
        root = d / "w"
        prefix = case["prefix"]
        if case["manager"] == "path":
            wm = sut.WildcardManager(root)
            prefix = ""
        elif case["manager"] == "relative":
            # a root that is itself written with ".."
            wm = sut.WildcardManager(d / "other" / ".." / "w")
            prefix = ""
        else:
            wm = sut.WildcardManager(root_map={prefix: [root]})
        pre = prefix + "/" if prefix else ""
        world = {pre + k: v for k, v in INSIDE.items()}
        labels = set()
        with watching() as opened:
            expect_eq(wm.get_collection_names(), set(world), "names of collections")
            for a in case["attempts"]:
                name = a.replace("ROOT", str(d))
                want = globmodel.values(name, world)
                got = wm.get_values(name).string_values
                expect_eq(got, want, "values", wildcard=name)
                got = [v for c in wm.match_collections(name) for v in c.get_values()]
                expect("SECRET" not in got, "matches a collection that is off limits", wildcard=name, got=got)
                clean = globmodel.clean(name, "__")
                try:
                    got = list(wm.get_file(name).get_values())
                except (KeyError, ValueError):
                    expect(clean not in world, "an existing collection is refused", wildcard=name)
                else:
                    expect(clean in world, "a collection that is off limits", wildcard=name, got=got)
                    expect_eq(got, world[clean], "values of a collection", wildcard=name)
                if not set(name) & set("{}$#(~") and "//" not in name and not name.startswith("/*"):
                    for g in sut.CombinatorialPromptGenerator(wm).generate(f"<__{name}__>"):
                        expect("SECRET" not in g, "prompt with something off limits", wildcard=name, prompt=g)
                    jinja = "{{ wildcard(" + repr(f"__{name}__") + ") }}"
                    for g in sut.JinjaGenerator(wm).generate(jinja):
                        expect("SECRET" not in g, "Jinja prompt with something off limits", wildcard=name, prompt=g)
                target = os.path.normpath(os.path.join(root, name.replace("\\", "/")))
                if any(os.path.isfile(target + e) for e in ("", ".txt", ".json", ".yaml")) and not want:
                    labels.add("exists off limits")
        allowed = os.path.realpath(root)
        for p in opened:
            real = os.path.realpath(p)
            if not real.startswith(os.path.realpath(d)):
                continue  # the interpreter's own business
            expect(
                real == allowed or real.startswith(allowed + os.sep),
                "a file outside of the configured directory was opened", path=real.replace(str(d), ""), attempts=case["attempts"],
            )
            expect("/.hidden" not in real and "/.git" not in real, "a hidden directory was read", path=real.replace(str(d), ""))
    return Info("exists off limits" in labels, (case["manager"], *sorted(labels)))


TESTS = [
    Test(
        "off limits",
        lambda: st.fixed_dictionaries(
            {
                "manager": st.sampled_from(["path", "path", "relative", "root map"]),
                "prefix": st.sampled_from(["", "p", "p/q"]),
                "attempts": st.lists(attempts(), min_size=1, max_size=8),
            },
        ),
        check,
        quick=4000,
    ),
]
