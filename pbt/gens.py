"""Strategies shared by several properties: worlds of wildcards and whole cases."""
from __future__ import annotations

import dataclasses

from hypothesis import strategies as st

import tmpl
from tmpl import Opts, lit

NAMES = ["c", "animal", "a/b", "x-y", "deep/er/name", "n1", "col_or", "Ünï"]


@st.composite
def flat_entries(draw, n_min=1, n_max=6, weights=False):
    words = draw(tmpl.distinct_words(n_min, n_max, big=max(n_max, 9)))
    if weights:
        ws = draw(
            st.lists(
                st.sampled_from([1, 1, 1, 2, 3, 0.5, 2.5, 1.7, 2.99]),
                min_size=len(words),
                max_size=len(words),
            ),
        )
    else:
        ws = [1] * len(words)
    return [[[lit(w)], x] for w, x in zip(words, ws)]


@st.composite
def worlds(draw, o: Opts, n_names=3, weights=False, templated=True):
    """Wildcards whose values may be templates themselves, referring only to earlier names."""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=n_names, unique=True))
    world = {}
    for i, name in enumerate(names):
        if not templated or draw(st.booleans()):
            world[name] = draw(flat_entries(weights=weights))
            continue
        inner = dataclasses.replace(
            o,
            wildcards=tuple(names[:i]),
            depth=2,
            max_parts=2,
            markers="",
            top_markers="",
        )
        n = draw(st.integers(1, 3))
        entries, seen = [], set()
        for _ in range(n):
            seq = draw(tmpl.option_seq(inner, 1))
            text = tmpl.render(seq)
            # a wildcard value is a line of text: non-empty and without outer whitespace
            if text.strip() != text or not text or text in seen:
                seq = [lit(f"v{len(entries)}")]
                text = f"v{len(entries)}"
                if text in seen:
                    continue
            seen.add(text)
            w = draw(st.sampled_from([1, 1, 2, 0.5, 1.9])) if weights else 1
            entries.append([seq, w])
        world[name] = entries
    return world


@st.composite
def cases(draw, o: Opts, with_world=True, weights=False, templated=True, **extra):
    """{"tpl": seq, "wcs": world, **extra strategies}"""
    wcs = draw(worlds(o, weights=weights, templated=templated)) if with_world else {}
    oo = dataclasses.replace(o, wildcards=tuple(wcs))
    tpl = draw(tmpl.sequences(oo))
    case = {"tpl": tpl, "wcs": wcs}
    for k, s in extra.items():
        case[k] = draw(s)
    return case


def features(seq, wcs=None) -> tuple[str, ...]:
    labs = set()
    for n in tmpl.walk(seq):
        labs.add(n["t"])
        if n["t"] == "var":
            if n.get("b"):
                labs.add("bounds")
            if len(n["o"]) == 1:
                labs.add("single-option")
            if n.get("m"):
                labs.add("marker " + n["m"])
            if any(w is not None for w, _ in n["o"]):
                labs.add("weights")
        if n["t"] == "wc" and n["m"]:
            labs.add("wc marker " + n["m"])
        if n["t"] == "wc" and wcs is not None and isinstance(n["p"], str) and n["p"] not in wcs:
            labs.add("missing wildcard")
    if tmpl.depth(seq) >= 3:
        labs.add("depth>=3")
    return tuple(sorted(labs))


def has(case, kind) -> bool:
    """Whether the template or any wildcard value contains a node of this kind."""
    if any(n["t"] == kind for n in tmpl.walk(case["tpl"])):
        return True
    return any(
        n["t"] == kind
        for entries in case["wcs"].values()
        for seq, _ in entries
        for n in tmpl.walk(seq)
    )
