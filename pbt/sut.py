"""Thin adapter to the code under test (public API only)."""
from __future__ import annotations

import random
from itertools import islice

import ref
import tmpl

from dynamicprompts.enums import SamplingMethod
from dynamicprompts.generators import (
    BatchedCombinatorialPromptGenerator,
    CombinatorialPromptGenerator,
    DummyGenerator,
    JinjaGenerator,
    RandomPromptGenerator,
)
from dynamicprompts.parser.config import ParserConfig, default_parser_config
from dynamicprompts.parser.parse import parse
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.item import WildcardItem

RANDOM = SamplingMethod.RANDOM
COMB = SamplingMethod.COMBINATORIAL
CYC = SamplingMethod.CYCLICAL


def world_texts(wcs: dict, d=tmpl.DEFAULT) -> dict:
    """{name: [[text, weight], ...]} from a JSON world {name: [[seq, weight], ...]}."""
    return {k: [[tmpl.render(s, d), w] for s, w in v] for k, v in wcs.items()}


def manager(wcs: dict, d=tmpl.DEFAULT, **kw) -> WildcardManager:
    m = {}
    for name, entries in wcs.items():
        texts = [(tmpl.render(s, d), w) for s, w in entries]
        if all(w == 1 for _, w in texts):
            m[name] = [t for t, _ in texts]
        else:
            m[name] = ListWildcardCollection(
                [t if w == 1 else WildcardItem(content=t, weight=float(w)) for t, w in texts],
            )
    return WildcardManager(root_map={"": [m]}, wildcard_wrap=d.ww, **kw)


def ref_world(wcs: dict, unknown=None, d=tmpl.DEFAULT) -> ref.World:
    """The same wildcards for the reference: values are served sorted by their text."""
    return ref.World(
        {
            k: sorted(([s, w] for s, w in v), key=lambda e: tmpl.render(e[0], d))
            for k, v in wcs.items()
        },
        unknown=unknown,
        wrap=d.ww,
    )


def context(method, wcs=None, seed=1, d=None, **kw) -> SamplingContext:
    if d is not None:
        kw["parser_config"] = parser_config(d)
    return SamplingContext(
        default_sampling_method=method,
        wildcard_manager=manager(wcs or {}, d or tmpl.DEFAULT),
        rand=random.Random(seed),
        **kw,
    )


def parser_config(d) -> ParserConfig:
    return ParserConfig(
        variant_start=d.vs,
        variant_end=d.ve,
        wildcard_wrap=d.ww,
        variable_start=d.as_,
        variable_end=d.ae,
        wrap_start=d.ws,
        wrap_end=d.we,
    )


def take(gen, n) -> list[str]:
    return [str(x) for x in islice(gen, n)]


__all__ = [
    "BatchedCombinatorialPromptGenerator",
    "DummyGenerator",
    "JinjaGenerator",
    "CombinatorialPromptGenerator",
    "RandomPromptGenerator",
    "parse",
    "default_parser_config",
]
