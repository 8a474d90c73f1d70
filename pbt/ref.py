"""Reference semantics of templates, written from docs/SYNTAX.md, independent of the code.

`World` is what the wildcards contain: name -> list of (text, weight).  Wildcard texts
are given as templates (sequences) so that the reference never has to parse.
"""
from __future__ import annotations

import itertools
from typing import Iterator

from tmpl import bounds_of


class TooBig(Exception):
    pass


class World:
    def __init__(self, wildcards: dict[str, list], unknown=None, wrap="__"):
        # wildcards: name -> list of [seq, weight], already in the order they are served
        self.wildcards = wildcards
        self.unknown = unknown
        self.wrap = wrap

    def entries(self, name: str):
        return self.wildcards.get(name, [])

    def fallback(self, name: str) -> str:
        w = self.wrap
        s = name if name.startswith(w) else w + name
        return s if s.endswith(w) else s + w


def repeats(weight) -> int:
    """How often a weighted value occurs outside of random sampling."""
    weight = float(weight)
    return max(1, int(weight)) if weight > 0 else 0


def join(parts, sep: str) -> str:
    parts = list(parts)
    if len(parts) == 1:
        return parts[0]
    s = sep.join(parts)
    if sep and s.startswith(sep):
        s = s[len(sep):]
    if sep and s.endswith(sep):
        s = s[: -len(sep)]
    return s


ELL = "\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19"


def wrap_text(outer: str, inner: str) -> str:
    i = 0
    while i < len(outer):
        if outer[i] in ELL:
            j = i
            while j < len(outer) and outer[j] in ELL:
                j += 1
            return outer[:i] + inner + outer[j:]
        if outer.startswith("...", i):
            j = i
            while j < len(outer) and outer[j] == ".":
                j += 1
            return outer[:i] + inner + outer[j:]
        i += 1
    return outer + inner


def is_single_wildcard(node) -> bool:
    return len(node["o"]) == 1 and len(node["o"][0][1]) == 1 and node["o"][0][1][0]["t"] == "wc"


def expand_wildcard_variant(node, env, world, repeat: bool, pick=None):
    """{k$$__w__} picks among the wildcard's values (one level at a time)."""
    while is_single_wildcard(node):
        w = node["o"][0][1][0]
        name = path_of(w, env, world) if pick is None else pick(w, env)
        entries = world.entries(name)
        lo, hi = raw_bounds(node)
        if not entries:
            opts = [[None, [{"t": "lit", "s": world.fallback(name)}]]]
            n = 1
        else:
            opts = []
            for seq, weight in entries:
                for _ in range(repeats(weight) if repeat else 1):
                    opts.append([str(weight), seq])
            n = len(entries)
        env = {**env, **{k: v for k, v in w.get("a", [])}}
        node = {
            "t": "var",
            "o": opts,
            "b": ["n-m", min(lo, n), min(hi, n)],
            "sep": node.get("sep"),
            "m": node.get("m"),
        }
    return node, env


def clamped(node):
    """Bounds, clamped to the number of different options there are."""
    lo, hi = bounds_of(node)
    distinct = []
    for _, o in node["o"]:
        if not any(same_literal(o, p) for p in distinct):
            distinct.append(o)
    return min(lo, len(distinct)), min(hi, len(distinct))


def raw_bounds(node):
    b = node.get("b")
    if not b:
        return 1, 1
    form, lo, hi = b
    if form == "n":
        hi = lo
    elif form == "-m":
        lo = 1
    elif form == "n-":
        hi = 10**9  # all values of the wildcard
    return min(lo, hi), max(lo, hi)


def path_of(w, env, world) -> str:
    if isinstance(w["p"], str):
        return w["p"]
    res = comb_seq(w["p"], env, world, 1000, path=True)
    return res[0]


# ---------------------------------------------------------------- combinatorial


def comb(seq, world: World, cap=3000, env=None) -> list[str]:
    """All prompts of a template, in order (leftmost choice varies slowest)."""
    return comb_seq(seq, dict(env or {}), world, cap)


def bind(seq, env, world, first):
    """Handle assignments of a sequence; returns remaining nodes and new env."""
    rest = []
    env = dict(env)
    for n in seq:
        if n["t"] == "set":
            if n.get("keep") and n["n"] in env:
                continue
            if n.get("now"):
                env[n["n"]] = [{"t": "lit", "s": first(n["v"], env)}]
            else:
                env[n["n"]] = n["v"]
        else:
            rest.append(n)
    return rest, env


def comb_seq(seq, env, world, cap, path=False) -> list[str]:
    seq, env = bind(seq, env, world, lambda v, e: comb_seq(v, e, world, cap)[0])
    lists = [comb_node(n, env, world, cap, path) for n in seq]
    size = 1
    for x in lists:
        size *= len(x)
        if size > cap:
            raise TooBig
    return ["".join(p) for p in itertools.product(*lists)]


def selections(options, k):
    """Ordered choices of k different options, in lexicographic order of position.

    Options that are repetitions of the very same wildcard value (same object) are
    never combined with one another."""
    if k <= 0:
        yield ()
        return
    for o in options:
        rest = [p for p in options if p is not o and not same_literal(o, p)]
        for tail in selections(rest, k - 1):
            yield (o, *tail)


def same_literal(a, b) -> bool:
    return a is b or (
        a == b and all(n["t"] == "lit" for n in a) and all(n["t"] == "lit" for n in b)
    )


def comb_node(n, env, world, cap, path=False) -> list[str]:
    t = n["t"]
    if t == "lit":
        return [n["s"]]
    if t == "var":
        n, env = expand_wildcard_variant(n, env, world, repeat=True)
        lo, hi = clamped(n)
        sep = n.get("sep") if n.get("sep") is not None else ","
        options = [o for _, o in n["o"]]
        # wildcard values occurring several times are one and the same value
        # (options that are never chosen are never evaluated)
        values = [comb_seq(o, env, world, cap) if hi else [] for o in options]
        table = {id(o): v for o, v in zip(options, values)}
        out, seen, work = [], set(), 0
        for k in range(lo, hi + 1):
            for sel in selections(options, k):
                for parts in itertools.product(*(table[id(o)] for o in sel)):
                    work += 1
                    if work > cap:
                        raise TooBig
                    if len(set(parts)) == k and parts not in seen:
                        seen.add(parts)
                        out.append(join(parts, sep))
        return out
    if t == "wc":
        name = path_of(n, env, world)
        entries = world.entries(name)
        if not entries:
            return [world.fallback(name)]
        env = {**env, **{k: v for k, v in n.get("a", [])}}
        out = []
        for seq, weight in entries:
            vals = comb_seq(seq, env, world, cap) if repeats(weight) else []
            for _ in range(repeats(weight)):
                out += vals
            if len(out) > cap:
                raise TooBig
        return out
    if t == "get":
        return comb_seq(value_of(n, env, world, path), env, world, cap)
    if t == "wrap":
        outs = []
        for w in comb_seq(n["w"], env, world, cap):
            for i in comb_seq(n["i"], env, world, cap):
                outs.append(wrap_text(w, i))
                if len(outs) > cap:
                    raise TooBig
        return outs
    raise AssertionError(t)


class UndefinedVariable(Exception):
    pass


def value_of(n, env, world, path=False):
    if n["n"] in env:
        return env[n["n"]]
    if n.get("d") is not None:
        return n["d"]
    if path:
        return [{"t": "lit", "s": n["n"]}]
    if world.unknown is not None:
        return [{"t": "lit", "s": world.unknown}]
    raise UndefinedVariable(n["n"])


# ------------------------------------------------------------------ language


def language(seq, world: World, cap=3000, env=None) -> set[str]:
    """Every prompt that random sampling may produce."""
    return lang_seq(seq, dict(env or {}), world, cap)


class Fork(Exception):
    """A computed wildcard name has several possible values."""

    def __init__(self, node, names):
        self.node, self.names = node, names


def names_of(w, env, world, cap) -> list[str]:
    """Every name a wildcard may refer to (one is drawn per generated prompt)."""
    if isinstance(w["p"], str):
        return [w["p"]]
    return sorted(lang_seq(w["p"], env, world, cap, path=True))


def lang_seq(seq, env, world, cap, path=False) -> set[str]:
    sets = [env]
    # an immediate assignment fixes one of its possible values
    envs = [dict(env)]
    rest = []
    for n in seq:
        if n["t"] != "set":
            rest.append(n)
            continue
        new = []
        for e in envs:
            if n.get("keep") and n["n"] in e:
                new.append(e)
            elif n.get("now"):
                for v in sorted(lang_seq(n["v"], e, world, cap)):
                    new.append({**e, n["n"]: [{"t": "lit", "s": v}]})
            else:
                new.append({**e, n["n"]: n["v"]})
            if len(new) > 200:
                raise TooBig
        envs = new
    out = set()
    for e in envs:
        acc = {""}
        for n in rest:
            part = lang_node(n, e, world, cap, path)
            if len(acc) * len(part) > cap:
                raise TooBig
            acc = {a + b for a in acc for b in part}
        out |= acc
        if len(out) > cap:
            raise TooBig
    del sets
    return out


def lang_node(n, env, world, cap, path=False) -> set[str]:
    t = n["t"]
    if t == "lit":
        return {n["s"]}
    if t == "var":
        def pick(w, e):
            names = names_of(w, e, world, cap)
            if len(names) > 1:
                raise Fork(w, names)
            return names[0]

        try:
            n, env = expand_wildcard_variant(n, env, world, repeat=False, pick=pick)
        except Fork as f:
            if f.node is not n["o"][0][1][0]:
                raise TooBig  # (a fork further down is left out)
            out = set()
            for name in f.names:
                out |= lang_node({**n, "o": [[n["o"][0][0], [{**f.node, "p": name}]]]}, env, world, cap)
            return out
        lo, hi = clamped(n)
        sep = n.get("sep") if n.get("sep") is not None else ","
        options = [
            lang_seq(o, env, world, cap)
            for w, o in n["o"]
            if w is None or float(w) > 0
        ]
        out, work = set(), 0
        for k in range(min(lo, len(options)), min(hi, len(options)) + 1):
            for sel in itertools.permutations(options, k):
                for parts in itertools.product(*sel):
                    work += 1
                    if work > 4 * cap:
                        raise TooBig
                    out.add(join(parts, sep))
        return out
    if t == "wc":
        out = set()
        inner = {**env, **{k: v for k, v in n.get("a", [])}}
        for name in names_of(n, env, world, cap):
            entries = world.entries(name)
            if not entries:
                out.add(world.fallback(name))
            for seq, weight in entries:
                if float(weight) > 0:
                    out |= lang_seq(seq, inner, world, cap)
        return out
    if t == "get":
        return lang_seq(value_of(n, env, world, path), env, world, cap)
    if t == "wrap":
        ws = lang_seq(n["w"], env, world, cap)
        is_ = lang_seq(n["i"], env, world, cap)
        if len(ws) * len(is_) > cap:
            raise TooBig
        return {wrap_text(w, i) for w in ws for i in is_}
    raise AssertionError(t)


# ------------------------------------------------------------------- cyclical


def cycle(seq, world: World, env=None) -> Iterator[str]:
    """The endless stream of cyclical sampling."""
    return cyc_seq(seq, dict(env or {}), world)


def cyc_seq(seq, env, world) -> Iterator[str]:
    seq, env = bind(seq, env, world, lambda v, e: next(cyc_seq(v, e, world)))
    streams = [cyc_node(n, env, world) for n in seq]
    while True:
        yield "".join([next(s) for s in streams])


def round_robin(makers) -> Iterator[str]:
    """One value from each stream in turn; streams start when first needed."""
    streams = [None] * len(makers)
    for i in itertools.cycle(range(len(makers))):
        if streams[i] is None:
            streams[i] = makers[i]()
        yield next(streams[i])


def cyc_node(n, env, world) -> Iterator[str]:
    t = n["t"]
    if t == "lit":
        return itertools.repeat(n["s"])
    if t == "var":
        n, env = expand_wildcard_variant(n, env, world, repeat=True)
        lo, hi = clamped(n)
        sep = n.get("sep") if n.get("sep") is not None else ","
        options = [o for _, o in n["o"]]
        env2 = env

        def maker(sel):
            def make():
                streams = [cyc_seq(o, env2, world) for o in sel]
                while True:
                    yield join([next(s) for s in streams], sep)

            return make

        combos = [sel for k in range(lo, hi + 1) for sel in selections(options, k)]
        if len(combos) > 5000:
            raise TooBig
        return round_robin([maker(sel) for sel in combos])
    if t == "wc":
        name = path_of(n, env, world)
        entries = world.entries(name)
        if not entries:
            return itertools.repeat(world.fallback(name))
        env = {**env, **{k: v for k, v in n.get("a", [])}}
        makers = []
        for seq, weight in entries:
            for _ in range(repeats(weight)):
                makers.append(lambda seq=seq: cyc_seq(seq, env, world))
        return round_robin(makers)
    if t == "get":
        return cyc_seq(value_of(n, env, world), env, world)
    raise AssertionError(t)
