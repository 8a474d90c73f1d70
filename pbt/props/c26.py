"""Jinja templates yield their prompt blocks, or their text, as often as asked for."""
import big
import jinja2
import sut
from core import Info, Test, expect, expect_eq
from dynamicprompts.generators.promptgenerator import GeneratorException
from hypothesis import strategies as st

PROPERTY = "C26"
RULE = (
    "case = a generated Jinja template (text, loops, conditions, variables, prompt blocks, context values) with the "
    "prompts it must yield computed alongside, and a number of prompts, limit and whitespace settings; non-trivial "
    "= the template has at least one control structure"
)
TEXTS = ["a", "b c", " x ", "\n", "\n  y", ", ", "été", "日本", "(1.2)", "", "  ", "z."]
ITEMS = ["red", "blue", "it s", "été", "7", ""]
CTX = {"who": ["cat", "dog"], "n": 3, "flag": True, "off": False, "s": "str", "empty": []}


@st.composite
def nodes(draw, depth=2, in_block=False, vars_=()):
    """A list of template nodes."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kinds = ["text", "text", "expr"]
        if depth > 0:
            kinds += ["for", "if", "set"]
            if not in_block:
                kinds += ["prompt", "prompt"]
        k = draw(st.sampled_from(kinds))
        if k == "text":
            out.append(["text", draw(st.sampled_from(TEXTS))])
        elif k == "expr":
            out.append(["expr", draw(st.sampled_from(["n", "s", "who", "undefined", *vars_]))])
        elif k == "for":
            name = draw(st.sampled_from(["i", "j"]))
            over = draw(st.sampled_from(["who", "empty", None]))
            items = draw(st.lists(st.sampled_from(ITEMS), max_size=3))
            body = draw(nodes(depth - 1, in_block, (*vars_, name)))
            out.append(["for", name, over, items, body])
        elif k == "if":
            out.append(
                [
                    "if", draw(st.sampled_from(["flag", "off", "empty", "undefined", "s", "n"])),
                    draw(nodes(depth - 1, in_block, vars_)), draw(nodes(depth - 1, in_block, vars_)),
                ],
            )
        elif k == "set":
            out.append(["set", "k", draw(st.sampled_from(ITEMS))])
        else:
            out.append(["prompt", draw(nodes(depth - 1, True, vars_))])
    return out


def source(ns) -> str:
    s = ""
    for n in ns:
        if n[0] == "text":
            s += n[1]
        elif n[0] == "expr":
            s += "{{ " + n[1] + " }}"
        elif n[0] == "for":
            over = n[2] or "[" + ", ".join(f'"{i}"' for i in n[3]) + "]"
            s += "{% for " + n[1] + " in " + over + " %}" + source(n[4]) + "{% endfor %}"
        elif n[0] == "if":
            s += "{% if " + n[1] + " %}" + source(n[2]) + "{% else %}" + source(n[3]) + "{% endif %}"
        elif n[0] == "set":
            s += "{% set " + n[1] + ' = "' + n[2] + '" %}'
        else:
            s += "{% prompt %}" + source(n[1]) + "{% endprompt %}"
    return s


def evaluate(ns, env, blocks) -> str:
    """The text of a template; the texts of its prompt blocks go to `blocks`."""
    s = ""
    env = dict(env)
    for n in ns:
        if n[0] == "text":
            s += n[1]
        elif n[0] == "expr":
            s += str(env.get(n[1], ""))
        elif n[0] == "for":
            for x in env.get(n[2], []) if n[2] else n[3]:
                s += evaluate(n[4], {**env, n[1]: x}, blocks)
        elif n[0] == "if":
            s += evaluate(n[2] if env.get(n[1]) else n[3], env, blocks)
        elif n[0] == "set":
            env[n[1]] = n[2]
        else:
            text = evaluate(n[1], env, blocks)
            blocks.append(text)
            s += text
    return s


def expected(tree, n, context, limit, squash):
    blocks, texts = [], []
    for _ in range(n):
        t = evaluate(tree, context, blocks)
        texts.append(t[:-1] if t_ends_with_newline(tree) else t)
    out = blocks if blocks else texts
    if limit:
        out = out[:n]
    if squash:
        out = [" ".join(p.split()) for p in out]
    return out, bool(blocks)


def t_ends_with_newline(tree) -> bool:
    # Jinja drops one newline at the very end of a template
    return source(tree).endswith("\n")


def check(case) -> Info:
    tree = case["tree"]
    text = source(tree)
    context = {k: CTX[k] for k in case["context"]}
    want, has_blocks = expected(tree, case["n"], context, case["limit"], case["squash"])
    gen = sut.JinjaGenerator(context=context or None, limit_prompts=case["limit"], ignore_whitespace=case["squash"])
    info = {"template": text, "context": context}
    expect_eq(gen.generate(text, case["n"]), want, "prompts", **info)
    # nothing is left over from one call to the next
    expect_eq(gen.generate(text, case["n"]), want, "prompts of a second call", **info)
    one, _ = expected(tree, 1, context, case["limit"], case["squash"])
    expect_eq(gen.generate(text), one, "prompts by default", **info)
    expect_eq(context, {k: CTX[k] for k in case["context"]}, "the context is left alone")
    labels = ["blocks" if has_blocks else "text"] + (["limited"] if case["limit"] else [])
    return Info(any(n[0] not in ("text", "expr") for n in tree), tuple(labels))


BROKEN = [
    "{% for x in %}", "{{ x", "{% if %}{% endif %}", "{% prompt %}no end", "{% endprompt %}", "{% nosuchtag %}",
    "{{ 1 + }}", "{% for x in y %}{% prompt %}{% endfor %}{% endprompt %}", "{{ x | nosuchfilter }}", "{% set %}",
    "{{ 'unterminated }}", "{% block a %}{% block a %}{% endblock %}{% endblock %}", "{# no end", "{% else %}",
]


def check_broken(case) -> Info:
    text = source(case["tree"]) + case["broken"] + case["tail"]
    try:
        jinja2.Environment(extensions=["dynamicprompts.jinja_extensions.PromptExtension"]).from_string(text)
    except jinja2.TemplateSyntaxError:
        pass
    else:
        return Info(False, ("not broken",))
    try:
        got = sut.JinjaGenerator().generate(text, case["n"])
    except GeneratorException as e:
        expect(str(e) != "", "an error without a message", template=text)
        return Info(True)
    expect(False, "broken template goes unnoticed", template=text, got=got)


@st.composite
def cases(draw):
    return {
        "tree": draw(nodes()), "n": draw(st.sampled_from([0, 1, 1, 2, 3, 7])), "limit": draw(st.booleans()),
        "squash": draw(st.booleans()), "context": draw(st.lists(st.sampled_from(sorted(CTX)), unique=True)),
    }


def check_large(case) -> Info:
    """Many blocks, long blocks, many prompts."""
    kind, n, k, squash = case["kind"], case["n"], case["k"], case["squash"]
    ws = big.words(n)
    if kind == "loop":
        text = "{% for i in range(" + str(n) + ") %}{% prompt %}b {{ i }}  x{% endprompt %}{% endfor %}"
        blocks = [f"b {i}  x" for i in range(n)]
    elif kind == "written":
        text = "\n".join("{% prompt %}" + w + "  {% endprompt %}" for w in ws)
        blocks = [w + "  " for w in ws]
    elif kind == "text":
        text = big.prose(20 * n, k % 7)
        blocks = [text]
    elif kind == "long block":
        s = big.prose(20 * n, k % 7)
        text, blocks = "{% prompt %}" + s + "{% endprompt %}", [s]
    else:
        text = "{% for w in context_words %}{{ w }},{% endfor %}"
        blocks = ["".join(w + "," for w in ws)]
    want = blocks * k
    limit = case["limit"]
    if limit:
        want = want[:k]
    if squash:
        want = [" ".join(p.split()) for p in want]
    gen = sut.JinjaGenerator(context={"context_words": ws}, limit_prompts=limit, ignore_whitespace=squash)
    got = gen.generate(text, k)
    expect_eq(len(got), len(want), "number of prompts", kind=kind, n=n, k=k, limit=limit)
    expect_eq(got, want, "prompts", kind=kind, n=n, k=k, limit=limit)
    return Info(n > 20, (kind,))


TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["loop", "written", "text", "long block", "context"]), "n": big.size(700),
                "k": st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 120)), "limit": st.booleans(), "squash": st.booleans(),
            },
        ).filter(lambda c: c["n"] * c["k"] < 12000),
        check_large,
        quick=120,
    ),
    Test("blocks", cases, check, quick=5000),
    Test(
        "broken",
        lambda: st.fixed_dictionaries(
            {
                "tree": nodes(), "broken": st.sampled_from(BROKEN), "tail": st.sampled_from(["", " x", "\n", "{{ 1 }}"]),
                "n": st.integers(0, 2),
            },
        ),
        check_broken,
        quick=1500,
    ),
]
