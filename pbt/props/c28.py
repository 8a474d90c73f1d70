"""Magic prompts continue their own prompts, tidied up, and never return what is blocked if it can be avoided."""
import re
import sys
import types

import big
import sut
from core import Info, Test, expect, expect_eq
from dynamicprompts.generators.promptgenerator import PromptGenerator
from hypothesis import strategies as st

PROPERTY = "C28"
RULE = (
    "case = inner prompts, the (fake) model's successive continuations of each, a block list and settings; prompts, "
    "their order, every request to the model and the tidied text compared with an independent account; non-trivial "
    "= at least two prompts, or a continuation that needs tidying or regenerating"
)
ASSUMPTIONS = [
    "the transformers library is replaced by a stand-in with the same interface (it is not installed here)",
]


class Model:
    """Answers the k-th request for a prompt with that prompt's k-th continuation (the last one repeats)."""

    def __init__(self, name):
        self.name = name
        self.answers = {}
        self.echo = True
        self.requests = []  # (prompts, settings)
        self.count = {}

    def __call__(self, prompts, **kw):
        self.requests.append((list(prompts), kw))
        out = []
        for p in prompts:
            k = self.count.get(p, 0)
            self.count[p] = k + 1
            conts = self.answers.get(p) or [""]
            c = conts[min(k, len(conts) - 1)]
            out.append([{"generated_text": (p if self.echo else "") + c}])
        return out


class Fake(types.ModuleType):
    def __init__(self):
        super().__init__("transformers")
        self.loaded = []  # model names, in order
        self.seeds = []
        self.models = {}
        self.failing = set()
        self.pipelines = []
        fake = self

        class AutoTokenizer:
            @staticmethod
            def from_pretrained(name, **kw):
                fake.maybe_fail(name)
                return types.SimpleNamespace(name=name, eos_token_id=7, pad_token_id=None)

        class AutoModelForCausalLM:
            @staticmethod
            def from_pretrained(name, **kw):
                fake.maybe_fail(name)
                return types.SimpleNamespace(name=name, config=types.SimpleNamespace(eos_token_id=7))

        def pipeline(task=None, model=None, tokenizer=None, **kw):
            expect_eq(task, "text-generation", "pipeline task")
            expect_eq(tokenizer.name, model.name, "tokenizer and model differ")
            fake.loaded.append(model.name)
            fake.pipelines.append(kw)
            return fake.model(model.name)

        self.AutoTokenizer = AutoTokenizer
        self.AutoModelForCausalLM = AutoModelForCausalLM
        self.pipeline = pipeline
        self.set_seed = self.seeds.append

    def maybe_fail(self, name):
        if name in self.failing:
            raise OSError(f"cannot load {name}")

    def model(self, name) -> Model:
        return self.models.setdefault(name, Model(name))


class Recorder(PromptGenerator):
    def __init__(self, prompts):
        self.prompts = prompts
        self.calls = []

    def generate(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return list(self.prompts)


counter = [0]


def fresh():
    """A new stand-in library, and a prefix for model names never used before in this process."""
    fake = Fake()
    sys.modules["transformers"] = fake
    from dynamicprompts.generators import magicprompt

    counter[0] += 1
    return fake, f"model{counter[0]}-", magicprompt.MagicPromptGenerator


# ------------------------------------------------------------------ tidying up

WORD = ["trending", "art", "cat", "bobcat", "été", "8k", "x", "sharp focus", "by greg", "日本", "art of war", "a-b", "intricate"]


@st.composite
def continuation(draw):
    """[[kind, words...], ...]: the pieces of a continuation between separators."""
    n = draw(st.integers(1, 5))
    pieces = [["plain", draw(st.sampled_from(WORD))]]
    for i in range(n):
        kind = draw(st.sampled_from(["plain", "paren", "brace", "hyphen", "bang", "bang", "under", "deep"]))
        pieces.append([kind, draw(st.sampled_from(WORD)), draw(st.sampled_from(WORD)), draw(st.integers(1, 4))])
    pieces.append(["plain", draw(st.sampled_from(WORD))])
    seps = [draw(st.integers(0, 99)) for _ in range(len(pieces) - 1)]
    ends = [draw(st.sampled_from(["", " ", ", ", "...", " - ", "!", " ((", "\n"])) for _ in range(2)]
    return {"pieces": pieces, "seps": seps, "ends": ends}


SEPS = [", ", ",", " , ", "; ", ";", " . ", ".", ",  ", " ;", "... ", ",\n"]


def starts_with_letter(text: str) -> bool:
    return bool(re.match(r"[a-zA-Z(]", text))


def raw_and_clean(c) -> tuple[str, str]:
    raws, cleans = [], []
    for p in c["pieces"]:
        kind, rest = p[0], p[1:]
        a = rest[0]
        if kind == "plain":
            raws.append(a)
            cleans.append(a)
            continue
        b, n = rest[1], rest[2]
        sp = " " * (n - 1)
        if kind == "paren":
            raws.append(f"({sp}{a}{sp})")
            cleans.append(f"({a})")
        elif kind == "brace":
            raws.append("{" + sp + a + sp + "}")
            cleans.append(f"({a})")
        elif kind == "deep":
            raws.append("{" * n + sp + a + sp + "}" * n)
            cleans.append("(" * n + a + ")" * n)
        elif kind == "hyphen":
            raws.append(f"{a} -{sp} {b}")
            cleans.append(f"{a}-{b}")
        elif kind == "bang":
            raws.append(a + "!" * n)
            cleans.append(f"({a}:{round(1.1**n, 2)})")
        elif kind == "under":
            raws.append(f"{a} {'_' * n} {b}")
            cleans.append(f"{a} {b}")
    raw, clean = raws[0], cleans[0]
    for i, (r, cl) in enumerate(zip(raws[1:], cleans[1:])):
        s = c["seps"][i]
        # separators are normalised in front of letters and parentheses only
        if not starts_with_letter(cl) or not starts_with_letter(r.replace("{", "(")):
            sep = ", "
        elif c["pieces"][i][0] in ("plain", "hyphen", "under") and c["pieces"][i + 1][0] in ("plain", "hyphen", "under") and s % 7 == 0:
            sep = [", , ", ",, ", ", ,", " ,, "][s % 4]
        else:
            sep = SEPS[s % len(SEPS)]
        raw += sep + r
        clean += ", " + cl
    return c["ends"][0] + raw + c["ends"][1], clean


def check_tidy(case) -> Info:
    fake, prefix, Magic = fresh()
    name = prefix + "m"
    model = fake.model(name)
    model.echo = case["echo"]
    want = []
    for p, c in zip(case["prompts"], case["conts"]):
        raw, clean = raw_and_clean(c)
        model.answers[p] = [raw]
        want.append(f"{p} {clean}" if case["echo"] else clean)
    prompts = case["prompts"][: len(case["conts"])]
    gen = Magic(Recorder(prompts), model_name=name)
    got = gen.generate("t", 3)
    expect_eq(got, want, "magic prompts", prompts=prompts, raw=[model.answers[p] for p in prompts])
    return Info(True)


PROMPTS = ["a red cat", "{odd} prompt", "wow!! ( spaced )", "été; x . y", "A - B", "", "cat", "_ under _ score", "日本", "two\nlines"]


@st.composite
def tidy_cases(draw):
    conts = draw(st.lists(continuation(), min_size=1, max_size=4))
    prompts = draw(st.lists(st.sampled_from(PROMPTS), min_size=len(conts), max_size=len(conts), unique=True))
    echo = draw(st.integers(0, 3)) > 0
    if not echo:
        # (a model that does not repeat the prompt)
        prompts = [f"{i}: {p}" for i, p in enumerate(prompts)]
    return {"prompts": prompts, "conts": conts, "echo": echo}


# -------------------------------------------------------- blocking and requests

BLOCK = [None, "", "greg", "greg|alphonse", r"by\s+\w+", "^a red", "ART$", "x{2,}", "日本"]
CONTS = [" by Greg", " art", " GREG rutkowski", " fine", " alphonse mucha", " xxl", " sharp", " 日本", " good art", " by candle light"]


def check_requests(case) -> Info:
    fake, prefix, Magic = fresh()
    name = prefix + "m"
    model = fake.model(name)
    prompts = [f"{p} {i}" for i, p in enumerate(case["prompts"])]
    for p, ks in zip(prompts, case["conts"]):
        model.answers[p] = [CONTS[k % len(CONTS)] for k in ks]
    inner = Recorder(prompts)
    kw = dict(case["settings"])
    gen = Magic(inner, model_name=name, blocklist_regex=case["block"], **kw)
    expect_eq(fake.seeds, [] if kw.get("seed") is None else [kw["seed"]], "seeds given to the model")
    attempts = case["attempts"]
    extra = {} if attempts is None else {"max_attempts": attempts}
    got = gen.generate("template", 3, seeds=[1], **extra)
    if attempts is None:
        attempts = 20
    expect_eq(inner.calls, [(("template", 3), {"seeds": [1]})], "arguments for the inner generator")

    # an independent account of the same
    pattern = re.compile(case["block"], re.I) if case["block"] else None

    def answer(i, k):
        a = model.answers[prompts[i]]
        return prompts[i] + a[min(k, len(a) - 1)]

    want, rounds = [], [list(range(len(prompts)))]
    used = [0] * len(prompts)
    for i in range(len(prompts)):
        k = 0
        while pattern and pattern.search(answer(i, k)) and k < attempts:
            k += 1
        used[i] = k
        want.append(answer(i, k))
    for r in range(1, attempts + 1):
        again = [i for i in range(len(prompts)) if used[i] >= r]
        if again:
            rounds.append(again)
    expect_eq(got, want, "prompts", block=case["block"], prompts=prompts, answers=model.answers)
    asked = [p for req, _ in model.requests for p in req]
    expect_eq(sorted(asked), sorted(p for r in rounds for p in [prompts[i] for i in r]), "prompts sent to the model")
    for _, settings in model.requests:
        expect_eq(settings.get("max_length"), kw.get("max_prompt_length", 100), "maximum length")
        expect_eq(settings.get("temperature"), float(kw.get("temperature", 0.7)), "temperature")
        expect_eq(settings.get("batch_size"), kw.get("batch_size", 1), "batch size")
    return Info(len(prompts) > 1 or any(used), ("regenerated",) if any(used) else ())


@st.composite
def request_cases(draw):
    prompts = draw(st.lists(st.sampled_from(["a red cat", "dog", "by the sea", "Art", "xx", "two\nlines"]), min_size=0, max_size=5))
    settings = {}
    if draw(st.booleans()):
        settings["max_prompt_length"] = draw(st.integers(1, 500))
    if draw(st.booleans()):
        settings["temperature"] = draw(st.sampled_from([0, 1, 0.3, 1.75]))
    if draw(st.booleans()):
        settings["batch_size"] = draw(st.integers(1, 9))
    if draw(st.booleans()):
        settings["seed"] = draw(st.sampled_from([0, 1, 2**32 - 1, None]))
    return {
        "prompts": prompts,
        "conts": [draw(st.lists(st.integers(0, 99), min_size=1, max_size=5)) for _ in prompts],
        "block": draw(st.sampled_from(BLOCK)),
        "attempts": draw(st.sampled_from([None, None, 0, 1, 2, 3, 20])),
        "settings": settings,
    }


# ------------------------------------------------------------- models over time


def check_models(case) -> Info:
    """Generators come and go; each uses its own model, loaded anew only when needed."""
    fake, prefix, Magic = fresh()
    gens, current, loaded = [], None, []
    failed = 0
    for op, arg in case["ops"]:
        name = prefix + "ABC"[arg % 3]
        fake.model(name).answers = {}
        if op == "fail":
            fake.failing ^= {name}
        elif op == "new":
            ok = name == current or name not in fake.failing
            try:
                g = Magic(model_name=name, device="cpu")
            except OSError:
                expect(not ok, "loading failed", model=name)
                current, failed = None, failed + 1
            else:
                expect(ok, "a model that cannot be loaded", model=name)
                if name != current:
                    loaded.append(name)
                current = name
                gens.append((g, name))
        elif op == "set" and gens:
            g, old = gens[arg % len(gens)]
            ok = name == current or name not in fake.failing
            try:
                g.set_model(name)
            except OSError:
                expect(not ok, "loading failed", model=name)
                current, failed = None, failed + 1
            else:
                if name != current:
                    loaded.append(name)
                current = name
                gens[arg % len(gens)] = (g, name)
        elif op == "use" and gens:
            g, name = gens[arg % len(gens)]
            text = f"prompt{len(fake.model(name).requests)}"
            fake.model(name).answers = {text: [f" from {name}"]}
            expect_eq(g.generate(text, 2), [f"{text} from {name}"] * 2, "prompts of a model", model=name)
        expect_eq(fake.loaded, loaded, "models loaded", ops=case["ops"])
    expect(all(kw.get("device") == "cpu" for kw in fake.pipelines), "device", got=fake.pipelines)
    return Info(len(loaded) > 1, ("failed load",) if failed else ())


def check_inner(case) -> Info:
    """With a real inner generator: every prompt starts with a prompt of that generator."""
    fake, prefix, Magic = fresh()
    model = fake.model(prefix + "m")
    template, n = case["template"], case["n"]
    want = sut.CombinatorialPromptGenerator().generate(template, n)
    for i, p in enumerate(want):
        model.answers[p] = [f", continued {i}"]
    got = Magic(sut.CombinatorialPromptGenerator(), model_name=prefix + "m").generate(template, n)
    expect_eq(len(got), len(want), "number of prompts")
    for g, p in zip(got, want):
        expect(g.startswith(p + " continued "), "prompt", got=g, inner=p)
    plain = Magic(model_name=prefix + "m").generate("plain", 3)
    expect_eq([p.strip() for p in plain], ["plain"] * 3, "no inner generator")
    return Info(len(want) > 1)


def check_large(case) -> Info:
    """Many prompts, long prompts, long continuations, runs of what is tidied up."""
    fake, prefix, Magic = fresh()
    model = fake.model(prefix + "m")
    kind, n, k = case["kind"], case["n"], case["k"]
    prompts = [f"prompt {i}" for i in range(k)]
    if kind == "long prompt":
        prompts = [f"{i} {big.prose(n, i)}" for i in range(k)]
    extra = {}
    want = []
    for i, p in enumerate(prompts):
        raw, clean = {
            "many": (f" c{i}", f"c{i}"), "long prompt": (f" c{i}", f"c{i}"),
            "long": (" word" * n, " ".join(["word"] * n)),
            "pieces": ("".join(f" ,w{j}" for j in range(n))[2:], ", ".join(f"w{j}" for j in range(n))),
            "bangs": (" wow" + "!" * min(n, 300) + " x", f"(wow:{round(1.1 ** min(n, 300), 2)}) x"),
            "bang words": (" " + " ".join(f"w{j}!" for j in range(n)) + " x", " ".join(f"(w{j}:1.1)" for j in range(n)) + " x"),
            "spaces": (" a" + " " * n + "b", "a" + " " * n + "b"),
            "parens": (" z (" + " " * n + "a" + " " * n + ") x", "z (a) x"),
            "braces": (" z " + "{" * n + "a" + "}" * n + " x", "z " + "(" * n + "a" + ")" * n + " x"),
            "unders": (" a " + "_" * n + " b", "a b"),
            "retries": (f" c{i}", f"c{i}"),
        }[kind]
        model.answers[p] = [raw]
        if kind == "retries":
            extra["max_attempts"] = n
            model.answers[p] = [" blocked"] * n + [raw]
        want.append(f"{p} {clean}" if kind != "spaces" else f"{p} a b")
    gen = Magic(Recorder(prompts), model_name=prefix + "m", blocklist_regex="blocked" if kind == "retries" else None, batch_size=case["batch"])
    got = gen.generate("t", k, **extra)
    expect_eq(len(got), len(want), "number of prompts", kind=kind, n=n)
    if kind == "spaces":  # (inner runs of blanks are nobody's promise)
        got = [" ".join(g.split()) for g in got]
    expect_eq(got, want, "magic prompts", kind=kind, n=n)
    return Info(n > 20 or k > 20, (kind,))


LARGE = ["many", "long prompt", "long", "pieces", "bangs", "bang words", "spaces", "parens", "braces", "unders", "retries"]
TESTS = [
    Test(
        "large",
        lambda: st.fixed_dictionaries(
            {"kind": st.sampled_from(LARGE), "n": big.size(400), "k": big.size(120), "batch": st.sampled_from([1, 4, 16])},
        ).map(lambda c: c | {"k": c["k"] if c["kind"] in ("many", "retries") else min(c["k"], 4), "n": min(c["n"], 40) if c["kind"] == "retries" else c["n"]}),
        check_large,
        quick=200,
    ),
    Test("tidy", tidy_cases, check_tidy, quick=6000),
    Test("requests", request_cases, check_requests, quick=5000),
    Test(
        "models",
        lambda: st.fixed_dictionaries(
            {
                "ops": st.lists(
                    st.tuples(st.sampled_from(["new", "new", "use", "use", "set", "fail"]), st.integers(0, 8)).map(list),
                    max_size=14,
                ),
            },
        ),
        check_models,
        quick=3000,
    ),
    Test(
        "inner generator",
        lambda: st.fixed_dictionaries(
            {
                "template": st.sampled_from(["{a|b|c}", "{a|b} x", "{{odd}}", "{2$$a|b|c}!", "plain text", "a, {b|c}."]),
                "n": st.integers(1, 8),
            },
        ),
        check_inner,
        quick=300,
    ),
]
