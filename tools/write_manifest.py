"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
S = "src/dynamicprompts/"
PARSE = (S + "parser/parse.py", S + "parser/config.py")
SAMPLERS = (S + "samplers/random.py", S + "samplers/combinatorial.py", S + "samplers/cycle.py", S + "samplers/base.py")
CTX = S + "sampling_context.py"
WM = S + "wildcards/wildcard_manager.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, applicable=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop("C01", "Parsing recovers the structure a template was written with",
     "A template written in the documented syntax (literals, variants with weights, bounds and separators, wildcards with paths and parameters, "
     "variable assignments and uses, wraps, sampler marks, nested in any way) is parsed into exactly that structure: same parts in the same order, "
     "same options, weights, bounds, separator, names, defaults, flags and marks. Bounds are put in order and limited to the number of options, and an "
     "unstated weight, separator or bound has its documented default.",
     ["inputs"], "every template of the documented grammar, at any nesting",
     "The tests parse about a hundred fixed templates; interactions of nesting, marks, bounds, separators and parameters are unbounded.",
     PARSE, [("grammar and parse actions", PARSE[0]), ("command dataclasses", S + "commands/")],
     "property-based testing: print/parse round trip of generated syntax trees",
     "Trees over the whole documented grammar are printed and parsed back; trusts the printer (tmpl.py) and the reading of docs/SYNTAX.md.")
prop("C02", "Text outside of the syntax comes through unchanged",
     "Any text free of syntax characters, in any language and with any whitespace inside it, comes out of every sampler exactly as it was written, "
     "whether it is the whole template, surrounds other parts, is an option of a variant, or is the value of a wildcard or variable.",
     ["inputs"], "every Unicode text without syntax characters, in every place of a template",
     "Tests use a few ASCII words and one or two Unicode samples; the guarantee is about all texts.",
     (*PARSE, S + "samplers/base.py", S + "sampling_result.py"), [("literal grammar and whitespace handling", PARSE[0]), ("literal sampling and joining", S + "samplers/base.py")],
     "property-based testing: identity on generated Unicode text",
     "Arbitrary Unicode minus reserved characters in several contexts and all samplers; leading whitespace of options is documented layout and excluded.")
prop("C03", "Any text is a usable template or is rejected with a parse error",
     "Parsing any text either succeeds or raises the parser's own error, without crashing, hanging or any other kind of exception. "
     "Whatever parses can be sampled with every sampler that supports it, failing only in the documented ways (undefined or self-referring variables, "
     "all-zero weights, wraps in cyclical sampling).",
     ["inputs"], "every text, well-formed or not",
     "Tests contain a handful of malformed templates; crashes and hangs hide in combinations nobody wrote down.",
     (*PARSE, *SAMPLERS), [("parse entry point and error type", PARSE[0]), ("samplers", S + "samplers/")],
     "grammar-aware fuzzing: token soup, mutated templates and arbitrary text",
     "Robustness oracle (parse or parse error; then prompts or a documented error) under a CPU watchdog of 30 s per case.")
prop("C04", "Custom delimiters only change how templates are written",
     "With custom variant, variable, wrap and wildcard delimiters, a template written with them means exactly what the same template written with the "
     "default delimiters means: same structure, same prompts from every sampler, also inside wildcard values, variable values and nested parts. "
     "The default delimiters are then plain text wherever they are no longer used.",
     ["inputs", "configurations"], "every template and every admissible set of delimiters",
     "Tests try a few delimiter sets on a few flat templates; nesting and value positions multiply them.",
     (*PARSE, CTX, WM), [("parser configuration threaded through grammar and samplers", PARSE[0]), ("wildcard wrap of the manager", WM)],
     "property-based testing: metamorphic relation between delimiter sets",
     "Same tree rendered with two delimiter sets, parsed and sampled with both and compared.")
prop("C05", "Layout and comments do not change the prompts of a template",
     "Whitespace at the start of options and values, line breaks around the parts of a variant, and comments, at the places where the syntax allows them, "
     "do not change the prompts a template yields with any sampler and seed.",
     ["inputs"], "every template and every way of laying it out",
     "Tests have a few multi-line examples; the placement of layout and comments is unbounded.",
     PARSE, [("comment and whitespace handling of the grammar", PARSE[0])],
     "property-based testing: metamorphic relation (insert layout, compare prompts)",
     "A template is written compactly and with layout inserted at documented places; both must give the same prompts.")
prop("C06", "Combinatorial generation enumerates exactly the combinations",
     "Combinatorial generation yields every combination of a template's choices exactly as often as the template implies, none missing, none invented, in "
     "order: the last part varies fastest, options in the order written, wildcard values in their sorted order. "
     "Variants with bounds contribute every ordered selection without repetition of each allowed size; wildcard values count as often as their integer weight says, but at least once.",
     ["inputs"], "every template with finitely many combinations, and all wildcard contents",
     "Tests enumerate a few small templates; nested selections, wildcards in options and wraps interact in unlimited ways.",
     (SAMPLERS[1], S + "samplers/utils.py", S + "wildcards/values.py"), [("combinatorial sampler", SAMPLERS[1]), ("weights of wildcard values", S + "wildcards/values.py")],
     "property-based testing against a reference enumerator",
     "Ordered comparison with an independent recursive enumerator for templates of up to 500 combinations.")
prop("C07", "Limits cut the enumeration off after its first prompts, at low cost",
     "A combinatorial run limited to k prompts returns exactly the first k prompts of the unlimited run (all of them if there are fewer), 1000 by default and all without a limit. "
     "The cost depends on k, not on the number of combinations, so templates with astronomically many combinations still answer at once.",
     ["inputs"], "every template, however many combinations it has, and every limit",
     "Tests limit a few small templates; laziness only shows on enormous ones.",
     (SAMPLERS[1], CTX, S + "generators/combinatorial.py", S + "generators/batched_combinatorial.py"), [("lazy generators and the limit", CTX), ("combinatorial generator", S + "generators/combinatorial.py")],
     "property-based testing: prefix relation and lazily computed expectations on enormous templates",
     "Prefix law against the reference, plus templates with up to 10^60 combinations whose first prompts are computed lazily.")
prop("C08", "Random generation returns as many prompts as asked for, all possible",
     "Random generation of n prompts returns exactly n prompts, and each of them is one the template allows: built from its options, wildcard values and variables, "
     "with nothing missing, doubled or left unexpanded. Options of weight zero never appear.",
     ["inputs"], "every template, wildcard contents, number of prompts and seed",
     "Tests mock the random choices or look at one or two templates; whether every drawn prompt belongs to the template's language is a statement about all of them.",
     (SAMPLERS[0], S + "generators/randomprompt.py", S + "utils.py"), [("random sampler", SAMPLERS[0]), ("choice without replacement", S + "utils.py")],
     "property-based testing: membership in a reference language",
     "Every prompt drawn must be in the set computed by an independent reference.")
prop("C09", "Random choices follow the stated weights, independently",
     "In random sampling every option, selection size and wildcard value occurs with the probability its weight states (equal weights: uniformly), also after other options were "
     "already selected, and choices of different parts and of successive prompts are independent of each other.",
     ["inputs", "histories"], "every set of weights and every seed",
     "A unit test draws one sample or replaces the random source; frequencies need thousands of draws and a statistical criterion.",
     (SAMPLERS[0], S + "utils.py", S + "wildcards/values.py"), [("weighted choice", SAMPLERS[0]), ("choice without replacement", S + "utils.py"), ("weights of wildcard values", S + "wildcards/values.py")],
     "property-based statistical testing against exact probabilities",
     "Frequencies within 7.5 standard deviations of exact probabilities, seeds fixed, so a false alarm has probability below 1e-9 per case.")
prop("C10", "Choosing several values: as many as asked for, none twice, joined as asked",
     "A variant with bounds picks a number of options within its bounds (limited to what there is, in either order, with omitted bounds meaning one and all, zero meaning possibly none), never the same "
     "option twice in one prompt, joined by its separator (a comma by default). "
     "The same holds when the only option is a wildcard, whose values are then chosen from, weighted or not, in every sampler.",
     ["inputs"], "all options, bounds, separators, weights, samplers and seeds",
     "Tests cover some bounds with two or three options; the off-by-one cases lie at the edges of bounds, options and separators.",
     (*SAMPLERS, S + "samplers/utils.py", S + "utils.py", S + "commands/variant_command.py"), [("selection of several options", SAMPLERS[0]), ("wildcard as the only option", S + "samplers/utils.py"), ("bounds", PARSE[0])],
     "property-based testing: validity predicate plus exact enumeration",
     "Every prompt is split at its separator and checked; all sizes and all selections must occur in enumeration.")
prop("C11", "Cyclical sampling goes through the values in order, in step, endlessly",
     "Cyclical sampling yields value number i (counting round and round) of every part in prompt number i: options in the order written, wildcard values in sorted order, parts of different "
     "lengths in step with each other, nested parts advancing each time they are used. It never ends on its own.",
     ["inputs"], "every template and number of prompts",
     "Tests look at the first few prompts of a few templates.",
     (SAMPLERS[2], SAMPLERS[3], S + "samplers/command_collection.py"), [("cyclical sampler", SAMPLERS[2]), ("round robin over options", S + "samplers/command_collection.py")],
     "property-based testing against a reference cycle",
     "First prompts of the endless stream compared with an independent reference.")
prop("C12", "Explicit sampler marks apply to exactly the part that carries them",
     "A part marked as random, combinatorial or cyclical is sampled that way, whatever the default sampler and wherever the part stands (in place, as a variable's value or default), and the other parts are not "
     "affected: in combinatorial runs unmarked and combinatorial parts are enumerated completely, cyclical parts advance with every prompt of the text they stand in (inside a chosen option, or behind another enumerated part, a cycle starts anew), random parts are drawn. "
     "A combinatorial mark within an endless sampler uses that sampler instead, and a template with parts beside it is finite exactly if its default sampler is combinatorial; a template that is nothing but one marked part runs as the mark says. Values given for unknown variables are sampled in the same way.",
     ["inputs", "configurations"], "every mixture of marks and default samplers",
     "Tests have a few mixtures; nesting of marks in marks is unlimited.",
     (*SAMPLERS, CTX), [("choice of sampler per command", CTX), ("mixed sequences", SAMPLERS[1])],
     "property-based testing: piecewise matching against per-part references",
     "Each prompt is matched piece by piece with enumeration order, cycle position or set of possible values.")
prop("C13", "A generator's seed determines its prompts, whatever else happens",
     "Two random generators with the same seed given the same calls return the same prompts, regardless of other generators, global random numbers or anything else used in between, and without touching the "
     "global random state. Different seeds give different streams, successive calls continue the stream, and unseeded or unlinked generators are not reproducible through the global seed.",
     ["histories", "inputs"], "every seed (including zero), template and interleaving of calls",
     "Tests fix one seed and one template and call once or twice.",
     (S + "generators/randomprompt.py", SAMPLERS[0], CTX, S + "constants.py"), [("own random source per generator", S + "generators/randomprompt.py"), ("random source passed through the context", CTX)],
     "property-based testing: replayed call histories with disturbances",
     "Histories are replayed with and without unrelated activity and compared.")
prop("C14", "Per-prompt seeds: each prompt depends on its own seed only",
     "When a list of seeds is given for a batch, the prompt at each position is the one that its seed (including zero) alone would give, independent of position, of the other seeds, of the generator's own seed "
     "and of earlier calls, also with weighted wildcards. Different seeds, however large, give independent prompts; a single seed counts for all prompts, a wrong number of seeds is an error, and no seeds means a plain run.",
     ["inputs", "histories"], "every template and list of seeds",
     "Tests check that the random source was seeded with the given numbers, on fixed templates.",
     (S + "generators/randomprompt.py", SAMPLERS[0], S + "wildcards/values.py"), [("reseeding before every prompt", S + "generators/randomprompt.py"), ("random sampler draws lazily", SAMPLERS[0])],
     "property-based testing: batch against single prompts",
     "Immediate assignments and computed wildcard names are evaluated once per call by design and are left out of the templates here.")
prop("C15", "Variables: what is assigned is what is used, as often as stated",
     "A variable stands for the value assigned to it in the prompt, else for its default, else for the context's fallback value, else it is an error naming it. Plain assignments are evaluated at every use, immediate ones once per prompt run so that "
     "all uses agree; an assignment that must not overwrite only takes effect if the variable has no value yet; later assignments see earlier ones and replace them. "
     "Assignments themselves leave no text, and values reach uses inside variants, wraps and wildcard values.",
     ["inputs"], "all assignments and uses, nested in any way, under every sampler",
     "Tests have a few single-variable templates.",
     (CTX, S + "samplers/base.py", S + "commands/variable_commands.py", PARSE[0]), [("assignment processing", CTX), ("variable access", S + "samplers/base.py")],
     "property-based testing against reference semantics",
     "Compared with an independent evaluator under all samplers.")
prop("C16", "Parameters reach the wildcard they are passed to, and nothing else",
     "Parameters passed to a wildcard are the values of those variables inside its values (over defaults, outer variables and keeping assignments), all the way down into wildcards used there, and are gone "
     "after it: other parts of the prompt are unaffected. This holds also when the wildcard is the only option of a variant, is chosen several times or has a computed name.",
     ["inputs"], "all wildcards with parameters, nested in any way, under every sampler",
     "Tests pass one literal parameter to one wildcard.",
     (*SAMPLERS, S + "samplers/utils.py", S + "commands/wildcard_command.py", PARSE[0]), [("variables of a wildcard command", S + "commands/wildcard_command.py"), ("contexts with variables", CTX)],
     "property-based testing against reference semantics",
     "Compared with an independent evaluator under all samplers.")
prop("C17", "Self-referring definitions are reported, all others work",
     "Sampling a variable whose value needs itself, directly or through others, raises a recursion error instead of hanging, and so does sampling a wildcard that cannot be expanded without itself, in every sampler. "
     "Any set of definitions without a cycle works, however deeply or often definitions are shared.",
     ["inputs"], "every graph of definitions",
     "Tests have one self-referring variable.",
     (CTX, S + "samplers/base.py", SAMPLERS[1]), [("set of variables being sampled", CTX)],
     "property-based testing: recursion decided on generated definition graphs",
     "Cycles are decided on the graph; acyclic graphs must give the reference prompts.")
prop("C18", "Wrapping puts the inner prompt where the ellipsis is, nothing else",
     "A wrap yields the wrapper's text with its first ellipsis (three or more dots, or an ellipsis character) replaced by the inner text, or the inner text appended if it has none; text around it stays as it is. "
     "Wrapper and inner part may be any template; each prompt combines one prompt of each, in combinatorial runs all of them.",
     ["inputs"], "all wrappers and inner parts",
     "Tests wrap a few literals.",
     (S + "commands/wrap_command.py", S + "sampling_result.py", SAMPLERS[0], SAMPLERS[1], PARSE[0]), [("splitting at the ellipsis", S + "commands/wrap_command.py"), ("wrapping results", S + "sampling_result.py")],
     "property-based testing against a reference",
     "Texts made of dots, ellipsis characters and other text, in place, as variants, wildcards, variables and nested wraps.")
prop("C19", "Wildcards stand for their values; unknown ones for themselves",
     "A wildcard gives exactly the prompts of the variant of its values, evaluated as templates, in every place it may be used in and by every sampler. A wildcard without values stands for its own text (with the configured wrap), once, "
     "in every place, so that a prompt is never lost, endless or a crash because of it.",
     ["inputs"], "all templates and wildcard contents, known and unknown",
     "Tests mock the wildcard manager for a few templates.",
     (*SAMPLERS, S + "samplers/utils.py", WM), [("wildcard sampling and fallback", S + "samplers/utils.py"), ("values from the manager", WM)],
     "property-based testing: metamorphic relation (wildcard against written-out variant) and reference",
     "Wildcards are replaced by variants of their values; unknown wildcards by literal text; prompts must agree.")
prop("C20", "Wildcard names and patterns find exactly the collections they describe",
     "A wildcard name gives the values of the collection of that name, or if there is none, of the collections of that name in any directory below; a pattern (*, ?, character sets) gives the merged values of exactly the collections whose names match it. "
     "Names may be wrapped or not and use either slash; values come sorted and without duplicates.",
     ["inputs", "configurations"], "all trees of collections and all names and patterns",
     "Tests look up a dozen names in one fixed tree.",
     (WM, S + "wildcards/utils.py", S + "wildcards/tree/node.py", S + "wildcards/tree/tree.py", S + "utils.py"), [("name cleaning and matching", S + "wildcards/utils.py"), ("tree walk", S + "wildcards/tree/node.py")],
     "property-based testing against an independent resolver",
     "Own glob implementation over generated trees; values, matches and prompts compared.")
prop("C21", "Wildcard files are read as documented: text, JSON and YAML",
     "Every non-blank, non-comment line of a text file, trimmed, and every string of a JSON or YAML file, at the name given by its path in the file, is a value, in any language and with any line ends; in JSON and YAML, weights are taken from both spellings (a prefix of the text, or an entry with text and weight). "
     "Entries of other kinds, or with unreadable text or weight, are ignored without losing the rest, and a broken file does not make other collections unavailable.",
     ["inputs"], "all contents of text, JSON and YAML files",
     "Tests read a few small fixtures.",
     (S + "wildcards/collection/text_file.py", S + "wildcards/collection/structured.py", S + "wildcards/collection/list.py", S + "wildcards/collection/base.py", S + "wildcards/item.py", S + "wildcards/tree/build.py"),
     [("text files", S + "wildcards/collection/text_file.py"), ("structured files", S + "wildcards/collection/structured.py"), ("items with weights", S + "wildcards/item.py")],
     "property-based testing: files written from generated contents, read back",
     "An independent reading of what was written; files live in a scratch directory.")
prop("C22", "Wildcard manager settings take effect at once, caching is never noticed",
     "Whatever was asked before, a wildcard lookup answers according to the present settings (sorted or not, duplicates removed or kept, shuffled or not) and the present contents once the cache was cleared; shuffling changes the order only, and turning it off restores it. "
     "Lookups never change what other lookups or earlier results show.",
     ["histories", "configurations"], "every history of lookups, setting changes, file edits and cache clearing",
     "Tests use a fresh manager per case and one setting.",
     (WM, S + "wildcards/values.py", S + "wildcards/collection/base.py"), [("value cache and its key", WM), ("settings", WM)],
     "stateful property-based testing against a stateless model",
     "Generated histories; every answer compared with a model that has no cache.")
prop("C23", "Wildcards never reach outside the directories they were configured with",
     "No wildcard name or pattern in a template, lookup or Jinja call gives contents of a file that is not a text, JSON or YAML file below a configured directory (hidden directories excluded), or opens any file outside it: not by parent references, absolute paths, backslashes or odd patterns.",
     ["inputs", "configurations"], "all names and patterns, all directory layouts",
     "Tests never try to get out.",
     (WM, S + "wildcards/utils.py", S + "wildcards/tree/build.py"), [("collections found by walking configured roots only", S + "wildcards/tree/build.py"), ("name cleaning", S + "wildcards/utils.py")],
     "property-based testing with an observer of opened files",
     "Runs on scratch directories; the harness only reads, and an audit hook records what is opened.")
prop("C24", "Several wildcard roots act as one tree, computed names like written ones",
     "With several roots (directories, maps in memory) under the same or different prefixes, every collection is found under prefix and name (the later root wins where two define the same name, missing directories are skipped), and a wildcard whose name contains variables, parameters or choices "
     "refers to the collections of the name that results, as if it had been written out. The set of collection names is exactly those.",
     ["configurations", "inputs"], "all root maps and all computed names",
     "Tests have one root map.",
     (WM, S + "wildcards/tree/build.py", S + "wildcards/tree/node.py", *SAMPLERS[:3], PARSE[0]), [("tree from root map", S + "wildcards/tree/build.py"), ("computed paths", PARSE[0])],
     "property-based testing against a merged model",
     "Model: all roots by full name, later ones overriding.")
prop("C25", "Jinja template functions return what they promise for any arguments",
     "In Jinja templates, a random choice is one of the given items, weighted choices follow the weights, random integers lie within the inclusive bounds, permutations are all ordered selections within the sizes, wildcards give all values, and the combinatorial and random functions give "
     "the prompts that the corresponding generator gives for the template, with the configured wildcards and delimiters.",
     ["inputs"], "all arguments of the template functions",
     "Tests call each function once or twice, often mocked.",
     (S + "jinja_extensions.py", S + "generators/jinjagenerator.py"), [("template functions", S + "jinja_extensions.py")],
     "property-based testing: exact, set-valued and statistical oracles",
     "Deterministic functions exactly, random ones by membership, coverage and frequency.")
prop("C26", "Jinja templates yield their prompt blocks, or their text, as often as asked",
     "A Jinja template asked for n times yields, in order, the texts of all prompt blocks reached in each rendering, or its whole text if it has none, cut off at n only if limiting was asked for, squashed only if ignoring whitespace was; context values are available and left alone, calls do not influence each other. "
     "Syntax errors are reported as generator errors.",
     ["inputs", "histories"], "all Jinja templates, contexts, numbers and settings",
     "Tests have a few templates with fixed loops.",
     (S + "generators/jinjagenerator.py", S + "jinja_extensions.py"), [("prompt blocks", S + "jinja_extensions.py"), ("rendering and collecting", S + "generators/jinjagenerator.py")],
     "property-based testing: templates generated together with their expected prompts",
     "An independent evaluator of the generated template trees.")
prop("C27", "Attention is added to one phrase of a prompt, and nothing else changes",
     "The attention generator returns each inner prompt, in order, with one of its phrases (a stretch between punctuation, not a mere number or symbol) put in parentheses with a weight within the configured range, rounded to two digits, and no other change; "
     "occurrences inside longer words are left alone. Prompts without phrases are returned as they are, and every phrase and weight may be picked.",
     ["inputs", "configurations"], "all prompts and ranges",
     "Tests mock the choice for one prompt.",
     (S + "generators/attentiongenerator.py",), [("phrases and emphasis", S + "generators/attentiongenerator.py")],
     "property-based testing: inverse (remove the emphasis, compare) and coverage",
     "Decides the built-in phrase finder; the optional spacy one is not installed here.")
prop("C28", "Magic prompts continue their own prompt, tidied up, avoiding what is blocked",
     "The magic prompt generator returns one prompt per inner prompt, in order, starting with the inner prompt unchanged, followed by the model's continuation with its punctuation, brackets, hyphens and bangs tidied as documented. Prompts matching the block list are regenerated from their own inner prompt, "
     "and only those, until they no longer match or the attempts are used up. Settings and seed reach the model, each generator uses the model it was set to, and loading is repeated only when needed, also after a failure.",
     ["inputs", "histories", "fault_sequences"], "all prompts, continuations, block lists, settings and histories of generators",
     "Tests use one fixed continuation and mock everything else.",
     (S + "generators/magicprompt.py",), [("clean-up", S + "generators/magicprompt.py"), ("regeneration of blocked prompts", S + "generators/magicprompt.py"), ("shared model", S + "generators/magicprompt.py")],
     "stateful and property-based testing with a scripted stand-in for the model",
     "The transformers library is replaced by a stand-in (not installed here), with injected load failures.")
prop("C29", "Feeling lucky asks for what the prompt says and reports failures",
     "The query sent to the search service is exactly the (first) prompt of the inner generator, whatever characters it contains, or a random number if that is blank; the result has as many prompts as asked for, all from the answer, any of them possible. "
     "Every failure of the service (no connection, error status, malformed or empty answer) is reported as a generator error.",
     ["inputs", "fault_sequences"], "all queries, numbers, answers and failures",
     "Tests mock one good answer and one error.",
     (S + "generators/feelinglucky.py",), [("request and choice of prompts", S + "generators/feelinglucky.py")],
     "property-based testing with injected service answers and failures",
     "The network is replaced below the HTTP library, so the actual request is observed.")
prop("C30", "Ignoring whitespace squashes finished prompts and changes nothing else",
     "With whitespace ignored, every generator returns the same prompts in the same order and number as without, for the same seeds, except that in each prompt every run of whitespace is one space and there is none at the ends. By default whitespace is kept.",
     ["inputs", "configurations"], "all templates, wildcard contents, generators and seeds",
     "Tests squash one template.",
     (CTX, S + "sampling_result.py", S + "utils.py", S + "generators/randomprompt.py", S + "generators/combinatorial.py"), [("squashing of finished prompts", CTX), ("squash function", S + "utils.py")],
     "property-based testing: metamorphic relation (with and without)",
     "Own squash function applied to the prompts generated without the setting.")
prop("C31", "What was generated before never shows in later prompts",
     "Combinatorial and cyclical results of shared generators, contexts, wildcard managers and parsed templates are the same as those of fresh ones, whatever was generated with them before, by whom, in whatever order, and however far earlier results were consumed; results being consumed alternately do not influence each other. "
     "Parsing and sampling never change a parsed template, which can be used in place of its text.",
     ["histories", "inputs"], "every history of operations on shared objects",
     "Tests use fresh objects and consume results completely.",
     (CTX, *SAMPLERS, S + "commands/", WM), [("immutable commands and contexts", S + "commands/"), ("stateless samplers", S + "samplers/")],
     "stateful property-based testing: shared objects against fresh ones",
     "Generated histories with partly consumed, interleaved results.")
prop("C32", "Generators compose: batches repeat the inner generator, the dummy the template",
     "A batched generator returns the results of calling its inner generator once per batch with the given template, limit and other arguments, in order; with combinatorial prompts that is the same list over and over, with random prompts it continues the stream. "
     "The dummy generator returns the template itself as often as asked for.",
     ["inputs", "configurations"], "all templates, numbers of batches and arguments, stacked in any way",
     "Tests use one mocked inner generator.",
     (S + "generators/batched_combinatorial.py", S + "generators/dummygenerator.py"), [("batches", S + "generators/batched_combinatorial.py"), ("dummy", S + "generators/dummygenerator.py")],
     "property-based testing: composition against direct calls",
     "Recording and real inner generators.")

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": list(dict.fromkeys(p["files"])), "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }, ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import dynamicprompts\" && ./check --selftest",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"] + " Generated-input search: shows presence, not absence, of violations.",
        }
        for p in P
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: every check uses the public API of the working tree in /repo/src. See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
