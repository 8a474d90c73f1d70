From 1188f0b433a48639cbd223b334f643bffe4dd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:29 +0000
Subject: [PATCH 01/43] fix: keep weights aligned with values when choosing
 without replacement

---
 src/dynamicprompts/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..b513067 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -88,12 +88,13 @@ def choose_without_replacement(
     if len(values) == 0:
         return []
     elif len(values) == 1:
-        return values
+        return values[:num_choices]
     else:
         chosen_values = []
         for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
+            # Choose by position, so a value and its own weight are dropped together
+            # even if other values happen to have the same weight (or are equal).
+            index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+            chosen_values.append(values.pop(index))
+            weights.pop(index)
         return chosen_values
-- 
2.43.0


From 7bca439f79cb56ecc6d1d715cffccf7a76eaf494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:50 +0000
Subject: [PATCH 02/43] fix: respect a zero lower bound for single-option
 variants in random sampling

---
 src/dynamicprompts/samplers/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..6d7f996 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -78,11 +78,12 @@ class RandomSampler(Sampler):
                 )
 
                 yield from self._get_variant(wildcard_variant, context)
-            else:
+                return
+            elif command.min_bound > 0:
                 yield from context.generator_from_command(
                     command.values[0],
                 )
-            return
+                return
         while True:
             command = command.adjust_range()
 
-- 
2.43.0


From 71a530c080dfc27f3f496aebf0965c1956b6b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:25 +0000
Subject: [PATCH 03/43] fix: fall back to the wildcard text for missing
 wildcards inside variants

---
 src/dynamicprompts/samplers/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 25ec8bb..0e51814 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -4,6 +4,7 @@ import logging
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     VariantOption,
     WildcardCommand,
@@ -26,13 +27,18 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    min_bound = min(min_bound, len(values))
-    max_bound = min(max_bound, len(values))
+    if not values:
+        # Nothing to choose from: the only option is the not-found fallback
+        fallback = next(get_wildcard_not_found_fallback(command, context))
+        variant_options = [VariantOption(LiteralCommand(fallback.text))]
+    else:
+        variant_options = [
+            VariantOption(parse(v, parser_config=context.parser_config))
+            for v in values.iterate_string_values_weighted()
+        ]
 
-    variant_options = [
-        VariantOption(parse(v, parser_config=context.parser_config))
-        for v in values.iterate_string_values_weighted()
-    ]
+    min_bound = min(min_bound, len(values) or 1)
+    max_bound = min(max_bound, len(values) or 1)
 
     wildcard_variant = VariantCommand(
         variant_options,
-- 
2.43.0


From 886bdc810638a7590b07dda1fa4428c2633a00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:07 +0000
Subject: [PATCH 04/43] fix: yield a missing wildcard once in combinatorial
 sampling

---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..81695d4 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -148,7 +148,8 @@ class CombinatorialSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
-            yield from get_wildcard_not_found_fallback(command, context)
+            # There is exactly one combination for a wildcard with no values
+            yield next(get_wildcard_not_found_fallback(command, context))
             return
 
         for val in values.iterate_string_values_weighted():
-- 
2.43.0


From 3563bf9dca0e6e595d1be1136e21fd070a98761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:13 +0000
Subject: [PATCH 05/43] fix: pass wildcard parameters to the values of a
 wildcard that is a variant's only option

---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 81695d4..70b5d89 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..af78dc0 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 6d7f996..72e4690 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -77,7 +77,10 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(command.values[0].variables),
+                )
                 return
             elif command.min_bound > 0:
                 yield from context.generator_from_command(
-- 
2.43.0


From 2414f7e70d74aa657ed6cd005988437ca3391055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 06/43] fix: don't drop wildcard values with fractional weights
 in non-random sampling

---
 src/dynamicprompts/wildcards/values.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..45644eb 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -93,13 +93,15 @@ class WildcardValues:
         """
         Iterate over the string values, repeating each one according to its weight.
 
-        Decimal weights are truncated down to integers.
+        Decimal weights are truncated down to integers, but
+        values with a weight between 0 and 1 still occur once.
         """
         # TODO: right now this does repeat each item according to weight,
         #       e.g. `A A A B B C [...]`, but maybe it should do `A B C A B A [...]` instead?
         for item in self.items:
             weight = getattr(item, "weight", 1)
-            for _ in range(int(weight)):
+            repeats = max(1, int(weight)) if weight > 0 else 0
+            for _ in range(repeats):
                 yield str(item)
 
     def get_weighted_random_generator(self, rng: random.Random) -> Iterator[str]:
-- 
2.43.0


From 8cac8407ac779eb2a078a8530bc39f443c8e2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:50 +0000
Subject: [PATCH 07/43] fix: never repeat a weighted wildcard's value when
 randomly choosing several

---
 src/dynamicprompts/samplers/random.py |  1 +
 src/dynamicprompts/samplers/utils.py  | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 72e4690..573660e 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -75,6 +75,7 @@ class RandomSampler(Sampler):
                     min_bound=command.min_bound,
                     max_bound=command.max_bound,
                     separator=command.separator,
+                    repeat_weighted=False,
                 )
 
                 yield from self._get_variant(
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 0e51814..9855048 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -24,18 +24,33 @@ def wildcard_to_variant(
     min_bound=1,
     max_bound=1,
     separator=",",
+    repeat_weighted=True,
 ) -> VariantCommand:
+    """
+    Convert a wildcard to a variant with one option per value.
+
+    If `repeat_weighted` is set, weighted values become repeated options;
+    otherwise they become a single option that carries the value's weight.
+    """
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
     if not values:
         # Nothing to choose from: the only option is the not-found fallback
         fallback = next(get_wildcard_not_found_fallback(command, context))
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
-    else:
+    elif repeat_weighted:
         variant_options = [
             VariantOption(parse(v, parser_config=context.parser_config))
             for v in values.iterate_string_values_weighted()
         ]
+    else:
+        variant_options = [
+            VariantOption(
+                parse(str(v), parser_config=context.parser_config),
+                weight=getattr(v, "weight", 1.0),
+            )
+            for v in values
+        ]
 
     min_bound = min(min_bound, len(values) or 1)
     max_bound = min(max_bound, len(values) or 1)
-- 
2.43.0


From a989dfd1005b3c638933798061b8f94b75e3ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:56 +0000
Subject: [PATCH 08/43] fix: only pre-sample non-finite commands in
 combinatorial sequences

---
 src/dynamicprompts/samplers/combinatorial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 70b5d89..11a854f 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -57,7 +57,9 @@ class CombinatorialSampler(Sampler):
     ) -> ResultGen:
         tokens, context = context.process_variable_assignments(command.tokens)
         non_combo_commands = [
-            c for c in tokens if c.sampling_method != SamplingMethod.COMBINATORIAL
+            c
+            for c in tokens
+            if context.get_effective_sampling_method(c).is_nonfinite()
         ]
         command_collection = CommandCollection(
             non_combo_commands,
-- 
2.43.0


From 2f513f08a4cae1747ca43903d22f2216dbcabd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:03 +0000
Subject: [PATCH 09/43] fix: keep separate state for equal commands in a
 combinatorial sequence

---
 src/dynamicprompts/samplers/command_collection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..2c6ec63 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -19,10 +19,16 @@ class CommandCollection:
         self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
 
     def get_value(self, command: Command) -> SamplingResult | None:
-        try:
-            index = self._commands.index(command)
-        except ValueError:
-            raise ValueError(f"Command {command} not in collection") from None
+        # Equal commands may occur more than once (each with a state of its own),
+        # so prefer the very same object over an equal one.
+        for index, candidate in enumerate(self._commands):
+            if candidate is command:
+                break
+        else:
+            try:
+                index = self._commands.index(command)
+            except ValueError:
+                raise ValueError(f"Command {command} not in collection") from None
 
         generator = self._generators[index]
         value = self._values[index]
-- 
2.43.0


From 760d6eba7bf9715720382d4037146e8ebeb74353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:23 +0000
Subject: [PATCH 10/43] fix: let variable assignments see earlier assignments
 of the same prompt

---
 src/dynamicprompts/sampling_context.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..83c755e 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -147,16 +147,16 @@ class SamplingContext:
         If there are no variable assignments,
         the original commands and context are returned as-is.
         """
-        new_variables: dict[str, Command] = {}
+        context = self
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Assignments see the ones that came before them
+                value = context.process_variable_assignment(command)
+                context = context.with_variables({command.name: value})
             else:
                 new_commands.append(command)
-        if new_variables:
-            return new_commands, self.with_variables(new_variables)
-        return (new_commands, self)
+        return (new_commands, context)
 
     def process_variable_assignment(
         self,
-- 
2.43.0


From 5b1cf8abb4860c0f48ce1ca0a01d3c8849551e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:31 +0000
Subject: [PATCH 11/43] fix: accept empty variable values and defaults

---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..7472143 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -93,7 +93,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 3c6f5a67010b2267342929b8d39cc3c907147a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:54 +0000
Subject: [PATCH 12/43] fix: sample empty commands, e.g. an empty wrap side, as
 an empty string

---
 src/dynamicprompts/sampling_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 83c755e..916152d 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -110,7 +110,7 @@ class SamplingContext:
         :param prompt: The prompt template to generate prompts from.
         :param num_prompts: How many prompts to generate (at most). If None, generate all possible prompts.
         """
-        if not prompt:
+        if not prompt and not isinstance(prompt, Command):
             return []
         command: Command
         if isinstance(prompt, str):
-- 
2.43.0


From dfd0694053221aeb1aad70b76318cf511b036b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:03 +0000
Subject: [PATCH 13/43] fix: sample a prompt consisting of only a variable
 assignment as an empty string

---
 src/dynamicprompts/samplers/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index 7472143..5b56df0 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -39,9 +39,9 @@ class Sampler:
         if isinstance(command, WildcardCommand):
             return self._get_wildcard(command, context)
         if isinstance(command, VariableAssignmentCommand):
-            raise NotImplementedError(
-                "VariableAssignmentCommand should never be sampled",
-            )
+            # Assignments within sequences are never sampled, so this
+            # is a prompt that has nothing but this assignment in it.
+            return self._get_literal(LiteralCommand(""), context)
         if isinstance(command, VariableAccessCommand):
             return self._get_variable(command, context)
         if isinstance(command, WrapCommand):
-- 
2.43.0


From 0fc89a2c6a12eaa5fecc910efab36600357b5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 14/43] fix: don't ignore a seed of zero

---
 src/dynamicprompts/generators/randomprompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..66f29bc 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -54,7 +54,7 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
+        if seeds is not None and seeds != []:
             if isinstance(seeds, int):
                 seeds = [seeds]
 
-- 
2.43.0


From 5b150bf79042dfdead6c322c7a95adb8c78831fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 15/43] fix: don't crash when an empty template is generated
 with seeds

---
 src/dynamicprompts/generators/randomprompt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 66f29bc..66893e2 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import islice
 from random import Random
 
 from dynamicprompts.commands.base import SamplingMethod
@@ -64,11 +65,12 @@ class RandomPromptGenerator(PromptGenerator):
             if len(seeds) != num_images:
                 raise ValueError(f"Expected {num_images} seeds, but got {len(seeds)}")
 
-            gen = self._context.sample_prompts(template, num_images)
+            gen = iter(self._context.sample_prompts(template, num_images))
             prompts = []
             for seed in seeds:
                 self._context.rand.seed(seed)
-                prompts.append(str(next(iter(gen))))
+                # (an empty template has no prompts at all)
+                prompts.extend(str(p) for p in islice(gen, 1))
         else:
             prompts = [
                 str(p) for p in self._context.sample_prompts(template, num_images)
-- 
2.43.0


From d650c7ea154ec772fd109e0ceb69ae91224d5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:56 +0000
Subject: [PATCH 16/43] fix: make weighted wildcards follow per-prompt seeds

---
 src/dynamicprompts/wildcards/values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 45644eb..91e121f 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -117,10 +117,10 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # Only ever draw the value that's asked for: drawing ahead would
+                # leave values unaffected by the generator being re-seeded.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
+                    k=1,
                 )
-- 
2.43.0


From cf8a91d67a5bd828c7f6acedec0b5513e54a36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 17/43] fix: don't cache unsorted values while shuffling
 wildcards

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..1c64a3d 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -196,7 +196,7 @@ class WildcardManager:
         if self.dedup_wildcards:
             wildcards = list(dict.fromkeys(wildcards, None))
 
-        if self.sort_wildcards and not self.shuffle_wildcards:
+        if self.sort_wildcards:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
-- 
2.43.0


From 3b843ac4706c446ee7c48c6431d481b1c262d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:32 +0000
Subject: [PATCH 18/43] fix: find wrapped wildcards recursively too

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 1c64a3d..a975b4b 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.parser.config import default_parser_config
+from dynamicprompts.utils import removeprefix
 from dynamicprompts.wildcards.collection import WildcardCollection
 from dynamicprompts.wildcards.item import WildcardItem
 from dynamicprompts.wildcards.tree import (
@@ -179,7 +180,7 @@ class WildcardManager:
             values.extend(f.get_values())
         if not values and not wildcard.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
-            rec_wildcard = f"**/{wildcard}"
+            rec_wildcard = f"**/{removeprefix(wildcard, self._wildcard_wrap)}"
             rec_colls = list(self.match_collections(rec_wildcard))
             for f in rec_colls:
                 values.extend(f.get_values())
-- 
2.43.0


From ec7a74ed80e12b9d2166cc00b7fbc7380f9054f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 19/43] fix: escape the query of the feeling lucky generator

---
 src/dynamicprompts/generators/feelinglucky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 31adc3f..cf6f456 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import random
+from urllib.parse import quote
 
 from dynamicprompts.generators.dummygenerator import DummyGenerator
 from dynamicprompts.generators.promptgenerator import (
@@ -21,7 +22,7 @@ def query_lexica(query) -> dict:
             "Install with `pip install dynamicprompts[feelinglucky]` or "
             "`pip install requests`",
         ) from ie
-    url = f"https://lexica.art/api/v1/search?q={query}"
+    url = f"https://lexica.art/api/v1/search?q={quote(query, safe='')}"
     logger.info(f"Requesting {url}")
     response = requests.get(url)
     response.raise_for_status()
-- 
2.43.0


From 454311aea063ec741cda1ee77cb87c863c3de8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:07 +0000
Subject: [PATCH 20/43] fix: don't hang or drop prompts when choosing several
 of equal options

---
 .../commands/variant_command.py               | 20 ++++++++++++++++---
 src/dynamicprompts/samplers/utils.py          |  8 ++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..af7c056 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -49,8 +49,15 @@ class VariantCommand(Command):
         return [p.value for p in self.variants]
 
     def adjust_range(self) -> VariantCommand:
-        min_bound = min(self.min_bound, len(self.values))
-        max_bound = min(self.max_bound, len(self.values))
+        # Count the values that `get_value_combinations` can combine
+        num_values = len(
+            {
+                v if isinstance(v, LiteralCommand) else id(v)
+                for v in (variant.value for variant in self.variants)
+            },
+        )
+        min_bound = min(self.min_bound, num_values)
+        max_bound = min(self.max_bound, num_values)
         return dataclasses.replace(self, min_bound=min_bound, max_bound=max_bound)
 
     @classmethod
@@ -87,6 +94,13 @@ class VariantCommand(Command):
             yield []
         else:
             for value in values:
-                other_values = [v for v in values if v != value]
+                # Equal literals are the same value, but other equal commands are
+                # sampled independently, so they can be combined with each other.
+                other_values = [
+                    v
+                    for v in values
+                    if v is not value
+                    and not (isinstance(v, LiteralCommand) and v == value)
+                ]
                 for item in self.get_value_combinations(k - 1, values=other_values):
                     yield [value] + item
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 9855048..1d11d48 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -39,9 +39,13 @@ def wildcard_to_variant(
         fallback = next(get_wildcard_not_found_fallback(command, context))
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
     elif repeat_weighted:
+        # Repeated options share their command, so they won't be combined together
+        commands = {
+            v: parse(v, parser_config=context.parser_config)
+            for v in values.string_values
+        }
         variant_options = [
-            VariantOption(parse(v, parser_config=context.parser_config))
-            for v in values.iterate_string_values_weighted()
+            VariantOption(commands[v]) for v in values.iterate_string_values_weighted()
         ]
     else:
         variant_options = [
-- 
2.43.0


From 46e87145efe1b6d562f62fab5cfe9c5308f6ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 21/43] fix: preserve tabs in prompts

---
 src/dynamicprompts/parser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..aa789b2 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -520,6 +520,9 @@ def create_parser(
     variant_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
+
+    # Preserve tabs too; by default pyparsing expands them to spaces.
+    prompt.parse_with_tabs()
     return prompt
 
 
-- 
2.43.0


From 0f99a9dae30a6f8ae3e32c86b80c534a9dd19851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:55 +0000
Subject: [PATCH 22/43] fix: accept non-literal defaults for variables in
 wildcard paths

---
 src/dynamicprompts/parser/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index aa789b2..3171638 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -406,10 +406,9 @@ def _parse_wildcard_variable_access_command(
     parts = parse_result[0].as_dict()
     name = parts["name"]
     default = parts.get("default") or LiteralCommand(name)
-    return VariableAccessCommand(
-        name=name,
-        default=LiteralCommand(default.literal.strip()),
-    )
+    if isinstance(default, LiteralCommand):
+        default = LiteralCommand(default.literal.strip())
+    return VariableAccessCommand(name=name, default=default)
 
 
 def _parse_variable_assignment_command(
-- 
2.43.0


From 157acf258968ec994d2a4e9b07fbb9b44cd68c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 23/43] fix: end variable and wrap values at custom delimiters

---
 src/dynamicprompts/parser/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 3171638..92ab714 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -163,7 +163,13 @@ def _configure_literal_sequence(
         # - } denotes the end of a variant (or whatever right brace is set to)
         # - | denotes the end of a variant option
         # - $ denotes the end of a bound expression
-        non_literal_chars += rf"|${parser_config.variant_end}"
+        # - } denotes the end of a variable command (or whatever variable_end is set to)
+        # - } denotes the end of a wrap command (or whatever wrap_end is set to)
+        non_literal_chars += (
+            rf"|${parser_config.variant_end}"
+            rf"{parser_config.variable_end}"
+            rf"{parser_config.wrap_end}"
+        )
 
     if is_wildcard_literal:
         # Inside a wildcard the following characters are also not allowed
-- 
2.43.0


From 5408710bdc34f79b8d1cc901684853db883a6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:00 +0000
Subject: [PATCH 24/43] fix: don't let the separator extend over custom variant
 delimiters

---
 src/dynamicprompts/parser/parse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 92ab714..75c5b12 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -77,17 +77,19 @@ sampler_symbol_to_method = {
 }
 
 
-def _configure_range() -> pp.ParserElement:
+def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     hyphen = pp.Suppress("-")
 
     # Exclude:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
-    # - }, which is used to indicate the end of a variant
+    # - {}, which are used to indicate the start and end of a variant
+    #   (and whatever variant_start and variant_end are set to)
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(pp.printables + " ", exclude_chars="${}")(
-        "separator",
-    ).leave_whitespace()
+    separator = pp.Word(
+        pp.printables + " ",
+        exclude_chars="${}" + parser_config.variant_start + parser_config.variant_end,
+    )("separator").leave_whitespace()
 
     bound = pp.common.integer
     bound_range1 = bound("exact")
@@ -443,7 +445,7 @@ def create_parser(
     *,
     parser_config: ParserConfig,
 ) -> pp.ParserElement:
-    bound_expr = _configure_range()
+    bound_expr = _configure_range(parser_config=parser_config)
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
-- 
2.43.0


From 2f53ea6e663571b7ba312106a1ed25273f0d9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:26 +0000
Subject: [PATCH 25/43] fix: treat an omitted upper bound as all values of a
 wildcard

---
 src/dynamicprompts/parser/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 75c5b12..1741352 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -31,6 +31,7 @@ Note that whitespace is preserved in case it is significant to the user.
 from __future__ import annotations
 
 import re
+import sys
 from functools import partial
 from typing import Iterable
 from weakref import WeakKeyDictionary
@@ -304,9 +305,13 @@ def _parse_variant_command(parse_result: pp.ParseResults) -> VariantCommand:
         for v in parts["variants"]
     ]
     if "bound_expr" in parts:
+        max_options = len(variants)
+        if max_options == 1 and isinstance(variants[0].value, WildcardCommand):
+            # The options will be the wildcard's values, however many there are
+            max_options = sys.maxsize
         min_bound, max_bound, separator = _parse_bound_expr(
             parts["bound_expr"],
-            max_options=len(variants),
+            max_options=max_options,
         )
     else:
         min_bound = max_bound = 1
-- 
2.43.0


From 59a1be97cdc7a54289ac336142925c531b073232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 26/43] fix: keep combinatorial sampling finite with non-finite
 variables, wildcard values and wraps

---
 src/dynamicprompts/samplers/combinatorial.py | 20 +++++++++++++++++---
 src/dynamicprompts/sampling_context.py       | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 11a854f..af2b4e9 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -12,6 +12,7 @@ from dynamicprompts.commands import (
     WildcardCommand,
     WrapCommand,
 )
+from dynamicprompts.parser.parse import parse
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.command_collection import CommandCollection
 from dynamicprompts.samplers.utils import (
@@ -49,6 +50,19 @@ def _combo_to_prompt(
                     yield [p]
 
 
+def _get_finite_results(
+    prompt: str | Command,
+    context: SamplingContext,
+) -> Iterable[SamplingResult]:
+    """
+    Get all results of a prompt, or just one if it's explicitly non-finite.
+    """
+    if isinstance(prompt, str):
+        prompt = parse(prompt, parser_config=context.parser_config)
+    nonfinite = context.get_effective_sampling_method(prompt).is_nonfinite()
+    return context.sample_prompts(prompt, 1 if nonfinite else None)
+
+
 class CombinatorialSampler(Sampler):
     def _get_sequence(
         self,
@@ -159,7 +173,7 @@ class CombinatorialSampler(Sampler):
 
         for val in values.iterate_string_values_weighted():
             # Parse and generate prompts from wildcard value
-            yield from context.sample_prompts(val)
+            yield from _get_finite_results(val, context)
 
     def _get_literal(
         self,
@@ -169,7 +183,7 @@ class CombinatorialSampler(Sampler):
         yield SamplingResult(text=command.literal)
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-        for wrapper_result in context.sample_prompts(command.wrapper):
+        for wrapper_result in _get_finite_results(command.wrapper, context):
             wrap = wrapper_result.as_wrapper()
-            for inner in context.sample_prompts(command.inner):
+            for inner in _get_finite_results(command.inner, context):
                 yield wrap(inner)
diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 916152d..4886053 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -7,7 +7,10 @@ from random import Random
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.commands import Command, LiteralCommand
-from dynamicprompts.commands.variable_commands import VariableAssignmentCommand
+from dynamicprompts.commands.variable_commands import (
+    VariableAccessCommand,
+    VariableAssignmentCommand,
+)
 from dynamicprompts.constants import DEFAULT_RANDOM
 from dynamicprompts.enums import SamplingMethod
 from dynamicprompts.parser.config import ParserConfig, default_parser_config
@@ -132,6 +135,14 @@ class SamplingContext:
         return islice(gen, num_prompts)
 
     def get_effective_sampling_method(self, command: Command) -> SamplingMethod:
+        # Variables are sampled the way their values are
+        names_seen: set[str] = set()
+        while (
+            isinstance(command, VariableAccessCommand)
+            and command.name not in names_seen
+        ):
+            names_seen.add(command.name)
+            command = self.variables.get(command.name, command.default) or command
         if command.sampling_method:
             return command.sampling_method
         return self.default_sampling_method
-- 
2.43.0


From d52f6e4d3ba994e24ade8b64a9259393bea28e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 27/43] fix: fall back to the very wildcard that was not found

---
 src/dynamicprompts/samplers/combinatorial.py |  2 +-
 src/dynamicprompts/samplers/cycle.py         |  2 +-
 src/dynamicprompts/samplers/random.py        |  2 +-
 src/dynamicprompts/samplers/utils.py         | 12 +++++-------
 4 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index af2b4e9..381387c 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -168,7 +168,7 @@ class CombinatorialSampler(Sampler):
 
         if not values:
             # There is exactly one combination for a wildcard with no values
-            yield next(get_wildcard_not_found_fallback(command, context))
+            yield next(get_wildcard_not_found_fallback(wildcard_path, context))
             return
 
         for val in values.iterate_string_values_weighted():
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index af78dc0..f78aaf7 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -109,7 +109,7 @@ class CyclicalSampler(Sampler):
             command.variables,
         ).with_sampling_method(SamplingMethod.CYCLICAL)
         if len(wc_values) == 0:
-            yield from get_wildcard_not_found_fallback(command, new_context)
+            yield from get_wildcard_not_found_fallback(wildcard_path, new_context)
             return
 
         value_samplers = (
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 573660e..1fa29f0 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -124,7 +124,7 @@ class RandomSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if len(values) == 0:
-            yield from get_wildcard_not_found_fallback(command, context)
+            yield from get_wildcard_not_found_fallback(wildcard_path, context)
             return
 
         gen = self._get_wildcard_choice_generator(context, values)
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 1d11d48..0a8e0ae 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import logging
 
 from dynamicprompts.commands import (
-    Command,
     LiteralCommand,
     VariantCommand,
     VariantOption,
@@ -36,7 +35,7 @@ def wildcard_to_variant(
     values = context.wildcard_manager.get_values(wildcard)
     if not values:
         # Nothing to choose from: the only option is the not-found fallback
-        fallback = next(get_wildcard_not_found_fallback(command, context))
+        fallback = next(get_wildcard_not_found_fallback(wildcard, context))
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
     elif repeat_weighted:
         # Repeated options share their command, so they won't be combined together
@@ -70,16 +69,15 @@ def wildcard_to_variant(
 
 
 def get_wildcard_not_found_fallback(
-    command: WildcardCommand,
+    wildcard: str,
     context: SamplingContext,
 ) -> ResultGen:
     """
     Logs a warning, then infinitely yields the wrapped wildcard.
+
+    `wildcard` is the path that was looked up: were it sampled anew here,
+    it could come out as another one.
     """
-    if isinstance(command.wildcard, Command):
-        wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
-    else:
-        wildcard = str(command.wildcard)
     logger.warning(f"No values found for wildcard {wildcard!r}")
     wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)
     res = SamplingResult(text=wrapped_wildcard)
-- 
2.43.0


From d04198b98afd75689cab72edc03ec3e84f2bd197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:02 +0000
Subject: [PATCH 28/43] fix: don't let a byte order mark into wildcard values

---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 src/dynamicprompts/wildcards/collection/text_file.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..1dbac18 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -99,7 +99,7 @@ def parse_structured_file(file_path: Path) -> Iterable[tuple[str, WildcardCollec
     """
     Parse a structured file (JSON or YAML) and yield the wildcard collections.
     """
-    content = file_path.read_text(encoding=DEFAULT_ENCODING)
+    content = file_path.read_text(encoding=DEFAULT_ENCODING).lstrip("\ufeff")
 
     if file_path.suffix == ".yaml":
         try:
diff --git a/src/dynamicprompts/wildcards/collection/text_file.py b/src/dynamicprompts/wildcards/collection/text_file.py
index c05789f..a3e566f 100644
--- a/src/dynamicprompts/wildcards/collection/text_file.py
+++ b/src/dynamicprompts/wildcards/collection/text_file.py
@@ -29,7 +29,9 @@ class WildcardTextFile(WildcardCollection):
             return self._cache
 
         with self._path.open(encoding=self._encoding, errors="ignore") as f:
-            lines = [line.strip() for line in f if not is_empty_line(line)]
+            # A byte order mark is not a part of the first line
+            stripped_lines = (line.lstrip("\ufeff").strip() for line in f)
+            lines = [line for line in stripped_lines if not is_empty_line(line)]
             self._cache = lines
             return self._cache
 
-- 
2.43.0


From 616b2cb55c3daa1388972cae16f076fcc4c9b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 29/43] fix: find wildcards below root prefixes that end with a
 slash

---
 src/dynamicprompts/wildcards/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/utils.py b/src/dynamicprompts/wildcards/utils.py
index 2d490ba..7dda4c1 100644
--- a/src/dynamicprompts/wildcards/utils.py
+++ b/src/dynamicprompts/wildcards/utils.py
@@ -34,4 +34,5 @@ def combine_name_parts(*parts: str) -> str:
     """
     Combine and normalize tree node name parts.
     """
-    return "/".join(parts).strip("/")
+    stripped_parts = (part.strip("/") for part in parts)
+    return "/".join(part for part in stripped_parts if part)
-- 
2.43.0


From d466116be2bb14e6dae839e9be7427fce2b152dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:47 +0000
Subject: [PATCH 30/43] fix: don't emphasize parts of longer words

---
 src/dynamicprompts/generators/attentiongenerator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/attentiongenerator.py b/src/dynamicprompts/generators/attentiongenerator.py
index c272859..35bdea2 100644
--- a/src/dynamicprompts/generators/attentiongenerator.py
+++ b/src/dynamicprompts/generators/attentiongenerator.py
@@ -92,9 +92,12 @@ class AttentionGenerator(PromptGenerator):
 
         keyword = random.choice(keywords)
         attention = round(random.uniform(self._min_attention, self._max_attention), 2)
-        prompt = prompt.replace(str(keyword), f"({keyword}:{attention})")
-
-        return prompt
+        # Don't emphasize parts of longer words that happen to contain the keyword
+        return re.sub(
+            rf"(?<!\w){re.escape(keyword)}(?!\w)",
+            lambda match: f"({match.group()}:{attention})",
+            prompt,
+        )
 
     def generate(self, *args, **kwargs) -> list[str]:
         prompts = self._generator.generate(*args, **kwargs)
-- 
2.43.0


From 33f35cb7dbe6a8f99b59f6d0ab422594d6ab2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:42 +0000
Subject: [PATCH 31/43] fix: translate each bang of a magic prompt where it
 stands

---
 src/dynamicprompts/generators/magicprompt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 7b9b780..ac3d911 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -48,12 +48,11 @@ def clean_up_magic_prompt(orig_prompt: str, prompt: str) -> str:
     prompt = re.sub(r"\b,\s*,\s*\b", ", ", prompt)
 
     # Translate bangs into proper weight modifiers
-    for match in re.findall(r"\b([\w\s\-]+)(\!+)", prompt):
-        phrase = match[0]
-        full_match = match[0] + match[1]
-        weight = round(pow(1.1, len(match[1])), 2)
-
-        prompt = prompt.replace(full_match, f"({phrase}:{weight})")
+    prompt = re.sub(
+        r"\b([\w\s\-]+)(\!+)",
+        lambda match: f"({match[1]}:{round(pow(1.1, len(match[2])), 2)})",
+        prompt,
+    )
 
     # Put the original prompt back in
     if removed_prompt_prefix:
-- 
2.43.0


From 9ec5486f6320f30c7870fe0d8ffd06d34e17d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:49 +0000
Subject: [PATCH 32/43] fix: load the magic prompt model again after loading it
 failed

---
 src/dynamicprompts/generators/magicprompt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index ac3d911..0a0c643 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -154,7 +154,10 @@ class MagicPromptGenerator(PromptGenerator):
         return self._model_name
 
     def set_model(self, model_name: str) -> None:
-        if model_name != MagicPromptGenerator._model_name:
+        if (
+            model_name != MagicPromptGenerator._model_name
+            or MagicPromptGenerator.generator is None  # loading it failed before
+        ):
             MagicPromptGenerator._model_name = model_name
             MagicPromptGenerator.generator = None
 
-- 
2.43.0


From 15acee32e1d1114004c3762094acdbcf9c667760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:39 +0000
Subject: [PATCH 33/43] fix: squash the whitespace of finished prompts only

---
 src/dynamicprompts/sampling_context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 4886053..99900e8 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -125,10 +125,14 @@ class SamplingContext:
         else:
             raise TypeError(f"Expected prompt to be str or Command, got {type(prompt)}")
 
-        gen = self.generator_from_command(command)
-
         if self.ignore_whitespace:
+            # Squash the finished prompts only, not the fragments they are made of,
+            # since whitespace at the end of a fragment may separate it from the next
+            context = dataclasses.replace(self, ignore_whitespace=False)
+            gen = context.generator_from_command(command)
             gen = (res.whitespace_squashed() for res in gen)
+        else:
+            gen = self.generator_from_command(command)
 
         if num_prompts is None:
             return gen
-- 
2.43.0


From 0fba3cdb997bde5514d07e650568d39657bde241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:24 +0000
Subject: [PATCH 34/43] fix: list all sizes of permutations of an iterator in
 Jinja templates

---
 src/dynamicprompts/jinja_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicprompts/jinja_extensions.py b/src/dynamicprompts/jinja_extensions.py
index 75bc57b..493a276 100644
--- a/src/dynamicprompts/jinja_extensions.py
+++ b/src/dynamicprompts/jinja_extensions.py
@@ -28,6 +28,7 @@ def permutation(
     high: int | None = None,
 ) -> list[Any]:
     vars: list[Any] = []
+    items = list(items)  # Filters give iterators, which are used up by the first size
     if high is None:
         high = low
 
-- 
2.43.0


From 8c7e5d981ddde8c94f942a8304cd4c2766fc5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:20 +0000
Subject: [PATCH 35/43] fix: read the weight of structured wildcard values that
 contain further double colons

A value like '2::{3::red|blue}' was split at its last double colon, so its
weight was not recognised and came out as a part of the prompt.
---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 1dbac18..72f89c7 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -24,7 +24,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         if isinstance(item, str):
             # See if the item _could_ have a prefix weight before attempting to parse.
             if item[0].isdigit() and "::" in item:
-                weight_text, _, content = item.rpartition("::")
+                weight_text, _, content = item.partition("::")
                 try:
                     yield WildcardItem(content=content, weight=float(weight_text))
                     continue
-- 
2.43.0


From d09322426d6e0f16b1cc1f4a1eb6f7b442e33853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:58 +0000
Subject: [PATCH 36/43] fix: let custom delimiters begin with a sampler's
 symbol

With e.g. @@ as the wildcard wrap, a variant whose first option begins with
a wildcard could not be parsed, since its first character was taken for
the cyclical sampler's symbol.
---
 src/dynamicprompts/parser/parse.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 1741352..c161ccc 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -110,6 +110,18 @@ def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     return bound_expr
 
 
+def _configure_sampling_method(parser_config: ParserConfig) -> pp.ParserElement:
+    # Custom delimiters may begin with the symbol of a sampler (e.g. @@name@@);
+    # where one of those follows, it's the delimiter.
+    command_start = (
+        pp.Literal(parser_config.wildcard_wrap)
+        | pp.Literal(parser_config.variable_start)
+        | pp.Literal(parser_config.wrap_start)
+        | pp.Literal(parser_config.variant_start)
+    )
+    return pp.Opt(~command_start + sampler_symbol("sampling_method"))
+
+
 def _configure_wildcard(
     parser_config: ParserConfig,
     prompt: pp.ParserElement,
@@ -125,7 +137,7 @@ def _configure_wildcard(
 
     wildcard = (
         wildcard_enclosure
-        + pp.Opt(sampler_symbol)("sampling_method")
+        + _configure_sampling_method(parser_config)
         + wc_path
         + pp.Opt(wildcard_variable_spec)
         + wildcard_enclosure
@@ -216,7 +228,7 @@ def _configure_variants(
     variants = pp.Group(
         variant_start
         + OPT_WS
-        + pp.Opt(sampler_symbol)("sampling_method")
+        + _configure_sampling_method(parser_config)
         + pp.Opt(bound_expr)("bound_expr")
         + OPT_WS
         + variants_list("variants")
-- 
2.43.0


From 44fe6de4a190eab28e22a61a9ab8de896035dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 37/43] fix: do not let per-prompt seeds of one unlinked
 generator reseed the others

---
 src/dynamicprompts/generators/randomprompt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 66893e2..03a4deb 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -5,7 +5,6 @@ from itertools import islice
 from random import Random
 
 from dynamicprompts.commands.base import SamplingMethod
-from dynamicprompts.constants import DEFAULT_RANDOM
 from dynamicprompts.generators.promptgenerator import PromptGenerator
 from dynamicprompts.parser.config import ParserConfig, default_parser_config
 from dynamicprompts.sampling_context import SamplingContext
@@ -16,7 +15,8 @@ logger = logging.getLogger(__name__)
 
 def _get_random(*, seed: int | None, unlink_seed_from_prompt: bool) -> Random:
     if unlink_seed_from_prompt:
-        return DEFAULT_RANDOM
+        # (not a shared source: per-prompt seeds would reseed it for everyone)
+        return Random()
     rand = Random()
     if seed is not None:
         rand.seed(seed)
-- 
2.43.0


From 2c0300d1061a5a3d6b15340d1ae3f4cb57aa2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 38/43] fix: sample unknown variables the way the context's
 value for them says

---
 src/dynamicprompts/sampling_context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 99900e8..709f250 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -146,7 +146,10 @@ class SamplingContext:
             and command.name not in names_seen
         ):
             names_seen.add(command.name)
-            command = self.variables.get(command.name, command.default) or command
+            value = self.variables.get(command.name, command.default)
+            if value is None and isinstance(self.unknown_variable_value, Command):
+                value = self.unknown_variable_value
+            command = value or command
         if command.sampling_method:
             return command.sampling_method
         return self.default_sampling_method
-- 
2.43.0


From efa42b6b6b93c3fe072744dd18dbb5f9ce293af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:13 +0000
Subject: [PATCH 39/43] fix: ignore a wildcard entry with an odd text or
 weight, not its whole list

---
 src/dynamicprompts/wildcards/collection/structured.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 72f89c7..99f4ea9 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -37,9 +37,12 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         elif isinstance(item, dict):
             # Support {"text": "foo", "weight": 1.1} syntax
             #     and {"content": "foo", "weight": 1.1}
-            weight = float(item.get("weight", 1))
             content = item.get("text") or item.get("content") or ""
-            if content:
+            try:
+                weight = float(item.get("weight", 1))
+            except (TypeError, ValueError):
+                content = ""  # Not a weight, so there's no telling what this is
+            if content and not isinstance(content, (list, dict)):
                 if weight == 1:
                     yield content
                 else:
-- 
2.43.0


From 3032477c1af405f9bb350a80cc0dfaa29161463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 40/43] fix: ignore wildcard entries with weights that values
 can't be drawn with

---
 .../wildcards/collection/structured.py         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 99f4ea9..1f4780c 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import json
 import logging
+import math
 import warnings
 from pathlib import Path
 from typing import Any, Iterable
@@ -14,6 +15,16 @@ from dynamicprompts.wildcards.item import WildcardItem
 log = logging.getLogger(__name__)
 
 
+def _parse_weight(value: Any) -> float:
+    """
+    Parse a weight; raise an exception if it's not one that values can be drawn with.
+    """
+    weight = float(value)
+    if not (math.isfinite(weight) and weight >= 0):
+        raise ValueError(f"Invalid weight: {value!r}")
+    return weight
+
+
 def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem]:
     """
     Parse a single list in a structured file (JSON or YAML) and yield the wildcard items.
@@ -26,7 +37,10 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
             if item[0].isdigit() and "::" in item:
                 weight_text, _, content = item.partition("::")
                 try:
-                    yield WildcardItem(content=content, weight=float(weight_text))
+                    yield WildcardItem(
+                        content=content,
+                        weight=_parse_weight(weight_text),
+                    )
                     continue
                 except ValueError:
                     # When failing to parse the weight,
@@ -39,7 +53,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
             #     and {"content": "foo", "weight": 1.1}
             content = item.get("text") or item.get("content") or ""
             try:
-                weight = float(item.get("weight", 1))
+                weight = _parse_weight(item.get("weight", 1))
             except (TypeError, ValueError):
                 content = ""  # Not a weight, so there's no telling what this is
             if content and not isinstance(content, (list, dict)):
-- 
2.43.0


From 6f95dc2a527fea320925bdc7f5dec094ea878809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 41/43] fix: read the text of a wildcard entry that is a number

---
 src/dynamicprompts/wildcards/collection/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 1f4780c..ce1e63f 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -57,6 +57,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
             except (TypeError, ValueError):
                 content = ""  # Not a weight, so there's no telling what this is
             if content and not isinstance(content, (list, dict)):
+                content = str(content)  # e.g. a year, read as a number
                 if weight == 1:
                     yield content
                 else:
-- 
2.43.0


From c7d0720c4e6b9394dbad6be8c5dfb517ceafdd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 42/43] fix: a computed path or immediate variable without
 combinations gives no prompts, not an error

---
 src/dynamicprompts/samplers/combinatorial.py |  5 ++++-
 src/dynamicprompts/samplers/utils.py         |  5 ++++-
 src/dynamicprompts/sampling_context.py       | 10 +++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 381387c..768b0bc 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -162,7 +162,10 @@ class CombinatorialSampler(Sampler):
         context: SamplingContext,
     ) -> ResultGen:
         # TODO: doesn't support weights
-        wildcard_path = next(iter(context.sample_prompts(command.wildcard, 1))).text
+        path_result = next(iter(context.sample_prompts(command.wildcard, 1)), None)
+        if path_result is None:  # There is no combination for the path
+            return
+        wildcard_path = path_result.text
         context = context.with_variables(command.variables)
         values = context.wildcard_manager.get_values(wildcard_path)
 
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 0a8e0ae..3d7316f 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -31,7 +31,10 @@ def wildcard_to_variant(
     If `repeat_weighted` is set, weighted values become repeated options;
     otherwise they become a single option that carries the value's weight.
     """
-    wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
+    path_result = next(iter(context.sample_prompts(command.wildcard, 1)), None)
+    if path_result is None:  # There is no combination for the path
+        return VariantCommand([], min_bound, max_bound, separator)
+    wildcard = path_result.text
     values = context.wildcard_manager.get_values(wildcard)
     if not values:
         # Nothing to choose from: the only option is the not-found fallback
diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 709f250..b55b82a 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -187,9 +187,9 @@ class SamplingContext:
                 # Optimization: if the variable assignment is a literal, just use that
                 return command.value
             # Sample the variable assignment command to get the value
-            return LiteralCommand(
-                str(
-                    next(self.generator_from_command(command.value)),
-                ),  # TODO: sus str cast from result?
-            )
+            result = next(iter(self.generator_from_command(command.value)), None)
+            if result is None:
+                # There is no combination for the value, so leave it to where it's used
+                return command.value
+            return LiteralCommand(str(result))  # TODO: sus str cast from result?
         return command.value
-- 
2.43.0


From e49e2a0f607566eddced8dd39d9d4d437626a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 43/43] fix: allow separators of any characters, not just ASCII
 ones

---
 src/dynamicprompts/parser/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index c161ccc..4921e3a 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -87,10 +87,10 @@ def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     #   (and whatever variant_start and variant_end are set to)
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(
-        pp.printables + " ",
-        exclude_chars="${}" + parser_config.variant_start + parser_config.variant_end,
-    )("separator").leave_whitespace()
+    non_separator_chars = re.escape(
+        "${}" + parser_config.variant_start + parser_config.variant_end,
+    )
+    separator = pp.Regex(rf"[^{non_separator_chars}]+")("separator").leave_whitespace()
 
     bound = pp.common.integer
     bound_range1 = bound("exact")
-- 
2.43.0

