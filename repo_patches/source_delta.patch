From 2c7a635e0a362f2366377fe489a3b1f01e7231fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 01/15] fix: rule parser drops zero terms and unknown
 characters, and fails on truncated text and an unterminated last comment

---
 .../module/helper/SimpleInferenceRuleParser.py  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..ce6dc03 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,11 +22,13 @@ class SimpleInferenceRuleParser:
             '\)',
             '\d+\.\d+',
             '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
+            # anything else is a token that no rule accepts
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -204,7 +206,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
@@ -237,6 +239,13 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None:
+            return None, new_pos
+
+        # a quote without its closing quote is not a string
+        if token == "'" or token == '"':
+            return None, new_pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From 6b73ac596a5c2b859279e958e458ec309500ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/15] fix: a long run of comments overflows the stack of the
 rule parser

---
 richard/module/helper/SimpleInferenceRuleParser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index ce6dc03..67c9733 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -275,14 +275,13 @@ class SimpleInferenceRuleParser:
 
 
     def parse_token(self, tokens: list[str], pos: int):
+        # skip comments
+        while pos < len(tokens) and tokens[pos][0] == '#':
+            pos += 1
+
         if pos >= len(tokens):
             return None, pos
 
-        # skip comment
-        token = tokens[pos]
-        if token[0] == '#':
-            return self.parse_token(tokens, pos+1)
-
         return tokens[pos], pos + 1
 
 
-- 
2.43.0


From e4666080010e5bfa0e7d5a65f8ac62c3e8b16d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 03/15] fix: the parser accepts texts that do not match the
 regular expression of a leaf

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..db104a6 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -129,8 +129,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # the whole match is fine as it is; a shorter text must match the expression by itself
+                    if i < len(word) and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From acd3c6898e14e92532aa229d21fe925dfac3ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 04/15] fix: word matching fails on words with capitals and on
 letters whose lower case form has another length

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index db104a6..ea61f23 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -207,6 +207,6 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        part = text[start_index:start_index + len(word)]
+        return len(part) == len(word) and part.lower() == word.lower()
 
-- 
2.43.0


From 71086b668b4cfa81849510878ed441272226ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 05/15] fix: every parse adds rules to the grammar

---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index ea61f23..c3dec9b 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,12 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 2afcd3cef6b6d658e72e48f73f70528b135882d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 06/15] fix: learn_grammar_rule misses an argument and always
 fails

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 282eb8c17eb6fe8c67a7a3cd2d7446fe8465269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 07/15] fix: isolating independent parts multiplies repeated
 atoms

---
 .../optimizer/IsolateIndependentParts.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..745388b 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,12 +81,12 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        remaining = list(batch.atoms)
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
-                    ordered_atoms.append(batch_atom)
-                    break
+            if atom in remaining:
+                remaining.remove(atom)
+                ordered_atoms.append(atom)
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
         return ordered_batch
-- 
2.43.0


From 5aeb3e3e44b7aea8d2c617f4037d5f151487908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 08/15] fix: selecting a record that was inserted with None
 fails

---
 richard/data_source/SimpleDataSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..297cf09 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -42,7 +42,7 @@ class SimpleDataSource(SomeDataSource):
                     if record[key] != value:
                         ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From cb20202428635ae8b8a8921b206cdd32c3b9c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 09/15] fix: FindOne returns the last error in stead of the
 first

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 1084fcf4c9ca6ed17f2ecb0faed9f75145e7a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 10/15] fix: with_context leaves the context active when its
 body raises

---
 richard/module/BasicDialogContext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..745e462 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -22,8 +22,10 @@ class BasicDialogContext(SimpleMemoryModule):
         name = values[0]
         body = values[1]
         self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From 40904a25661d1701d1c85ae4857ac8fc7fb9f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 11/15] fix: a failed generation leaves its output in the
 output buffer

---
 richard/core/BasicGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..c4cf291 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,10 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From cf0ec5f8871ef1a9aaaf004b137f91118d9ac1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:49 +0000
Subject: [PATCH 12/15] fix: a used write rule is rendered with another rule's
 binding and hides later rules

---
 richard/core/BasicGenerator.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index c4cf291..6ecc0ed 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -103,9 +103,10 @@ class BasicGenerator(SomeGenerator):
             # if: [('output_type', 'declarative'), ('output_subject', E1, E2)]
 
             # rule_antecedent_variable = rule.antecedent.arguments[0]
-            binding = {}
+            applies = False
+            rule_binding = {}
             for rule_antecedent_variable, antecedent_value in zip(rule.antecedent.arguments, antecedent_values):
-                binding[rule_antecedent_variable] = antecedent_value
+                rule_binding[rule_antecedent_variable] = antecedent_value
 
             # start the binding with the antecedent variable (in the example: E1)
             # if antecedent_values is not None:
@@ -113,22 +114,24 @@ class BasicGenerator(SomeGenerator):
 
             if not rule.sem:
                 # no condition
-                result_rule = rule
-                found = True
+                applies = True
 
             else:
 
                 # match the condition
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
-                match_bindings = self.solver.solve(rule.sem, binding)
+                match_bindings = self.solver.solve(rule.sem, rule_binding)
 
                 if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                    rule_binding = match_bindings[0]
+                    applies = True
+
 
+            if applies:
+                result_rule = rule
+                binding = rule_binding
+                found = True
 
-            if found:
                 # make sure the same rule is not executed again and again
                 if rule.hash not in used_rules:
                     break
-- 
2.43.0


From 48eb54cdb26010dce941bf970fa8d670dbfe1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 13/15] fix: special characters break out of a SPARQL text
 literal

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..58411a3 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -121,7 +121,8 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                text = term.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r")
+                prepared = "'{}'@{}".format(text, self.lang)
         else:
             prepared = str(term)
         return prepared
-- 
2.43.0


From ebe649d46dfcfba19183342a021f64d2bf763051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 14/15] fix: an incomplete file in the SPARQL result cache
 makes the select fail

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 58411a3..65ac16c 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -34,7 +34,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except Exception:
+                # missing, unreadable or incomplete
                 pass
 
         # the actual select
-- 
2.43.0


From df4d434fdda37f99d5aef0d2c487fe3ceaacdcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 15/15] fix: a category named delta or gamma is mixed up with
 the parser's own start rules

---
 richard/core/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/constants.py b/richard/core/constants.py
index 90eb0ae..b8b780d 100644
--- a/richard/core/constants.py
+++ b/richard/core/constants.py
@@ -4,8 +4,8 @@ from richard.entity.Variable import Variable
 
 # abstract word categories
 TERMINAL = "terminal"
-GAMMA = "gamma"
-DELTA = "delta"
+GAMMA = "$gamma"
+DELTA = "$delta"
 ROOT_CATEGORY = "s"
 
 # output types
-- 
2.43.0

