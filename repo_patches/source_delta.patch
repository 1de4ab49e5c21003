From 2eed87a3e523fffb14e7bccf55c7b5e64f5aa927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:40 +0000
Subject: [PATCH 01/24] fix: learn_grammar_rule parses the rule as a read rule
 instead of raising a TypeError

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 4c1901255c708d1247961cc5f4f8704b57891576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 02/24] fix: parsing a sentence no longer adds start rules to
 the shared grammar

---
 richard/processor/parser/earley/EarleyParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..20bba52 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,13 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            # the rule is only valid for this chart, it must not be added to the grammar itself
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 88d3674e5f7d23cfe8d8ed9ed997e7cb8ce5e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:14 +0000
Subject: [PATCH 03/24] fix: an interrupted write no longer leaves a damaged
 entry in the SPARQL result cache, and damaged entries are ignored

---
 richard/data_source/SparqlDataSource.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..1369aa2 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,5 +1,7 @@
 import hashlib
+import os
 import pickle
+import uuid
 from richard.interface.SomeDataSource import SomeDataSource
 
 
@@ -34,7 +36,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except Exception:
+                # there's no entry, or it is damaged: perform the actual select
                 pass
 
         # the actual select
@@ -42,10 +45,17 @@ class SparqlDataSource(SomeDataSource):
 
         # write to the results cache
         if self.result_cache_path:
+            # complete the file before giving it its name, so that no one ever reads half an entry
+            temp_name = file_name + "." + uuid.uuid4().hex + ".tmp"
             try:
-                with open(file_name, 'wb') as file:
-                    pickle.dump(result, file)
-                    return result
+                try:
+                    with open(temp_name, 'wb') as file:
+                        pickle.dump(result, file)
+                        file.flush()
+                        os.fsync(file.fileno())
+                    os.replace(temp_name, file_name)
+                except OSError:
+                    os.unlink(temp_name)
             except OSError:
                 pass
 
-- 
2.43.0


From b5e972b3cf3db8e0fdca18f37aae90ac4d8c4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 04/24] fix: escape special characters in SPARQL text literals

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 1369aa2..6ad988d 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -131,7 +131,8 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                escaped = term.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r")
+                prepared = "'{}'@{}".format(escaped, self.lang)
         else:
             prepared = str(term)
         return prepared
-- 
2.43.0


From 15569f26fedc3013444cfb607ea838f8f92aa8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 05/24] fix: a SPARQL endpoint that does not respond no longer
 blocks the application forever

---
 richard/data_source/SparqlDataSource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 6ad988d..79ef757 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -9,6 +9,9 @@ ID = 'id'
 TEXT = 'text'
 CONSTANT = 'constant'
 
+# the number of seconds to wait for an endpoint that does not respond
+REQUEST_TIMEOUT = 60
+
 
 class SparqlDataSource(SomeDataSource):
 
@@ -84,7 +87,7 @@ class SparqlDataSource(SomeDataSource):
         }
 
         # Send the request to the Wikidata SPARQL endpoint
-        response = requests.get(self.url, params=params, headers=self.headers)
+        response = requests.get(self.url, params=params, headers=self.headers, timeout=REQUEST_TIMEOUT)
 
         if response.status_code == 403:
             raise Exception("Not allowed: " + str(response.text))
-- 
2.43.0


From f4c74329ef86774f0cc1ab4d212bab0e3c0b40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 06/24] fix: an error response of a SPARQL endpoint is never
 treated as a result

---
 richard/data_source/SparqlDataSource.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 79ef757..85f6dbb 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -95,6 +95,7 @@ class SparqlDataSource(SomeDataSource):
             raise Exception("Too many requests: " + str(response.text))
         if response.status_code == 400:
             raise Exception("Bad request: " + str(response.text))
+        response.raise_for_status()
 
         # Parse the JSON response
         data = response.json()
-- 
2.43.0


From 1b28f2f6ad71af3dcda8676286bda7a6705e266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 07/24] fix: with_context ends its context when the body fails,
 and does not end a context that was active before

---
 richard/module/BasicDialogContext.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..da34b72 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,15 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
-        self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        if self.data_source.select('context', ['name'], [name]):
+            # the context was active already, and it remains active
+            context.solver.solve(body, context.binding)
+        else:
+            self.data_source.insert('context', ['name'], [name])
+            try:
+                context.solver.solve(body, context.binding)
+            finally:
+                self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From eb6c2356b5698d9f8b87ba19b9185591e8705679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:25 +0000
Subject: [PATCH 08/24] fix: output left over from an earlier request no longer
 ends up in the answer to the next

---
 richard/core/BasicGenerator.py     | 4 ++++
 richard/core/System.py             | 4 ++++
 richard/interface/SomeGenerator.py | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..72726c4 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -26,6 +26,10 @@ class BasicGenerator(SomeGenerator):
         return output
 
 
+    def discard_output(self):
+        self.output_buffer.clear()
+
+
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
diff --git a/richard/core/System.py b/richard/core/System.py
index f5a33fd..4311057 100644
--- a/richard/core/System.py
+++ b/richard/core/System.py
@@ -36,6 +36,10 @@ class System:
 
     def enter(self, request: SentenceRequest):
 
+        # an earlier request may have failed, or its output may not have been read; don't mix it with the output of this request
+        if self.output_generator:
+            self.output_generator.discard_output()
+
         result = self.reader_pipeline[0].process(request)
         if result.error_type != "":
             Solver(self.model).solve([('store', [
diff --git a/richard/interface/SomeGenerator.py b/richard/interface/SomeGenerator.py
index c57b2f4..d8a3a33 100644
--- a/richard/interface/SomeGenerator.py
+++ b/richard/interface/SomeGenerator.py
@@ -6,3 +6,11 @@ class SomeGenerator(ABC):
     @abstractmethod
     def generate_output(self) -> str:
         pass
+
+
+    def discard_output(self):
+        """
+        Removes any output that has not been generated yet
+        """
+        pass
+
-- 
2.43.0


From 5b8d843720b022d6be9fa934fc32f45d6584f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 09/24] fix: the errors no_sentence and not_understood can be
 reported to the user

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 327bd2027656c87d249db6a68ae0340691c17a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 10/24] fix: FindOne returns the first error, as documented

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 06ea74a53158f1df787809e7af76d1cd2d7801a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 11/24] fix: CSV import keeps line breaks inside quoted values
 unchanged

---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0


From 1539346fec6905e2279846bf0426ca20e03b5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:44 +0000
Subject: [PATCH 12/24] fix: SimpleDataSource can select records with missing
 values

---
 richard/data_source/SimpleDataSource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..13a517b 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if key not in record or record[key] != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From 5e7bf24d802d8bd9f17110bbec3229c742833e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 13/24] fix: a write rule that is used again is executed with
 its own bindings

---
 richard/core/BasicGenerator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 72726c4..ff68a6b 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -95,7 +95,7 @@ class BasicGenerator(SomeGenerator):
 
         found = False
         result_rule = None
-        binding = {}
+        result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
 
@@ -114,10 +114,11 @@ class BasicGenerator(SomeGenerator):
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
+            matched = False
+
             if not rule.sem:
                 # no condition
-                result_rule = rule
-                found = True
+                matched = True
 
             else:
 
@@ -127,16 +128,18 @@ class BasicGenerator(SomeGenerator):
 
                 if len(match_bindings) > 0:
                     binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                    matched = True
 
 
-            if found:
+            if matched:
+                result_rule = rule
+                result_binding = binding
+                found = True
                 # make sure the same rule is not executed again and again
                 if rule.hash not in used_rules:
                     break
 
-        return result_rule, binding, found
+        return result_rule, result_binding, found
 
 
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
-- 
2.43.0


From 89a6902c45cc3ed97d3c590e0065b581cbdcdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:45 +0000
Subject: [PATCH 14/24] fix: a comment on the last line of a rule file needs no
 line break

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..06f789e 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -26,7 +26,7 @@ class SimpleInferenceRuleParser:
             '"(?:\\\\"|[^"])+"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From e5fc51373c859261f187c44c0c6014dcc789e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:50 +0000
Subject: [PATCH 15/24] fix: rules can contain the number 0

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 06f789e..56ee072 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
-- 
2.43.0


From e23da014278ef353aad187c15451716885800113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 16/24] fix: rules can contain empty texts

---
 richard/module/helper/SimpleInferenceRuleParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 56ee072..7fab067 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,8 +22,8 @@ class SimpleInferenceRuleParser:
             '\)',
             '\d+\.\d+',
             '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
             '#.*',
-- 
2.43.0


From 3419d698b2153cddaf68db74dd29482049440bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 17/24] fix: negative numbers in rules keep their sign

---
 richard/module/helper/SimpleInferenceRuleParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 7fab067..069485d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -20,8 +20,8 @@ class SimpleInferenceRuleParser:
             ':-',
             '\(',
             '\)',
-            '\d+\.\d+',
-            '\d+',
+            '-?\d+\.\d+',
+            '-?\d+',
             "'(?:\\\\'|[^'])*'",
             '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
@@ -30,8 +30,8 @@ class SimpleInferenceRuleParser:
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-        self.re_float = re.compile("^\d+\.\d+$")
-        self.re_int = re.compile("^\d+$")
+        self.re_float = re.compile("^-?\d+\.\d+$")
+        self.re_int = re.compile("^-?\d+$")
 
 
     def parse(self, text: str):
-- 
2.43.0


From 91cfe70014ddb67dcc600e5ba0123a61fb0ae7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 18/24] fix: a rule file with signs that have no meaning is
 refused, instead of read without them

---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 069485d..54ae889 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,8 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            # anything else has no meaning, and is refused
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -237,11 +239,11 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
-        if token[0] == "'":
+        if token[0] == "'" and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
 
-        if token[0] == '"':
+        if token[0] == '"' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\"', '"'), pos
 
-- 
2.43.0


From 000de924fc78c3e1c759c6ac84f61df42c099e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:10 +0000
Subject: [PATCH 19/24] fix: two threads that insert the first rows of a
 SimpleDataSource table no longer lose one of them

---
 richard/data_source/SimpleDataSource.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 13a517b..9f1460b 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -19,10 +19,7 @@ class SimpleDataSource(SomeDataSource):
 
         values = self.create_dict(columns, values)
 
-        if not table in self.store:
-            self.store[table] = []
-
-        self.store[table].append(values)
+        self.store.setdefault(table, []).append(values)
 
 
     # def select(self, table, values: dict) -> list:
-- 
2.43.0


From f4135727edb8403acf857f7791f29d5860b66990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:23 +0000
Subject: [PATCH 20/24] fix: a grammar rule that is learned while another
 request is parsed no longer makes that request fail

---
 richard/processor/parser/earley/EarleyParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 20bba52..e0c6337 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -60,7 +60,7 @@ class EarleyParser:
         # delta(D) -> s(P1, P2)
         # delta(D) -> s(P1, P2, P3)
         # ...
-        for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
+        for c in list(grammar_rules.find_argument_counts(ROOT_CATEGORY)):
             variables = ["P" + str(j) for j in range(1, c+1)]
             delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
-- 
2.43.0


From df7ffe9db33b975b7ed9e3984226355cf2649788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 21/24] fix: a rule that is being learned by another thread, or
 of which learning was interrupted, no longer gives a KeyError

---
 richard/module/InferenceModule.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..ae9d5d7 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -24,10 +24,9 @@ class InferenceModule(SomeModule):
 
     def insert_rule(self, rule: InferenceRule):
         predicate = rule.head[0]
+        # the rule must be there before the relation can be found
+        self.rules.setdefault(predicate, []).append(rule)
         self.add_relation(Relation(predicate, query_function=self.handle_rule))
-        if not predicate in self.rules:
-            self.rules[predicate] = []
-        self.rules[predicate].append(rule)
 
 
     def import_rules(self, path: str):
-- 
2.43.0


From b2c05399ab89daf96cec2f77e0b9ffd87030f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 22/24] fix: threads that learn grammar rules at the same time
 no longer lose one of them

---
 richard/entity/GrammarRules.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..6182a1f 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -17,14 +17,10 @@ class GrammarRules:
         antecedent = rule.antecedent.predicate
         argument_count = len(rule.antecedent.arguments)
 
-        if not antecedent in self.index:
-            self.index[antecedent] = {}
-        if not argument_count in self.index[antecedent]:
-            self.index[antecedent][argument_count] = []
+        rules = self.index.setdefault(antecedent, {}).setdefault(argument_count, [])
 
         # create a variant of the rule for all permutations of optional constituents
-        for variant in self.create_rule_variants(rule):
-            self.index[antecedent][argument_count].append(variant)
+        rules.extend(self.create_rule_variants(rule))
 
 
     def find_rules(self, antecedent: str, argument_count: int) -> list[GrammarRule]:
-- 
2.43.0


From 6be12cfe1676a8d6e2284d60d3b207fe9e9f6a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 23/24] fix: the text of a SPARQL response is never decoded
 wrongly or with replacements

---
 richard/data_source/SparqlDataSource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 85f6dbb..73dd645 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,4 +1,5 @@
 import hashlib
+import json
 import os
 import pickle
 import uuid
@@ -97,8 +98,8 @@ class SparqlDataSource(SomeDataSource):
             raise Exception("Bad request: " + str(response.text))
         response.raise_for_status()
 
-        # Parse the JSON response
-        data = response.json()
+        # Parse the JSON response: it is UTF-8, whatever the headers say, and text that isn't must not be replaced silently
+        data = json.loads(response.content)
 
         # create results from response data
         results = self.prepare_results(data, values, terms)
-- 
2.43.0


From b4196868f86c81c0935cb52a980c916c7d7a1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:56 +0000
Subject: [PATCH 24/24] fix: storing a fact that no relation can hold is
 refused, not ignored

---
 richard/core/Solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..d0dff25 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -168,8 +168,11 @@ class Solver(SomeSolver):
         if len(relations) == 0:
             raise Exception("No relation called '" + predicate + "' available in the model")
 
-        for relation in relations:
-            if relation.write_function is not None:
-                context = ExecutionContext(relation, arguments, {}, self)
-                relation.write_function(arguments, context)
+        writable_relations = [relation for relation in relations if relation.write_function is not None]
+        if len(writable_relations) == 0:
+            raise Exception("No relation called '" + predicate + "' in the model can be written to")
+
+        for relation in writable_relations:
+            context = ExecutionContext(relation, arguments, {}, self)
+            relation.write_function(arguments, context)
 
-- 
2.43.0

