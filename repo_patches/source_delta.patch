From fd182b52b3f4844cbaebae3ff3f55cd26c86d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:06 +0000
Subject: [PATCH 01/18] fix: Normal.rescale divided by the amount, so scaling a
 normally distributed zero amount failed

---
 ocelot/transformations/uncertainty/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index ac37b5c..6cb2ffd 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -216,9 +216,7 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] = (
-            (obj['amount'] * factor) / obj['amount']
-        ) ** 2 * obj['uncertainty']['variance']
+        obj['uncertainty']['variance'] *= factor ** 2
         obj['amount'] *= factor
         # TODO: Adjust variance with pedigree uncertainty
         return Normal.recalculate(obj)
-- 
2.43.0


From 5838080c048010979a4487a7066c25a10048c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:15 +0000
Subject: [PATCH 02/18] fix: Normal.rescale left mean and variance with
 pedigree uncertainty at their old scale

---
 ocelot/transformations/uncertainty/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index 6cb2ffd..87ca297 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -216,9 +216,12 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] *= factor ** 2
+        for label in ('variance', 'variance with pedigree uncertainty'):
+            if label in obj['uncertainty']:
+                obj['uncertainty'][label] *= factor ** 2
+        if 'mean' in obj['uncertainty']:
+            obj['uncertainty']['mean'] *= factor
         obj['amount'] *= factor
-        # TODO: Adjust variance with pedigree uncertainty
         return Normal.recalculate(obj)
 
     @staticmethod
-- 
2.43.0


From d5c4d77a259db9ceb83159fa348c14d105dd5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 03/18] fix: log_and_delete_unlinked_exchanges tested the code
 of the dataset instead of the exchange, so unlinked exchanges stayed

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..b0a90c8 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -242,7 +242,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From eee4662583cb5a3cb76388d09166325669dd4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 04/18] fix: refinery gas inputs without a market were linked
 to the markets of another product

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index b0a90c8..ac71b7f 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,7 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 28cfe134d2efc4c17249a119e9e41b3e60cea7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 05/18] fix: apply_transformation failed on nested collections
 because follow was not passed on

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From c7515aea544018dcf40727dc17ad18fb3905ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 06/18] fix: cleanup_technology_levels had no name and so lost
 its first function

---
 ocelot/transformations/consequential/technology_levels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..0052d8c 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -44,6 +44,7 @@ switch_undefined_to_current.__table__ = {
 
 
 cleanup_technology_levels = Collection(
+    "Clean up technology levels",
     log_conflicting_technology_levels,
     switch_undefined_to_current,
 )
-- 
2.43.0


From f1585bd351fc18e2dc2d312e9d4efe9a27a3a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 07/18] fix: delete_activity_links_to_constrained_markets
 deleted all activity links

---
 ocelot/transformations/consequential/constrained_markets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..902007f 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -93,6 +93,7 @@ def delete_activity_links_to_constrained_markets(data):
             exc for exc in ds['exchanges']
             if not exc.get('conditional exchange')
             and exc.get('activity link')
+            and exc['activity link'] in constrained_activities
         )
         for exc in exchange_iterator:
             del exc['activity link']
-- 
2.43.0


From 573eee7b18e6c41bc63e6ad2b753ba9df8555b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 08/18] fix: check_cache_directory fails on a directory without
 visible files

---
 ocelot/filesystem.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..4abe501 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -97,12 +97,9 @@ def check_cache_directory(data_path):
     if not os.path.exists(cache_fp):
         return False
     cache_time = os.stat(cache_fp).st_mtime
-    source_time = max([
-        os.stat(data_path).st_mtime,
-        max(
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
-        )
+    source_time = max([os.stat(data_path).st_mtime] + [
+        os.stat(os.path.join(data_path, fn)).st_mtime for fn in
+        filter(lambda x: not x.startswith("."), os.listdir(data_path))
     ])
     return cache_time > source_time
 
-- 
2.43.0


From 0426ec8071825addba69afee61fda2d508f682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 09/18] fix: market groups without suppliers lost their list of
 suppliers, so that the steps after linking failed

---
 ocelot/transformations/locations/market_groups.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 764b815..f8fbdf7 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -80,10 +80,6 @@ def link_market_group_suppliers(data):
                 )
             ]
 
-            if not ds['suppliers']:
-                del ds['suppliers']
-                continue
-
             for exc in ds['suppliers']:
                 logger.info({
                     'type': 'table element',
-- 
2.43.0


From a9ece49fcb3d48f86270c515c21e041ec8a65a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 10/18] fix: market groups were not supplied by a rest of the
 world smaller than another supplier

---
 ocelot/transformations/locations/market_groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index f8fbdf7..304e20d 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -61,7 +61,8 @@ def link_market_group_suppliers(data):
             found, to_add = [], []
 
             for candidate in ordered:
-                if topology.contains(loc, candidate, subtract=found, resolved_row=resolved_supplier_row):
+                child = resolved_supplier_row if candidate == 'RoW' else candidate
+                if topology.contains(loc, child, subtract=found):
                     if candidate in markets:
                         found.append(candidate)
                         to_add.append(markets[candidate])
-- 
2.43.0


From de7fbe5a5b53aee80e1303b82ffc6dc07bfd943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 11/18] fix: formulas that divide by zero were evaluated to
 None instead of zero

---
 .../parameterization/recalculation.py         | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..3b2aba0 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -25,6 +25,20 @@ def extract_named_parameters(dataset):
             if 'variable' in exc}
 
 
+def evaluate_formula(interpreter, formula):
+    """Evaluate ``formula`` with ``interpreter``. Division by zero gives zero.
+
+    ``Interpreter`` objects don't raise errors, but collect them in ``error``."""
+    try:
+        value = interpreter(formula)
+    except ZeroDivisionError:
+        # Grumble grumble...
+        return 0
+    if any(error.exc is ZeroDivisionError for error in interpreter.error):
+        return 0
+    return value
+
+
 class TolerantParameterSet(ParameterSet):
     """Subclass of ParameterSet that sets flawed formulas to zero"""
     def evaluate(self):
@@ -35,11 +49,7 @@ class TolerantParameterSet(ParameterSet):
             # if key in self.global_params:
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
-                try:
-                    value = interpreter(self.params[key]['formula'])
-                except ZeroDivisionError:
-                    # Grumble grumble...
-                    value = 0
+                value = evaluate_formula(interpreter, self.params[key]['formula'])
                 interpreter.symtable[key] = result[key] = value
             elif 'amount' in self.params[key]:
                 interpreter.symtable[key] = result[key] = self.params[key]['amount']
@@ -66,10 +76,7 @@ def recalculate(dataset):
 
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
-            try:
-                exc['amount'] = interpreter(exc['formula'])
-            except ZeroDivisionError:
-                exc['amount'] = 0
+            exc['amount'] = evaluate_formula(interpreter, exc['formula'])
         elif 'variable' in exc:
             exc['amount'] = interpreter.symtable[exc['variable']]
         else:
-- 
2.43.0


From 158cceb2c6bf2b297303b029898976371faf30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 12/18] fix: power() in formulas with variables or followed by
 parentheses raised ValueError

---
 .../parameterization/python_compatibility.py  | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..a5d1909 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -37,7 +37,8 @@ IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
-POWER_RE = re.compile("power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)")
+POWER_BEGINNING = re.compile("power\(")
+COMPLETE_POWER = re.compile("^power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)$")
 
 
 def find_if_boundaries(string):
@@ -116,17 +117,34 @@ def find_if_clause(ds, string):
         return string
 
 
+def as_number(string):
+    """Python can't parse numbers with leading zeros. Other expressions are not changed."""
+    try:
+        return float(string)
+    except ValueError:
+        return string.strip()
+
+
 def find_power_clause(ds, string):
-    while POWER_RE.search(string):
-        match = POWER_RE.search(string)
+    """Reformat clauses that use ``power(base;exponent)`` syntax.
+
+    Starts with the last clause, which can't have other power clauses inside it."""
+    for start in reversed([m.start() for m in POWER_BEGINNING.finditer(string)]):
+        try:
+            _, end = find_if_boundaries(string[start:])
+        except ValueError:
+            # Unmatched parentheses, can't be parsed in any case
+            continue
+        match = COMPLETE_POWER.search(string[start:start + end + 1])
+        if match is None:
+            continue
         match_string = match.group(0)
-        as_numbers = [float(x) for x in match.groups()]
-        replacement = "(({})**({}))".format(*as_numbers)
+        replacement = "(({})**({}))".format(*[as_number(x) for x in match.groups()])
         logger.info({
             'type': 'table element',
             'data': (ds['name'], '', match_string, replacement)
         })
-        string = string.replace(match_string, replacement)
+        string = string[:start] + replacement + string[start + end + 1:]
     return string
 
 
-- 
2.43.0


From d68c49bfb05159c5c7070363685988325b1c9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 13/18] fix: reserved words were replaced inside of longer
 variable names, and kept as whole formula or in parentheses

---
 .../parameterization/python_compatibility.py      | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index a5d1909..3afd293 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,12 +27,10 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
+# Only complete names, not parts of longer names like ``yield_management`` or ``yield2``
+RESERVED_WORDS_RE = [(word, re.compile(r"(?<!\w){}(?!\w)".format(word)))
                      for word in RESERVED_WORDS]
 
-RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
-
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
@@ -196,6 +194,9 @@ class NameFinder(ast.NodeVisitor):
         if node.__class__.__name__ == 'Name':
             if node.ctx.__class__ == ast.Load and node.id not in self.names:
                 self.names.append(node.id)
+        elif isinstance(node, (ast.Yield, ast.YieldFrom)):
+            # ``yield`` is a variable, not a command
+            raise UnparsableFormula
         ast.NodeVisitor.generic_visit(self, node)
 
 
@@ -220,9 +221,9 @@ def check_and_fix_formula(ds, string):
 
     If the formula can't be repaired, it is returned in its original form; otherwise the new formula is returned."""
     updated = deepcopy(string)
-    for word, reg_exp in RESERVED_WORDS_STARTING:
+    for word, reg_exp in RESERVED_WORDS_RE:
         if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
+            updated = reg_exp.sub(word.upper(), updated)
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], word, string)
@@ -235,7 +236,7 @@ def check_and_fix_formula(ds, string):
         found = []
         for word, reg_exp in RESERVED_WORDS_RE:
             if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
+                updated = reg_exp.sub(word.upper(), updated)
                 found.append(word)
         try:
             get_ast_names(updated)
-- 
2.43.0


From 3f1963bf11aa0de13c43bbf4a4d28c5b4f4eff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 14/18] fix: functions inside of the arguments of if() and
 power() were torn apart

---
 .../parameterization/python_compatibility.py  | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 3afd293..a69aea6 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -33,10 +33,8 @@ RESERVED_WORDS_RE = [(word, re.compile(r"(?<!\w){}(?!\w)".format(word)))
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
-COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
 POWER_BEGINNING = re.compile("power\(")
-COMPLETE_POWER = re.compile("^power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)$")
 
 
 def find_if_boundaries(string):
@@ -67,18 +65,28 @@ def find_if_boundaries(string):
     raise ValueError(message.format(stack[0], string))
 
 
+def split_arguments(substring):
+    """Split the arguments of a function call like ``if(a;b;c)``, but not the ones of other functions inside of them."""
+    arguments, depth = [""], 0
+    for character in substring[substring.index("(") + 1:-1]:
+        if character == ";" and not depth:
+            arguments.append("")
+            continue
+        depth += {"(": 1, ")": -1}.get(character, 0)
+        arguments[-1] += character
+    return arguments
+
+
 def replace_if_statement(substring):
     """Replace an ``if(a;b;c)`` clause. ``substring`` must contain the if clause exactly."""
-    match = COMPLETE_IF.search(substring)
-    match_string = match.group(0)
-    condition, if_true, if_false = match.groups()
+    condition, if_true, if_false = split_arguments(substring)
     if if_true == if_false:
         replacement = "({})".format(if_true.strip())
     else:
         replacement = "(({}) if ({}) else ({}))".format(
             if_true, condition, if_false
         )
-    return substring.replace(match_string, replacement)
+    return replacement
 
 
 def find_replace_nested_if_statements(ds, line):
@@ -133,11 +141,11 @@ def find_power_clause(ds, string):
         except ValueError:
             # Unmatched parentheses, can't be parsed in any case
             continue
-        match = COMPLETE_POWER.search(string[start:start + end + 1])
-        if match is None:
+        match_string = string[start:start + end + 1]
+        arguments = split_arguments(match_string)
+        if len(arguments) != 2:
             continue
-        match_string = match.group(0)
-        replacement = "(({})**({}))".format(*[as_number(x) for x in match.groups()])
+        replacement = "(({})**({}))".format(*[as_number(x) for x in arguments])
         logger.info({
             'type': 'table element',
             'data': (ds['name'], '', match_string, replacement)
-- 
2.43.0


From b67a8f27b4e7e45e6a66e32884c2ea88f5ee5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 15/18] fix: variable names of properties kept the whitespace
 around them

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..6023b04 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -104,7 +104,7 @@ def extract_property(prop):
     if hasattr(prop, "uncertainty"):
         data['uncertainty'] = extract_uncertainty(prop.uncertainty)
     if prop.get("variableName"):
-        data['variable'] = prop.get("variableName")
+        data['variable'] = prop.get("variableName").strip()
     if prop.get("mathematicalRelation"):
         data['formula'] = prop.get("mathematicalRelation").strip()
     return data
-- 
2.43.0


From 9d4e7eb995a90de32bd9af67bf7a8939fe55cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 16/18] fix: allocation replaced constrained markets by the
 keys of their dataset

---
 ocelot/transformations/cutoff/allocation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..dbdb6fe 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -16,6 +16,7 @@ from .wastes import (
     recycling_allocation,
     recycling_2_allocation,
 )
+from functools import wraps
 import logging
 
 logger = logging.getLogger('ocelot')
@@ -145,12 +146,18 @@ def choose_allocation_method(dataset):
         return "economic"
 
 
+@wraps(constrained_market_allocation)
+def allocate_constrained_market(dataset):
+    """Allocation functions must return a list of datasets."""
+    return [constrained_market_allocation(dataset)]
+
+
 ALLOCATION_METHODS = (
     ("single product", no_allocation),
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", allocate_constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From 13dec47b63bd3a85f2ac24bc5b3ce544c09fc1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:53 +0000
Subject: [PATCH 17/18] fix: link wastes and recyclables of the cutoff system
 models

flip_non_allocatable_byproducts ran after linking, so every waste and recyclable
flow ended up as a technosphere input without a supplier: waste producers paid
nothing for treatment, and the export to Brightway failed.  It now comes before
linking, as docs/cutoff.rst describes.
---
 ocelot/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/configuration.py b/ocelot/configuration.py
index 7e7fd9e..b7eb7fc 100644
--- a/ocelot/configuration.py
+++ b/ocelot/configuration.py
@@ -60,10 +60,10 @@ cutoff_config = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    flip_non_allocatable_byproducts,
     link_markets_by_pv,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
@@ -89,10 +89,10 @@ cutoff_config_ecoinvent_row = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    flip_non_allocatable_byproducts,
     link_markets_by_pv_ecoinvent_row,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
-- 
2.43.0


From 007858a4cba7f1abc43f8cca7d3f3f49863f9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:54 +0000
Subject: [PATCH 18/18] fix: market groups of the consequential model had no
 inputs

Suppliers were listed for market groups, but never turned into exchanges before
the lists are deleted; consumers supplied by a market group got nothing from it.
---
 ocelot/transformations/consequential/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 7c001fd..b3eae5c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -39,6 +39,7 @@ link_markets_by_technology_level = Collection(
                                       to_type="market group"),
     partial(update_market_production_volumes, kind='market group'),
     allocate_all_market_suppliers,
+    partial(allocate_all_market_suppliers, kind='market group'),
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
-- 
2.43.0

