From 368ab255fcab967205636735989555fa17c500b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 01/27] fix: evaluate the checks of every tuple value, also in
 arrays and tuples

Array_Type.perform_type_checks stopped at the first failing element, and
Tuple_Type.perform_type_checks never evaluated the checks of tuples nested
in a tuple, so failing checks were silently not reported.
---
 trlc/ast.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..0940d39 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2567,8 +2567,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
@@ -3098,6 +3101,13 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            # First evaluate the checks of any nested tuples
+            for n_comp in self.all_components():
+                if not n_comp.n_typ.perform_type_checks(
+                        mh,
+                        value.value[n_comp.name],
+                        gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From edbcc452e8025f724cb1da07b65a2d08117bc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 02/27] fix: report an array index equal to the array length

The bound test was off by one, so indexing just past the end of an array
ended in an IndexError instead of the 'array is not big enough' error.
---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 0940d39..516a96f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1812,7 +1812,7 @@ class Binary_Expression(Expression):
                          (v_lhs.typ.upper_bound,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From 6d8e9ea975e45f08cba0a0629ee4b50a6d2bd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 03/27] fix: lint imports in a fixed order

The imports of a file are a set of objects hashed by address, so the order
of the 'unused import' messages changed from run to run.
---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..471365b 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -234,7 +234,8 @@ class Linter:
                 continue
             if not file.cu.imports:
                 continue
-            for item in file.cu.imports:
+            for item in sorted(file.cu.imports,
+                               key = lambda pkg: pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
                                  if t.value == item.name]
                 markup = self.markup_ref(item,
-- 
2.43.0


From dcaae8844c02ad05ed22c08860d9b89e30603848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 04/27] fix: iterate record objects by section any number of
 times

The iterator remembered the files and sections it had announced in the
symbol table itself, so a second or an interleaved iteration left them out.
---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 516a96f..43c7b28 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3412,8 +3412,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3441,16 +3439,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From 18753f727e70f5a145a2571a8ed3a7db6709c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 05/27] fix: exit with 141 if a broken pipe only shows up when
 flushing stdout

Small outputs stay in the buffer of sys.stdout until the interpreter shuts
down, so the handler in main never saw the BrokenPipeError and the tool
exited with status 120 and an 'Exception ignored' message.
---
 trlc/trlc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..883f989 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -818,7 +818,12 @@ def trlc():
 
 def main():
     try:
-        return trlc()
+        try:
+            return trlc()
+        finally:
+            # Make sure buffered output fails here and not at interpreter
+            # shutdown
+            sys.stdout.flush()
     except BrokenPipeError:
         # Python flushes standard streams on exit; redirect remaining output
         # to devnull to avoid another BrokenPipeError at shutdown
-- 
2.43.0


From f4803fe1b9b9f15e9974a4cf6801319ca96e27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 06/27] fix: process returns no symbol table if any error was
 reported

Errors that do not stop processing (e.g. an array with too few elements, an
unknown import, or an included file that cannot be registered) were reported,
but the API still returned a symbol table, contrary to its documentation. The
command-line tool behaves as before.
---
 trlc/trlc.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 883f989..aafec46 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -85,6 +85,7 @@ class Source_Manager:
 
         self.mh          = mh
         self.mh.sm       = self
+        self.old_errors  = mh.errors
         self.stab        = ast.Symbol_Table.create_global_table(mh)
         self.includes    = {}
         self.rsl_files   = {}
@@ -484,6 +485,13 @@ class Source_Manager:
         :return: a symbol table (or None if there were any errors)
         :rtype: Symbol_Table
         """
+        # Not all errors stop us from processing the remaining files
+        if self.process_files() and self.mh.errors <= self.old_errors:
+            return self.stab
+        else:
+            return None
+
+    def process_files(self) -> bool:
         # lobster-trace: LRM.File_Parsing_Order
         # lobster-trace: LRM.File_Parsing_References
 
@@ -500,7 +508,7 @@ class Source_Manager:
 
         if not self.error_recovery and not ok:  # pragma: no cover
             self.callback_parse_end()
-            return None
+            return False
 
         # Perform sanity checks (enabled by default). We only do this
         # if there were no errors so far.
@@ -513,39 +521,36 @@ class Source_Manager:
         # Stop here if we're not processing TRLC files.
         if not self.parse_trlc:  # pragma: no cover
             self.callback_parse_end()
-            if ok:
-                return self.stab
-            else:
-                return None
+            return ok
 
         # Parse TRLC files. Almost all the semantic analysis and name
         # resolution happens here, with the notable exception of resolving
         # record references (as we can have circularity here).
         if not self.parse_trlc_files():  # pragma: no cover
             self.callback_parse_end()
-            return None
+            return False
 
         # Resolve record reference names and do the missing semantic
         # analysis.
         # lobster-trace: LRM.File_Parsing_References
         if not self.resolve_record_references():
             self.callback_parse_end()
-            return None
+            return False
 
         if not ok:
             self.callback_parse_end()
-            return None
+            return False
 
         # Finally, apply user defined checks
         if not self.perform_checks():
             self.callback_parse_end()
-            return None
+            return False
 
         if self.lint_mode and ok:
             linter.verify_imports()
 
         self.callback_parse_end()
-        return self.stab
+        return True
 
 
 def trlc():
@@ -722,8 +727,7 @@ def trlc():
         mh.close()
         return 1
 
-    if sm.process() is None:
-        ok = False
+    ok = sm.process_files()
 
     if ok:
         if options.debug_dump:  # pragma: no cover
-- 
2.43.0


From 202d993ec174bfef423198d07bd3f88200e6956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 07/27] fix: report directories that cannot be read

os.walk silently skips directories it cannot list, so their files were left
out and the run still succeeded.
---
 trlc/trlc.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index aafec46..09d82e3 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -165,6 +165,12 @@ class Source_Manager:
                       primary_file   = primary_file,
                       lexer          = lexer)
 
+    def unreadable_directory(self, err):
+        assert isinstance(err, OSError)
+        self.mh.error(Location(err.filename),
+                      "cannot read directory: %s" % err.strerror,
+                      fatal = False)
+
     def register_include(self, dir_name):
         """Make contents of a directory available for automatic inclusion
 
@@ -174,7 +180,8 @@ class Source_Manager:
         """
         assert os.path.isdir(dir_name)
 
-        for path, dirs, files in os.walk(dir_name):
+        for path, dirs, files in os.walk(dir_name,
+                                         onerror=self.unreadable_directory):
             for n, dirname in reversed(list(enumerate(dirs))):
                 keep = True
                 for exclude_pattern in self.exclude_patterns:
@@ -249,7 +256,9 @@ class Source_Manager:
         # lobster-trace: LRM.Layout
 
         ok = True
-        for path, dirs, files in os.walk(dir_name):
+        errors = self.mh.errors
+        for path, dirs, files in os.walk(dir_name,
+                                         onerror=self.unreadable_directory):
             dirs.sort()
 
             for n, dirname in reversed(list(enumerate(dirs))):
@@ -265,7 +274,7 @@ class Source_Manager:
                 if os.path.splitext(file_name)[1] in (".rsl",
                                                       ".trlc"):
                     ok &= self.register_file(os.path.join(path, file_name))
-        return ok
+        return ok and self.mh.errors == errors
 
     def register_rsl_file(self, file_name, file_content=None, primary=True):
         assert os.path.isfile(file_name)
-- 
2.43.0


From d0e9dfc3cc3121b25e1e32b17d50d9cf9b254253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 08/27] fix: report an unexpected end of file instead of
 crashing

The array bound, check details and separator tuple rules looked at the
location of the next token, which does not exist at the end of a file.
---
 trlc/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..628a96c 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -170,6 +170,11 @@ class Parser_Base:
             "%s is not a valid keyword" % value
         return self.peek("KEYWORD") and self.nt.value == value
 
+    def next_location(self):
+        # The location of the next token, or of the last token if we
+        # have reached the end of the file
+        return self.ct.location if self.nt is None else self.nt.location
+
     def match(self, kind):
         # lobster-trace: LRM.Matching_Value_Types
 
@@ -637,7 +642,7 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error(self.next_location(),
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1593,7 +1598,7 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error(self.next_location(),
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1820,7 +1825,7 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate(self.next_location(), typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From 494cbe02676376c6d6e7850f6937e2932a9b61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 09/27] fix: report a wrong number of parameters for type
 conversions

A builtin numeric type has no arity attribute.
---
 trlc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 628a96c..1736818 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1275,12 +1275,12 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
                               "function requires at least %u parameters" %
-                              n_name.arity)
+                              required_arity)
 
         # Enforce types
         if n_name.name == "len":
-- 
2.43.0


From 27bcbb76789a471b69f588a3d4612f8628fbae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 10/27] fix: report a membership test in null

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 1736818..40886b1 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -921,7 +921,7 @@ class Parser(Parser_Base):
                 self.mh.error(
                     n_a.location,
                     "membership test only defined for Strings and Arrays,"
-                    " not for %s" % n_a.typ.name)
+                    " not for %s" % (n_a.typ.name if n_a.typ else "null"))
 
             if t_not is not None:
                 a_unary_op = ast.Unary_Operator.LOGICAL_NOT
-- 
2.43.0


From 62face50a62a0fa16a68c913b7ecb801c4fdc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 11/27] fix: do not crash on names in models with a broken
 preamble

---
 trlc/trlc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 09d82e3..3213c80 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -341,6 +341,8 @@ class Source_Manager:
                 except TRLC_Error:
                     ok = False
                     self.files_with_preamble_errors.add(file_name)
+                    # Models are still parsed, but nothing is visible
+                    container[file_name].cu.imports = set()
 
             # Then parse all imports and add all valid links
             for file_name in sorted(container):
-- 
2.43.0


From 490a51d7496d6ce57580a5ec18182690443afd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 12/27] fix: report an unterminated string at the end of a file
 instead of crashing

---
 trlc/lexer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..938b1bf 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -321,6 +321,11 @@ class TRLC_Lexer(Lexer_Base):
         # lobster-exclude: Utility function
         return Location(self.file_name, 1, 1)
 
+    def last_pos(self):
+        # lobster-exclude: Utility function
+        # The current position, or the last one if we ran off the end
+        return min(self.lexpos, self.length - 1)
+
     def token(self):
         # Skip whitespace and move to the next char
         self.skip_whitespace()
@@ -425,7 +430,7 @@ class TRLC_Lexer(Lexer_Base):
                                              start_line = start_line,
                                              start_col  = start_col,
                                              start_pos  = start_pos,
-                                             end_pos    = self.lexpos),
+                                             end_pos    = self.last_pos()),
                             "unterminated triple-quoted string")
             else:
                 while self.nc != '"':
@@ -462,7 +467,7 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = self.last_pos()),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
@@ -477,7 +482,7 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = self.last_pos()),
                         "unterminated triple-quoted string")
 
         elif self.is_numeric(self.cc):
@@ -581,7 +586,7 @@ class TRLC_Lexer(Lexer_Base):
                                 start_line = start_line,
                                 start_col  = start_col,
                                 start_pos  = start_pos,
-                                end_pos    = min(self.lexpos, self.length - 1))
+                                end_pos    = self.last_pos())
 
         if kind == "IDENTIFIER":
             value = sref.text()
-- 
2.43.0


From 20b2cedddd8644c2db91299f84b319509d37a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 13/27] fix: do not attach verification checks during
 functional translation

Range tests, oneof, division, and array indexing inside quantifiers,
tuple checks, and freezing expressions made --verify crash.
---
 trlc/vcg.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..6e6e1e2 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -938,7 +938,8 @@ class VCG:
 
             elif isinstance(n_expr.n_lhs.typ, Builtin_Integer):
                 if n_expr.operator in (Binary_Operator.DIVIDE,
-                                       Binary_Operator.REMAINDER):
+                                       Binary_Operator.REMAINDER) and \
+                   not self.functional:
                     self.attach_int_division_check(rhs_value, n_expr)
 
                 smt_op = {
@@ -955,7 +956,8 @@ class VCG:
 
             else:
                 assert isinstance(n_expr.n_lhs.typ, Builtin_Decimal)
-                if n_expr.operator == Binary_Operator.DIVIDE:
+                if n_expr.operator == Binary_Operator.DIVIDE and \
+                   not self.functional:
                     self.attach_real_division_check(rhs_value, n_expr)
 
                 smt_op = {
@@ -1008,7 +1010,8 @@ class VCG:
                 smt.String_Literal(rhs_evaluation))
 
         elif n_expr.operator == Binary_Operator.INDEX:
-            self.attach_index_check(lhs_value, rhs_value, n_expr)
+            if not self.functional:
+                self.attach_index_check(lhs_value, rhs_value, n_expr)
             sym_value = smt.Sequence_Index(lhs_value, rhs_value)
 
         elif n_expr.operator == Binary_Operator.ARRAY_CONTAINS:
@@ -1049,11 +1052,14 @@ class VCG:
         assert isinstance(n_expr, Range_Test)
 
         lhs_value, lhs_valid     = self.tr_expression(n_expr.n_lhs)
-        self.attach_validity_check(lhs_valid, n_expr.n_lhs)
+        if not self.functional:
+            self.attach_validity_check(lhs_valid, n_expr.n_lhs)
         lower_value, lower_valid = self.tr_expression(n_expr.n_lower)
-        self.attach_validity_check(lower_valid, n_expr.n_lower)
+        if not self.functional:
+            self.attach_validity_check(lower_valid, n_expr.n_lower)
         upper_value, upper_valid = self.tr_expression(n_expr.n_upper)
-        self.attach_validity_check(upper_valid, n_expr.n_upper)
+        if not self.functional:
+            self.attach_validity_check(upper_valid, n_expr.n_upper)
 
         sym_value = smt.Conjunction(
             smt.Comparison(">=", lhs_value, lower_value),
@@ -1067,7 +1073,8 @@ class VCG:
         choices = []
         for n_choice in n_expr.choices:
             c_value, c_valid = self.tr_expression(n_choice)
-            self.attach_validity_check(c_valid, n_choice)
+            if not self.functional:
+                self.attach_validity_check(c_valid, n_choice)
             choices.append(c_value)
 
         negated_choices = [smt.Boolean_Negation(c)
-- 
2.43.0


From ac99c22d1999921fce55fbe2e7361eb98b9c6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 14/27] fix: declare sorts in the preamble of the verification
 graph

Types first used on a branch, e.g. through a record reference, made
--verify crash.
---
 trlc/vcg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 6e6e1e2..c363b6f 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -693,7 +693,7 @@ class VCG:
                 for n_lit in n_type.literals.values():
                     s_sort.add_literal(n_lit.name)
                 self.enumerations[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Enumeration_Declaration(
                         s_sort,
                         "enumeration %s from %s" % (
@@ -712,7 +712,7 @@ class VCG:
                         s_sort.add_component(n_component.name + ".valid",
                                              smt.BUILTIN_BOOLEAN)
                 self.tuples[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Record_Declaration(
                         s_sort,
                         "tuple %s from %s" % (
-- 
2.43.0


From d302ea1c127ce6a5f5fef99e568ee5c1d1b464e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 15/27] fix: report a null body of a quantified expression
 instead of crashing

---
 trlc/ast.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 43c7b28..74c41e6 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2312,6 +2312,12 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "body of quantified expression %s (%s) "
+                         "must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From 914df51fd031771e0c4aba693b3cee7d8c19f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 16/27] fix: render the records of a section before its
 subsections

---
 tools/trlc_rst/trlc_rst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index a57bc84..497ecd5 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -163,6 +163,11 @@ class TRLCRST:
                 to_tree.append(from_node)
                 break
 
+        # The records of a section must come before its subsections. Otherwise
+        # they would be rendered beneath the last of these.
+        for node in preorder_iter(requirements_root):
+            node.sort(key=lambda child: not child.is_leaf)
+
         self._requirements_tree = requirements_root
 
     def render_to_file(
-- 
2.43.0


From a24c0540599cebd420315d1a9fb61882deeca0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 17/27] fix: let a TRLC_Error raised by a progress callback
 reach the caller

---
 trlc/trlc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 3213c80..de81feb 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -432,9 +432,11 @@ class Source_Manager:
             for node in sorted(candidates):
                 try:
                     ok &= rsl_map[node].parse_rsl_file()
-                    self.signal_progress()
                 except TRLC_Error:
                     ok = False
+                else:
+                    # Not above, so that the callback may raise anything
+                    self.signal_progress()
                 processed.add(node)
 
             work_list -= candidates
@@ -457,9 +459,10 @@ class Source_Manager:
 
             try:
                 ok &= parser.parse_trlc_file()
-                self.signal_progress()
             except TRLC_Error:
                 ok = False
+            else:
+                self.signal_progress()
 
         return ok
 
-- 
2.43.0


From f1aed7608236eb3b74207164cc5c053b61edc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 18/27] fix: drop trailing whitespace also on the first line of
 triple-quoted strings

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 938b1bf..298973c 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From fcef272a8a4fc2073d7af31c1fa3bc0e1260a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 19/27] fix: keep multi-line values inside their field or cell
 in published RST

---
 tools/trlc_rst/trlc_rst.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 497ecd5..3cb0b6a 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -275,7 +275,9 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            lines.append(f":{label}: {value}")
+            # Only indented lines continue the body of a field
+            text = str(value).replace("\n", "\n   ")
+            lines.append(f":{label}: {text}")
         if field_list:
             lines.append("")
         for value in block_values:
@@ -423,7 +425,9 @@ class TRLCRST:
             lines.append(f"   * - {cell}")
             for field_name, _ in normalized:
                 value = self._field_value(obj, field_name)
-                lines.append(f"     - {'' if value is None else value}")
+                # Only indented lines continue a cell
+                text = "" if value is None else str(value).replace("\n", "\n       ")
+                lines.append(f"     - {text}")
         lines.append("")
         return "\n".join(lines) + "\n"
 
-- 
2.43.0


From 4ae32b98f9792ca9e0fb091d7b6fcf4eb3660e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 20/27] fix: write the debug dump to the --log file as well

---
 trlc/trlc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index de81feb..8566c03 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -19,6 +19,7 @@
 # along with TRLC. If not, see <https://www.gnu.org/licenses/>.
 
 import argparse
+import contextlib
 import json
 import os
 import re
@@ -745,7 +746,8 @@ def trlc():
 
     if ok:
         if options.debug_dump:  # pragma: no cover
-            sm.stab.dump()
+            with contextlib.redirect_stdout(mh.out):
+                sm.stab.dump()
         if options.debug_api_dump:
             tmp = {}
             for obj in sm.stab.iter_record_objects():
-- 
2.43.0


From 890d6aee09cc2d0ad741efa00e082f9ccb8b4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 21/27] fix: lint tuples with components after an ambiguous
 separator

---
 trlc/lint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 471365b..93c8907 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,6 +137,10 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+                previous_was_bad_sep = False
+
             elif isinstance(n_item, ast.Composite_Component) and \
                isinstance(n_item.n_typ, ast.Builtin_Integer):
                 previous_was_int = True
-- 
2.43.0


From dcb27b5c5757477938d2c424b07c53fa0565138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 22/27] fix: get_example_value of enumerations

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 74c41e6..c4dc57e 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3200,7 +3200,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From 6b818bb2afa49b0c8831a83f73834b6bd66fccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 23/27] fix: publish records whose name is also the title of a
 section

---
 tools/trlc_rst/trlc_rst.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 3cb0b6a..acd1660 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -208,7 +208,7 @@ class TRLCRST:
                     continue
 
                 if not node.is_leaf:
-                    file.write(f"{node.name}\n")
+                    file.write(f"{node.title}\n")
                     lookup = node.depth - depth_offset
                     if 0 < lookup <= len(RST_HEADLINE_SEPARATORS):
                         separator_char = RST_HEADLINE_SEPARATORS[lookup - 1]
@@ -216,11 +216,11 @@ class TRLCRST:
                         logger.warning(
                             "Section '%s' at depth %d exceeds max RST heading depth, "
                             'falling back to "\'" separator',
-                            node.name,
+                            node.title,
                             node.depth,
                         )
                         separator_char = "'"
-                    file.write(f"{separator_char * len(node.name)}\n")
+                    file.write(f"{separator_char * len(node.title)}\n")
 
                 else:
                     trlc_obj = getattr(node, "trlc_obj", None)
@@ -610,7 +610,10 @@ class TRLCRST:
         current = root
 
         for section in sections:
-            current = Node(section.name, parent=current)
+            if not section.name:
+                raise TRLCParseError("Cannot render a section without a name.")
+            # The prefix keeps sections apart from records of the same name
+            current = Node(f"section {section.name}", parent=current, title=section.name)
         return current
 
     def render(
-- 
2.43.0


From 79ec8c699e9a8265c72640f04af3776af2502f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 24/27] fix: forget the requirements of documents that are read
 again or removed

Without clear_doc the requirement domain registered the definitions of
a document once more whenever Sphinx read it again, so that references
to them became ambiguous, and kept those of removed documents.
---
 tools/sphinx/extensions/trlc/trlc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 25e2c20..7e6000f 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -138,6 +138,13 @@ class RequirementsDomain(Domain):
     def resolve_any_xref(self, env, fromdocname, builder, target, node, contnode):
         return []
 
+    def clear_doc(self, docname):
+        self.data["requirements"] = [
+            requirement
+            for requirement in self.data["requirements"]
+            if requirement[3] != docname
+        ]
+
     def merge_domaindata(self, docnames, otherdata):
         existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-- 
2.43.0


From 69cadd15e650f931a9a8900d1e357a2bd414d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 25/27] fix: keep all definitions when Sphinx merges parallel
 readers

Definitions of the same name in several documents were dropped, all but
the one merged first, so that ambiguous references were linked to an
arbitrary one of them instead of being reported as in a serial build.
---
 tools/sphinx/extensions/trlc/trlc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 7e6000f..79c43f5 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -146,11 +146,11 @@ class RequirementsDomain(Domain):
         ]
 
     def merge_domaindata(self, docnames, otherdata):
-        existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
-        for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-            if docname in docnames and anchor not in existing_anchors:
-                self.data["requirements"].append((_name, _sig, _typ, docname, anchor, _prio))
-                existing_anchors.add(anchor)
+        self.data["requirements"].extend(
+            requirement
+            for requirement in otherdata["requirements"]
+            if requirement[3] in docnames
+        )
 
 
 def setup(app: Sphinx):
-- 
2.43.0


From 34b3273e32ab036060d9f3b4bb682803e82ef2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 26/27] fix: indent the fields of published records into their
 definition

---
 tools/trlc_rst/trlc_rst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index acd1660..7e956c4 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -275,9 +275,10 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            # Only indented lines continue the body of a field
-            text = str(value).replace("\n", "\n   ")
-            lines.append(f":{label}: {text}")
+            # Only indented lines belong to the directive, and only lines
+            # indented further continue the body of a field
+            text = str(value).replace("\n", "\n      ")
+            lines.append(f"   :{label}: {text}")
         if field_list:
             lines.append("")
         for value in block_values:
-- 
2.43.0


From 981ad9c0e6e854ecefd5cd362da398fee20532ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 27/27] fix: return false and zero field values of published
 records

field_value_for reported them as absent, and returned other values that
are not strings as they are, where a rendered string is documented.
---
 tools/trlc_rst/trlc_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 7e956c4..378a657 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -343,12 +343,12 @@ class TRLCRST:
         if obj is None:
             return None
         value = self._field_value(obj, field_name)
-        if not value:
+        if value is None or value == "":
             return None
         field_node = obj.field.get(field_name)
         if isinstance(field_node, trlc.ast.String_Literal):
             return self._preprocess_description(value, indent=0)
-        return value
+        return str(value)
 
     def render_records_to_string(
         self,
-- 
2.43.0

