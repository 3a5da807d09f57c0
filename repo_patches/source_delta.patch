From 8450e68121321e0069c73474bd7a3c582889c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 01/29] fix: arraySet with an integral float index sets the
 element instead of failing

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 0dc9613bc202f2bf63c0fb76af2d8b13fa60f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 02/29] fix: operators whose result is not representable yield
 null instead of raising a host exception

---
 src/bare_script/runtime.py | 46 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..7dfa81e 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -5,6 +5,7 @@
 The BareScript runtime
 """
 
+import contextlib
 import datetime
 import functools
 
@@ -267,6 +268,28 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+        return _binary_operation(bin_op, left_value, right_value)
+
+    # Unary expression
+    if expr_key == 'unary':
+        unary_op = expr['unary']['op']
+        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
+        if unary_op == '!':
+            return not value_boolean(value)
+        elif unary_op == '-' and isinstance(value, (int, float)):
+            return -value
+
+        # Invalid operation value
+        return None
+
+    # Expression group
+    # expr_key == 'group'
+    return evaluate_expression(expr['group'], options, locals_, builtins)
+
+
+# Helper function to compute a non-short-circuiting binary operation. An operation with no representable result is null.
+def _binary_operation(bin_op, left_value, right_value):
+    with contextlib.suppress(ArithmeticError, RecursionError, TypeError, ValueError):
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
@@ -337,26 +360,11 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
+                power_value = left_value ** right_value
+                return power_value if not isinstance(power_value, complex) else None
 
-        # Invalid operation values
-        return None
-
-    # Unary expression
-    if expr_key == 'unary':
-        unary_op = expr['unary']['op']
-        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
-        if unary_op == '!':
-            return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
-            return -value
-
-        # Invalid operation value
-        return None
-
-    # Expression group
-    # expr_key == 'group'
-    return evaluate_expression(expr['group'], options, locals_, builtins)
+    # Invalid operation values
+    return None
 
 
 class BareScriptRuntimeError(Exception):
-- 
2.43.0


From 765ff21a1d485e3e530b88b0cb545f8e95be08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 03/29] fix: booleans are not numbers - operators on a boolean
 and a number yield null

---
 src/bare_script/runtime.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 7dfa81e..283116b 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -276,7 +276,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and _is_number(value):
             return -value
 
         # Invalid operation value
@@ -287,12 +287,17 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+# Helper function to test if a value is a number (booleans are not numbers)
+def _is_number(value):
+    return isinstance(value, (int, float)) and not isinstance(value, bool)
+
+
 # Helper function to compute a non-short-circuiting binary operation. An operation with no representable result is null.
 def _binary_operation(bin_op, left_value, right_value):
     with contextlib.suppress(ArithmeticError, RecursionError, TypeError, ValueError):
         if bin_op == '+':
             # number + number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value + right_value
 
             # string + string
@@ -306,16 +311,16 @@ def _binary_operation(bin_op, left_value, right_value):
                 return value_string(left_value) + right_value
 
             # datetime + number
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+            elif isinstance(left_value, datetime.date) and _is_number(right_value):
                 left_dt = value_normalize_datetime(left_value)
                 return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+            elif _is_number(left_value) and isinstance(right_value, datetime.date):
                 right_dt = value_normalize_datetime(right_value)
                 return right_dt + datetime.timedelta(milliseconds=left_value)
 
         elif bin_op == '-':
             # number - number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value - right_value
 
             # datetime - datetime
@@ -326,12 +331,12 @@ def _binary_operation(bin_op, left_value, right_value):
 
         elif bin_op == '*':
             # number * number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value * right_value
 
         elif bin_op == '/':
             # number / number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value / right_value
 
         elif bin_op == '==':
@@ -354,12 +359,12 @@ def _binary_operation(bin_op, left_value, right_value):
 
         elif bin_op == '%':
             # number % number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value % right_value
 
         else: # bin_op == '**'
             # number ** number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 power_value = left_value ** right_value
                 return power_value if not isinstance(power_value, complex) else None
 
-- 
2.43.0


From 72dd766163b15779cf7a17c314db96d50a1076bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 04/29] fix: a boolean is not a valid number function argument

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..fe38375 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -297,7 +297,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 976b31d8b5ffc8c5647b02ee97bc18b1acc28fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 05/29] fix: argument validation reports its failure value for
 infinite, NaN and self-containing arguments

---
 src/bare_script/value.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index fe38375..05566d4 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -312,7 +312,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and arg_value % 1 != 0) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
@@ -345,7 +345,12 @@ class ValueArgsError(Exception):
         if arg_name is None:
             message = f'Too many arguments ({value_json(arg_value)})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            try:
+                arg_json = value_json(arg_value)
+            except (RecursionError, ValueError):
+                # The value has no JSON representation (e.g. it contains itself)
+                arg_json = f'<{value_type(arg_value)}>'
+            message = f'Invalid "{arg_name}" argument value, {arg_json}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From 5804512dfac96579ee3e297d9f8bd5beaeaaa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 06/29] fix: a call model without arguments binds null
 parameters, and lastArgArray false is not a trailing array

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 283116b..8764a65 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -155,7 +155,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = (func_args_length - 1) if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
@@ -224,7 +224,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 0793306998b7209b9d90ca0eab8697e262b59f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 07/29] fix: if, elif, while and for condition errors carry the
 line, line number and line column

---
 src/bare_script/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..54b824a 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -128,7 +128,7 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': _parse_line_expression(match_if_begin, 'expr', start_line_number + ix_line)}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -159,7 +159,7 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': _parse_line_expression(match_if_else_if, 'expr', start_line_number + ix_line)}}
             }
             label_index += 1
 
@@ -217,7 +217,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptLoop{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_line_expression(match_while_begin, 'expr', start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -266,7 +266,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': _parse_line_expression(match_for_begin, 'values', start_line_number + ix_line)}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -403,6 +403,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a statement's expression group - errors are positioned in the statement's line
+def _parse_line_expression(match, group, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, match.string, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From 12c04c5cd5bf1aeef141484c26b9fabcb9b59370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 08/29] fix: a function left open at the end of the script is a
 parser error

---
 src/bare_script/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 54b824a..485bd1c 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -89,6 +89,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -393,6 +395,10 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling function definition?
+    if function_def is not None and len(label_defs) == function_label_def_depth:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From 504522b4efe83f3d961c564b0bf1aa387d3f8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 09/29] fix: a line continuation at the end of the script is a
 parser error

---
 src/bare_script/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 485bd1c..1e0460a 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -395,6 +395,11 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        line = f"{' '.join(line_continuation)} \\"
+        raise BareScriptParserError('Missing continued line', line, len(line), start_line_number + ix_line)
+
     # Dangling function definition?
     if function_def is not None and len(label_defs) == function_label_def_depth:
         raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
-- 
2.43.0


From 462cb8f07e83af58c6826082239588011c6f1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 10/29] fix: statements started by an included script count
 against the includer's statement limit

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 8764a65..b82e635 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -140,7 +140,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From a052eaccac59008b90ef8023fcf4e5c566a9a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 11/29] fix: statements started by data expressions with
 variables count against the statement limit

---
 src/bare_script/data.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..f3383e7 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -25,6 +25,15 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to evaluate a row's expression. When the evaluation options are a copy, the statement count is carried back.
+def _evaluate_row(expr, row, eval_options, options):
+    try:
+        return _import_evaluate_expression()(expr, eval_options, row)
+    finally:
+        if eval_options is not options and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -157,8 +166,6 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Compute the map of row field name to joined row field name
     left_names = {}
     right_names_raw = {}
@@ -198,7 +205,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = value_json(_evaluate_row(right_expression, right_row, eval_options, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -206,7 +213,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = value_json(_evaluate_row(left_expression, left_row, eval_options, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -237,8 +244,6 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
 
@@ -253,7 +258,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
 
     # Compute the calculated field for each row
     for row in data:
-        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
+        row[field_name] = _evaluate_row(calc_expr, row, eval_options, options)
 
     return data
 
@@ -275,7 +280,6 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
@@ -291,7 +295,7 @@ def filter_data(data, expr, variables=None, options=None):
 
     # Filter the data
     for row in data:
-        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
+        if value_boolean(_evaluate_row(filter_expr, row, eval_options, options)):
             result.append(row)
 
     return result
-- 
2.43.0


From 566830462b21f358593c5d5dc8a423385952a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/29] fix: datetimeMillisecond truncates like
 datetimeISOFormat - it never returns 1000

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..02e22fd 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From 795f70653123c9601dd2e5bd442625fac955387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 13/29] fix: text that is not a valid ISO date or datetime
 parses to null instead of failing

---
 src/bare_script/value.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 05566d4..7c26c79 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -506,15 +506,21 @@ def value_parse_datetime(text):
         year = int(m_date.group('year'))
         month = int(m_date.group('month'))
         day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
+        try:
+            return datetime.datetime(year, month, day)
+        except ValueError:
+            return None
     elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        try:
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        except (OverflowError, ValueError):
+            return None
         return result.replace(microsecond=(result.microsecond // 1000) * 1000)
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 871eeec5cd49255a9bdc2d9be5ff1a06382cb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 14/29] fix: endless includes raise a runtime error instead of
 a host RecursionError

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b82e635..fcb2c6a 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -42,7 +42,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    try:
+        return _execute_script_helper(script['statements'], options, None)
+    except RecursionError as exc:
+        raise BareScriptRuntimeError('Maximum recursion depth exceeded') from exc
 
 
 def _execute_script_helper(statements, options, locals_):
-- 
2.43.0


From 0c3b7bb6e9dcd32272462265003ccfdd3d87fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 15/29] fix: an expression nested too deeply to parse is a
 parser error instead of a host RecursionError

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 1e0460a..4e9081e 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -468,6 +468,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression too deeply nested', expr_text)
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 7b23e1647c6a5e1d5c941592c08fa8c34d8ada4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/29] fix: an include statement in a function resolves
 against the script that contains it

---
 src/bare_script/runtime.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index fcb2c6a..0957bc8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -43,12 +43,12 @@ def execute_script(script, options=None):
     # Execute the script
     options['statementCount'] = 0
     try:
-        return _execute_script_helper(script['statements'], options, None)
+        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
     except RecursionError as exc:
         raise BareScriptRuntimeError('Maximum recursion depth exceeded') from exc
 
 
-def _execute_script_helper(statements, options, locals_):
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -100,14 +100,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -144,7 +143,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
@@ -154,8 +153,8 @@ def _execute_script_helper(statements, options, locals_):
     return None
 
 
-# Runtime script function implementation
-def _script_function(function, args, options):
+# Runtime script function implementation. The function's include statements are relative to the script that defines it.
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -168,7 +167,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From 7486a6fb34f7084b6ac41aec88d057317b5eddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 17/29] fix: a syntax error in a script included by a function
 raises the parser error

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 0957bc8..cbad5f5 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -128,7 +128,7 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -242,7 +242,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -387,3 +387,8 @@ class BareScriptRuntimeError(Exception):
 
     def __init__(self, message):
         super().__init__(message)
+
+
+# An include parser error - unlike a function's parser error (e.g. dataFilter), it's not a function failure
+class _IncludeParserError(BareScriptParserError):
+    pass
-- 
2.43.0


From 2f7ea933ea8fbad98b5d2a13db14eb732d034d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 18/29] fix: dataParseCSV rows with extra values have a
 non-string key

---
 src/bare_script/library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 02e22fd..d0b6f40 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -439,8 +439,10 @@ def _data_parse_csv(args, unused_options):
             return None
         lines.extend(arg.splitlines())
 
-    # Parse the CSV
+    # Parse the CSV (any extra values in a row have no field name)
     data = list(csv.DictReader(lines, skipinitialspace=True))
+    for row in data:
+        row.pop(None, None)
 
     # Validate the data (as CSV)
     validate_data(data, True)
-- 
2.43.0


From e595b107b22d899435b0b73539d932ac94a6b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 19/29] fix: a null log function no longer breaks the debug
 report of a failed function

---
 src/bare_script/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index cbad5f5..55bed5e 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -246,8 +246,9 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
-                if options is not None and 'logFn' in options and options.get('debug'):
-                    options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
+                log_fn = options.get('logFn') if options is not None and options.get('debug') else None
+                if log_fn is not None:
+                    log_fn(f'BareScript: Function "{func_name}" failed with error: {error}')
                 if isinstance(error, ValueArgsError):
                     return error.return_value
                 return None
-- 
2.43.0


From 67afe885b0bb6ae3d9031386c228095822fd0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 20/29] fix: continue in a while loop re-tests the loop's
 condition

---
 src/bare_script/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4e9081e..7dd66ba 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -214,12 +214,14 @@ def parse_script(script_text, start_line_number=1):
         # While-do begin?
         match_while_begin = _R_SCRIPT_WHILE_BEGIN.match(line)
         if match_while_begin:
-            # Add the while-do label
+            # Add the while-do label (continue re-tests the condition, unless the condition is the constant true)
+            while_expr = _parse_line_expression(match_while_begin, 'expr', start_line_number + ix_line)
+            is_always = while_expr == {'variable': 'true'}
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptLoop{label_index}' if is_always else f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': _parse_line_expression(match_while_begin, 'expr', start_line_number + ix_line),
+                'expr': while_expr,
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -244,6 +246,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From ee3e3c6b5b93246a2daedaa0a8514403888d368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 21/29] fix: lint checks the functions defined within functions

---
 src/bare_script/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..7d138d0 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -275,7 +275,8 @@ def lint_script(script):
     functions_defined = {}
     labels_defined = {}
     labels_used = {}
-    for ix_statement, statement in enumerate(script['statements']):
+    ix_statements = list(enumerate(script['statements']))
+    for ix_statement, statement in ix_statements:
         statement_key = next(iter(statement.keys()))
 
         # Function definition checks
@@ -351,6 +352,10 @@ def lint_script(script):
                 elif fn_statement_key == 'jump':
                     fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement
 
+                # Nested function - check it, too
+                elif fn_statement_key == 'function':
+                    ix_statements.append((ix_fn_statement, fn_statement))
+
             # Unused function labels?
             for label in sorted(fn_labels_defined.keys()):
                 if label not in fn_labels_used:
-- 
2.43.0


From 182853858e383a1830e9ad133d4bc9e00ebbb629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:12 +0000
Subject: [PATCH 22/29] fix: dataTop with a float count

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index d0b6f40..9386b3e 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -474,7 +474,7 @@ _DATA_SORT_ARGS = value_args_model([
 # $return: The top data array
 def _data_top(args, unused_options):
     data, count, category_fields = value_args_validate(_DATA_TOP_ARGS, args)
-    return top_data(data, count, category_fields)
+    return top_data(data, int(count), category_fields)
 
 _DATA_TOP_ARGS = value_args_model([
     {'name': 'data', 'type': 'array'},
-- 
2.43.0


From 785180dda89790d25c26f2be9e3bc8e201781fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 23/29] fix: mathRound and numberToFixed with many digits given
 as an int

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7c26c79..40ec7ad 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -445,7 +445,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 5ba6e8ed4b7033c903c89e4d8b2f9a8208e55925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 24/29] fix: dataParseCSV keeps the line breaks and separators
 within a cell

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9386b3e..69e42e6 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV (any extra values in a row have no field name)
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 3d4bb233c9a4bf7e20475599c08129a4846b3d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 25/29] fix: value_json leaves strings that contain ".," or the
 like alone

---
 src/bare_script/value.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 40ec7ad..ea69d1c 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,8 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Match a string (kept as-is) or a number's trailing ".0"
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("[^"\\]*(?:\\.[^"\\]*)*")|\.0*(?=[,}\]]|$)', re.MULTILINE)
 
 
 def value_boolean(value):
-- 
2.43.0


From 4fa4cd427048a22454c3ded8fdd527444e3319b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 26/29] fix: data functions tell a datetime category from its
 text

---
 src/bare_script/data.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index f3383e7..7e68f77 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,7 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, value_parse_number, value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -34,6 +34,20 @@ def _evaluate_row(expr, row, eval_options, options):
             options['statementCount'] = eval_options['statementCount']
 
 
+# Helper to get a value's category key. Values that are equal, and only those, have equal keys.
+def _category_key(value):
+    type_ = value_type(value)
+    if type_ == 'array':
+        return (type_, *map(_category_key, value))
+    elif type_ == 'object':
+        return (type_, *((key, _category_key(value[key])) for key in sorted(value)))
+    elif type_ == 'datetime':
+        return (type_, value_normalize_datetime(value))
+    elif type_ in ('boolean', 'number', 'string'):
+        return (type_, value)
+    return (type_,)
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -205,7 +219,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(_evaluate_row(right_expression, right_row, eval_options, options))
+        category_key = _category_key(_evaluate_row(right_expression, right_row, eval_options, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -213,7 +227,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(_evaluate_row(left_expression, left_row, eval_options, options))
+        category_key = _category_key(_evaluate_row(left_expression, left_row, eval_options, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -324,7 +338,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _category_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -465,7 +479,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _category_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 834e809920829539deeab9c0802c491e014a5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:11 +0000
Subject: [PATCH 27/29] fix: numberParseFloat and numberParseInt return null
 for "1_000" and for non-ASCII digits

---
 src/bare_script/value.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index ea69d1c..89d6da6 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -458,6 +458,10 @@ def value_parse_number(text):
     :rtype: float or None
     """
 
+    # Python's number syntax is wider than BareScript's
+    if not _is_number_text(text):
+        return None
+
     try:
         value = float(text)
         if math.isnan(value) or math.isinf(value):
@@ -479,12 +483,21 @@ def value_parse_integer(text, radix=10):
     :rtype: int or None
     """
 
+    # Python's number syntax is wider than BareScript's
+    if not _is_number_text(text):
+        return None
+
     try:
         return int(text, radix)
     except ValueError:
         return None
 
 
+# Helper function to rule out digit separators (e.g. "1_000") and digits other than ASCII, which Python's float and int accept
+def _is_number_text(text):
+    return '_' not in text and text.strip().isascii()
+
+
 #
 # Datetime value functions
 #
-- 
2.43.0


From f34c9eb5dd2975a4b0166f233e47f23f992e1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:45 +0000
Subject: [PATCH 28/29] fix: diffLines keeps the identical blocks (misspelt
 variable)

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 7d757eb53f6b12793fcdcfea6b7dcc7d8482b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:40 +0000
Subject: [PATCH 29/29] fix: a call of a function with a one-letter name is no
 longer a syntax error

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 7dd66ba..2424ef8 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -617,7 +617,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0

