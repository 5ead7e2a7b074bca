From 38900d1122e9171c1ddea31af9707ccb108860ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 01/34] fix: vector and set comparison return the verdict, not
 a (verdict, splitted) pair

---
 math_evaluation/core/type_evaluations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index fb984dd..e985c0a 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -113,7 +113,7 @@ def is_equiv_vector(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
@@ -134,7 +134,7 @@ def is_equiv_set(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
-- 
2.43.0


From 6cacedf8f80c249506f37daa362d919cfc313c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 02/34] fix: collections of different length are never equal

---
 math_evaluation/core/evaluations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 83ab1fd..6dac43d 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -117,7 +117,7 @@ def is_equiv_possible_tuple(
             return is_equiv(ground_truth_elems, given_elems, verbose), splitted
 
     is_correct = False
-    if len(ground_truth_elems) != len(given_elems) and not '\\in' in given_elems:
+    if len(ground_truth_elems) != len(given_elems):
         is_correct = False
     elif type(ground_truth_elems) != type(given_elems):
         is_correct = False
-- 
2.43.0


From 2607173958407988464fc9146d647ab1d38ca345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 03/34] fix: match unordered elements one to one instead of
 greedily in hash order

---
 math_evaluation/core/evaluations.py  | 17 ++++++-----------
 math_evaluation/core/latex_parser.py | 13 +++++++++++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 6dac43d..2147421 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -10,7 +10,7 @@ from .latex_normalize import (
     _str_to_mat,
     _str_to_interval,
 )
-from .latex_parser import are_equal_under_sympy
+from .latex_parser import are_equal_under_sympy, has_perfect_matching
 from .constants import EPSILON
 import sympy
 
@@ -127,16 +127,11 @@ def is_equiv_possible_tuple(
                 return False, splitted
         return True, splitted
     elif isinstance(ground_truth_elems, set):
-        gt_found_matches = [False] * len(ground_truth_elems)
-        gv_found_matches = [False] * len(given_elems)
-        for i, ground_truth_elem in enumerate(ground_truth_elems):
-            if not gt_found_matches[i]:
-                for j, given_elem in enumerate(given_elems):
-                    if not gv_found_matches[j] and is_equiv(ground_truth_elem, given_elem, verbose):
-                        gt_found_matches[i] = True
-                        gv_found_matches[j] = True
-                        break
-        return all(gt_found_matches), splitted
+        matches = [
+            [is_equiv(ground_truth_elem, given_elem, verbose) for given_elem in given_elems]
+            for ground_truth_elem in ground_truth_elems
+        ]
+        return has_perfect_matching(matches, 0, [False] * len(given_elems)), splitted
 
     return is_correct, splitted
 
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 53f435e..bef82e9 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -283,6 +283,19 @@ def _diff_equal(
     return diff_equal
 
 
+def has_perfect_matching(matches, i: int, used) -> bool:
+    """Can the elements i, i + 1, ... be given different unused partners? matches[i][j]: element i matches partner j."""
+    if i >= len(matches):
+        return True
+    for j in range(len(used)):
+        if not used[j] and matches[i][j]:
+            taken = list(used)
+            taken[j] = True
+            if has_perfect_matching(matches, i + 1, taken):
+                return True
+    return False
+
+
 def _are_equal_latex_sympy(
     gt_latex_sympy: Any, 
     gv_latex_sympy: Any,
-- 
2.43.0


From e618a28ef1ad44d436e170573f69b6da95c6cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 04/34] fix: sets of parsed values are equal only when their
 elements match one to one

---
 math_evaluation/core/latex_parser.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index bef82e9..28d7020 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -321,18 +321,14 @@ def _are_equal_latex_sympy(
         if len(gt_latex_sympy) != len(gv_latex_sympy):
             return False
         
-        for i, _gt in enumerate(gt_latex_sympy):
-            _gt_type = _get_sympy_type(_gt)
-            found_match = False
-            for _gv in gv_latex_sympy:
-                _gv_type = _get_sympy_type(_gv)
-                if _are_equal_latex_sympy(_gt, _gv, _gt_type, _gv_type):
-                    found_match = True
-                    break
-            if not found_match:
-                return False
-        
-        return True
+        matches = [
+            [
+                _are_equal_latex_sympy(_gt, _gv, _get_sympy_type(_gt), _get_sympy_type(_gv))
+                for _gv in gv_latex_sympy
+            ]
+            for _gt in gt_latex_sympy
+        ]
+        return has_perfect_matching(matches, 0, [False] * len(gv_latex_sympy))
     
     if gt_type == gv_type == ANSWER_TYPE_EQUL:
         gt_latex_sympy = gt_latex_sympy.lhs - gt_latex_sympy.rhs
-- 
2.43.0


From f812d650b29a8f075f4048d2d687c109f2bd9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 05/34] fix: compare both sides of a != answer

---
 math_evaluation/core/latex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 28d7020..60e9b0d 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -350,7 +350,7 @@ def _are_equal_latex_sympy(
             # must be `Unequality` with rel_op !=
             # A != B, A1 != B1, we compare two sets: {A, B} and {A1, B1}
             gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
-            gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
+            gv_latex_sympy = _uneq_to_set(gv_latex_sympy)
             gt_type = _get_sympy_type(gt_latex_sympy)
             gv_type = _get_sympy_type(gv_latex_sympy)
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
-- 
2.43.0


From 8c9a44f4e7085d5fa296978afb8f461235cd234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 06/34] fix: unary minus of a matrix

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index bc076fd..0d916cf 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -447,7 +447,7 @@ def convert_unary(unary):
     elif unary.SUB():
         tmp_convert_nested_unary = convert_unary(nested_unary)
         if tmp_convert_nested_unary.is_Matrix:
-            return mat_mul_flat(-1, tmp_convert_nested_unary, evaluate=False)
+            return mat_mul_flat(-1, tmp_convert_nested_unary)
         else:
             if tmp_convert_nested_unary.func.is_Number:
                 return -tmp_convert_nested_unary
-- 
2.43.0


From fc19aa68bebbf8d416bd844ca61bad7b8bee7320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 07/34] fix: rows, cols, nullspace and eigenvects of a matrix
 are values, not derivative operators

---
 latex2sympy/latex2sympy2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 0d916cf..790bbb1 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -476,8 +476,9 @@ def convert_postfix_list(arr, i=0):
                 return mul_flat(res, rh)
     elif isinstance(res, (tuple, dict)):
         return res
+    elif isinstance(res, list) and not (len(res) == 1 and isinstance(res[0], sympy.Symbol)):
+        return res  # e.g. the rows, columns, null space or eigenvectors of a matrix
     else:  # must be derivative
-        assert diff_op or partial_op
         wrt = res[0]
         if i == len(arr) - 1:
             raise Exception("Expected expression for derivative")
-- 
2.43.0


From 1a7e209717ef72d2c52df614a8d7872fc7a7547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 08/34] fix: a derivative keeps the variable values of the
 expression around it

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 790bbb1..5088c99 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -777,9 +777,9 @@ def convert_frac(frac):
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-                expr_top = latex2sympy(upper_text[1:])
+                expr_top = latex2sympy(upper_text[1:], VARIABLE_VALUES)
             elif partial_op and frac.upper.start.text == '\\partial':
-                expr_top = latex2sympy(upper_text[len('\\partial'):])
+                expr_top = latex2sympy(upper_text[len('\\partial'):], VARIABLE_VALUES)
             if expr_top:
                 return sympy.Derivative(expr_top, wrt)
 
-- 
2.43.0


From 627e0bc476d3a59961169a0e1549f27dcb4d25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 09/34] fix: variable values may be plain Python numbers

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 5088c99..4b80f4e 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -709,7 +709,7 @@ def convert_atom(atom):
         # replace the variable for already known variable values
         if name in VARIABLE_VALUES:
             # if a sympy class
-            if VARIABLE_VALUES[name].__module__.startswith("sympy"):
+            if type(VARIABLE_VALUES[name]).__module__.startswith("sympy"):
                 symbol = VARIABLE_VALUES[name]
 
             # if NOT a sympy class
-- 
2.43.0


From 6bad53edb87508c1a7b3bf392283d93d53dc0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 10/34] fix: is_equiv_type without an answer type is the
 general comparison

---
 math_evaluation/core/type_evaluations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index e985c0a..8932b19 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -161,7 +161,7 @@ def is_equiv_type(
     }
     is_equal = False
     for type_name, check_func in equiv_checks.items():
-        if re.search(type_name, answer_type): 
+        if answer_type and re.search(type_name, answer_type): 
             if check_func(ground_truth, prediction):
                 is_equal = True
                 break 
-- 
2.43.0


From 97ad6d0b4bc13e697fcdd6a1e89b741b0b9cc211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 11/34] fix: typed comparisons survive None and answers with
 several readings

---
 math_evaluation/core/type_evaluations.py | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 8932b19..419ea65 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -27,11 +27,17 @@ def is_equiv_complex(
     prediction: str,
     verbose: bool = False,
 )-> bool:
-    ground_truth = _str_to_complex(ground_truth)
-    prediction = _str_to_complex(prediction)
+    if ground_truth is None or prediction is None:
+        return False
+
+    def normalize(expr: str):
+        normalized = string_normalize(_str_to_complex(expr))
+        if isinstance(normalized, set):
+            return {norm.replace("\\sqrt{-1}", "I") for norm in normalized}
+        return normalized.replace("\\sqrt{-1}", "I")
 
-    grt_normalized = string_normalize(ground_truth).replace("\\sqrt{-1}", "I")
-    pre_normalized = string_normalize(prediction).replace("\\sqrt{-1}", "I")
+    grt_normalized = normalize(ground_truth)
+    pre_normalized = normalize(prediction)
 
     try:
         if isinstance(grt_normalized, set) or isinstance(pre_normalized, set):
@@ -87,6 +93,10 @@ def is_equiv_function(
     grt_normalized = string_normalize(ground_truth)
     pre_normalized = string_normalize(prediction)
     
+    if not isinstance(grt_normalized, str) or not isinstance(pre_normalized, str):
+        # None, or an answer with several readings: not a function
+        return False
+
     grt_func = try_to_parse_function(grt_normalized)
     pre_func = try_to_parse_function(pre_normalized)
 
@@ -110,9 +120,9 @@ def is_equiv_vector(
             normalized = "[" + normalized + "]"
         return normalized
 
-    grt_normalized = preprocess(grt_normalized)
-    pre_normalized = preprocess(pre_normalized)
     try:
+        grt_normalized = preprocess(grt_normalized)
+        pre_normalized = preprocess(pre_normalized)
         return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
@@ -131,9 +141,9 @@ def is_equiv_set(
             normalized = normalized[1:-1]
         return normalized
 
-    grt_normalized = preprocess(grt_normalized)
-    pre_normalized = preprocess(pre_normalized)
     try:
+        grt_normalized = preprocess(grt_normalized)
+        pre_normalized = preprocess(pre_normalized)
         return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
-- 
2.43.0


From 3d51a13fdbf5676440d7ffb095f3f26a3ee51f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 12/34] fix: large integers are compared exactly

---
 math_evaluation/core/latex_normalize.py | 4 +++-
 math_evaluation/core/latex_parser.py    | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 50742d0..f500d55 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -2,6 +2,7 @@
 import re
 import sympy
 
+from fractions import Fraction
 from typing import Optional
 #from pylatexenc import latex2text
 from latex2sympy.latex2sympy2 import latex2sympy
@@ -390,7 +391,8 @@ def further_string_normalize(expr: str):
         if re.search("e", expr):
             expr = float_to_latex_scientific(expr)
         else:
-            expr = str(int(round(float(expr))))
+            # exact: a float would change integers beyond 2^53
+            expr = str(round(Fraction(expr)))
 
     if "\\" in expr:
         try:
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 60e9b0d..f8f6148 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -415,6 +415,10 @@ def _are_equal_latex_sympy(
             gv_type = _get_sympy_type(gv_latex_sympy)
         return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
 
+    if gt_latex_sympy.is_Rational and gv_latex_sympy.is_Rational:
+        # exact difference: evalf below would round both to 15 digits first
+        return bool(_diff_equal(sympy_evalf(gt_latex_sympy), gt_latex_sympy - gv_latex_sympy))
+
     if gt_latex_sympy.is_number:
         gt_latex_sympy = sympy_evalf(gt_latex_sympy)
     if gv_latex_sympy.is_number:
-- 
2.43.0


From f269fb5f83e4041f30a187cad5eee8043c68a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 13/34] fix: a sign in front of a mixed number applies to the
 whole of it

---
 math_evaluation/core/latex_normalize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index f500d55..24be945 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -164,8 +164,10 @@ def _inject_implicit_mixed_number(expr: str):
     Automatically make a mixed number evalable
 
     two cases:
-        7 3/4 => 7+3/4: must have space
-        7\\frac34 => 7+\\frac34: space is optional
+        7 3/4 => (7+3/4): must have space
+        7\\frac34 => (7+\\frac34): space is optional
+
+    The parentheses keep -7 3/4 = -(7+3/4).
     """
     regex_cands = [
         r"(\d+) +(\d+/\d+)",                    
@@ -173,7 +175,7 @@ def _inject_implicit_mixed_number(expr: str):
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
-        expr = pattern.sub(r"\1+\2", expr)
+        expr = pattern.sub(r"(\1+\2)", expr)
     return expr
 
 
-- 
2.43.0


From 5a876969fc3b2af831e3e46bcae94e90a7bb74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 14/34] fix: a matrix symbol declared in one answer does not
 change later comparisons

---
 math_evaluation/core/latex_normalize.py  | 12 +++++++++++-
 math_evaluation/core/latex_parser.py     |  2 +-
 math_evaluation/core/type_evaluations.py |  3 +--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 24be945..525f3b8 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -5,11 +5,21 @@ import sympy
 from fractions import Fraction
 from typing import Optional
 #from pylatexenc import latex2text
-from latex2sympy.latex2sympy2 import latex2sympy
+import latex2sympy.latex2sympy2 as l2s
 
 from .constants import *
 
 
+def latex2sympy(expr: str):
+    """Parse one answer: matrix symbols declared elsewhere (A \\in R^{m*n}) are neither used nor kept."""
+    variances, var = l2s.variances, l2s.var
+    l2s.set_variances({})
+    try:
+        return l2s.latex2sympy(expr)
+    finally:
+        l2s.variances, l2s.var = variances, var
+
+
 def _parse_latex(expr: str) -> str:
     """Attempts to parse latex to an expression sympy can read."""
     expr = expr.replace("\\tfrac", "\\frac")
diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index f8f6148..98a57e9 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -9,9 +9,9 @@ from sympy.parsing.latex import parse_latex
 from sympy.parsing import sympy_parser
 from sympy import Symbol, pi, Expr, Matrix, I
 from sympy.core.relational import Equality, Relational
-from latex2sympy.latex2sympy2 import latex2sympy
 from timeout_decorator import timeout
 
+from .latex_normalize import latex2sympy
 from .constants import *
 
 
diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 419ea65..8cec0d6 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -4,10 +4,9 @@ from typing import Optional
 from sympy import simplify, im, N, Equality, Expr
 from sympy import re as sympy_re
 
-from latex2sympy.latex2sympy2 import latex2sympy
-
 from .evaluations import is_latex_equiv, is_equiv, is_equiv_possible_matrix, is_equiv_possible_tuple
 from .latex_normalize import (
+    latex2sympy,
     string_normalize,
     _str_to_complex,
     split_tuple, 
-- 
2.43.0


From bd51403ee704c9eaa035e8cf5daf845c7b503963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 15/34] fix: scientific notation keeps its written digits

---
 math_evaluation/core/latex_normalize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 525f3b8..17fe417 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -2,6 +2,7 @@
 import re
 import sympy
 
+from decimal import Decimal
 from fractions import Fraction
 from typing import Optional
 #from pylatexenc import latex2text
@@ -435,7 +436,8 @@ def further_string_normalize(expr: str):
 
 def float_to_latex_scientific(expr: str) -> str:
     if _is_float(expr):
-        num = float(expr)
+        # exact: a float would be cut to six decimals
+        num = Decimal(expr)
         if num != 0:
             # float to sci num, x.xxxe+02
             sci_num = '{:e}'.format(num)
-- 
2.43.0


From f2ca2f36313108d3ade4d9845425a2b467a0084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 16/34] fix: a percentage with thousands separators has both
 readings

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 17fe417..2b37340 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -308,10 +308,11 @@ def _string_normalize(expr: str):
     if "%" in expr:
         expr = expr.replace("\\%", "%")
         expr = expr.replace("%", "")
-        if _is_float(expr):
+        number = _strip_properly_formatted_commas(expr)
+        if _is_float(number):
             return {
-                str(float(expr) / 100), 
-                str(float(expr)),
+                str(float(number) / 100), 
+                str(float(number)),
             }
 
     # Remove $
-- 
2.43.0


From b37a33747571fcbe4e6f02eb08cbdbde43f36d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 17/34] fix: a reference that cancels to zero equals zero

---
 math_evaluation/core/latex_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 98a57e9..ab89148 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -227,8 +227,12 @@ def sympy_evalf(
 
     @timeout(TIMEOUT_SECONDS, exception_message=TIMEOUT_MESSAGE.format(func_name="sympy_evalf", seconds=TIMEOUT_SECONDS))
     def _sympy_evalf(sympy_expr, symbols_=None):
-        return sympy_expr.evalf(subs=symbols_)
-        
+        value = sympy_expr.evalf(subs=symbols_)
+        if isinstance(value, sympy.Float) and value._prec == 1:
+            # no significant digit is left, e.g., 1/2 - 1/2 without evaluation
+            return sympy.Integer(0)
+        return value
+
     try:
         return _sympy_evalf(sympy_expr, symbols_)
     except Exception as e:
-- 
2.43.0


From 490eb0d2f8c35658e6552d36d13bbd38c94faec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 18/34] fix: elementary transformations read the row number
 from the number rule

The grammar's transform_atom uses the rule `number`; NUMBER() no longer exists,
so every elementary transformation raised AttributeError.
---
 latex2sympy/latex2sympy2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 4b80f4e..1581a24 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -207,7 +207,7 @@ def convert_elementary_transform(matrix, transform):
         transform_scale = transform.transform_scale()
         transform_atom = transform_scale.transform_atom()
         k = None
-        num = int(transform_atom.NUMBER().getText()) - 1
+        num = int(transform_atom.number().getText()) - 1
         if transform_scale.expr():
             k = convert_expr(transform_scale.expr())
         elif transform_scale.group():
@@ -226,8 +226,8 @@ def convert_elementary_transform(matrix, transform):
     elif transform.transform_swap():
         first_atom = transform.transform_swap().transform_atom()[0]
         second_atom = transform.transform_swap().transform_atom()[1]
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
@@ -250,8 +250,8 @@ def convert_elementary_transform(matrix, transform):
             k = -1
         else:
             k = 1
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
-- 
2.43.0


From f0fee22fbec43cc6f00bbc62a3216065c603aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 19/34] fix: division by a matrix multiplies by its inverse

The unevaluated Pow of a matrix is a noncommutative scalar, which MatMul rejects.
---
 latex2sympy/latex2sympy2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 1581a24..2eb2c7b 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -412,7 +412,9 @@ def convert_mp(mp):
     elif mp.DIV() or mp.CMD_DIV() or mp.COLON():
         lh = convert_mp(mp_left)
         rh = convert_mp(mp_right)
-        if lh.is_Matrix or rh.is_Matrix:
+        if rh.is_Matrix:
+            return sympy.MatMul(lh, sympy.MatPow(rh, -1), evaluate=False)
+        elif lh.is_Matrix:
             return sympy.MatMul(lh, sympy.Pow(rh, -1, evaluate=False), evaluate=False)
         else:
             return sympy.Mul(lh, sympy.Pow(rh, -1, evaluate=False), evaluate=False)
@@ -791,7 +793,9 @@ def convert_frac(frac):
         expr_bot = convert_expr(frac.lower)
     else:
         expr_bot = sympy.Number(frac.lowerd.text)
-    if expr_top.is_Matrix or expr_bot.is_Matrix:
+    if expr_bot.is_Matrix:
+        return sympy.MatMul(expr_top, sympy.MatPow(expr_bot, -1), evaluate=False)
+    elif expr_top.is_Matrix:
         return sympy.MatMul(expr_top, sympy.Pow(expr_bot, -1, evaluate=False), evaluate=False)
     else:
         return sympy.Mul(expr_top, sympy.Pow(expr_bot, -1, evaluate=False), evaluate=False)
-- 
2.43.0


From 5e0cc4240d0934674ba60326dc2ed679862f7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 20/34] fix: matrix operators accept matrix expressions

\det(A^2), \operatorname{rank}(A+B), \|A+B\| ... raised AttributeError because
sums, products and powers of matrices are unevaluated expressions without entries.
---
 latex2sympy/latex2sympy2.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 2eb2c7b..b11b028 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -295,6 +295,13 @@ def convert_matrix(matrix):
     return mat
 
 
+def explicit_matrix(expr):
+    """The matrix operators need the entries of e.g. a sum of matrices"""
+    if isinstance(expr, sympy.MatrixExpr):
+        return expr.doit().as_explicit()
+    return expr
+
+
 def add_flat(lh, rh):
     if hasattr(lh, 'is_Add') and lh.is_Add or hasattr(rh, 'is_Add') and rh.is_Add:
         args = []
@@ -557,6 +564,8 @@ def convert_exp(exp):
             exponent = convert_atom(exp.atom())
         elif exp.expr():
             exponent = convert_expr(exp.expr())
+        if base.is_Matrix:
+            return sympy.MatPow(base, exponent)
         return sympy.Pow(base, exponent, evaluate=False)
     else:
         if hasattr(exp, 'comp'):
@@ -569,7 +578,7 @@ def convert_comp(comp):
     if comp.group():
         return convert_expr(comp.group().expr())
     elif comp.norm_group():
-        return convert_expr(comp.norm_group().expr()).norm()
+        return explicit_matrix(convert_expr(comp.norm_group().expr())).norm()
     elif comp.abs_group():
         return sympy.Abs(convert_expr(comp.abs_group().expr()), evaluate=False)
     elif comp.floor_group():
@@ -814,6 +823,7 @@ def convert_func(func):
         else:
             arg = convert_func_arg(func.func_single_arg_noparens())
 
+        arg = explicit_matrix(arg)
         name = func.func_normal_single_arg().start.text[1:]
 
         # change arc<trig> -> a<trig>
@@ -910,6 +920,7 @@ def convert_func(func):
             args = func.func_multi_arg_noparens().split(",")
 
         args = list(map(lambda arg: latex2sympy(arg, VARIABLE_VALUES), args))
+        args = [explicit_matrix(arg) for arg in args]
         name = func.func_normal_multi_arg().start.text[1:]
 
         if name == "operatorname":
-- 
2.43.0


From 3cc74d486b83b43ce08594544f6d119b162e8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 21/34] fix: keep the exponent 0 of a function

\sin^0(x) was parsed as \sin(x).
---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b11b028..c5885b9 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -908,7 +908,7 @@ def convert_func(func):
                 should_pow = False
             expr = getattr(sympy.functions, name)(arg, evaluate=False)
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
@@ -957,7 +957,7 @@ def convert_func(func):
             else:
                 func_pow = convert_atom(func.supexpr().atom())
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
-- 
2.43.0


From b78fbe15b94654ab9fa161317436e5f014473bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 22/34] fix: subtract a product of matrices

The factor -1 is an int, which has no doit(): A - 2B and AB - BA raised AttributeError.
---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index c5885b9..77a1149 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -361,7 +361,7 @@ def mat_mul_flat(lh, rh):
             args = args + list(rh.args)
         else:
             args += [rh]
-        return sympy.MatMul(*[arg.doit() for arg in args], evaluate=False)
+        return sympy.MatMul(*[arg.doit() if hasattr(arg, 'doit') else arg for arg in args], evaluate=False)
     else:
         if hasattr(lh, 'doit') and hasattr(rh, 'doit'):
             return sympy.MatMul(lh.doit(), rh.doit(), evaluate=False)
-- 
2.43.0


From e74157ef7e9343d3bdb146755a41fc966c88dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 23/34] fix: arguments may themselves have several arguments

The argument text was split at every comma, also inside nested calls: max(gcd(4,6),1), f(g(x,y),z).
---
 latex2sympy/latex2sympy2.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 77a1149..3cafdb1 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -915,9 +915,9 @@ def convert_func(func):
 
     elif func.func_normal_multi_arg():
         if func.L_PAREN():  # function called with parenthesis
-            args = func.func_multi_arg().getText().split(",")
+            args = split_args(func.func_multi_arg().getText())
         else:
-            args = func.func_multi_arg_noparens().split(",")
+            args = split_args(func.func_multi_arg_noparens().getText())
 
         args = list(map(lambda arg: latex2sympy(arg, VARIABLE_VALUES), args))
         args = [explicit_matrix(arg) for arg in args]
@@ -965,7 +965,7 @@ def convert_func(func):
         # define a function
         f = sympy.Function(func.atom_expr_no_supexpr().getText())
         # args
-        args = func.func_common_args().getText().split(",")
+        args = split_args(func.func_common_args().getText())
         if args[-1] == '':
             args = args[:-1]
         args = [latex2sympy(arg, VARIABLE_VALUES) for arg in args]
@@ -1000,6 +1000,19 @@ def convert_func(func):
         return handle_exp(func)
 
 
+def split_args(text):
+    """Split the text of an argument list at the commas outside all brackets, e.g. max(gcd(4,6),1)"""
+    args = ['']
+    depth = 0
+    for ch in text:
+        if ch == ',' and depth == 0:
+            args.append('')
+        else:
+            depth += (ch in '([{') - (ch in ')]}')
+            args[-1] += ch
+    return args
+
+
 def convert_func_arg(arg):
     if hasattr(arg, 'expr'):
         return convert_expr(arg.expr())
-- 
2.43.0


From 51824a0c28d20e966fd894af50b331c576294168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 24/34] fix: integrate over the written differential

Any symbol starting with d (\delta, d_1) could be taken for the differential of
\int \frac{\delta dx}{x}, depending on the hash order of the symbols.
---
 latex2sympy/latex2sympy2.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 3cafdb1..a40d5f1 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -3,6 +3,7 @@ import re
 from sympy import matrix_symbols, simplify, factor, expand, apart, expand_trig
 from antlr4 import InputStream, CommonTokenStream
 from antlr4.error.ErrorListener import ErrorListener
+from antlr4.tree.Trees import Trees
 
 try:
     from gen.PSParser import PSParser
@@ -1032,13 +1033,10 @@ def handle_integral(func):
     if func.DIFFERENTIAL():
         int_var = get_differential_var(func.DIFFERENTIAL())
     else:
-        for sym in integrand.atoms(sympy.Symbol):
-            s = str(sym)
-            if len(s) > 1 and s[0] == 'd':
-                if s[1] == '\\':
-                    int_var = sympy.Symbol(s[2:], real=is_real)
-                else:
-                    int_var = sympy.Symbol(s[1:], real=is_real)
+        for node in Trees.findAllTokenNodes(func, PSLexer.DIFFERENTIAL):
+            sym = sympy.Symbol('d' + get_differential_var(node).name, real=is_real)
+            if integrand.has(sym):
+                int_var = get_differential_var(node)
                 int_sym = sym
         if int_var:
             integrand = integrand.subs(int_sym, 1)
-- 
2.43.0


From 115ceac9e0fb1d366036dd3201499b95d5cb5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 25/34] fix: the differential d x_{1} is that of the symbol x_1

convert_atom names x_{1} x_1, so \int x_{1} dx_{1} integrated over another symbol.
---
 latex2sympy/latex2sympy2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a40d5f1..b0e4dab 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1150,7 +1150,8 @@ def get_differential_var_str(text):
     text = text[idx:]
     if text[0] == "\\":
         text = text[1:]
-    return text
+    # the same name as convert_atom gives: x_{1} is x_1
+    return re.sub(r"_\{(\d)\}$", r"_\1", text)
 
 
 def latex(tex):
-- 
2.43.0


From 55297d361897b9647615567fff42ee41ecb1e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 26/34] fix: gcd and lcm of a gcd or lcm

A nested gcd is an UnevaluatedExpr, which sympy.gcd takes for an opaque generator: gcd(gcd(4,6),8) was 1.
---
 latex2sympy/latex2sympy2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b0e4dab..b68e90b 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1112,7 +1112,8 @@ def handle_gcd_lcm(f, args):
     args: List[Expr] - list of function arguments
     """
 
-    args = tuple(map(sympy.nsimplify, args))
+    # doit: an argument may itself be an unevaluated gcd() or lcm()
+    args = tuple(sympy.nsimplify(arg.doit()) for arg in args)
 
     # gcd() and lcm() don't support evaluate=False
     return sympy.UnevaluatedExpr(getattr(sympy, f)(args))
-- 
2.43.0


From 9d21debfcbf244d132c7d0a25109673856a99434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 27/34] fix: partial derivative with respect to a Greek letter

Greek letters are GREEK_CMD tokens; the SYMBOL tokens tested for are \\pi, \\infty, \\partial and \\emptyset.
---
 latex2sympy/latex2sympy2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index b68e90b..460e71b 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -769,11 +769,11 @@ def convert_frac(frac):
         elif (lower_itv_len == 2 and
               frac.lower.start.type == PSLexer.SYMBOL and
               frac.lower.start.text == '\\partial' and
-              (frac.lower.stop.type == PSLexer.LETTER_NO_E or frac.lower.stop.type == PSLexer.SYMBOL)):
+              (frac.lower.stop.type == PSLexer.LETTER_NO_E or frac.lower.stop.type == PSLexer.GREEK_CMD)):
             partial_op = True
             wrt = frac.lower.stop.text
-            if frac.lower.stop.type == PSLexer.SYMBOL:
-                wrt = wrt[1:]
+            if frac.lower.stop.type == PSLexer.GREEK_CMD:
+                wrt = wrt[1:].strip()
 
         if diff_op or partial_op:
             wrt = sympy.Symbol(wrt, real=is_real)
-- 
2.43.0


From c80c51286789f3986f85d91ae31a8883215559e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 28/34] fix: the derivative of zero is a derivative

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 460e71b..998c490 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -792,7 +792,7 @@ def convert_frac(frac):
                 expr_top = latex2sympy(upper_text[1:], VARIABLE_VALUES)
             elif partial_op and frac.upper.start.text == '\\partial':
                 expr_top = latex2sympy(upper_text[len('\\partial'):], VARIABLE_VALUES)
-            if expr_top:
+            if expr_top is not None:
                 return sympy.Derivative(expr_top, wrt)
 
     if frac.upper:
-- 
2.43.0


From 44051471ae47ee692d6b9f34bc0ca06955f6c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 29/34] fix: keep the exponent of the imaginary unit

---
 latex2sympy/latex2sympy2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 998c490..7ebb76d 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -609,7 +609,7 @@ def convert_atom(atom):
         atom_text = ''
         if atom_expr.LETTER_NO_E():
             atom_text = atom_expr.LETTER_NO_E().getText()
-            if atom_text == "I":
+            if atom_text == "I" and not atom_expr.supexpr():
                 return sympy.I
         elif atom_expr.GREEK_CMD():
             atom_text = atom_expr.GREEK_CMD().getText()[1:].strip()
@@ -651,7 +651,10 @@ def convert_atom(atom):
                 subscript_text = '_' + subscript_inner_text
 
         # construct the symbol using the text and optional subscript
-        atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
+        if atom_text == "I":
+            atom_symbol = sympy.I
+        else:
+            atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
         # for matrix symbol
         matrix_symbol = None
         global var
-- 
2.43.0


From 78830153119bfc086ee25803586ae2366a0c88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 30/34] fix: round interval end points that are integers up to
 rounding (were truncated)

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 2b37340..8353e4c 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -150,11 +150,11 @@ def _str_to_interval(x: str):
                 if int_start.is_number:
                     int_start = int_start.evalf()
                     if _is_int(int_start):
-                        int_start = sympy.Integer(int_start)
+                        int_start = sympy.Integer(round(int_start))
                 if int_end.is_number:
                     int_end = int_end.evalf()
                     if _is_int(int_end):
-                        int_end = sympy.Integer(int_end)
+                        int_end = sympy.Integer(round(int_end))
                 if int_start.is_number and int_end.is_number and int_start > int_end:
                     raise Exception('Illegal Interval range')
                 # define sympy Interval
-- 
2.43.0


From cdfc56eb3765dcb7c478ba01373c2f47d9237a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 31/34] fix: an empty part of an intersection of intervals
 makes the intersection empty

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 8353e4c..8d897f4 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -140,7 +140,7 @@ def _str_to_interval(x: str):
         x = x.split('⋃') if '⋃' in x else x.split('\\cup')
         _interval = sympy.EmptySet
         for or_interval in x:
-            _or_interval = sympy.EmptySet
+            _or_interval = None
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
@@ -159,7 +159,7 @@ def _str_to_interval(x: str):
                     raise Exception('Illegal Interval range')
                 # define sympy Interval
                 temp_int = sympy.Interval(int_start, int_end, left_open='(' in and_interval, right_open=')' in and_interval)
-                if _or_interval.is_empty:
+                if _or_interval is None:
                     _or_interval = temp_int
                 else:
                     _or_interval = _or_interval.intersect(temp_int)
-- 
2.43.0


From 50196e55a52fa90468944872f75ab4ec264f8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 32/34] fix: read every union and intersection sign of an
 interval text, also mixed

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 8d897f4..afc5892 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -137,11 +137,11 @@ def _str_matrix_normalize(expr: str):
 
 def _str_to_interval(x: str):
     try:
-        x = x.split('⋃') if '⋃' in x else x.split('\\cup')
+        x = x.replace('⋃', '\\cup').replace('∪', '\\cup').replace('∩', '\\cap').split('\\cup')
         _interval = sympy.EmptySet
         for or_interval in x:
             _or_interval = None
-            for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
+            for and_interval in or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
                 int_start = latex2sympy(int_start.replace('(', '').replace('[', ''))
-- 
2.43.0


From d9544fae2b0e3bf5f28e286e6cf199df7846d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 33/34] fix: keep the union sign of a text with LaTeX commands
 a union (was the letter U)

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index afc5892..45ec7aa 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -39,7 +39,7 @@ def _parse_latex(expr: str) -> str:
     expr = expr.replace("√", "sqrt")
     expr = expr.replace("π", "pi")
     expr = expr.replace("∞", "inf")
-    expr = expr.replace("∪", "U")
+    expr = expr.replace("∪", "\\cup")
     expr = expr.replace("·", "*")
     expr = expr.replace("×", "*")
 
-- 
2.43.0


From c0bb03c484e8527624080e37f926289034b4fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 34/34] fix: only properly grouped digits lose their commas
 (1,2345 and 0,100 and 3.14,159 are lists)

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 45ec7aa..0ca392c 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -199,7 +199,7 @@ def _str_to_decimal(digits: str, base: str):
 
 
 def _strip_properly_formatted_commas(expr: str):
-    expr = re.sub(r"\d{1,3}(?:, ?\d{3})+", lambda x: x.group(0).replace(',', ''), expr)
+    expr = re.sub(r"(?<![\d.])[1-9]\d{0,2}(?:, ?\d{3})+(?!\d)", lambda x: x.group(0).replace(',', ''), expr)
     return expr
 
 
-- 
2.43.0

