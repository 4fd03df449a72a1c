From 80583793647086e276ead07f8e3caeaf688cf826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:02 +0000
Subject: [PATCH 01/27] fix: MetricsQuery.serialize() must not change the query

serialize() replaced self.query with the OR-optimized version, so printing or
comparing the query after serializing it gave a different result.
---
 snuba_sdk/metrics_query.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..b9dddb5 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,21 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return self._replace(
+                    "query", replace(self.query, filters=new_filters)
+                )
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 8f0a8455edc5597d5f52bfe20e2e4c00be8122be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:05 +0000
Subject: [PATCH 02/27] fix: json_to_snql must not modify the orderby of the
 legacy body

Converting the same body twice turned a descending function order into an
ascending one, because the leading "-" was removed from the caller's list.
---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From 26a4a4feffe0610da219410dc3321432a0276d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:07 +0000
Subject: [PATCH 03/27] fix: equal functions must have equal hashes

CurriedFunction.__eq__ ignores the alias but the generated __hash__ included it.
---
 snuba_sdk/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..c7b5f04 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -44,7 +44,8 @@ class CurriedFunction(Expression):
             ]
         ]
     ] = None
-    alias: Optional[str] = None
+    # The alias is not part of equality (see __eq__), so it can't be part of the hash.
+    alias: Optional[str] = field(default=None, hash=False)
 
     def validate(self) -> None:
         if not isinstance(self.function, str):
-- 
2.43.0


From 6ed7845a57382d2838965ff3bbe11323bbeb20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:09 +0000
Subject: [PATCH 04/27] fix: allow Query.set_match to take a Storage, as its
 signature and error say

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From 7d0e72aa6c374e5cfd10934085f1e8c8ed56e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:11 +0000
Subject: [PATCH 05/27] fix: resolve the subscript before checking a column
 against its entity's data model

Column("tags[a]", Entity(..., data_model=<with tags>)) was rejected because the
data model was asked for "tags[a]" instead of "tags".
---
 snuba_sdk/column.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..37ae236 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -54,8 +54,6 @@ class Column(Expression):
                     f"column '{self.name}' expects an Entity with an alias"
                 )
 
-            self.validate_data_model(self.entity)
-
         # If this is a subscriptable set these values to help with debugging etc.
         # Because this is frozen we can't set the value directly.
         if "[" in self.name:
@@ -64,6 +62,9 @@ class Column(Expression):
             super().__setattr__("subscriptable", subscriptable)
             super().__setattr__("key", key)
 
+        if self.entity is not None:
+            self.validate_data_model(self.entity)
+
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From 9b3d0f88ce33515d7a7f732fdf67f90f9bd9600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:14 +0000
Subject: [PATCH 06/27] fix: find expressions nested in lists and tuples

Columns inside an array or tuple (the right side of a condition, or a function
parameter) are printed, but the column finder skipped them, so they escaped the
data model, join and subquery validation.
---
 snuba_sdk/visitors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..021007d 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -29,7 +29,7 @@ TVisited = TypeVar("TVisited")
 
 
 class ExpressionVisitor(ABC, Generic[TVisited]):
-    def visit(self, node: Expression) -> TVisited:
+    def visit(self, node: Expression | ScalarType) -> TVisited:
         if isinstance(node, AliasedExpression):
             return self._visit_aliased_expression(node)
         if isinstance(node, Column):
@@ -362,7 +362,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
+                if isinstance(param, (Expression, list, tuple)):
                     found |= self.visit(param)
 
         return found
@@ -414,7 +414,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
+            if isinstance(cond.rhs, (Expression, list, tuple)):
                 found |= self.visit(cond.rhs)
         return found
 
@@ -440,4 +440,9 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: Set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                if isinstance(v, (Expression, list, tuple)):
+                    found |= self.visit(v)
+        return found
-- 
2.43.0


From 5ec9997d7f66a03efd0beb13f3527d6ff9567a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 07/27] fix: treat BooleanCondition(BooleanOp.AND, ...) like
 And in the required column check

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From ae587cb5ee21e7bea23c0fb3ccdba5429f14758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 08/27] fix: reject falsy and non integer granularities in
 Rollup

Rollup(granularity=0), False, "" and 10.0 passed validation.
---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..3bce1e9 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if self.granularity is not None and (
+            not isinstance(self.granularity, int)
+            or self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From 44a19a2990cc7f1171265cb8e10d0f3df5ca77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:22 +0000
Subject: [PATCH 09/27] fix: legacy unary conditions inside functions take one
 parameter

["a", "IS NULL", None] as a function parameter became isNull(a, NULL).
---
 snuba_sdk/legacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 8556e29..e3d0349 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -5,7 +5,7 @@ from functools import partial
 from typing import Any, Mapping, Optional, Sequence, Union
 
 from snuba_sdk.column import Column
-from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or
+from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or, is_unary
 from snuba_sdk.entity import Entity, get_required_time_column
 from snuba_sdk.function import Function
 from snuba_sdk.orderby import Direction, LimitBy, OrderBy
@@ -209,7 +209,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    parameters = (lhs,) if is_unary(op) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, parameters)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From d52e37749ae08f4f3d34f2dc26bee74a98d695b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:25 +0000
Subject: [PATCH 10/27] fix: accept a legacy having with a single nested
 condition, as conditions does

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index e3d0349..9075dc9 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -307,7 +307,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 3e58035a20656cfdd09b90faafcc955102ca11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/27] fix: accept legacy condition operators in lower case

is_condition recognizes an operator in any case, but the conversion then failed
with a ValueError.
---
 snuba_sdk/legacy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 9075dc9..711656d 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -172,7 +172,8 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     """
     rhs = None
     lhs = parse_exp(cond[0])
-    if cond[1] not in ["IS NULL", "IS NOT NULL"]:
+    op = Op(cond[1].upper())
+    if not is_unary(op):
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -192,7 +193,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
 
         rhs = parse_scalar(cond[2], only_strings=only_strings)
 
-    return (lhs, Op(cond[1]), rhs)
+    return (lhs, op, rhs)
 
 
 def parse_condition(cond: Sequence[Any]) -> Condition:
-- 
2.43.0


From a8b2e13704b867c9d9fa101e4486afced79525c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 12/27] fix: keep the precision of the sample rate

SAMPLE was printed with six decimals, so 0.0000001 became 0.000000 and any
rate with more digits was rounded.
---
 snuba_sdk/visitors.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 021007d..31a620c 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from datetime import date, datetime
+from decimal import Decimal
+from math import isfinite
 from typing import Any, Generator, Generic, Set, TypeVar
 
 from snuba_sdk.aliased_expression import AliasedExpression
@@ -134,6 +136,13 @@ class ExpressionVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+def stringify_float(value: float) -> str:
+    """
+    Format a float without losing precision and without using an exponent.
+    """
+    return f"{Decimal(repr(value)):f}" if isfinite(value) else f"{value}"
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -240,6 +249,15 @@ class Translation(ExpressionVisitor[str]):
     def _visit_int_literal(self, literal: int) -> str:
         return f"{literal:d}"
 
+    def _stringify_sample(self, sample: float) -> str:
+        if sample % 1 == 0:
+            return f"{sample:.1f}"
+        fixed = f"{sample:f}"
+        if float(fixed) == sample:
+            return fixed
+        # Six decimals are not enough to represent this value.
+        return stringify_float(sample)
+
     def _visit_entity(self, entity: Entity) -> str:
         alias_clause = ""
         if entity.alias is not None and self.use_entity_aliases:
@@ -247,19 +265,13 @@ class Translation(ExpressionVisitor[str]):
 
         sample_clause = ""
         if entity.sample is not None:
-            if entity.sample % 1 == 0:
-                sample_clause = f" SAMPLE {entity.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {entity.sample:f}"
+            sample_clause = f" SAMPLE {self._stringify_sample(entity.sample)}"
         return f"({alias_clause}{entity.name}{sample_clause})"
 
     def _visit_storage(self, storage: Storage) -> str:
         sample_clause = ""
         if storage.sample is not None:
-            if storage.sample % 1 == 0:
-                sample_clause = f" SAMPLE {storage.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {storage.sample:f}"
+            sample_clause = f" SAMPLE {self._stringify_sample(storage.sample)}"
         return f"STORAGE({storage.name}{sample_clause})"
 
     def _visit_relationship(self, relationship: Relationship) -> str:
-- 
2.43.0


From 66305637af2d8c73a51570837664e1655e81b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 13/27] fix: reject names that end with a newline

"$" also matches before a trailing newline, so names like "events\n" were
accepted and broke the serialized query.
---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 37ae236..e740e0e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index c7b5f04..5093feb 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -116,7 +116,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From d03e03d4779e1df5f2d17fdc4e6a4d4c8e3cb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:34 +0000
Subject: [PATCH 14/27] fix: reject filter operators that MQL can't express

Conditions like a > 5 or a IS NULL were silently printed as the equality a:5 (or
as the invalid filter a:).
---
 snuba_sdk/visitors.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 31a620c..728d691 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -143,6 +143,10 @@ def stringify_float(value: float) -> str:
     return f"{Decimal(repr(value)):f}" if isfinite(value) else f"{value}"
 
 
+# The operators that can be expressed in an MQL filter.
+MQL_OPERATORS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -305,8 +309,10 @@ class Translation(ExpressionVisitor[str]):
 
     def _visit_condition_mql(self, cond: Condition) -> str:
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
+        if cond.op not in MQL_OPERATORS:
+            raise InvalidExpressionError(
+                f"operator '{cond.op.value}' is not supported in conditions in MQL"
+            )
         elif isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
-- 
2.43.0


From bb342c02b4a4b20c92c385bccd428a15e7574bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:37 +0000
Subject: [PATCH 15/27] fix: quote the string aggregate params of a Formula

Timeseries already prints its aggregate params as literals; Formula printed the
bare value, so a string containing e.g. a comma changed the function call.
---
 snuba_sdk/metrics_visitors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..61e155c 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -159,7 +159,8 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            params = ", ".join(self.expression_visitor.visit(p) for p in aggregate_params)
+            return f"({params})"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From eac16f5dd61e59ca04f3a07ea94035f282aa42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:39 +0000
Subject: [PATCH 16/27] fix: quote the MRIs that need it in MQL

An MRI parsed from a backtick quoted MQL string lost its quotes when printed, so
the resulting MQL was invalid or meant something else.
---
 snuba_sdk/metrics_visitors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 61e155c..8c9e5bd 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -203,9 +203,15 @@ class MetricVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+# An MRI containing any of these has to be quoted with backticks in MQL.
+MRI_RESERVED_CHARACTERS = frozenset('(){}[]",')
+
+
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
+            if not MRI_RESERVED_CHARACTERS.isdisjoint(metric.mri):
+                return f"`{metric.mri}`"
             return metric.mri
 
         if metric.public_name is not None:
-- 
2.43.0


From a20dfe67858fa3d03451291eb7717465fa2cf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:41 +0000
Subject: [PATCH 17/27] fix: print floats without an exponent in MQL

Large and small floats (including those parsed from an MQL string) were printed
as 1e-05 or 1e+16, which the MQL grammar can't parse.
---
 snuba_sdk/metrics_visitors.py | 2 ++
 snuba_sdk/visitors.py         | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 8c9e5bd..daa1d3c 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -154,6 +154,8 @@ class FormulaMQLPrinter:
             return self.timeseries_visitor.visit(parameter)
         elif isinstance(parameter, Formula):
             return self.visit(parameter)
+        elif isinstance(parameter, float):
+            return self.expression_visitor.visit(parameter)
 
         return str(parameter)
 
diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 728d691..885a342 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -174,6 +174,9 @@ class Translation(ExpressionVisitor[str]):
             )
 
             return f"{quote_char}{decoded}{quote_char}"
+        elif self.is_mql and isinstance(value, float):
+            # The MQL grammar has no exponents.
+            return stringify_float(value)
         elif isinstance(value, (int, float)):
             return f"{value}"
         elif isinstance(value, datetime):
-- 
2.43.0


From 1c161913626eb85400c61b6144a4826c7db28fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:43 +0000
Subject: [PATCH 18/27] fix: don't split tag keys that start with "and" in MQL
 filters

{a:"1" android:"x"} was parsed as a = 1 AND roid = x.
---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..6eb56bf 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ~r"(?:AND|and)(?![a-zA-Z0-9_.])"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From fac65169f7b436908b2261dc40c1d4bfe7879706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:46 +0000
Subject: [PATCH 19/27] fix: report invalid MQL as InvalidMQLQueryError

Strings like '1', '(1)' and 'sum(foo){1a:"b"}' leaked an AssertionError or an
InvalidColumnError.
---
 snuba_sdk/mql/mql.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index 6eb56bf..c779a1a 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -14,6 +14,7 @@ from parsimonious.nodes import Node, NodeVisitor
 
 from snuba_sdk.column import Column
 from snuba_sdk.conditions import And, BooleanCondition, BooleanOp, Condition, Op, Or
+from snuba_sdk.expressions import InvalidExpressionError
 from snuba_sdk.formula import ArithmeticOperator, Formula
 from snuba_sdk.timeseries import Metric, Timeseries
 
@@ -130,8 +131,12 @@ def parse_mql(mql: str) -> Timeseries | Formula:
         tree = MQL_GRAMMAR.parse(mql.strip())
     except ParseError as e:
         raise InvalidMQLQueryError("Invalid metrics syntax") from e
-    result = MQLVisitor().visit(tree)
-    assert isinstance(result, (Timeseries, Formula))
+    try:
+        result = MQLVisitor().visit(tree)
+    except InvalidExpressionError as e:
+        raise InvalidMQLQueryError(f"Invalid metrics syntax: {e}") from e
+    if not isinstance(result, (Timeseries, Formula)):
+        raise InvalidMQLQueryError("MQL must contain a Timeseries or a Formula")
     return result
 
 
@@ -424,7 +429,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
     def visit_nested_expression(
         self, node: Node, children: Sequence[Any]
     ) -> Union[Timeseries, Formula]:
-        assert isinstance(children[2], (Timeseries, Formula))
+        if not isinstance(children[2], (Timeseries, Formula)):
+            raise InvalidMQLQueryError(
+                "Parenthesized expressions must be a Timeseries or a Formula"
+            )
         return children[2]
 
     def visit_aggregate(
-- 
2.43.0


From ff1e85edb103d36a204e394cee5f8e9c814fe08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:49 +0000
Subject: [PATCH 20/27] fix: don't silently drop the extra parameters of a
 curried MQL function

topK(10)(foo, 5) was parsed as topK(10)(foo).
---
 snuba_sdk/mql/mql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index c779a1a..0a65d3d 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -503,6 +503,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
             isinstance(target, Timeseries)
             and target.aggregate == AGGREGATE_PLACEHOLDER_NAME
         ):
+            if curried_arbitrary_function_params:
+                raise InvalidMQLQueryError(
+                    "Cannot use arbitrary functions on a Timeseries without an aggregate"
+                )
             return target.set_aggregate(
                 curried_arbitrary_function_name, aggregate_params
             )
-- 
2.43.0


From 88d434fa5a34901aa051a1cb3f8995bfd5c749f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 21/27] fix: don't print an empty group by in MQL

groupby=[] was printed as "by ()", which the MQL grammar can't parse.
---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index daa1d3c..ab734f3 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -91,7 +91,7 @@ def _visit_mql_filters(
 def _visit_mql_groupby(
     groupby: list[Column | AliasedExpression] | None, expression_visitor: Translation
 ) -> str:
-    if groupby is not None:
+    if groupby:
         return " by (" + ", ".join(expression_visitor.visit(c) for c in groupby) + ")"
     return ""
 
-- 
2.43.0


From 03e5a83dc199ef79f2a1b90b601d3d807c2d266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:41 +0000
Subject: [PATCH 22/27] fix: print operators that can't be infix as functions
 in MQL

---
 snuba_sdk/metrics_visitors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index ab734f3..a68a26d 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -184,12 +184,20 @@ class FormulaMQLPrinter:
         for p in parameters:
             if isinstance(p, str):
                 param_strings.append(p)
-        if formula.function_name in PREFIX_TO_INFIX:
+        # An operator can't be written infix with one operand or with aggregate params.
+        if (
+            formula.function_name in PREFIX_TO_INFIX
+            and len(param_strings) > 1
+            and not formula.aggregate_params
+        ):
             separator = f" {PREFIX_TO_INFIX[formula.function_name]} "
             mql_string = f"({separator.join(param_strings)})"
         else:
+            function_name = formula.function_name
+            if len(param_strings) == 1 and not formula.aggregate_params:
+                function_name = PREFIX_ALIASES.get(function_name, function_name)
             mql_string = (
-                f"{PREFIX_ALIASES.get(formula.function_name) or formula.function_name}"
+                f"{function_name}"
                 f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
             )
 
-- 
2.43.0


From aed0128a2107ca3f62c12f67ee1d0df2f65920c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:46 +0000
Subject: [PATCH 23/27] fix: validate the parameters of nested formulas too

---
 snuba_sdk/formula.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 19b3203..a235715 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -77,7 +77,7 @@ class Formula:
                 "Formula parameters must group by the same columns"
             )
 
-    def validate(self) -> None:
+    def __validate_parameters(self) -> None:
         if not isinstance(self.function_name, str):
             raise InvalidFormulaError(f"formula '{self.function_name}' must be a str")
         if self.parameters is None:
@@ -92,6 +92,11 @@ class Formula:
                 raise InvalidFormulaError(
                     f"parameter '{param}' of formula {self.function_name} is an invalid type"
                 )
+            if isinstance(param, Formula):
+                param.__validate_parameters()
+
+    def validate(self) -> None:
+        self.__validate_parameters()
         self.__validate_consistency()
 
     def _replace(self, field: str, value: Any) -> Formula:
-- 
2.43.0


From e2de04ea7c36448984a4150605e441d7a0c96acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 24/27] fix: quote the MRIs surrounded by spaces in MQL

---
 snuba_sdk/metrics_visitors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index a68a26d..6ebef5f 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -213,14 +213,18 @@ class MetricVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
-# An MRI containing any of these has to be quoted with backticks in MQL.
+# An MRI containing any of these, or surrounded by spaces, has to be quoted with
+# backticks in MQL.
 MRI_RESERVED_CHARACTERS = frozenset('(){}[]",')
 
 
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
-            if not MRI_RESERVED_CHARACTERS.isdisjoint(metric.mri):
+            if (
+                not MRI_RESERVED_CHARACTERS.isdisjoint(metric.mri)
+                or metric.mri != metric.mri.strip()
+            ):
                 return f"`{metric.mri}`"
             return metric.mri
 
-- 
2.43.0


From 3554be6d2b821f2abf51afb9379bdae888eef377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:15 +0000
Subject: [PATCH 25/27] fix: accept a legacy orderby given as a tuple, as
 selected_columns and groupby do

---
 snuba_sdk/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 711656d..894ec76 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -325,6 +325,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
         order_bys = []
         for o in order_by:
             direction = Direction.ASC
+            if isinstance(o, tuple):
+                o = list(o)
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-- 
2.43.0


From 4bda131b5c4b49ab93a2439e73aed56808df0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:57 +0000
Subject: [PATCH 26/27] fix: read a quoted MRI with )( in it as a metric, not
 as a curried parameter

---
 snuba_sdk/mql/mql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index 0a65d3d..9aa05ce 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -77,7 +77,8 @@ curried_arbitrary_function_name = ~r"[a-zA-Z0-9_]+"
 
 aggregate_list = param* (param_expression)
 param = param_expression _ comma _
-param_expression = number / quoted_string / unquoted_string
+param_expression = number / quoted_string / unquoted_param
+unquoted_param = !backtick unquoted_string
 
 group_by = _ "by" _ (group_by_name / group_by_name_tuple)
 group_by_name = ~r"[a-zA-Z0-9_.]+"
@@ -383,6 +384,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
     def visit_unquoted_string(self, node: Node, children: Sequence[Any]) -> str:
         return str(node.text)
 
+    def visit_unquoted_param(self, node: Node, children: Sequence[Any]) -> str:
+        # A backtick opens a quoted metric, which isn't a parameter.
+        return str(node.text)
+
     def visit_test_string(self, node: Node, children: Sequence[Any]) -> str:
         return str(node.text)
 
-- 
2.43.0


From cf557a2f9daa093f2bcb837233168c68d2507784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:31 +0000
Subject: [PATCH 27/27] fix: reject functions inside arrays in MQL filters

A filter that compares with a function is rejected in MQL, but an OR of
equalities collapses into an IN whose array holds the function, which was
sent as text that is not MQL.
---
 snuba_sdk/visitors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 885a342..d846cb9 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -316,7 +316,10 @@ class Translation(ExpressionVisitor[str]):
             raise InvalidExpressionError(
                 f"operator '{cond.op.value}' is not supported in conditions in MQL"
             )
-        elif isinstance(cond.rhs, (CurriedFunction, Function)):
+        elif isinstance(cond.rhs, (CurriedFunction, Function)) or (
+            isinstance(cond.rhs, (list, tuple))
+            and any(isinstance(v, (CurriedFunction, Function)) for v in cond.rhs)
+        ):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-- 
2.43.0

