From 73581f1bb6a4574ab22fc1795f30d5959c3c96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:22 +0000
Subject: [PATCH 01/31] fix: MetricsQuery.serialize no longer rewrites the
 query it serializes

---
 snuba_sdk/metrics_query.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..286af96 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,21 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(
+                    self, query=replace(self.query, filters=new_filters)
+                )
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 543b07dbd06f1256733b7e9e65e71d4db3e7bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:24 +0000
Subject: [PATCH 02/31] fix: json_to_snql no longer edits the orderby of the
 legacy body

---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..e4fae03 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -320,7 +320,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
         order_bys = []
         for o in order_by:
             direction = Direction.ASC
-            if isinstance(o, list):
+            if isinstance(o, (list, tuple)):
+                o = list(o)  # Never edit the caller's body
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
                     o[0] = first.lstrip("-")
-- 
2.43.0


From 4b56b670d9e4d2ce024c3001c1078505bf43a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:27 +0000
Subject: [PATCH 03/31] fix: names and aliases with a trailing newline are
 rejected

---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From cdf763d2e353a04f3f425cec4799596cbaaadb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:30 +0000
Subject: [PATCH 04/31] fix: a subscripted column is checked against its
 entity's data model by its outer name

---
 snuba_sdk/column.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..622745e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -46,6 +46,14 @@ class Column(Expression):
                 f"column '{self.name}' is empty or contains invalid characters"
             )
 
+        # If this is a subscriptable set these values to help with debugging etc.
+        # Because this is frozen we can't set the value directly.
+        if "[" in self.name:
+            subscriptable, key = self.name.split("[", 1)
+            key = key.strip("]")
+            super().__setattr__("subscriptable", subscriptable)
+            super().__setattr__("key", key)
+
         if self.entity is not None:
             if not isinstance(self.entity, Entity):
                 raise InvalidColumnError(f"column '{self.name}' expects an Entity")
@@ -56,14 +64,6 @@ class Column(Expression):
 
             self.validate_data_model(self.entity)
 
-        # If this is a subscriptable set these values to help with debugging etc.
-        # Because this is frozen we can't set the value directly.
-        if "[" in self.name:
-            subscriptable, key = self.name.split("[", 1)
-            key = key.strip("]")
-            super().__setattr__("subscriptable", subscriptable)
-            super().__setattr__("key", key)
-
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From 6459a7c2ba66ad1662da3777ca63f393cf74b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/31] fix: Query.set_match accepts a Storage, as the
 constructor does

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From 95cb05f422e4d77b153abcc6b77cc2ea2dac6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:36 +0000
Subject: [PATCH 06/31] fix: Rollup rejects a granularity of 0

---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..2c33958 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if (
+            self.granularity is not None
+            and self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From e4cd8d85bad4c6b742bc95d38dfb0e5966f1276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/31] fix: columns inside lists and tuples are found and
 validated

---
 snuba_sdk/visitors.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..28f07b8 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -357,16 +357,25 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         found = set()
         if func.initializers is not None:
             for initer in func.initializers:
-                if isinstance(initer, Expression):
-                    found |= self.visit(initer)
+                found |= self._visit_value(initer)
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
-                    found |= self.visit(param)
+                found |= self._visit_value(param)
 
         return found
 
+    def _visit_value(self, value: Any) -> set[Expression]:
+        # Lists and tuples can also contain expressions
+        if isinstance(value, Expression):
+            return self.visit(value)
+
+        found: set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self._visit_value(v)
+        return found
+
     def _visit_identifier(self, ident: Identifier) -> set[Expression]:
         if isinstance(ident, self.exp_type):
             return set([ident])
@@ -414,8 +423,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
-                found |= self.visit(cond.rhs)
+            found |= self._visit_value(cond.rhs)
         return found
 
     def _visit_boolean_condition(self, cond: BooleanCondition) -> set[Expression]:
-- 
2.43.0


From d330dd9ba00fade370c35cd4d58710aa9ada82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:01 +0000
Subject: [PATCH 08/31] fix: required conditions are found inside any AND
 condition, not only And()

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From 348d9600d5af834ccd6a10cf8669776a33cd8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:04 +0000
Subject: [PATCH 09/31] fix: equal CurriedFunctions have equal hashes

---
 snuba_sdk/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 4278cfa..4ce3010 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -44,7 +44,8 @@ class CurriedFunction(Expression):
             ]
         ]
     ] = None
-    alias: Optional[str] = None
+    # Not part of the equality of a CurriedFunction, so not part of its hash either
+    alias: Optional[str] = field(default=None, hash=False)
 
     def validate(self) -> None:
         if not isinstance(self.function, str):
-- 
2.43.0


From d81aa8d9e21ead7e87867d6a05951dc7bf6140e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:07 +0000
Subject: [PATCH 10/31] fix: OR conditions are only folded when their left hand
 sides are identical

---
 snuba_sdk/query_optimizers/or_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/query_optimizers/or_optimizer.py b/snuba_sdk/query_optimizers/or_optimizer.py
index 91f492c..7ab14d7 100644
--- a/snuba_sdk/query_optimizers/or_optimizer.py
+++ b/snuba_sdk/query_optimizers/or_optimizer.py
@@ -59,6 +59,8 @@ class OrOptimizer:
                 not isinstance(curr, Condition)
                 or curr.op != Op.EQ
                 or (shared_lhs and curr.lhs != shared_lhs)
+                # equality alone ignores aliases and the type of a literal (1 == True)
+                or repr(curr.lhs) != repr(shared_lhs)
             ):
                 # can't be optimized
                 return None
-- 
2.43.0


From 1471a728a72fb74a017e623da61f288e61d973c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:09 +0000
Subject: [PATCH 11/31] fix: a legacy having clause can hold a nested list of
 one condition

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index e4fae03..b06cbea 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 7e6a260d145a32d13fd20c1eafb8603e1b2c319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/31] fix: legacy conditions with a lower case operator are
 converted

---
 snuba_sdk/legacy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index b06cbea..5773a0e 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -5,7 +5,7 @@ from functools import partial
 from typing import Any, Mapping, Optional, Sequence, Union
 
 from snuba_sdk.column import Column
-from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or
+from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or, is_unary
 from snuba_sdk.entity import Entity, get_required_time_column
 from snuba_sdk.function import Function
 from snuba_sdk.orderby import Direction, LimitBy, OrderBy
@@ -172,7 +172,8 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     """
     rhs = None
     lhs = parse_exp(cond[0])
-    if cond[1] not in ["IS NULL", "IS NOT NULL"]:
+    op = Op(cond[1].upper())
+    if not is_unary(op):
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -192,7 +193,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
 
         rhs = parse_scalar(cond[2], only_strings=only_strings)
 
-    return (lhs, Op(cond[1]), rhs)
+    return (lhs, op, rhs)
 
 
 def parse_condition(cond: Sequence[Any]) -> Condition:
-- 
2.43.0


From 768618003994eefa7536ce014587a5b98ae3bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 13/31] fix: a nested legacy IS NULL becomes a function of one
 parameter

---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 5773a0e..baf5a14 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -210,7 +210,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    parameters = (lhs,) if is_unary(op) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, parameters)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From 1f3bd479d34f9e77aff98a35a9c19f8c84d6bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:38 +0000
Subject: [PATCH 14/31] fix: a sample rate is written with all its digits

---
 snuba_sdk/visitors.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 28f07b8..3c4738e 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from datetime import date, datetime
+from decimal import Decimal
 from typing import Any, Generator, Generic, Set, TypeVar
 
 from snuba_sdk.aliased_expression import AliasedExpression
@@ -134,6 +135,17 @@ class ExpressionVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+def _format_sample(sample: float) -> str:
+    if sample % 1 == 0:
+        return f"{sample:.1f}"
+
+    formatted = f"{sample:f}"
+    if float(formatted) != sample:
+        # Six digits are not enough, so write all of them without an exponent
+        formatted = f"{Decimal(repr(sample)):f}"
+    return formatted
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -247,19 +259,13 @@ class Translation(ExpressionVisitor[str]):
 
         sample_clause = ""
         if entity.sample is not None:
-            if entity.sample % 1 == 0:
-                sample_clause = f" SAMPLE {entity.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {entity.sample:f}"
+            sample_clause = f" SAMPLE {_format_sample(entity.sample)}"
         return f"({alias_clause}{entity.name}{sample_clause})"
 
     def _visit_storage(self, storage: Storage) -> str:
         sample_clause = ""
         if storage.sample is not None:
-            if storage.sample % 1 == 0:
-                sample_clause = f" SAMPLE {storage.sample:.1f}"
-            else:
-                sample_clause = f" SAMPLE {storage.sample:f}"
+            sample_clause = f" SAMPLE {_format_sample(storage.sample)}"
         return f"STORAGE({storage.name}{sample_clause})"
 
     def _visit_relationship(self, relationship: Relationship) -> str:
-- 
2.43.0


From 281dae9d0a2c46dad9d2309b41ad3ef8b8590e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:01 +0000
Subject: [PATCH 15/31] fix: numbers are written without exponents in MQL

---
 snuba_sdk/metrics_visitors.py |  4 +++-
 snuba_sdk/visitors.py         | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..353df3d 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -15,7 +15,7 @@ from snuba_sdk.formula import (
     FormulaParameterGroup,
 )
 from snuba_sdk.timeseries import Metric, MetricsScope, Rollup, Timeseries
-from snuba_sdk.visitors import Translation
+from snuba_sdk.visitors import Translation, format_mql_number
 
 TVisited = TypeVar("TVisited")
 
@@ -154,6 +154,8 @@ class FormulaMQLPrinter:
             return self.timeseries_visitor.visit(parameter)
         elif isinstance(parameter, Formula):
             return self.visit(parameter)
+        elif isinstance(parameter, float):
+            return format_mql_number(parameter)
 
         return str(parameter)
 
diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 3c4738e..4923af4 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -146,6 +146,14 @@ def _format_sample(sample: float) -> str:
     return formatted
 
 
+def format_mql_number(number: float) -> str:
+    formatted = f"{number}"
+    if "e" in formatted:
+        # The MQL grammar has no exponents
+        formatted = f"{Decimal(formatted):f}"
+    return formatted
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -174,7 +182,7 @@ class Translation(ExpressionVisitor[str]):
 
             return f"{quote_char}{decoded}{quote_char}"
         elif isinstance(value, (int, float)):
-            return f"{value}"
+            return format_mql_number(value) if self.is_mql else f"{value}"
         elif isinstance(value, datetime):
             # Snuba expects naive UTC datetimes, so convert to that
             if value.tzinfo is not None:
-- 
2.43.0


From 2a18fc324c970eae9bf55ab6eb2acb893aac3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:03 +0000
Subject: [PATCH 16/31] fix: string aggregate params of a Formula are quoted in
 MQL

---
 snuba_sdk/metrics_visitors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 353df3d..db3e4dc 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -161,7 +161,8 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            params = (self.expression_visitor.visit(p) for p in aggregate_params)
+            return "(" + ", ".join(params) + ")"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From d24abfe97523e0a0539949d28b9f9946ffc60673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:06 +0000
Subject: [PATCH 17/31] fix: MRIs are quoted in MQL when the grammar needs it

---
 snuba_sdk/metrics_visitors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index db3e4dc..6cd86c0 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from abc import ABC, abstractmethod
 from dataclasses import asdict
 from typing import Any, Generic, Mapping, Sequence, TypeVar, Union
@@ -205,9 +206,15 @@ class MetricVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+# An MRI has to be in backticks if it has any character that an unquoted MRI can't have.
+NEEDS_QUOTING_RE = re.compile(r'^\s|[\(\){}\[\]",]')
+
+
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
+            if NEEDS_QUOTING_RE.search(metric.mri):
+                return f"`{metric.mri}`"
             return metric.mri
 
         if metric.public_name is not None:
-- 
2.43.0


From 035f527f957bfa3f211298fb9e023e5bbb0860f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:09 +0000
Subject: [PATCH 18/31] fix: operators that MQL cannot express are rejected,
 not written as equality

---
 snuba_sdk/visitors.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 4923af4..1ee0843 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -146,6 +146,10 @@ def _format_sample(sample: float) -> str:
     return formatted
 
 
+# The only operators a condition in MQL can express
+MQL_OPS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
+
+
 def format_mql_number(number: float) -> str:
     formatted = f"{number}"
     if "e" in formatted:
@@ -306,10 +310,13 @@ class Translation(ExpressionVisitor[str]):
         return f"({conditions_with_op})"
 
     def _visit_condition_mql(self, cond: Condition) -> str:
+        if cond.op not in MQL_OPS:
+            raise InvalidExpressionError(
+                f"operator {cond.op.value} is not supported in conditions in MQL"
+            )
+
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
-        elif isinstance(cond.rhs, (CurriedFunction, Function)):
+        if isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-- 
2.43.0


From f2d1c1348a113fe34ff92c06c9acf364776b0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:09 +0000
Subject: [PATCH 19/31] fix: an empty groupby is left out of MQL instead of
 written as by ()

---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 6cd86c0..bf63606 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -92,7 +92,7 @@ def _visit_mql_filters(
 def _visit_mql_groupby(
     groupby: list[Column | AliasedExpression] | None, expression_visitor: Translation
 ) -> str:
-    if groupby is not None:
+    if groupby:
         return " by (" + ", ".join(expression_visitor.visit(c) for c in groupby) + ")"
     return ""
 
-- 
2.43.0


From 6530362dd2495d501f03ca6ef844364903491697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:54 +0000
Subject: [PATCH 20/31] fix: the parameters of nested Formulas are validated as
 well

---
 snuba_sdk/formula.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 19b3203..a235715 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -77,7 +77,7 @@ class Formula:
                 "Formula parameters must group by the same columns"
             )
 
-    def validate(self) -> None:
+    def __validate_parameters(self) -> None:
         if not isinstance(self.function_name, str):
             raise InvalidFormulaError(f"formula '{self.function_name}' must be a str")
         if self.parameters is None:
@@ -92,6 +92,11 @@ class Formula:
                 raise InvalidFormulaError(
                     f"parameter '{param}' of formula {self.function_name} is an invalid type"
                 )
+            if isinstance(param, Formula):
+                param.__validate_parameters()
+
+    def validate(self) -> None:
+        self.__validate_parameters()
         self.__validate_consistency()
 
     def _replace(self, field: str, value: Any) -> Formula:
-- 
2.43.0


From d46232d160a303790ff0fedb7d2b27e56a5347a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:06 +0000
Subject: [PATCH 21/31] fix: whitespace ends an unquoted MRI in MQL instead of
 becoming part of it

---
 snuba_sdk/metrics_visitors.py | 2 +-
 snuba_sdk/mql/mql.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index bf63606..1459e8c 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -207,7 +207,7 @@ class MetricVisitor(ABC, Generic[TVisited]):
 
 
 # An MRI has to be in backticks if it has any character that an unquoted MRI can't have.
-NEEDS_QUOTING_RE = re.compile(r'^\s|[\(\){}\[\]",]')
+NEEDS_QUOTING_RE = re.compile(r'[\s\(\){}\[\]",]')
 
 
 class MetricMQLPrinter(MetricVisitor[str]):
diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..a9ad97f 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -86,7 +86,7 @@ inner_filter = metric (open_brace (_ filter_expr _)? close_brace)? (group_by)?
 metric = quoted_mri / unquoted_mri / quoted_public_name / unquoted_public_name
 quoted_mri = backtick lenient_mri backtick
 lenient_mri = ~r'[^:`]+:[^/`]+/[^@,`]+@[^`]+'
-unquoted_mri = ~r'[^:\(\){}\[\]"`,]+:[^/\(\){}\[\]"`,]+/[^@\(\){}\[\]"`,]+@[^\(\){}\[\]"`,]+'
+unquoted_mri = ~r'[^:\(\){}\[\]"`,\s]+:[^/\(\){}\[\]"`,\s]+/[^@\(\){}\[\]"`,\s]+@[^\(\){}\[\]"`,\s]+'
 quoted_public_name = backtick unquoted_public_name backtick
 unquoted_public_name = ~r"([a-z_]+(?:\.[a-z_]+)*)"
 
-- 
2.43.0


From 8163d575189ebd988c87872e0722f21eaf6dc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 22/31] fix: a tag key that starts with and is not read as the
 operator AND in MQL

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index a9ad97f..37b2ff2 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ~r"(AND|and)(?![a-zA-Z0-9_.])"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From 7912bdac0b213c51da60e5eedd502dc291d15457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:27 +0000
Subject: [PATCH 23/31] fix: whitespace is allowed after the last argument of
 an MQL function

---
 snuba_sdk/mql/mql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index 37b2ff2..ef8c217 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -67,11 +67,11 @@ nested_expression = open_paren _ expression _ close_paren
 function = (curried_aggregate / curried_arbitrary_function / aggregate / arbitrary_function) (group_by)?
 aggregate = aggregate_name (open_paren _ inner_filter _ close_paren)
 aggregate_name = ~r"[a-zA-Z0-9_]+"
-arbitrary_function = arbitrary_function_name (open_paren ( _ expression _ ) (_ comma _ expression)* close_paren)
+arbitrary_function = arbitrary_function_name (open_paren ( _ expression _ ) (_ comma _ expression)* _ close_paren)
 arbitrary_function_name = ~r"[a-zA-Z0-9_]+"
 curried_aggregate = curried_aggregate_name (open_paren _ aggregate_list? _ close_paren) (open_paren _ inner_filter _ close_paren)
 curried_aggregate_name = ~r"[a-zA-Z0-9_]+"
-curried_arbitrary_function = curried_arbitrary_function_name (open_paren _ aggregate_list? _ close_paren) (open_paren _ ( _ expression _ ) (_ comma _ expression)* close_paren)
+curried_arbitrary_function = curried_arbitrary_function_name (open_paren _ aggregate_list? _ close_paren) (open_paren _ ( _ expression _ ) (_ comma _ expression)* _ close_paren)
 curried_arbitrary_function_name = ~r"[a-zA-Z0-9_]+"
 
 aggregate_list = param* (param_expression)
-- 
2.43.0


From 5cb5b35cf7a11d91e714139b23e5645283c836e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 24/31] fix: numbers in parentheses are accepted in MQL

---
 snuba_sdk/mql/mql.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index ef8c217..da5099f 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -224,7 +224,7 @@ class MQLVisitor(NodeVisitor):  # type: ignore
 
     def visit_filter(
         self, node: Node, children: Sequence[Any]
-    ) -> Union[Timeseries, Formula]:
+    ) -> Union[Timeseries, Formula, float]:
         """
         Given a Formula or Timeseries target, set its children filters and groupbys.
         """
@@ -233,6 +233,12 @@ class MQLVisitor(NodeVisitor):  # type: ignore
         if filters:
             _, packed_filters, _ = filters[0]
 
+        if isinstance(target, float):
+            # A number in parentheses
+            if filters or packed_groupbys:
+                raise InvalidMQLQueryError("A number can't be filtered or grouped")
+            return target
+
         assert isinstance(target, Formula) or isinstance(target, Timeseries)
         if not packed_filters and not packed_groupbys:
             return target
@@ -405,7 +411,7 @@ class MQLVisitor(NodeVisitor):  # type: ignore
 
     def visit_target(
         self, node: Node, children: Sequence[Any]
-    ) -> Union[Timeseries, Formula]:
+    ) -> Union[Timeseries, Formula, float]:
         """
         Given a target (which is a Metric object), create a Timeseries object and return it.
         """
@@ -415,7 +421,7 @@ class MQLVisitor(NodeVisitor):  # type: ignore
         if isinstance(target, Metric):
             timeseries = Timeseries(metric=target, aggregate=AGGREGATE_PLACEHOLDER_NAME)
             return timeseries
-        assert isinstance(target, (Timeseries, Formula))
+        assert isinstance(target, (Timeseries, Formula, float))
         return target
 
     def visit_variable(self, node: Node, children: Sequence[Any]) -> Any:
@@ -423,8 +429,8 @@ class MQLVisitor(NodeVisitor):  # type: ignore
 
     def visit_nested_expression(
         self, node: Node, children: Sequence[Any]
-    ) -> Union[Timeseries, Formula]:
-        assert isinstance(children[2], (Timeseries, Formula))
+    ) -> Union[Timeseries, Formula, float]:
+        assert isinstance(children[2], (Timeseries, Formula, float))
         return children[2]
 
     def visit_aggregate(
-- 
2.43.0


From 95504ef21c426e4ceb06dac7a35f9642accd2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 25/31] fix: functions in a list of values are refused in MQL,
 like single ones

---
 snuba_sdk/visitors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 1ee0843..ba0e43e 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -316,7 +316,8 @@ class Translation(ExpressionVisitor[str]):
             )
 
         rhs = None
-        if isinstance(cond.rhs, (CurriedFunction, Function)):
+        values = cond.rhs if isinstance(cond.rhs, (list, tuple)) else [cond.rhs]
+        if any(isinstance(v, (CurriedFunction, Function)) for v in values):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
             )
-- 
2.43.0


From d15dec7f3c64bf880366a0c352c96bff58e33540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:16 +0000
Subject: [PATCH 26/31] fix: MQL that is only a number is rejected with
 InvalidMQLQueryError

---
 snuba_sdk/mql/mql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index da5099f..f53f2ed 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -131,7 +131,8 @@ def parse_mql(mql: str) -> Timeseries | Formula:
     except ParseError as e:
         raise InvalidMQLQueryError("Invalid metrics syntax") from e
     result = MQLVisitor().visit(tree)
-    assert isinstance(result, (Timeseries, Formula))
+    if not isinstance(result, (Timeseries, Formula)):
+        raise InvalidMQLQueryError("MQL endpoint must be a timeseries or a formula")
     return result
 
 
-- 
2.43.0


From 3cbf1c396da4d05ee170d808b10ac8d161f729af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 27/31] fix: aggregates with digits in their name are found in
 legacy functions

---
 snuba_sdk/snuba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/snuba.py b/snuba_sdk/snuba.py
index 209b4be..b7f540a 100644
--- a/snuba_sdk/snuba.py
+++ b/snuba_sdk/snuba.py
@@ -107,7 +107,7 @@ AGGREGATION_FUNCTIONS = {
     for suffix in _AGGREGATION_SUFFIXES
 }
 
-FUNCTION_NAME = re.compile(r"([a-zA-Z_]+)\(")
+FUNCTION_NAME = re.compile(r"([a-zA-Z_][a-zA-Z0-9_]*)\(")
 
 
 def is_aggregation_function(func_name: str, aliases: Optional[set[str]] = None) -> bool:
-- 
2.43.0


From 58b5bd210cca63484be19dc353b570140a9a9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:07 +0000
Subject: [PATCH 28/31] fix: searching a query for entities looks into joins

---
 snuba_sdk/visitors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index ba0e43e..ae8302b 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -437,10 +437,11 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_join(self, join: Join) -> set[Expression]:
         if isinstance(join, self.exp_type):
             return set([join])
-        elif isinstance(join.relationships[0], self.exp_type):
-            return set(join.relationships)
 
-        return set()
+        found = set()
+        for relationship in join.relationships:
+            found |= self.visit(relationship)
+        return found
 
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
-- 
2.43.0


From 8e97cc7be5f1c9b034c9775d03c68ca66d8a36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:41 +0000
Subject: [PATCH 29/31] fix: refuse a curried function on a metric with further
 arguments instead of dropping them

---
 snuba_sdk/mql/mql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index f53f2ed..d288a89 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -502,6 +502,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
             isinstance(target, Timeseries)
             and target.aggregate == AGGREGATE_PLACEHOLDER_NAME
         ):
+            if curried_arbitrary_function_params:
+                raise InvalidMQLQueryError(
+                    "Cannot use arbitrary functions on a Timeseries without an aggregate"
+                )
             return target.set_aggregate(
                 curried_arbitrary_function_name, aggregate_params
             )
-- 
2.43.0


From e0f1c94ace653b366d8579b4a6deb41cd638b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:54 +0000
Subject: [PATCH 30/31] fix: refuse MQL numbers too large for a float instead
 of turning them into a metric named inf

---
 snuba_sdk/mql/mql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index d288a89..42267e4 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -221,7 +221,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
         return children[0]
 
     def visit_number(self, node: Node, children: Sequence[Any]) -> float:
-        return float(node.text)
+        number = float(node.text)
+        if number == float("inf"):
+            raise InvalidMQLQueryError("number is too large")
+        return number
 
     def visit_filter(
         self, node: Node, children: Sequence[Any]
-- 
2.43.0


From 0db0218942b5850aed6e08493aeb19828e14a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 31/31] fix: refuse numbers that MQL cannot express instead of
 writing them as names

---
 snuba_sdk/metrics_visitors.py | 2 +-
 snuba_sdk/visitors.py         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 1459e8c..696f578 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -155,7 +155,7 @@ class FormulaMQLPrinter:
             return self.timeseries_visitor.visit(parameter)
         elif isinstance(parameter, Formula):
             return self.visit(parameter)
-        elif isinstance(parameter, float):
+        elif isinstance(parameter, (float, int)) and not isinstance(parameter, bool):
             return format_mql_number(parameter)
 
         return str(parameter)
diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index ae8302b..6b97c2a 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from datetime import date, datetime
@@ -151,6 +152,9 @@ MQL_OPS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
 
 
 def format_mql_number(number: float) -> str:
+    if number != number or abs(number) > sys.float_info.max:
+        raise InvalidExpressionError(f"{number} is not supported in MQL")
+
     formatted = f"{number}"
     if "e" in formatted:
         # The MQL grammar has no exponents
-- 
2.43.0

