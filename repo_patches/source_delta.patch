From 021cf43bda75f14b1023c2699a8fe5d39fac2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 01/32] fix: escape quotes inside printed string literals and
 identifiers

---
 treeno/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..c64b082 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,9 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    # Embedded double quotes are escaped by doubling them
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +44,9 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    # Embedded single quotes are escaped by doubling them
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From ab920f3531e9dfac449ee20eb499f66a8fcbb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/32] fix: decode quoted strings, unicode strings and
 identifiers exactly

---
 treeno/builder/convert.py | 23 ++++++++---------------
 treeno/util.py            | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..d40b404 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -89,7 +89,7 @@ from treeno.relation import (
     Unnest,
     ValuesQuery,
 )
-from treeno.util import nth
+from treeno.util import decode_unicode_string, nth, unquote
 from treeno.window import (
     BoundedFrameBound,
     BoundType,
@@ -732,27 +732,20 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return unquote(ctx.STRING().getText())
 
     @overrides
     def visitUnicodeStringLiteral(
         self, ctx: SqlBaseParser.UnicodeStringLiteralContext
     ) -> str:
+        escape = "\\"
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
-        else:
-            escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
+            escape = unquote(ctx.STRING().getText())
+        # Drop the U& prefix before removing the quotes
+        return decode_unicode_string(
+            unquote(ctx.UNICODE_STRING().getText()[2:]), escape
         )
-        return s
 
     @overrides
     def visitBooleanLiteral(
@@ -956,7 +949,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        return unquote(ctx.getText())
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/util.py b/treeno/util.py
index c64b082..e7e03a0 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -1,5 +1,7 @@
 import inspect
 import itertools
+import re
+import string
 from abc import ABC
 from typing import (
     TYPE_CHECKING,
@@ -49,6 +51,36 @@ def quote_literal(literal: str) -> str:
     return f"'{escaped}'"
 
 
+def unquote(text: str) -> str:
+    """Removes the quotes around a quoted token and unescapes the doubled quotes inside of it"""
+    quote = text[0]
+    return text[1:-1].replace(quote * 2, quote)
+
+
+def decode_unicode_string(text: str, escape: str) -> str:
+    """Decodes the body of a U&'...' literal: <escape>XXXX, <escape>+XXXXXX and a doubled escape character"""
+    if len(escape) != 1 or escape in "+'\" " or escape in string.hexdigits:
+        raise ValueError(f"Invalid unicode escape character {escape!r}")
+    hexadecimal = "[0-9a-fA-F]"
+    pattern = re.compile(
+        f"{re.escape(escape)}(?:({re.escape(escape)})|\\+({hexadecimal}{{6}})|({hexadecimal}{{4}})|(.?))",
+        re.DOTALL,
+    )
+
+    def decode(match: "re.Match[str]") -> str:
+        escaped, long_code, code, invalid = match.groups()
+        if invalid is not None:
+            raise ValueError(f"Invalid unicode escape {match.group()!r}")
+        if escaped:
+            return escaped
+        code_point = int(long_code or code, 16)
+        if code_point > 0x10FFFF or 0xD800 <= code_point <= 0xDFFF:
+            raise ValueError(f"Invalid unicode code point {match.group()!r}")
+        return chr(code_point)
+
+    return pattern.sub(decode, text)
+
+
 def nth(
     iterable: Iterable[T], n: int, default: Optional[T] = None
 ) -> Optional[T]:
-- 
2.43.0


From 97f9570ed0b45b038b434b4d0cd67513699fa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/32] fix: read lower case keywords, != and DOUBLE PRECISION
 literals

---
 treeno/builder/convert.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index d40b404..818363f 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -17,7 +17,7 @@ from treeno.datatypes.builder import (
     varchar,
 )
 from treeno.datatypes.inference import infer_decimal, infer_integral
-from treeno.datatypes.types import FIELDS, TIME, TIMESTAMP, DataType
+from treeno.datatypes.types import DOUBLE, FIELDS, TIME, TIMESTAMP, DataType
 from treeno.expression import (
     AliasedStar,
     AliasedValue,
@@ -128,7 +128,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
@@ -279,7 +279,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
+        count = ctx.getText().upper()
         if count.isnumeric():
             return int(count)
         else:
@@ -323,7 +323,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -519,7 +519,7 @@ class ConvertVisitor(SqlBaseVisitor):
         string_value = self.visit(ctx.string())
         # Unary plus is essentially a no-op.
         if string_value.startswith("+"):
-            string_value = string_value.lstrip("+")
+            string_value = string_value[1:]
 
         # There's a pesky sign that can appear outside of the string. We do some inference on the string
         # and push the negation inside the string. I've verified that -"3-100" YEAR TO MONTH is equivalent to "-3-100".
@@ -527,7 +527,7 @@ class ConvertVisitor(SqlBaseVisitor):
             # I've tested this and the unary operator +/- can only be applied once to the values inside the string.
             # This means the string can either be +value, -value, or value.
             if string_value.startswith("-"):
-                string_value = string_value.lstrip("-")
+                string_value = string_value[1:]
             else:
                 string_value = "-" + string_value
         parameters = {
@@ -542,7 +542,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -557,7 +557,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitNormalForm(
         self, ctx: SqlBaseParser.NormalFormContext
     ) -> NormalForm:
-        return NormalForm[ctx.getText()]
+        return NormalForm[ctx.getText().upper()]
 
     @overrides
     def visitArrayType(self, ctx: SqlBaseParser.ArrayTypeContext) -> DataType:
@@ -763,7 +763,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name=DOUBLE)
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
@@ -1077,7 +1077,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From 81bbc7ecde58fa38f1367b15921aa3ba3f324315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 04/32] fix: refuse malformed SQL and text after the end of a
 query

---
 treeno/grammar/parse.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..a30d8df 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,8 +2,10 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
 
 try:
@@ -17,6 +19,17 @@ except ImportError:
     raise
 
 
+class SqlSyntaxError(ValueError):
+    """Raised when the text is not part of the language"""
+
+
+class RaisingErrorListener(ErrorListener):
+    """Raises on the first syntax error instead of printing it and recovering from it"""
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise SqlSyntaxError(f"line {line}:{column} {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -26,15 +39,29 @@ class AST:
 
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
-        stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(CommonTokenStream(lexer))
+        for recognizer in (lexer, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        query = parser.query()
+        # The query rule doesn't have to match all of the text. Only a statement terminator is allowed to follow.
+        tokens = parser.getTokenStream()
+        if tokens.LT(1).text == ";":
+            tokens.consume()
+        token = tokens.LT(1)
+        if token.type != Token.EOF:
+            raise SqlSyntaxError(
+                f"line {token.line}:{token.column} extraneous input {token.text!r} after the query"
+            )
+        return query
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From 24f85be243dbac134b69ea66166bab47a5c8a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 05/32] fix: refuse constructs that the reader used to drop
 silently

---
 treeno/builder/convert.py | 94 +++++++++++++++++++++++++++++++++++----
 1 file changed, 86 insertions(+), 8 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 818363f..eb0705f 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -4,6 +4,7 @@ Converts from our grammar into a buildable query tree.
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4.ParserRuleContext import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -53,6 +54,10 @@ from treeno.functions.aggregate import (
 )
 from treeno.functions.base import NAMES_TO_FUNCTIONS, Function
 from treeno.functions.common import Concatenate
+from treeno.functions.datetime import (
+    CurrentDate,
+    ParametrizedDateTimeFunction,
+)
 from treeno.functions.session import (
     CurrentCatalog,
     CurrentPath,
@@ -101,6 +106,17 @@ from treeno.window import (
 )
 
 
+SPECIAL_SYNTAX_FUNCTIONS = {
+    CurrentCatalog,
+    CurrentDate,
+    CurrentPath,
+    CurrentSchema,
+    CurrentUser,
+    ListAgg,
+    Normalize,
+}
+
+
 def query_from_sql(sql: str) -> Query:
     return ConvertVisitor().visitQuery(AST(sql).query())
 
@@ -153,6 +169,10 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    if len(qualifiers) > 3:
+        raise ValueError(
+            f"Too many parts in table name {'.'.join(qualifiers)}"
+        )
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
@@ -164,6 +184,18 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        # Only contexts which merely wrap another one can be converted without a dedicated function. Everything else
+        # is a construct that we don't support, which must not be dropped silently.
+        if node.getChildCount() == 1 and isinstance(
+            node.getChild(0), ParserRuleContext
+        ):
+            return self.visit(node.getChild(0))
+        raise NotImplementedError(
+            f"{type(node).__name__[:-len('Context')]} is not yet supported: {node.getText()}"
+        )
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
@@ -225,14 +257,26 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        if ctx.FETCH():
+            raise NotImplementedError("FETCH FIRST is not yet supported")
+        limit_clause = ctx.limitRowCount()
+        limit = self.visit(limit_clause) if limit_clause else None
+        has_constraints = ctx.ORDER() or ctx.offset or limit is not None
+        if has_constraints and (
+            query.orderby
+            or query.offset is not None
+            or query.limit is not None
+        ):
+            # The query is in parentheses, and a query holds a single level of constraints.
+            raise NotImplementedError(
+                "Constraints around a parenthesized query with its own constraints are not yet supported"
+            )
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
             query.offset = self.visit(ctx.offset)
-        limit_clause = ctx.limitRowCount()
-        if limit_clause:
-            # TODO: Assign this to the query object
-            query.limit = self.visit(limit_clause)
+        if limit is not None:
+            query.limit = limit
         return query
 
     @overrides
@@ -300,6 +344,10 @@ class ConvertVisitor(SqlBaseVisitor):
             table=table_from_qualifiers(self.visit(ctx.qualifiedName()))
         )
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitInlineTable(
         self, ctx: SqlBaseParser.InlineTableContext
@@ -495,6 +543,10 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
+        if len(param_values) > len(FIELDS.get(type_name, [])):
+            raise ValueError(
+                f"Unknown type or too many parameters in {ctx.getText()}"
+            )
         # We assume the parameters will be passed into here.
         parameters = {
             param.name: val
@@ -790,6 +842,17 @@ class ConvertVisitor(SqlBaseVisitor):
             fn_name in NAMES_TO_FUNCTIONS
         ), f"Function name {fn_name} not registered in treeno.functions"
         fn = NAMES_TO_FUNCTIONS[fn_name]
+        if fn in SPECIAL_SYNTAX_FUNCTIONS or issubclass(
+            fn, ParametrizedDateTimeFunction
+        ):
+            # These can only be written using their own syntax. A quoted name refers to another function.
+            raise NotImplementedError(
+                f"{fn_name} can't be called as a regular function"
+            )
+        if ctx.setQuantifier():
+            raise NotImplementedError(
+                "Set quantifiers in function calls are not yet supported"
+            )
 
         kwargs = {}
 
@@ -865,6 +928,10 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
         kwargs = {}
+        if ctx.setQuantifier():
+            raise NotImplementedError(
+                "Set quantifiers in LISTAGG are not yet supported"
+            )
         separator = ctx.string()
         if separator:
             kwargs["separator"] = self.visit(separator)
@@ -998,7 +1065,14 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
-            table = expr.name if isinstance(expr, Field) else expr
+            if isinstance(expr, Field):
+                if expr.table:
+                    raise NotImplementedError(
+                        "Stars over dereferences are not yet supported"
+                    )
+                table = expr.name
+            else:
+                table = expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
         # here we just interpret a Field to mean a table reference.
@@ -1291,7 +1365,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
-                self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            windows: Dict[str, Window] = {}
+            for window_def in ctx.windowDefinition():
+                name, window = self.visit(window_def)
+                if name in windows:
+                    raise ValueError(f"Window {name} is defined twice")
+                windows[name] = window
+            query_builder.window = windows
         return query_builder
-- 
2.43.0


From 30e65e5a6623ee8449c31bab94dae3f12cc81cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 06/32] fix: parenthesize and quote printed expressions as the
 grammar requires

---
 treeno/expression.py | 140 +++++++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 53 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..4c01442 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -253,13 +254,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if isinstance(self.table, Value):
+            return f"{primary_str(self.table, opts)}.{quote_identifier(self.name)}"
+        return chain_identifiers(self.table, self.name)
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -285,7 +282,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{value_str(self.value, opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -309,15 +306,11 @@ class Star(Value):
         ), "Table must be either a complex expression or a string representing the table, not a field"
 
     def sql(self, opts: PrintOptions) -> str:
-        star_string = ""
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-            star_string = f"{table_sql}."
-        star_string += "*"
-        return star_string
+        if self.table is None:
+            return "*"
+        if isinstance(self.table, Value):
+            return f"{primary_str(self.table, opts)}.*"
+        return f"{quote_identifier(self.table)}.*"
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -335,8 +328,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -353,7 +348,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
@@ -401,9 +396,9 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {value_str(self.expr, opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -445,27 +440,46 @@ def pemdas_str(
     """
     # If the type is not specified, we assume the syntax is well-formed without any parentheses as it's probably a fn
     # call.
-    val_type = type(val)
-    if (
-        current_type not in OPERATOR_PRECEDENCE
-        or val_type not in OPERATOR_PRECEDENCE
-    ):
-        return val.sql(opts)
+    if current_type not in OPERATOR_PRECEDENCE:
+        return value_str(val, opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
-    val_precedence = OPERATOR_PRECEDENCE[val_type]
-    # The expression's precedence is the same, so we must obey left-to-right ordering.
-    if current_precedence == val_precedence:
-        if is_left:
-            return val.sql(opts)
-        else:
-            return parenthesize(val)
+    # Predicates can't be chained: their operands are never predicates or boolean operators.
+    if current_precedence in PREDICATE_PRECEDENCES:
+        return operand_str(val, opts, VALUE_PRECEDENCE)
+    # If the expression's precedence is the same, we must obey left-to-right ordering.
+    return operand_str(
+        val, opts, current_precedence if is_left else current_precedence + 1
+    )
 
-    # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
-    if val_precedence < current_precedence:
-        return parenthesize(val)
+
+def value_str(val: Value, opts: PrintOptions) -> str:
+    """Prints a value where any expression is allowed. Only queries require parentheses there."""
+    if isinstance(val, treeno.relation.Query):
+        return parenthesize(val.sql(opts))
     return val.sql(opts)
 
 
+def operand_str(val: Value, opts: PrintOptions, min_precedence: int) -> str:
+    """Prints a value where only expressions which bind as tightly as the given precedence are allowed."""
+    if isinstance(val, Lambda):
+        # The body of a lambda extends as far to the right as possible
+        precedence = LAMBDA_PRECEDENCE
+    else:
+        precedence = OPERATOR_PRECEDENCE.get(type(val), PRIMARY_PRECEDENCE)
+    value_string = value_str(val, opts)
+    if precedence < min_precedence:
+        return parenthesize(value_string)
+    return value_string
+
+
+def primary_str(val: Value, opts: PrintOptions) -> str:
+    """Prints a value which is subscripted or dereferenced"""
+    # A number followed by a period would be read as a decimal
+    if isinstance(val, Literal) and not isinstance(val.value, str):
+        return parenthesize(val.sql(opts))
+    return operand_str(val, opts, PRIMARY_PRECEDENCE)
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -516,7 +530,11 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        return builtin_unary_str(self, "-{value}", opts)
+        value_string = pemdas_str(type(self), self.value, opts)
+        # Two consecutive minus signs would start a comment
+        if value_string.startswith("-"):
+            value_string = parenthesize(value_string)
+        return f"-{value_string}"
 
 
 @value_attr
@@ -615,7 +633,7 @@ class Equal(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return NotEqual(self.left, self.right).sql(opts)
+            return builtin_binary_str(self, "{left} <> {right}", opts)
         return builtin_binary_str(self, "{left} = {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -629,7 +647,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return builtin_binary_str(self, "{left} = {right}", opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -767,7 +785,9 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts(
+            [value_str(val, opts) for val in self.values], opts
+        )
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -807,7 +827,9 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts(
+            [value_str(expr, opts) for expr in self.exprs], opts
+        )
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -840,8 +862,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -896,9 +917,11 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value_str(value, opts) for value in self.values], opts
         )
-        return f"({values_string})"
+        # Parentheses around a single value wouldn't make it a row
+        prefix = "ROW" if len(self.values) == 1 else ""
+        return f"{prefix}({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for value in self.values:
@@ -941,7 +964,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({value_str(self.expr, opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -957,7 +980,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({value_str(self.expr, opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -969,7 +992,8 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        index_string = operand_str(self.index, opts, VALUE_PRECEDENCE)
+        return f"{primary_str(self.value, opts)}[{index_string}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -986,7 +1010,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {value_str(self.condition, opts)} THEN {value_str(self.value, opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1001,7 +1025,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {value_str(self.value, opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1030,7 +1054,9 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = (
+            value_str(self.value, opts) if self.value is not None else ""
+        )
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1062,6 +1088,7 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     GreaterThanOrEqual: 4,
     LessThan: 4,
     LessThanOrEqual: 4,
+    DistinctFrom: 3,
     IsNull: 3,
     Like: 3,
     Between: 3,
@@ -1072,5 +1099,12 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Or: 0,
 }
 
+PREDICATE_PRECEDENCES = (3, 4)
+# The lowest precedence of the operators which the grammar allows in the operands of a predicate
+VALUE_PRECEDENCE = 5
+# Anything that isn't an operator
+PRIMARY_PRECEDENCE = 9
+LAMBDA_PRECEDENCE = -1
+
 # Use this instead of wrap_literal(None), which we explicitly disallow
 NULL = Literal(None, data_type=unknown())
-- 
2.43.0


From 8a60567e98b80eb9256e248fa1661a07b2ece808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 07/32] fix: print literals so that they keep their value and
 type

---
 treeno/builder/convert.py     | 25 +++++++++----------------
 treeno/datatypes/inference.py |  8 +++++++-
 treeno/expression.py          | 19 +++++++++++++++----
 treeno/relation.py            | 10 ++++++++--
 4 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index eb0705f..2f454bf 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -11,13 +11,16 @@ from treeno.datatypes.builder import (
     array,
     boolean,
     double,
-    integer,
     interval,
     row,
     unknown,
     varchar,
 )
-from treeno.datatypes.inference import infer_decimal, infer_integral
+from treeno.datatypes.inference import (
+    infer_decimal,
+    infer_integral,
+    infer_type,
+)
 from treeno.datatypes.types import DOUBLE, FIELDS, TIME, TIMESTAMP, DataType
 from treeno.expression import (
     AliasedStar,
@@ -750,19 +753,8 @@ class ConvertVisitor(SqlBaseVisitor):
         text = ctx.DECIMAL_VALUE().getText()
         negative = ctx.MINUS() is not None
 
-        dtype: DataType
-        value: Union[int, Decimal]
-        if "." in text:
-            value = Decimal(text)
-            dtype = infer_decimal(value)
-        else:
-            value = int(text)
-            dtype = integer()
-
-        if negative:
-            value = -value
-
-        return Literal(value, data_type=dtype)
+        value = Decimal(f"-{text}" if negative else text)
+        return Literal(value, data_type=infer_decimal(value))
 
     @overrides
     def visitStringLiteral(
@@ -778,7 +770,8 @@ class ConvertVisitor(SqlBaseVisitor):
         number_string = ctx.DOUBLE_VALUE().getText()
         if ctx.MINUS() is not None:
             number_string = ctx.MINUS().getText() + number_string
-        return Literal(float(number_string), data_type=double())
+        value = float(number_string)
+        return Literal(value, data_type=infer_type(value))
 
     @overrides
     def visitBasicStringLiteral(
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..4ef3cea 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import math
 from decimal import Decimal
 from typing import Any
 
@@ -25,6 +26,8 @@ def infer_type(value: Any) -> DataType:
     if isinstance(value, int):
         return infer_integral(value)
     if isinstance(value, float):
+        if not math.isfinite(value):
+            raise ValueError(f"{value} can't be expressed as a literal")
         return double()
     if isinstance(value, Decimal):
         # NOTE: This is best-effort inference, since the precision of
@@ -51,7 +54,10 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
+    if not decimal_value.is_finite():
+        raise ValueError(f"{decimal_value} is not a valid decimal literal")
+    # Neither the sign nor an exponent count as digits
+    str_val = f"{abs(decimal_value):f}"
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
diff --git a/treeno/expression.py b/treeno/expression.py
index 4c01442..8ce9f6d 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -214,9 +214,17 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
+        if isinstance(self.value, Decimal):
+            # Decimals are written without exponents, i.e. 3.14 is DECIMAL(3,2). The period is what makes it a decimal.
+            s = f"{self.value:f}"
+            if "." not in s:
+                s += "."
+        if isinstance(self.value, float):
+            # On the other hand, the exponent is what makes it a double.
+            s = s.upper()
+            if "E" not in s:
+                s += "E0"
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
@@ -886,7 +894,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
@@ -948,7 +956,10 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return (
+            f"INTERVAL {quote_literal(self.value)} {self.from_interval}"
+            + to_interval_str
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..7d3445b 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -59,7 +59,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import Literal, Value, value_attr, value_str
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -1081,7 +1081,13 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        percentage_sql = value_str(self.percentage, opts)
+        if isinstance(self.percentage, Literal) and isinstance(
+            self.percentage.value, float
+        ):
+            # The percentage is coerced to a double, so it doesn't need an exponent to be one.
+            percentage_sql = percentage_sql.replace("E0", "")
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-- 
2.43.0


From 4647dabceba4ec580b163cfc88dd7cfe43d14256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 08/32] fix: print every clause of queries and relations with
 the names quoted

---
 treeno/functions/aggregate.py | 23 +++++++----
 treeno/functions/base.py      | 12 +++++-
 treeno/functions/string.py    | 10 ++++-
 treeno/groupby.py             | 15 ++++---
 treeno/orderby.py             |  4 +-
 treeno/relation.py            | 76 +++++++++++++++++++++++++----------
 treeno/window.py              | 28 +++++++++++--
 7 files changed, 124 insertions(+), 44 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..d552490 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -19,7 +19,13 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Star, Value, value_attr, wrap_literal
+from treeno.expression import (
+    Star,
+    Value,
+    value_attr,
+    value_str,
+    wrap_literal,
+)
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -46,14 +52,15 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {value_str(self.filter_, opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
         if self.window:
-            constraint_builder.add_entry(
-                "OVER", parenthesize(self.window.sql(opts))
-            )
+            window_string = self.window.sql(opts)
+            if not self.window.is_reference():
+                window_string = parenthesize(window_string)
+            constraint_builder.add_entry("OVER", window_string)
         return constraint_builder.to_string(opts)
 
     def get_orderby_string(self, opts: PrintOptions) -> str:
@@ -63,7 +70,9 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts(
+            [value_str(value, opts) for value in values], opts
+        )
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -244,7 +253,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = value_str(self.value, opts)
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..6c61e2c 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -4,7 +4,13 @@ from typing import Any, Dict, List, Type, TypeVar
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions
-from treeno.expression import Expression, Value, value_attr, wrap_literal
+from treeno.expression import (
+    Expression,
+    Value,
+    value_attr,
+    value_str,
+    wrap_literal,
+)
 from treeno.printer import join_stmts
 from treeno.util import is_abstract
 
@@ -56,7 +62,9 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts(
+            [value_str(value, opts) for value in values], opts
+        )
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..8703fd0 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,13 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    VALUE_PRECEDENCE,
+    Value,
+    operand_str,
+    value_attr,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +274,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [operand_str(self.string, opts, VALUE_PRECEDENCE)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..ec30550 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value, value_str
 from treeno.printer import join_stmts
 
 
@@ -43,9 +43,12 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        if len(self.values) == 1:
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        # The parentheses of a lone row would be read as the ones of the grouping set
+        if len(self.values) == 1 and not isinstance(
+            self.values[0], RowConstructor
+        ):
+            return value_str(self.values[0], opts)
+        return f"({join_stmts([value_str(val, opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -90,7 +93,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([value_str(val, opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -113,7 +116,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([value_str(val, opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..5101b0e 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -9,7 +9,7 @@ from treeno.base import (
     PrintOptions,
     Sql,
 )
-from treeno.expression import Value
+from treeno.expression import Value, value_str
 
 
 class OrderType(DefaultableEnum):
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = value_str(self.value, opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index 7d3445b..2d67373 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -245,9 +245,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
@@ -309,8 +309,18 @@ class SetQuery(Query, ABC):
         return row(dtypes=dtypes)
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
+        for query in (self.left_query, self.right_query):
+            if query.with_:
+                raise NotImplementedError(
+                    "WITH is not allowed in the operands of a set operation"
+                )
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
-        query_string = relation_string(self.left_query, opts, newline=False)
+        query_string = ""
+        with_queries = self._with_query_string_builder(opts)
+        if with_queries:
+            query_string += StatementPrinter(with_queries).to_string(opts)
+            query_string += spacing
+        query_string += relation_string(self.left_query, opts, newline=False)
         query_string += spacing
         query_string += set_type
         # NOTE: We currently have set_quantifier explicitly spelled out for set operations because the default ALL
@@ -318,6 +328,10 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
+        constraints = self._constraint_string_builder(opts)
+        if constraints:
+            query_string += spacing
+            query_string += StatementPrinter(constraints).to_string(opts)
         return query_string
 
     def resolve(self, existing_schema: Schema) -> Schema:
@@ -495,7 +509,9 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts(
+            [value_str(val, opts) for val in self.select], opts
+        )
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -509,15 +525,15 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", value_str(self.where, opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", value_str(self.having, opts))
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -699,7 +715,8 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES",
+            join_stmts([value_str(expr, opts) for expr in self.exprs], opts),
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -745,18 +762,29 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
-        if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
-        return alias_str
+        relation_str = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[
+                AliasedRelation,
+                Join,
+                TableSample,
+            ],
+        )
+        return f"{relation_str} {self._alias_string(opts)}"
 
-    def _named_query_sql(self, opts: PrintOptions) -> str:
+    def _alias_string(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
-        alias_str += f" AS {relation_string(self.relation, opts)}"
+            column_aliases = [
+                quote_identifier(alias) for alias in self.column_aliases
+            ]
+            alias_str += f" ({join_stmts(column_aliases, opts)})"
         return alias_str
 
+    def _named_query_sql(self, opts: PrintOptions) -> str:
+        return f"{self._alias_string(opts)} AS {relation_string(self.relation, opts)}"
+
     def resolve(self, existing_schema: Schema) -> Schema:
         relation_schema = self.relation.resolve(
             maybe_prune_schema(self.relation, existing_schema)
@@ -837,7 +865,8 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        column_names = [quote_identifier(name) for name in self.column_names]
+        return {"USING": parenthesize(join_stmts(column_names, opts))}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
@@ -868,7 +897,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(value_str(self.constraint, opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -930,7 +959,12 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        builder.add_entry(
+            join_type,
+            relation_string(
+                self.right_relation, opts, special_parenthesize_relations=[Join]
+            ),
+        )
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -991,10 +1025,10 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([value_str(arr, opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
@@ -1079,7 +1113,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         percentage_sql = value_str(self.percentage, opts)
         if isinstance(self.percentage, Literal) and isinstance(
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..3aebc3b 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -11,9 +11,10 @@ from treeno.base import (
     PrintOptions,
     Sql,
 )
-from treeno.expression import Value, wrap_literal
+from treeno.expression import Value, value_str, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -52,7 +53,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{value_str(self.offset, opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -98,14 +99,30 @@ class Window(Sql):
     start_bound: FrameBound = attr.ib(factory=default_start_bound)
     end_bound: FrameBound = attr.ib(factory=default_end_bound)
 
+    def has_default_frame(self) -> bool:
+        return (
+            self.frame_type == FrameType.default()
+            and self.start_bound == default_start_bound()
+            and self.end_bound == default_end_bound()
+        )
+
+    def is_reference(self) -> bool:
+        """Whether the window is nothing but the name of another window"""
+        return (
+            self.parent_window is not None
+            and not self.orderby
+            and not self.partitions
+            and self.has_default_frame()
+        )
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [value_str(partition, opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
@@ -113,6 +130,9 @@ class Window(Sql):
                 [order_term.sql(opts) for order_term in self.orderby], opts
             )
             builder.add_entry("ORDER", "BY " + order_value)
+        # A window which refers to another one takes its frame unless it defines its own
+        if self.parent_window and self.has_default_frame():
+            return builder.to_string(opts)
         builder.add_entry(
             self.frame_type.value,
             " ".join(
-- 
2.43.0


From 2418842de56ba966d955ee49377f1f66427d107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 09/32] fix: keep line breaks inside quotes and accept any
 indentation width

---
 treeno/printer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..6b09f3d 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,6 +4,7 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
@@ -11,13 +12,19 @@ import attr
 from treeno.base import PrintMode, PrintOptions
 
 
+QUOTED_OR_NEWLINE = re.compile(r"""'[^']*'|"[^"]*"|\n""")
+
+
 def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    # Line breaks inside of quotes are part of a literal or a name
+    return QUOTED_OR_NEWLINE.sub(
+        lambda match: "\n" + pad if match.group() == "\n" else match.group(),
+        input,
+    )
 
 
 def join_stmts(
@@ -46,7 +53,6 @@ class JoinPrinter:
         self.stmt_list.extend(values)
 
     def to_string(self, opts: PrintOptions) -> str:
-        assert opts.spaces < self.max_length
         remaining_length = self.max_length - opts.spaces
         lines = []
         current_length = 0
-- 
2.43.0


From 19ef0285f86e26efa01ecc6e12549b9614e7a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 10/32] fix: accept the default quantifier in function calls

---
 treeno/builder/convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 2f454bf..4ee6f87 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -842,9 +842,9 @@ class ConvertVisitor(SqlBaseVisitor):
             raise NotImplementedError(
                 f"{fn_name} can't be called as a regular function"
             )
-        if ctx.setQuantifier():
+        if ctx.setQuantifier() and ctx.setQuantifier().DISTINCT():
             raise NotImplementedError(
-                "Set quantifiers in function calls are not yet supported"
+                "DISTINCT in function calls is not yet supported"
             )
 
         kwargs = {}
@@ -921,9 +921,9 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
         kwargs = {}
-        if ctx.setQuantifier():
+        if ctx.setQuantifier() and ctx.setQuantifier().DISTINCT():
             raise NotImplementedError(
-                "Set quantifiers in LISTAGG are not yet supported"
+                "DISTINCT in LISTAGG is not yet supported"
             )
         separator = ctx.string()
         if separator:
-- 
2.43.0


From e8b267c725841a6abe2df9fe552e0e7e92b21e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 11/32] fix: find common supertypes without failing or losing
 precision

---
 treeno/datatypes/conversions.py | 72 ++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..661f57a 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Any, Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -53,6 +55,7 @@ NUMERIC_TYPES = INTEGRAL_TYPES | FLOAT_TYPES | {DECIMAL}
 STRING_TYPES = {CHAR, VARCHAR}
 # Refer to: https://github.com/trinodb/trino/blob/f382a176760975fec51e89f3dc62060e20420f82/core/trino-spi/src/main/java/io/trino/spi/type/CharType.java#L48
 MAX_CHAR_LENGTH = 65536
+MAX_DECIMAL_PRECISION = 38
 
 HLL_TYPES = {HLL, P4HLL}
 
@@ -63,23 +66,25 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
     if dtype1 == dtype2:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
-    if name1 == name2:
-        return common_same_type(dtype1, dtype2)
-    elif {name1, name2}.issubset(NUMERIC_TYPES):
-        return common_numeric(dtype1, dtype2)
+    if name1 == name2 or {name1, name2}.issubset(NUMERIC_TYPES):
+        return common_supertype(dtype1, dtype2)
     return unknown()
 
 
 def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
-    """Returns a common supertype for the given dtypes.
-    """
+    """Returns a common supertype for the given dtypes, which is UNKNOWN if there is none."""
     if dtype1.type_name == dtype2.type_name:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
+        return unknown()
+    if not any(
+        {dtype1.type_name, dtype2.type_name}.issubset(family)
+        for family in (NUMERIC_TYPES, STRING_TYPES, HLL_TYPES, DATETIME_TYPES)
+    ):
         return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
+    if dtype1.type_name in NUMERIC_TYPES:
         return common_numeric(dtype1, dtype2)
     elif dtype1.type_name in STRING_TYPES:
         return common_string(dtype1, dtype2)
@@ -104,10 +109,10 @@ def common_datetime(dtype1: DataType, dtype2: DataType) -> DataType:
         dtype1.type_name in DATETIME_TYPES
         and dtype2.type_name in DATETIME_TYPES
     ), f"common_numeric must be called with types in {DATETIME_TYPES}"
-    # date and time are not convertible to each other
-    if {dtype1.type_name, dtype2.type_name} == {DATE, TIME}:
+    # A time is not convertible to a date, nor to a timestamp
+    if TIME in {dtype1.type_name, dtype2.type_name}:
         return unknown()
-    # Currently there's either TIMESTAMP, TIME or TIMESTAMP, DATE, both of which get promoted to timestamp
+    # There's only TIMESTAMP, DATE left, which gets promoted to timestamp
     return dtype1 if dtype1.type_name == TIMESTAMP else dtype2
 
 
@@ -183,7 +188,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -223,7 +228,8 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    return decimal(precision=min(MAX_DECIMAL_PRECISION, precision), scale=scale)
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -256,10 +262,12 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
-    dtypes = []
-    for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
-        dtypes.append(common_supertype(t1, t2))
-    return row(dtypes=dtypes)
+    dtypes1, dtypes2 = dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]
+    if len(dtypes1) != len(dtypes2):
+        return unknown()
+    return row(
+        dtypes=[common_supertype(t1, t2) for t1, t2 in zip(dtypes1, dtypes2)]
+    )
 
 
 def common_map(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -281,26 +289,34 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    parameters: Dict[str, Any] = {
+        "timezone": dtype1.parameters["timezone"]
+        or dtype2.parameters["timezone"]
+    }
+    precisions = [
+        dtype.parameters.get("precision", None) for dtype in (dtype1, dtype2)
+    ]
+    # The absence of a precision means that it's up to the session, so we can't tell which one is larger
+    if None not in precisions:
+        parameters["precision"] = max(precisions)
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
-    ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    ), "common_timestamp must be called with TIMESTAMP type only"
+    return timestamp(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From 98c75fc7d5063cf1322fc062f6729ccd0958a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 12/32] fix: validate the parameters of data types and leave
 the caller's alone

---
 treeno/builder/convert.py |  2 +-
 treeno/datatypes/types.py | 39 +++++++++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 4ee6f87..32a7d40 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -553,7 +553,7 @@ class ConvertVisitor(SqlBaseVisitor):
         # We assume the parameters will be passed into here.
         parameters = {
             param.name: val
-            for val, param in zip(param_values, FIELDS[type_name])
+            for val, param in zip(param_values, FIELDS.get(type_name, []))
         }
         return DataType(type_name, parameters=parameters)
 
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..8b39a0b 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -80,7 +80,12 @@ class DataType(Sql):
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
-        for field in FIELDS[self.type_name]:
+        # The defaults shouldn't end up in the caller's parameters, nor should changes to those end up here
+        self.parameters = {
+            name: list(value) if isinstance(value, list) else value
+            for name, value in self.parameters.items()
+        }
+        for field in FIELDS.get(self.type_name, []):
             if not field.required and field.name not in self.parameters:
                 # Unfortunately, because default values can be overridden on the session level,
                 # we want to be hesitant in imputing missing values with a fixed default value.
@@ -94,13 +99,16 @@ class DataType(Sql):
                 field.name in self.parameters
             ), f"{field.name} not specified. Required for {self.type_name}"
             field_value = self.parameters[field.name]
-            assert isinstance(field_value, field.type), (
+            # Python's booleans are integers, but they aren't numbers in SQL
+            assert isinstance(field_value, field.type) and (
+                field.type is bool or not isinstance(field_value, bool)
+            ), (
                 f"Field {field.name} for type {self.type_name} must "
                 f"be of type {field.type.__name__}. "
                 f"Got {type(field_value).__name__} instead with value {field_value})"
             )
 
-        all_parameters = set(param.name for param in FIELDS[self.type_name])
+        all_parameters = set(param.name for param in FIELDS.get(self.type_name, []))
         current_parameters = set(self.parameters)
         assert current_parameters.issubset(
             all_parameters
@@ -120,7 +128,7 @@ class DataType(Sql):
         if not self.parameters:
             return self.type_name
 
-        type_params = FIELDS[self.type_name]
+        type_params = FIELDS.get(self.type_name, [])
         values = []
         # We do this to ensure the order of parameters is outputted correctly.
         # Consider the following situation:
@@ -200,15 +208,32 @@ def validate_map(row: DataType) -> None:
 
 def validate_row(row: DataType) -> None:
     data_types = row.parameters["dtypes"]
+    assert len(data_types), "dtypes argument must not be empty"
     assert all(
         isinstance(t, DataType) for t in data_types
     ), "dtypes argument must be a list of DataTypes"
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
     precision = decimal.parameters["precision"]
-    assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert 1 <= precision <= 38, f"Precision {precision} is not supported"
+    assert (
+        0 <= scale <= precision
+    ), f"Scale {scale} is not supported for precision {precision}"
+
+
+def validate_varchar(varchar: DataType) -> None:
+    max_chars = varchar.parameters.get("max_chars", None)
+    if max_chars is not None:
+        assert (
+            0 <= max_chars <= 0x7FFFFFFE
+        ), f"Length of {max_chars} is not supported"
+
+
+def validate_char(char: DataType) -> None:
+    max_chars = char.parameters["max_chars"]
+    assert 0 <= max_chars <= 65536, f"Length of {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -301,4 +326,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_varchar,
+    CHAR: validate_char,
 }
-- 
2.43.0


From 21feffd8bfd89e81ae1a324a34c6698f6457b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 13/32] fix: infer the types of decimals, times and large
 integers from all of the literal

---
 treeno/datatypes/inference.py | 23 +++++++++++++++++++----
 treeno/expression.py          |  8 +++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 4ef3cea..a8aea19 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -3,6 +3,7 @@
 Should not be used in datatypes.types to prevent circular imports
 """
 import math
+import re
 from decimal import Decimal
 from typing import Any
 
@@ -47,6 +48,8 @@ def infer_char(value: str) -> DataType:
 
 
 def infer_integral(value: int) -> DataType:
+    if not -(0x7FFFFFFFFFFFFFFF + 1) <= value <= 0x7FFFFFFFFFFFFFFF:
+        raise ValueError(f"{value} is not a valid integer literal")
     return integer() if -(0x7FFFFFFF + 1) <= value <= 0x7FFFFFFF else bigint()
 
 
@@ -58,6 +61,10 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
         raise ValueError(f"{decimal_value} is not a valid decimal literal")
     # Neither the sign nor an exponent count as digits
     str_val = f"{abs(decimal_value):f}"
+    # ... nor do the zeros in front, unless there's nothing else
+    str_val = str_val.lstrip("0")
+    if str_val in ("", "."):
+        str_val = "0"
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
@@ -72,7 +79,15 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
 def infer_timelike_precision(value: str) -> int:
     # TODO: Use a datetime util for this at some point. Currently datetime in python only supports microseconds :(
     # Number of digits past the dot is its precision
-    if "." not in value:
-        return 0
-    # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    match = re.search(r":\d+\.(\d+)", value)
+    return len(match.group(1)) if match else 0
+
+
+def infer_timelike_timezone(value: str) -> bool:
+    """Whether anything follows the date and the time of day, which would be an offset or the name of a zone."""
+    date_pattern = r"[+-]?\d+-\d+-\d+"
+    time_pattern = r"\d+:\d+(:\d+(\.\d+)?)?"
+    match = re.match(
+        rf"\s*({date_pattern}(\s+{time_pattern})?|{time_pattern})", value
+    )
+    return match is not None and value[match.end() :].strip() != ""
diff --git a/treeno/expression.py b/treeno/expression.py
index 8ce9f6d..2550eef 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -55,6 +55,7 @@ from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
     infer_timelike_precision,
+    infer_timelike_timezone,
     infer_type,
 )
 from treeno.datatypes.types import DataType
@@ -889,14 +890,15 @@ class TypeConstructor(Expression):
     type_name: str = attr.ib(converter=str.upper)
 
     def __attrs_post_init__(self) -> None:
-        # This can't be timezoned, so we ignore that
         if self.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.TIME:
             self.data_type = time(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.DECIMAL:
             self.data_type = infer_decimal(Decimal(self.value))
-- 
2.43.0


From 06c8811eafd5042025d6ce2cdd734e132b939dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 14/32] fix: register every function whichever module is
 imported first

---
 treeno/functions/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..bf05f2f 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,10 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (
+    aggregate,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
-- 
2.43.0


From 45d7514bb7d29caf778fe8821610402193faf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 15/32] fix: type arrays, conditionals and concatenations by
 all of their values

---
 treeno/expression.py            | 25 +++++++++++++++++++------
 treeno/functions/common.py      |  9 +++++----
 treeno/functions/conditional.py | 22 ++++++++++------------
 3 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 2550eef..fe68a42 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -50,7 +50,7 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import common_supertype, get_arithmetic_type
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -433,6 +433,16 @@ def wrap_literal_list(vals: List[Any]) -> List[Value]:
     return [wrap_literal(val) for val in vals]
 
 
+def common_value_type(vals: List[Value]) -> DataType:
+    """Finds the common type of values where one of them is chosen. NULLs take on the type of the others."""
+    dtypes = [
+        val.data_type
+        for val in vals
+        if not (isinstance(val, Literal) and val.value is None)
+    ]
+    return functools.reduce(common_supertype, dtypes) if dtypes else unknown()
+
+
 def pemdas_str(
     current_type: Type[Value],
     val: Value,
@@ -463,7 +473,9 @@ def pemdas_str(
 
 def value_str(val: Value, opts: PrintOptions) -> str:
     """Prints a value where any expression is allowed. Only queries require parentheses there."""
-    if isinstance(val, treeno.relation.Query):
+    from treeno.relation import Query
+
+    if isinstance(val, Query):
         return parenthesize(val.sql(opts))
     return val.sql(opts)
 
@@ -785,9 +797,7 @@ class Array(Expression):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values), "values must be a non-empty list for Array"
-        # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
-        # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(dtype=common_value_type(self.values))
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -1056,7 +1066,10 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        values = [branch.value for branch in self.branches]
+        if self.else_ is not None:
+            values.append(self.else_.value)
+        self.data_type = common_value_type(values)
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..12924c6 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -10,6 +10,7 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
     common_supertype,
     promote_varchar_to_char,
@@ -40,9 +41,9 @@ def _get_array_concat_type(
     #  array(array(char(3)))
     num_layers = [_num_array_layers(dtype) for dtype in dtypes]
     max_layers = max(num_layers)
-    assert (
-        max_layers - min(num_layers) <= 1
-    ), "Incorrect number of array layers in Concatenate"
+    # There are also no arrays if we can't tell what the elements are
+    if max_layers - min(num_layers) > 1:
+        return unknown()
     stripped_dtypes = [
         dtype.parameters["dtype"] if num_layers == max_layers else dtype
         for dtype, num_layers in zip(dtypes, num_layers)
@@ -68,7 +69,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(MAX_CHAR_LENGTH, max_chars))
 
 
 @value_attr
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..dc79a50 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -1,12 +1,15 @@
-import functools
 from typing import Any, ClassVar, List, Optional, Type
 
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions
-from treeno.datatypes.builder import unknown
-from treeno.datatypes.conversions import common_supertype
-from treeno.expression import Value, value_attr, wrap_literal, wrap_literal_list
+from treeno.expression import (
+    Value,
+    common_value_type,
+    value_attr,
+    wrap_literal,
+    wrap_literal_list,
+)
 from treeno.functions.base import Function, GenericFunction
 
 
@@ -21,8 +24,8 @@ class If(Function):
 
     def __attrs_post_init__(self) -> None:
         if self.false_value is not None:
-            self.data_type = common_supertype(
-                self.true_value.data_type, self.false_value.data_type
+            self.data_type = common_value_type(
+                [self.true_value, self.false_value]
             )
         else:
             self.data_type = self.true_value.data_type
@@ -46,12 +49,7 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
-        self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
-        )
+        self.data_type = common_value_type(self.values)
 
     @classmethod
     def from_args(
-- 
2.43.0


From d00314ed58e1fbdacd9cb82bc5102afaffce096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 16/32] fix: type functions by their documented results

---
 treeno/functions/aggregate.py | 46 +++++++++++++++++++++++++++++------
 treeno/functions/datetime.py  | 18 +++++++-------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index d552490..07cf0d3 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -10,6 +10,7 @@ from treeno.datatypes.builder import (
     array,
     bigint,
     boolean,
+    decimal,
     double,
     hll,
     map_,
@@ -19,6 +20,10 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
+from treeno.datatypes.conversions import (
+    INTEGRAL_TYPES,
+    MAX_DECIMAL_PRECISION,
+)
 from treeno.expression import (
     Star,
     Value,
@@ -117,12 +122,26 @@ class BinaryStatsFunction(AggregateFunction, ABC):
         visitor.visit(self.y)
 
 
+@value_attr
+class UnaryStatsFunction(UnaryAggregateFunction, ABC):
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
+
 @value_attr
 class Sum(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "SUM"
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        # The sum can have more digits than any of the values
+        if self.data_type.type_name in INTEGRAL_TYPES:
+            self.data_type = bigint()
+        elif self.data_type.type_name == type_consts.DECIMAL:
+            self.data_type = decimal(
+                precision=MAX_DECIMAL_PRECISION,
+                scale=self.data_type.parameters["scale"],
+            )
 
 
 @value_attr
@@ -146,7 +165,9 @@ class Avg(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "AVG"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = double()
+        self.data_type = self.value.data_type
+        if self.data_type.type_name in INTEGRAL_TYPES:
+            self.data_type = double()
 
 
 @value_attr
@@ -286,6 +307,8 @@ class Max(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -310,6 +333,8 @@ class MaxBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -334,6 +359,8 @@ class Min(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -358,6 +385,8 @@ class MinBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
@@ -544,6 +573,7 @@ class Merge(UnaryAggregateFunction):
         if (
             self.value.data_type.type_name == type_consts.TDIGEST
             or self.value.data_type.type_name == type_consts.QDIGEST
+            or self.value.data_type == unknown()
         ):
             self.data_type = self.value.data_type
         else:
@@ -659,37 +689,37 @@ class RegrSlope(BinaryStatsFunction):
 
 
 @value_attr
-class Skewness(UnaryAggregateFunction):
+class Skewness(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
 
 @value_attr
-class StdDev(UnaryAggregateFunction):
+class StdDev(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
 
 @value_attr
-class StdDevPop(UnaryAggregateFunction):
+class StdDevPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
 
 @value_attr
-class StdDevSamp(UnaryAggregateFunction):
+class StdDevSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
 
 @value_attr
-class Variance(UnaryAggregateFunction):
+class Variance(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
 
 @value_attr
-class VarPop(UnaryAggregateFunction):
+class VarPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
 
 @value_attr
-class VarSamp(UnaryAggregateFunction):
+class VarSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
 
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..2926092 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -58,7 +58,7 @@ class CurrentTime(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIME"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = time(precision=self.precision)
+        self.data_type = time(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -66,7 +66,7 @@ class CurrentTimestamp(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIMESTAMP"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = timestamp(precision=self.precision)
+        self.data_type = timestamp(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -135,8 +135,9 @@ class AtTimezone(Function):
         # If it's something else like unknown, then we just keep the data type unknown
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision is up to the session if there's none
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -156,8 +157,9 @@ class WithTimezone(Function):
     def __attrs_post_init__(self) -> None:
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision is up to the session if there's none
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -187,6 +189,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
@@ -194,11 +198,7 @@ class FromUnixtime(Function):
         raise ValueError(f"Unrecognized arguments {args} and {kwargs}")
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = timestamp(precision=3, timezone=True)
 
         if self.zone:
             assert (
-- 
2.43.0


From 6dfc77ddc3722b07c17e921b88c3d2258cf24f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 17/32] fix: print the arguments of functions in their order
 and refuse unsupported ones

---
 treeno/functions/aggregate.py   | 13 ++++++++++++-
 treeno/functions/common.py      |  3 +++
 treeno/functions/conditional.py |  1 +
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 07cf0d3..92bffb0 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -53,6 +53,13 @@ class AggregateFunction(Function, ABC):
         factory=NullTreatment.default, kw_only=True
     )
 
+    @null_treatment.validator
+    def _validate_null_treatment(self, attribute: Any, value: Any) -> None:
+        # The grammar only has room for it in front of the OVER clause
+        assert (
+            value == NullTreatment.default() or self.window is not None
+        ), f"{value.value} NULLS requires a window"
+
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
         if self.filter_:
@@ -547,7 +554,8 @@ class ApproxPercentile(AggregateFunction):
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.percentage]
         if self.weight:
-            values.append(self.weight)
+            # The weight goes before the percentage, see __init__
+            values.insert(1, self.weight)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -617,6 +625,9 @@ class QDigestAgg(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            self.weight is not None or self.accuracy is None
+        ), "QDIGEST_AGG requires a weight if an accuracy is specified"
         self.data_type = qdigest(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 12924c6..1ae16bd 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -78,6 +78,9 @@ class Concatenate(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            len(self.values) > 1
+        ), "There must be at least two values to concatenate"
         dtypes = [value.data_type for value in self.values]
         type_names = {dtype.type_name for dtype in dtypes}
         # If there's even a single unknown we should give up here.
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index dc79a50..10ede4c 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -49,6 +49,7 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values) > 1, "COALESCE requires at least two values"
         self.data_type = common_value_type(self.values)
 
     @classmethod
-- 
2.43.0


From e901d3a69bc0a93a16f1cc867dcd394d808f1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 18/32] fix: visit every clause of queries and aggregate
 functions

---
 treeno/functions/aggregate.py | 27 ++++++++++++++++++++++++++-
 treeno/relation.py            | 20 +++++++++++++++++---
 treeno/visitor.py             |  3 +++
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 92bffb0..f497d61 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -101,6 +101,16 @@ class AggregateFunction(Function, ABC):
             return call_str + constraint_string
         return call_str
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        """Visits what aggregate functions have in common. Subclasses visit their own arguments."""
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+        if self.filter_ is not None:
+            visitor.visit(self.filter_)
+        if self.window is not None:
+            visitor.visit(self.window)
+
 
 @value_attr
 class UnaryAggregateFunction(AggregateFunction, ABC):
@@ -111,6 +121,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -127,6 +138,7 @@ class BinaryStatsFunction(AggregateFunction, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.x)
         visitor.visit(self.y)
+        super().visit(visitor)
 
 
 @value_attr
@@ -302,6 +314,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        super().visit(visitor)
 
 
 @value_attr
@@ -327,6 +340,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -354,6 +368,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -379,6 +394,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -406,6 +422,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -451,6 +468,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -479,6 +497,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -502,6 +521,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        super().visit(visitor)
 
 
 @value_attr
@@ -523,6 +543,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        super().visit(visitor)
 
 
 @value_attr(init=False)
@@ -563,6 +584,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -611,6 +633,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -639,11 +662,12 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        super().visit(visitor)
 
 
 @value_attr
@@ -667,6 +691,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
diff --git a/treeno/relation.py b/treeno/relation.py
index 2d67373..d6ed487 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -192,7 +192,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
@@ -251,6 +251,14 @@ class Query(Relation, Value, ABC):
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        """Visits what queries have in common. Subclasses visit their own clauses."""
+        for query in self.with_:
+            visitor.visit(query)
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+
 
 @value_attr
 class SetQuery(Query, ABC):
@@ -353,6 +361,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        super().visit(visitor)
 
 
 @value_attr
@@ -543,7 +552,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for val in self.select:
+            visitor.visit(val)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -555,6 +565,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        super().visit(visitor)
 
 
 @attr.s
@@ -663,6 +674,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        super().visit(visitor)
 
 
 @value_attr
@@ -730,6 +742,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        super().visit(visitor)
 
 
 @attr.s
@@ -934,7 +947,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..30c35d3 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -656,3 +656,6 @@ class TreenoVisitor(Generic[T]):
 
     def visit_LTrim(self, node: "LTrim") -> T:
         ...
+
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
-- 
2.43.0


From 532739828306802188654117c8294221831c64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 19/32] fix: compare trees node by node

---
 treeno/base.py            | 32 +++++++++++++++++++++++++++++---
 treeno/datatypes/types.py |  4 ++++
 treeno/relation.py        |  4 +++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..8002d8f 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -11,8 +11,10 @@ In order to do this, this module introduces some preliminary classes for printin
 .. todo:: We currently copy this description into api.rst, because we don't want to include all the
 """
 
+import math
 from abc import ABC, ABCMeta, abstractmethod
 from enum import Enum, EnumMeta, auto
+from numbers import Number
 from typing import TYPE_CHECKING, Any, ClassVar, Set, TypeVar
 
 import attr
@@ -141,9 +143,11 @@ class Sql(ABC):
         """
         if not isinstance(other, Sql) or type(self) is not type(other):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        return all(
+            equal_content(getattr(self, field.name), getattr(other, field.name))
+            for field in attr.fields(type(self))
+            if field.eq
+        )
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
@@ -153,6 +157,28 @@ class Sql(ABC):
         assert self.equals(other)
 
 
+def equal_content(first: Any, second: Any) -> bool:
+    """Compares anything that :class:`Sql` nodes are made of. We can't use ``==`` on containers of nodes, because that
+    would use the operators of the nodes inside.
+    """
+    if isinstance(first, Sql):
+        return first.equals(second)
+    if isinstance(first, (list, tuple)) and isinstance(second, (list, tuple)):
+        return len(first) == len(second) and all(
+            equal_content(val1, val2) for val1, val2 in zip(first, second)
+        )
+    if isinstance(first, dict) and isinstance(second, dict):
+        return equal_content(list(first.items()), list(second.items()))
+    if isinstance(first, Number) and isinstance(second, Number):
+        # Numbers of different types are equal in python, and zeros are equal to their negation
+        return (
+            type(first) is type(second)
+            and first == second
+            and math.copysign(1, first) == math.copysign(1, second)
+        )
+    return first == second
+
+
 class SetQuantifier(DefaultableEnum):
     """Whether to select all rows or only distinct values"""
 
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index 8b39a0b..d1fc95e 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -144,6 +144,10 @@ class DataType(Sql):
         param_string = ",".join(values)
         return f"{self.type_name}({param_string})"
 
+    def equals(self, other: Any) -> bool:
+        # The parameters can be specified in any order
+        return type(self) is type(other) and self == other
+
     def visit(self, visitor: GenericVisitor) -> None:
         # Data types should not contain any further Sql constructs
         pass
diff --git a/treeno/relation.py b/treeno/relation.py
index d6ed487..78171e9 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -598,7 +598,9 @@ class Table(Relation):
     catalog: Optional[str] = attr.ib(default=None)
 
     # The table object will remember its own column_schema here.
-    _column_schema: Schema = attr.ib(factory=Schema.empty_schema)
+    _column_schema: Schema = attr.ib(
+        factory=Schema.empty_schema, eq=False, repr=False
+    )
 
     def __attrs_post_init__(self) -> None:
         if self.catalog:
-- 
2.43.0


From d3839b990839f8010a2f6c5e65c5f8987f76e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 20/32] fix: refuse nodes which can't be written in SQL

---
 treeno/expression.py |  3 +++
 treeno/groupby.py    |  3 +++
 treeno/relation.py   | 12 ++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index fe68a42..216db02 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -334,6 +334,7 @@ class AliasedStar(Value):
     aliases: List[str] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.aliases), "AliasedStar must have at least one alias"
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
@@ -843,6 +844,7 @@ class InList(Expression):
     exprs: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "exprs must be a non-empty list for InList"
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
@@ -933,6 +935,7 @@ class RowConstructor(Expression):
     values: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values), "values must be a non-empty list for ROW"
         self.data_type = row(dtypes=[value.data_type for value in self.values])
 
     def sql(self, opts: PrintOptions) -> str:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index ec30550..3a94dff 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -19,6 +19,9 @@ class GroupBy(Sql):
     groups: List[Group] = attr.ib()
     groupby_quantifier: SetQuantifier = attr.ib(factory=SetQuantifier.default)
 
+    def __attrs_post_init__(self) -> None:
+        assert len(self.groups) > 0, "GroupBy must have at least one group"
+
     def sql(self, opts: PrintOptions) -> str:
         groupby_string = join_stmts(
             [group.sql(opts) for group in self.groups], opts
diff --git a/treeno/relation.py b/treeno/relation.py
index 78171e9..f747a07 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -719,6 +719,7 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "Must specify at least one row for VALUES"
         for val in self.exprs:
             if self.data_type == unknown():
                 self.data_type = val.data_type
@@ -879,6 +880,11 @@ class JoinUsingCriteria(JoinCriteria):
     # both the left and right relations of the join.
     column_names: List[str] = attr.ib()
 
+    def __attrs_post_init__(self) -> None:
+        assert len(
+            self.column_names
+        ), "Must specify at least one column for USING"
+
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         column_names = [quote_identifier(name) for name in self.column_names]
         return {"USING": parenthesize(join_stmts(column_names, opts))}
@@ -937,6 +943,11 @@ class JoinConfig(Sql):
     def __attrs_post_init__(self):
         if self.join_type == JoinType.CROSS:
             assert not self.criteria, "Cross joins cannot specify join criteria"
+            assert not self.natural, "Cross joins cannot be natural"
+        else:
+            assert (
+                self.criteria or self.natural
+            ), "Joins must specify join criteria unless they're natural"
 
         if self.criteria:
             assert (
@@ -1028,6 +1039,7 @@ class Unnest(Relation):
     with_ordinality: bool = attr.ib(default=False, kw_only=True)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.arrays), "Must unnest at least one value"
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-- 
2.43.0


From b18115ec26207006ab188368511a473ffb58838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 21/32] fix: resolve schemas by the scoping rules of SQL

---
 treeno/datatypes/resolve.py | 139 ++++++++----
 treeno/relation.py          | 441 ++++++++++++++++++++++++++----------
 2 files changed, 415 insertions(+), 165 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..97ab27f 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,71 +1,112 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, Optional
 
 import attr
 
 from treeno.base import Sql
-from treeno.datatypes.builder import row
+from treeno.datatypes import types as type_consts
+from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
-from treeno.relation import Query, Schema
-from treeno.util import children, is_dictlike, is_listlike
+from treeno.expression import Field, Star, Value
+from treeno.relation import Query, Schema, same_name
+from treeno.util import (
+    children,
+    construct_container,
+    is_dictlike,
+    is_listlike,
+)
 
 
-def _make_field(field: Field, schema: Schema) -> Field:
+def _make_field(
+    field: Field, schema: Schema, existing_schema: Optional[Schema]
+) -> Field:
     # If field's table is a whole subquery, it would belong solely
     # to that subquery and not the relation we're dealing with.
-    if isinstance(field.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+    if isinstance(field.table, Value):
+        table = resolve_fields(field.table, schema, existing_schema)
+        return attr.evolve(field, table=table)
 
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
-
-    # If the schema didn't include the field, it should have an unknown type
-    if not len(matching_fields):
-        return copy.deepcopy(field)
-
-    # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
+    scope: Optional[Schema] = schema
+    while scope is not None:
+        matching_fields = [
+            f
+            for f in scope.fields
+            if same_name(f.name, field.name)
+            and (
+                field.table is None
+                or same_name(f.source.identifier(), field.table)
+            )
         ]
+        # In the case of there being two identical names, we need there to be only 1 unique field for it.
         assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
-    return Field(name=field.name, table=field.table, data_type=dtype)
+            len(matching_fields) <= 1
+        ), f"Expected 1 field matching {field}, got {len(matching_fields)}"
+        if matching_fields:
+            dtype = matching_fields[0].data_type
+            return Field(name=field.name, table=field.table, data_type=dtype)
+        # A relation with unknown fields might have the field, and a column named like the field's table (which would
+        # then be a row) hides the relations of the enclosing query.
+        if scope.partial or any(
+            same_name(f.name, field.table) for f in scope.fields
+        ):
+            break
+        scope = scope.outer
+    # If the schema didn't include the field, it should have an unknown type
+    return copy.deepcopy(field)
 
 
-def _make_star(star: Star, schema: Schema) -> Star:
-    if isinstance(star.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+def _make_star(
+    star: Star, schema: Schema, existing_schema: Optional[Schema]
+) -> Star:
+    if isinstance(star.table, Value):
+        table = resolve_fields(star.table, schema, existing_schema)
+        is_row = table.data_type.type_name == type_consts.ROW
+        return Star(
+            table=table, data_type=table.data_type if is_row else unknown()
+        )
     matching_fields = schema.fields
+    partial = schema.partial
     if star.table is not None:
         matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
+            f
+            for f in matching_fields
+            if same_name(f.source.identifier(), star.table)
+        ]
+        partial = [
+            r for r in partial if same_name(r.identifier(), star.table)
         ]
+    if partial or not matching_fields:
+        return copy.deepcopy(star)
     dtype = row(dtypes=[f.data_type for f in matching_fields])
     return Star(table=star.table, data_type=dtype)
 
 
-def resolve_fields(node: Any, schema: Schema) -> Any:
+def resolve_fields(
+    node: Any, schema: Schema, existing_schema: Optional[Schema] = None
+) -> Any:
+    """Resolves the types of all fields in an expression.
+
+    Args:
+        node: An expression, or a part of one
+        schema: The fields of the relations which the expression is evaluated on
+        existing_schema: The relations that subqueries in the expression can select from
+    Returns:
+        A copy of the expression with types.
+    """
     if is_listlike(node):
-        return type(node)(resolve_fields(child, schema) for child in node)
+        return construct_container(
+            node,
+            iter(
+                resolve_fields(child, schema, existing_schema) for child in node
+            ),
+        )
     if is_dictlike(node):
-        return type(node)(
-            (key, resolve_fields(child, schema)) for key, child in node.items()
+        return construct_container(
+            node,
+            iter(
+                (key, resolve_fields(child, schema, existing_schema))
+                for key, child in node.items()
+            ),
         )
     # Everything that includes Sql members must be Sql itself, even if it doesn't have a non-throwing sql() function
     # (see JoinConfig for example)
@@ -75,10 +116,16 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     if isinstance(node, DataType):
         return copy.deepcopy(node)
     if isinstance(node, Field):
-        return _make_field(node, schema)
+        return _make_field(node, schema, existing_schema)
     if isinstance(node, Star):
-        return _make_star(node, schema)
+        return _make_star(node, schema, existing_schema)
+    if isinstance(node, Query):
+        query = copy.deepcopy(node)
+        query.resolve(
+            (existing_schema or Schema.empty_schema()).with_outer(schema)
+        )
+        return query
     changes: Dict[str, Any] = {}
     for k, v in children(node).items():
-        changes[k] = resolve_fields(v, schema)
+        changes[k] = resolve_fields(v, schema, existing_schema)
     return attr.evolve(node, **changes)
diff --git a/treeno/relation.py b/treeno/relation.py
index f747a07..93d81b6 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -44,6 +44,7 @@ schemas. More information can be found in :class:`Relation`.
 import copy
 from abc import ABC, abstractmethod
 from enum import Enum
+from itertools import takewhile
 from typing import Dict, List, Optional, Set, Type
 
 import attr
@@ -56,10 +57,19 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Literal, Value, value_attr, value_str
+from treeno.expression import (
+    AliasedStar,
+    Literal,
+    RowConstructor,
+    Star,
+    Value,
+    common_value_type,
+    value_attr,
+    value_str,
+)
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -145,10 +155,18 @@ class Schema:
         Relation_ids: A set of relations used to denote the existence of a relation included in the schema.
             This set can contain relations that contains no fields - e.g. for a table with an undefined schema,
             the fields would be empty but the relation would still be in the set
+        partial: The relations which have fields that we don't know of.
+        outer: The relations of the enclosing query, which are visible unless the current namespace hides them.
     """
 
     fields: List[SchemaField] = attr.ib()
     relation_ids: Set[str] = attr.ib()
+    partial: List[Relation] = attr.ib(
+        factory=list, kw_only=True, eq=False, repr=False
+    )
+    outer: Optional["Schema"] = attr.ib(
+        default=None, kw_only=True, eq=False, repr=False
+    )
 
     @classmethod
     def empty_schema(cls) -> "Schema":
@@ -175,10 +193,62 @@ class Schema:
         relation_ids = copy.copy(self.relation_ids)
         # .. todo:: This is also pretty slow, O(N^2)
         for f in another_schema.fields:
-            if f not in fields:
+            # NOTE: The sources can be queries, for which == builds an expression.
+            if not any(
+                f.name == field.name
+                and f.data_type == field.data_type
+                and f.source.equals(field.source)
+                for field in fields
+            ):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
-        return Schema(fields, relation_ids)
+        return Schema(
+            fields,
+            relation_ids,
+            partial=self.partial + another_schema.partial,
+            outer=self.outer,
+        )
+
+    def shadow(self, named_query_schema: "Schema") -> "Schema":
+        """Adds a named query, which hides the previous named query with the same name."""
+        names = named_query_schema.relation_ids
+
+        def visible(relation: Relation) -> bool:
+            return not isinstance(relation, AliasedRelation) or not any(
+                same_name(relation.identifier(), name) for name in names
+            )
+
+        return Schema(
+            [f for f in self.fields if visible(f.source)]
+            + named_query_schema.fields,
+            self.relation_ids | names,
+            partial=[r for r in self.partial if visible(r)]
+            + named_query_schema.partial,
+            outer=self.outer,
+        )
+
+    def with_outer(self, outer: Optional["Schema"]) -> "Schema":
+        return attr.evolve(self, outer=outer)
+
+    def known_fields(self) -> List[SchemaField]:
+        """The leading fields, up to where there might be fields that we don't know of."""
+        if not self.partial:
+            return self.fields
+        return list(
+            takewhile(
+                lambda f: f.name is not None or f.data_type != unknown(),
+                self.fields,
+            )
+        )
+
+
+def same_name(name: Optional[str], another_name: Optional[str]) -> bool:
+    """Whether the names denote the same column or relation. Names without an identifier denote nothing."""
+    return (
+        name is not None
+        and another_name is not None
+        and name.lower() == another_name.lower()
+    )
 
 
 @value_attr
@@ -210,7 +280,7 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
+    def _resolve_with(self, existing_schema: Schema) -> Schema:
         """Resolves the queries in WITH statement with context that carries over.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
@@ -225,10 +295,10 @@ class Query(Relation, Value, ABC):
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
         """
-        merging_schema = Schema.empty_schema()
+        merging_schema = existing_schema
         for w in self.with_:
             new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
+            merging_schema = merging_schema.shadow(new_schema)
         return merging_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
@@ -295,26 +365,7 @@ class SetQuery(Query, ABC):
         if left_type == unknown() or right_type == unknown():
             return unknown()
 
-        # The subqueries not being row-like is possible for a table/subquery that only has 1 column
-        left_row_like = left_type.type_name == type_consts.ROW
-        right_row_like = right_type.type_name == type_consts.ROW
-        assert (
-            left_row_like == right_row_like
-        ), f"Either both types are ROWs or neither are. Found {left_type} and {right_type}"
-
-        if not left_row_like:
-            return common_supertype(left_type, right_type)
-
-        # .. todo:: Redundant after previous assertion
-        assert (
-            left_row_like and right_row_like
-        ), "Input data types for query set operations must be ROW"
-        dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
-            dtypes.append(common_supertype(t1, t2))
-        return row(dtypes=dtypes)
+        return common_supertype(left_type, right_type)
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
         for query in (self.left_query, self.right_query):
@@ -343,20 +394,27 @@ class SetQuery(Query, ABC):
         return query_string
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        existing_schema = self._resolve_with(existing_schema)
+        left_schema = self.left_query.resolve(existing_schema)
+        right_schema = self.right_query.resolve(existing_schema)
+        self.data_type = self._compute_data_type()
+        dtypes = [
+            common_supertype(left.data_type, right.data_type)
+            for left, right in zip(
+                left_schema.known_fields(), right_schema.known_fields()
+            )
+        ]
         # The column names and such are always taken from the left schema.
         schema_fields = []
-        for schema_field in left_schema.fields:
+        for idx, schema_field in enumerate(left_schema.fields):
             # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
-        return Schema(schema_fields, relation_ids=left_schema.relation_ids)
+            dtype = dtypes[idx] if idx < len(dtypes) else unknown()
+            schema_fields.append(SchemaField(schema_field.name, self, dtype))
+        return Schema(
+            schema_fields,
+            relation_ids=left_schema.relation_ids,
+            partial=[self] if left_schema.partial else [],
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
@@ -385,6 +443,7 @@ class IntersectQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("INTERSECT", opts)
@@ -411,6 +470,7 @@ class ExceptQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("EXCEPT", opts)
@@ -486,25 +546,37 @@ class SelectQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        # Special case: If the select clause only has one output element, it's not a row.
-        if len(self.select) == 1:
-            return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        dtypes = []
+        for val in self.select:
+            if not isinstance(val, (Star, AliasedStar)):
+                dtypes.append(val.data_type)
+            elif val.data_type == unknown():
+                return unknown()
+            else:
+                dtypes.extend(val.data_type.parameters["dtypes"])
+        return fields_type(dtypes)
 
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
-        # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        existing_schema = self._resolve_with(existing_schema)
+        schema = Schema.empty_schema()
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
-            schema = self.from_.resolve(
-                maybe_prune_schema(self.from_, existing_schema)
-            )
-            self.select = [resolve_fields(val, schema) for val in self.select]
-            self.data_type = self._compute_data_type()
+            schema = self.from_.resolve(existing_schema)
+        schema = schema.with_outer(existing_schema.outer)
+        self.select = [
+            resolve_fields(val, schema, existing_schema) for val in self.select
+        ]
+        self.data_type = self._compute_data_type()
 
         schema_fields = []
+        partial = []
         for value in self.select:
+            if isinstance(value, (Star, AliasedStar)):
+                if value.data_type == unknown():
+                    partial = [self]
+                schema_fields.extend(self._star_fields(value, schema))
+                continue
             # All schema fields have the source to the current object
             schema_fields.append(
                 SchemaField(
@@ -513,7 +585,27 @@ class SelectQuery(Query):
                     data_type=value.data_type,
                 )
             )
-        return Schema(schema_fields, relation_ids=set())
+        return Schema(schema_fields, relation_ids=set(), partial=partial)
+
+    def _star_fields(self, value: Value, schema: Schema) -> List[SchemaField]:
+        """The output fields of a star, or a single unknown one if we don't know what the star stands for."""
+        if value.data_type == unknown():
+            return [SchemaField(None, self, unknown())]
+        dtypes = value.data_type.parameters["dtypes"]
+        star = value.star if isinstance(value, AliasedStar) else value
+        names = [None] * len(dtypes)
+        if isinstance(value, AliasedStar):
+            names[: len(value.aliases)] = value.aliases[: len(dtypes)]
+        elif not isinstance(star.table, Value):
+            names = [
+                f.name
+                for f in schema.fields
+                if star.table is None
+                or same_name(f.source.identifier(), star.table)
+            ]
+        return [
+            SchemaField(name, self, dtype) for name, dtype in zip(names, dtypes)
+        ]
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -607,26 +699,67 @@ class Table(Relation):
             assert (
                 self.schema
             ), "If a catalog is specified, a schema must be specified as well"
-        if self.name not in self._column_schema.relation_ids:
-            self._column_schema.relation_ids.add(self.name)
+        # The schema belongs to the caller, so we shouldn't modify it.
+        self._column_schema = attr.evolve(
+            self._column_schema,
+            fields=list(self._column_schema.fields),
+            relation_ids=self._column_schema.relation_ids | {self.name},
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # If this schema isn't defined
-        if self.name not in existing_schema.relation_ids:
-            return self._column_schema
-        # Otherwise, the schema IS defined e.g. by a previous CTE
-        schema_fields = [
-            f
-            for f in existing_schema.fields
-            if f.source.identifier() == self.identifier()
-        ]
-        self._column_schema = Schema(
-            schema_fields, relation_ids={self.identifier()}
+        sources = [f.source for f in existing_schema.fields]
+        source = self._find_source(sources + existing_schema.partial)
+        # If this schema IS defined e.g. by a previous CTE
+        if source is not None:
+            self._column_schema = Schema(
+                [
+                    f
+                    for f in existing_schema.fields
+                    if f.source is source or f.source == source
+                ],
+                relation_ids={self.name},
+                partial=[r for r in existing_schema.partial if r is source],
+            )
+        return attr.evolve(
+            self._column_schema,
+            fields=list(self._column_schema.fields),
+            partial=self._column_schema.partial
+            if self._column_schema.fields
+            else [self],
         )
-        return self._column_schema
+
+    def _find_source(self, sources: List[Relation]) -> Optional[Relation]:
+        """Finds the relation that this table refers to, if there's exactly one which it can be."""
+        sources = [
+            source
+            for source in sources
+            if same_name(source.identifier(), self.identifier())
+        ]
+        if self.schema is None:
+            for source in sources:
+                if isinstance(source, AliasedRelation):
+                    return source
+        tables: List[Table] = []
+        for source in sources:
+            if isinstance(source, Table) and source not in tables:
+                tables.append(source)
+        exact = [table for table in tables if table == self]
+        matches = exact or [
+            table
+            for table in tables
+            if (None in (table.schema, self.schema))
+            or (
+                same_name(table.schema, self.schema)
+                and (
+                    None in (table.catalog, self.catalog)
+                    or same_name(table.catalog, self.catalog)
+                )
+            )
+        ]
+        return matches[0] if len(matches) == 1 else None
 
     def identifier(self) -> Optional[str]:
         return self.name
@@ -655,9 +788,11 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        if self.table._column_schema.partial:
+            return unknown()
+        return fields_type(
+            [f.data_type for f in self.table._column_schema.fields]
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -669,10 +804,15 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
+        with_schema = self._resolve_with(existing_schema)
         table_schema = self.table.resolve(with_schema)
         self.data_type = self._compute_data_type()
-        return table_schema
+        return Schema(
+            [SchemaField(f.name, self, f.data_type) for f in table_schema.fields]
+            or [SchemaField(None, self, unknown())],
+            relation_ids=set(),
+            partial=[self] if table_schema.partial else [],
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
@@ -720,11 +860,20 @@ class ValuesQuery(Query):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.exprs), "Must specify at least one row for VALUES"
-        for val in self.exprs:
-            if self.data_type == unknown():
-                self.data_type = val.data_type
-            else:
-                self.data_type = common_supertype(self.data_type, val.data_type)
+        self.data_type = fields_type(self._column_types())
+
+    def _column_types(self) -> List[DataType]:
+        if all(isinstance(val, RowConstructor) for val in self.exprs):
+            if len(set(len(val.values) for val in self.exprs)) != 1:
+                return [unknown()]
+            return [
+                common_value_type(column)
+                for column in zip(*(val.values for val in self.exprs))
+            ]
+        dtype = common_value_type(self.exprs)
+        if dtype.type_name == type_consts.ROW:
+            return dtype.parameters["dtypes"]
+        return [dtype]
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -737,9 +886,18 @@ class ValuesQuery(Query):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # ..todo:: Does ValuesQuery dereference anything by itself?
+        from treeno.datatypes.resolve import resolve_fields
+
+        existing_schema = self._resolve_with(existing_schema)
+        schema = Schema.empty_schema().with_outer(existing_schema.outer)
+        self.exprs = [
+            resolve_fields(val, schema, existing_schema) for val in self.exprs
+        ]
+        dtypes = self._column_types()
+        self.data_type = fields_type(dtypes)
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -802,20 +960,24 @@ class AliasedRelation(Relation):
         return f"{self._alias_string(opts)} AS {relation_string(self.relation, opts)}"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
-        )
+        relation_schema = self.relation.resolve(existing_schema)
+        names = [f.name for f in relation_schema.fields]
+        dtypes = [f.data_type for f in relation_schema.fields]
+        partial: List[Relation] = [self] if relation_schema.partial else []
+        if self.column_aliases:
+            # There are as many fields as aliases, even if we don't know all of the fields.
+            names = self.column_aliases
+            dtypes = [f.data_type for f in relation_schema.known_fields()]
+            partial = []
         new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
-            )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
-        return Schema(new_schema_fields, relation_ids={self.identifier()})
+        for idx, field_name in enumerate(names):
+            dtype = dtypes[idx] if idx < len(dtypes) else unknown()
+            new_schema_fields.append(SchemaField(field_name, self, dtype))
+        return Schema(
+            new_schema_fields,
+            relation_ids={self.identifier()},
+            partial=partial,
+        )
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -997,18 +1159,52 @@ class Join(Relation):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        pruned_left_arg = maybe_prune_schema(
-            self.left_relation, existing_schema
-        )
-        left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
+        left_schema = self.left_relation.resolve(existing_schema)
         # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
         # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
-        pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
-        )
-        right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
+        relation = self.right_relation
+        while isinstance(relation, AliasedRelation):
+            relation = relation.relation
+        if isinstance(relation, (Unnest, Lateral)):
+            existing_schema = existing_schema.with_outer(
+                left_schema.with_outer(existing_schema.outer)
+            )
+        right_schema = self.right_relation.resolve(existing_schema)
+        return self._join_schemas(left_schema, right_schema)
+
+    def _join_schemas(self, left: Schema, right: Schema) -> Schema:
+        relation_ids = left.relation_ids | right.relation_ids
+        partial = left.partial + right.partial
+        names: List[str] = []
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            names = self.config.criteria.column_names
+        elif self.config.natural:
+            if partial:
+                # Any column can be a join column.
+                return Schema(
+                    [SchemaField(None, self, unknown())],
+                    relation_ids,
+                    partial=[self],
+                )
+            names = [
+                f.name
+                for f in left.fields
+                if any(same_name(f.name, g.name) for g in right.fields)
+            ]
+        # The join columns come first and belong to neither of the relations.
+        schema_fields = []
+        for name in names:
+            dtypes = []
+            for schema in (left, right):
+                matches = [f for f in schema.fields if same_name(f.name, name)]
+                assert len(matches) <= 1, f"Ambiguous join column {name}"
+                dtypes.extend(f.data_type for f in matches)
+            dtype = common_supertype(*dtypes) if len(dtypes) == 2 else unknown()
+            schema_fields.append(SchemaField(name, self, dtype))
+        for f in left.fields + right.fields:
+            if not any(same_name(f.name, name) for name in names):
+                schema_fields.append(f)
+        return Schema(schema_fields, relation_ids, partial=partial)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
@@ -1045,10 +1241,19 @@ class Unnest(Relation):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
+            parameters = val.data_type.parameters
+            if val.data_type.type_name == type_consts.MAP:
+                dtypes.extend(
+                    [parameters["from_dtype"], parameters["to_dtype"]]
+                )
+            elif val.data_type.type_name != type_consts.ARRAY:
                 dtypes.append(unknown())
+            elif parameters["dtype"].type_name == type_consts.ROW:
+                dtypes.extend(parameters["dtype"].parameters["dtypes"])
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
+                dtypes.append(parameters["dtype"])
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1063,16 +1268,22 @@ class Unnest(Relation):
         from treeno.datatypes.resolve import resolve_fields
 
         # There's no base
+        schema = existing_schema.outer or Schema.empty_schema()
         self.arrays = [
-            resolve_fields(arr, existing_schema) for arr in self.arrays
+            resolve_fields(arr, schema, existing_schema) for arr in self.arrays
         ]
         self.data_type = self._compute_data_type()
+        is_partial = any(
+            arr.data_type.type_name not in (type_consts.ARRAY, type_consts.MAP)
+            for arr in self.arrays
+        )
         return Schema(
             fields=[
                 SchemaField(name=None, source=self, data_type=dtype)
                 for dtype in self.data_type.parameters["dtypes"]
             ],
             relation_ids=set(),
+            partial=[self] if is_partial else [],
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1094,7 +1305,6 @@ class Lateral(Relation):
         return f"LATERAL({self.subquery.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We explicitly don't maybe_prune_schema here, since lateral needs to explicitly pass it down
         return self.subquery.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1152,7 +1362,7 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
+        # NOTE: Table sample should not affect the namespace scope
         return self.relation.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1178,18 +1388,11 @@ def relation_string(
         return relation_str
 
 
-def maybe_prune_schema(relation: Relation, existing_schema: Schema) -> Schema:
-    """Prune the schema depending on whether the relation will enter a new namespace
-
-    Some relations don't want extra schema information to be passed through because it's in its own parenthesized
-    expression which is not aware of the outer namespace.
-
-    Args:
-        relation: The relation to enter into with the given schema
-        existing_schema: The schema to pass into the relation
-    Returns:
-        Either an empty :class:`Schema` or the original :class:`Schema`.
-    """
-    if isinstance(relation, Query):
-        return Schema.empty_schema()
-    return existing_schema
+def fields_type(dtypes: List[DataType]) -> DataType:
+    """The type of a query with the given output types"""
+    if not dtypes:
+        return unknown()
+    # Special case: If the query only has one output element, it's not a row.
+    if len(dtypes) == 1:
+        return dtypes[0]
+    return row(dtypes=dtypes)
-- 
2.43.0


From de8a0ddd80a1840781e4bb930414a02784895a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 22/32] fix: type subscripts of arrays and maps

---
 treeno/expression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index 216db02..cf211b8 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -1017,6 +1017,13 @@ class Subscript(Expression):
     value: Value = attr.ib()
     index: Value = attr.ib(converter=wrap_literal)
 
+    def __attrs_post_init__(self) -> None:
+        parameters = self.value.data_type.parameters
+        if self.value.data_type.type_name == type_consts.ARRAY:
+            self.data_type = parameters["dtype"]
+        elif self.value.data_type.type_name == type_consts.MAP:
+            self.data_type = parameters["to_dtype"]
+
     def sql(self, opts: PrintOptions) -> str:
         index_string = operand_str(self.index, opts, VALUE_PRECEDENCE)
         return f"{primary_str(self.value, opts)}[{index_string}]"
-- 
2.43.0


From 23aac25aeed28d5fd6428db1472e17e5daad3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 23/32] fix: draw trees of data types, mappings and parentheses
 and mark nameless columns

---
 treeno/cli.py           |  6 ++++--
 treeno/grammar/parse.py | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..2b44578 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -83,7 +83,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
@@ -102,6 +102,8 @@ def treeify(node: Any) -> Any:
 def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sql_obj = get_sql_object(construct_type, sql)
     tree = treeify(sql_obj)
+    if not isinstance(tree, Tree):
+        tree = Tree(tree, [])
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
@@ -123,7 +125,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index a30d8df..c67ded2 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from typing import Union
 
 import nltk
 from antlr4 import CommonTokenStream
@@ -7,6 +8,7 @@ from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
 from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
+from antlr4.Utils import escapeWhitespace
 
 try:
     from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer  # type: ignore
@@ -71,9 +73,16 @@ class AST:
 
 
 def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
-    )
+    rule_names = ast.parser().ruleNames
+
+    def build_tree(node: ParserRuleContext) -> Union[str, nltk.Tree]:
+        text = escapeWhitespace(Trees.getNodeText(node, rule_names), False)
+        if not node.getChildCount():
+            return text
+        return nltk.Tree(
+            text, [build_tree(child) for child in node.getChildren()]
+        )
+
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    build_tree(node).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From f0a824996dae34185dc8239a1be113eb8b2eac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 24/32] fix: rebuild lambda bodies which have tables

---
 treeno/datatypes/resolve.py | 3 ++-
 treeno/expression.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 97ab27f..2168e05 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -127,5 +127,6 @@ def resolve_fields(
         return query
     changes: Dict[str, Any] = {}
     for k, v in children(node).items():
-        changes[k] = resolve_fields(v, schema, existing_schema)
+        # Private attributes are initialized without the underscore
+        changes[k.lstrip("_")] = resolve_fields(v, schema, existing_schema)
     return attr.evolve(node, **changes)
diff --git a/treeno/expression.py b/treeno/expression.py
index cf211b8..5baf96f 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -399,7 +399,8 @@ class Lambda(Expression):
                 return cls.Variable(node.name)
             changes = {}
             for k, v in children(node).items():
-                changes[k] = _from_expr(v)
+                # Private attributes are initialized without the underscore
+                changes[k.lstrip("_")] = _from_expr(v)
             return attr.evolve(node, **changes)
 
         return cls(inputs, _from_expr(expr))
-- 
2.43.0


From 968bcd759d126c2e3211e204495d1fb5ea8f8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 25/32] fix: count all digits of long decimals

---
 treeno/datatypes/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index a8aea19..4d5bd46 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -60,7 +60,7 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     if not decimal_value.is_finite():
         raise ValueError(f"{decimal_value} is not a valid decimal literal")
     # Neither the sign nor an exponent count as digits
-    str_val = f"{abs(decimal_value):f}"
+    str_val = f"{decimal_value.copy_abs():f}"
     # ... nor do the zeros in front, unless there's nothing else
     str_val = str_val.lstrip("0")
     if str_val in ("", "."):
-- 
2.43.0


From 8d1bb5b05747d9ebb784c1fe18a79501b3867a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 26/32] fix: refuse names without characters

---
 treeno/builder/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 32a7d40..bedcfd2 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1009,7 +1009,10 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return unquote(ctx.getText())
+        identifier = unquote(ctx.getText())
+        if not identifier:
+            raise ValueError("Zero-length delimited identifier not allowed")
+        return identifier
 
     @overrides
     def visitUnquotedIdentifier(
-- 
2.43.0


From 0db87373b3a7768708f5ccf8d320ab905dbdb409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 27/32] fix: print escape sequences of names and literals

---
 treeno/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 2b44578..bd18818 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -45,7 +45,8 @@ def get_sql_object(construct_type: SqlConstruct, sql: str) -> Sql:
 @app.command()
 def format(construct_type: SqlConstruct, sql: str) -> None:
     sql_obj = get_sql_object(construct_type, sql)
-    typer.echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)))
+    # Escape sequences belong to the SQL, so they have to be kept even when the output isn't a terminal
+    typer.echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)), color=True)
 
 
 @app.command()
@@ -59,7 +60,7 @@ def antlr_tree(construct_type: SqlConstruct, sql: str) -> None:
         node = ast.type()
     else:
         raise TypeError(f"Unexpected sql construct type {construct_type.value}")
-    typer.echo(print_tree(ast, node))
+    typer.echo(print_tree(ast, node), color=True)
 
 
 def _should_skip(key: str, node: Any) -> bool:
@@ -107,7 +108,7 @@ def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-        typer.echo(sio.getvalue())
+        typer.echo(sio.getvalue(), color=True)
     else:
         tree.draw()
 
-- 
2.43.0


From 45fbe454bd907c018834d36eb345028605559647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 28/32] fix: print double negations so that they are stable

---
 treeno/expression.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 5baf96f..153bc01 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -554,8 +554,8 @@ class Negative(UnaryExpression):
 
     def sql(self, opts: PrintOptions) -> str:
         value_string = pemdas_str(type(self), self.value, opts)
-        # Two consecutive minus signs would start a comment
-        if value_string.startswith("-"):
+        # Two consecutive minus signs would start a comment, and the integer zero has no sign
+        if value_string.startswith("-") or value_string == "0":
             value_string = parenthesize(value_string)
         return f"-{value_string}"
 
@@ -630,7 +630,6 @@ class Not(UnaryExpression):
                 InQuery,
                 Between,
                 Equal,
-                NotEqual,
             ),
         ):
             return self.value.to_string(opts, negate=True)
@@ -668,13 +667,8 @@ class NotEqual(BinaryExpression):
     def __attrs_post_init__(self) -> None:
         self.data_type = boolean()
 
-    def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        if negate:
-            return builtin_binary_str(self, "{left} = {right}", opts)
-        return builtin_binary_str(self, "{left} <> {right}", opts)
-
     def sql(self, opts: PrintOptions) -> str:
-        return self.to_string(opts, negate=False)
+        return builtin_binary_str(self, "{left} <> {right}", opts)
 
 
 @value_attr
-- 
2.43.0


From f8246b18e73e1a65294637b49cbde7543a87add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 29/32] fix: keep track of where a relation's unknown columns
 are

An alias with column names gave the columns of a known table to those of an unknown one joined to its left, and forgot the columns following a NULL or an untyped expression.
---
 treeno/relation.py | 88 ++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 93d81b6..b9680bd 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -134,11 +134,19 @@ class SchemaField:
         source: The source of which the field came from. Important to disambiguate :class:`SchemaField` with same
             names across different sources
         data_type: The data type of the field
+        placeholder: Whether this stands for any number of fields that we don't know of
     """
 
     name: Optional[str] = attr.ib()
     source: Relation = attr.ib()
     data_type: DataType = attr.ib()
+    placeholder: bool = attr.ib(
+        default=False, kw_only=True, eq=False, repr=False
+    )
+
+    @classmethod
+    def unknown_fields(cls, source: Relation) -> "SchemaField":
+        return cls(None, source, unknown(), placeholder=True)
 
 
 @attr.s
@@ -232,14 +240,7 @@ class Schema:
 
     def known_fields(self) -> List[SchemaField]:
         """The leading fields, up to where there might be fields that we don't know of."""
-        if not self.partial:
-            return self.fields
-        return list(
-            takewhile(
-                lambda f: f.name is not None or f.data_type != unknown(),
-                self.fields,
-            )
-        )
+        return list(takewhile(lambda f: not f.placeholder, self.fields))
 
 
 def same_name(name: Optional[str], another_name: Optional[str]) -> bool:
@@ -409,7 +410,9 @@ class SetQuery(Query, ABC):
         for idx, schema_field in enumerate(left_schema.fields):
             # Basically take the schema that belonged to left schema and re-assign it to this set query
             dtype = dtypes[idx] if idx < len(dtypes) else unknown()
-            schema_fields.append(SchemaField(schema_field.name, self, dtype))
+            schema_fields.append(
+                attr.evolve(schema_field, source=self, data_type=dtype)
+            )
         return Schema(
             schema_fields,
             relation_ids=left_schema.relation_ids,
@@ -590,7 +593,7 @@ class SelectQuery(Query):
     def _star_fields(self, value: Value, schema: Schema) -> List[SchemaField]:
         """The output fields of a star, or a single unknown one if we don't know what the star stands for."""
         if value.data_type == unknown():
-            return [SchemaField(None, self, unknown())]
+            return [SchemaField.unknown_fields(self)]
         dtypes = value.data_type.parameters["dtypes"]
         star = value.star if isinstance(value, AliasedStar) else value
         names = [None] * len(dtypes)
@@ -725,7 +728,8 @@ class Table(Relation):
             )
         return attr.evolve(
             self._column_schema,
-            fields=list(self._column_schema.fields),
+            fields=list(self._column_schema.fields)
+            or [SchemaField.unknown_fields(self)],
             partial=self._column_schema.partial
             if self._column_schema.fields
             else [self],
@@ -808,8 +812,7 @@ class TableQuery(Query):
         table_schema = self.table.resolve(with_schema)
         self.data_type = self._compute_data_type()
         return Schema(
-            [SchemaField(f.name, self, f.data_type) for f in table_schema.fields]
-            or [SchemaField(None, self, unknown())],
+            [attr.evolve(f, source=self) for f in table_schema.fields],
             relation_ids=set(),
             partial=[self] if table_schema.partial else [],
         )
@@ -961,23 +964,19 @@ class AliasedRelation(Relation):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         relation_schema = self.relation.resolve(existing_schema)
-        names = [f.name for f in relation_schema.fields]
-        dtypes = [f.data_type for f in relation_schema.fields]
-        partial: List[Relation] = [self] if relation_schema.partial else []
-        if self.column_aliases:
-            # There are as many fields as aliases, even if we don't know all of the fields.
-            names = self.column_aliases
-            dtypes = [f.data_type for f in relation_schema.known_fields()]
-            partial = []
+        if not self.column_aliases:
+            return Schema(
+                [attr.evolve(f, source=self) for f in relation_schema.fields],
+                relation_ids={self.identifier()},
+                partial=[self] if relation_schema.partial else [],
+            )
+        # There are as many fields as aliases, even if we don't know all of the fields.
+        dtypes = [f.data_type for f in relation_schema.known_fields()]
         new_schema_fields = []
-        for idx, field_name in enumerate(names):
+        for idx, field_name in enumerate(self.column_aliases):
             dtype = dtypes[idx] if idx < len(dtypes) else unknown()
             new_schema_fields.append(SchemaField(field_name, self, dtype))
-        return Schema(
-            new_schema_fields,
-            relation_ids={self.identifier()},
-            partial=partial,
-        )
+        return Schema(new_schema_fields, relation_ids={self.identifier()})
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -1182,7 +1181,7 @@ class Join(Relation):
             if partial:
                 # Any column can be a join column.
                 return Schema(
-                    [SchemaField(None, self, unknown())],
+                    [SchemaField.unknown_fields(self)],
                     relation_ids,
                     partial=[self],
                 )
@@ -1239,22 +1238,25 @@ class Unnest(Relation):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        dtypes = []
+        return row(dtypes=[f.data_type for f in self._fields()])
+
+    def _fields(self) -> List[SchemaField]:
+        fields = []
         for val in self.arrays:
             parameters = val.data_type.parameters
             if val.data_type.type_name == type_consts.MAP:
-                dtypes.extend(
-                    [parameters["from_dtype"], parameters["to_dtype"]]
-                )
+                dtypes = [parameters["from_dtype"], parameters["to_dtype"]]
             elif val.data_type.type_name != type_consts.ARRAY:
-                dtypes.append(unknown())
+                fields.append(SchemaField.unknown_fields(self))
+                continue
             elif parameters["dtype"].type_name == type_consts.ROW:
-                dtypes.extend(parameters["dtype"].parameters["dtypes"])
+                dtypes = parameters["dtype"].parameters["dtypes"]
             else:
-                dtypes.append(parameters["dtype"])
+                dtypes = [parameters["dtype"]]
+            fields.extend(SchemaField(None, self, dtype) for dtype in dtypes)
         if self.with_ordinality:
-            dtypes.append(bigint())
-        return row(dtypes=dtypes)
+            fields.append(SchemaField(None, self, bigint()))
+        return fields
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
@@ -1273,17 +1275,11 @@ class Unnest(Relation):
             resolve_fields(arr, schema, existing_schema) for arr in self.arrays
         ]
         self.data_type = self._compute_data_type()
-        is_partial = any(
-            arr.data_type.type_name not in (type_consts.ARRAY, type_consts.MAP)
-            for arr in self.arrays
-        )
+        fields = self._fields()
         return Schema(
-            fields=[
-                SchemaField(name=None, source=self, data_type=dtype)
-                for dtype in self.data_type.parameters["dtypes"]
-            ],
+            fields=fields,
             relation_ids=set(),
-            partial=[self] if is_partial else [],
+            partial=[self] if any(f.placeholder for f in fields) else [],
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 93a8a8567a4be2b1cf8b8760bbf618aaa240e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 30/32] fix: comparing a missing value or a name with a node
 used the node's operator

Structural equality gave True or raised when one tree had a text or nothing where the other one had an expression, depending on which side it was.
---
 treeno/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/base.py b/treeno/base.py
index 8002d8f..77145d3 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -163,6 +163,8 @@ def equal_content(first: Any, second: Any) -> bool:
     """
     if isinstance(first, Sql):
         return first.equals(second)
+    if isinstance(second, Sql):
+        return False
     if isinstance(first, (list, tuple)) and isinstance(second, (list, tuple)):
         return len(first) == len(second) and all(
             equal_content(val1, val2) for val1, val2 in zip(first, second)
-- 
2.43.0


From 679700e62cdd32488469aa068f520dfe4a4a5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:03 +0000
Subject: [PATCH 31/32] fix: names that only look like a function or a type in
 upper case were taken for it

---
 treeno/builder/convert.py | 6 +++---
 treeno/datatypes/types.py | 3 ++-
 treeno/expression.py      | 3 ++-
 treeno/util.py            | 6 ++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index bedcfd2..b87d903 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -97,7 +97,7 @@ from treeno.relation import (
     Unnest,
     ValuesQuery,
 )
-from treeno.util import decode_unicode_string, nth, unquote
+from treeno.util import decode_unicode_string, nth, unquote, upper_name
 from treeno.window import (
     BoundedFrameBound,
     BoundType,
@@ -545,7 +545,7 @@ class ConvertVisitor(SqlBaseVisitor):
         self, ctx: SqlBaseParser.GenericTypeContext
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
-        type_name = self.visit(ctx.identifier()).upper()
+        type_name = upper_name(self.visit(ctx.identifier()))
         if len(param_values) > len(FIELDS.get(type_name, [])):
             raise ValueError(
                 f"Unknown type or too many parameters in {ctx.getText()}"
@@ -830,7 +830,7 @@ class ConvertVisitor(SqlBaseVisitor):
             len(qual_name) == 1
         ), f"Invalid function name {'.'.join(qual_name)}"
 
-        fn_name = qual_name[0].upper()
+        fn_name = upper_name(qual_name[0])
         assert (
             fn_name in NAMES_TO_FUNCTIONS
         ), f"Function name {fn_name} not registered in treeno.functions"
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d1fc95e..9419ec8 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -4,6 +4,7 @@ from typing import Any, Callable, Dict, List, Optional
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, Sql
+from treeno.util import upper_name
 
 (
     BOOLEAN,
@@ -76,7 +77,7 @@ class DataType(Sql):
     parameters: Dict[str, Any] = attr.ib(factory=dict)
 
     def __attrs_post_init__(self):
-        self.type_name = self.type_name.upper()
+        self.type_name = upper_name(self.type_name)
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
diff --git a/treeno/expression.py b/treeno/expression.py
index 153bc01..1996a4b 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -69,6 +69,7 @@ from treeno.util import (
     parenthesize,
     quote_identifier,
     quote_literal,
+    upper_name,
 )
 
 GenericValue = TypeVar("GenericValue", bound="Value")
@@ -894,7 +895,7 @@ class Like(Expression):
 @value_attr
 class TypeConstructor(Expression):
     value: str = attr.ib()
-    type_name: str = attr.ib(converter=str.upper)
+    type_name: str = attr.ib(converter=upper_name)
 
     def __attrs_post_init__(self) -> None:
         if self.type_name == type_consts.TIMESTAMP:
diff --git a/treeno/util.py b/treeno/util.py
index e7e03a0..21a9bcf 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -81,6 +81,12 @@ def decode_unicode_string(text: str, escape: str) -> str:
     return pattern.sub(decode, text)
 
 
+def upper_name(name: str) -> str:
+    """Upper cases the name of a function or a type, of which only ASCII letters are case insensitive. The upper case of
+    other characters can be an ASCII letter too, i.e. the one of a dotless i, although these are different names."""
+    return name.upper() if name.isascii() else name
+
+
 def nth(
     iterable: Iterable[T], n: int, default: Optional[T] = None
 ) -> Optional[T]:
-- 
2.43.0


From f50fda2a1f5979608e7734192b933e56ce489b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 32/32] fix: a table object took the columns of a named query
 to places where that query isn't visible

---
 treeno/relation.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index b9680bd..21b8cf4 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -715,9 +715,10 @@ class Table(Relation):
     def resolve(self, existing_schema: Schema) -> Schema:
         sources = [f.source for f in existing_schema.fields]
         source = self._find_source(sources + existing_schema.partial)
+        column_schema = self._column_schema
         # If this schema IS defined e.g. by a previous CTE
         if source is not None:
-            self._column_schema = Schema(
+            column_schema = Schema(
                 [
                     f
                     for f in existing_schema.fields
@@ -726,13 +727,14 @@ class Table(Relation):
                 relation_ids={self.name},
                 partial=[r for r in existing_schema.partial if r is source],
             )
+            # A named query is only visible here, so it's not to be remembered
+            if not isinstance(source, AliasedRelation):
+                self._column_schema = column_schema
         return attr.evolve(
-            self._column_schema,
-            fields=list(self._column_schema.fields)
+            column_schema,
+            fields=list(column_schema.fields)
             or [SchemaField.unknown_fields(self)],
-            partial=self._column_schema.partial
-            if self._column_schema.fields
-            else [self],
+            partial=column_schema.partial if column_schema.fields else [self],
         )
 
     def _find_source(self, sources: List[Relation]) -> Optional[Relation]:
@@ -810,7 +812,11 @@ class TableQuery(Query):
         # local WITH clause
         with_schema = self._resolve_with(existing_schema)
         table_schema = self.table.resolve(with_schema)
-        self.data_type = self._compute_data_type()
+        self.data_type = (
+            unknown()
+            if table_schema.partial
+            else fields_type([f.data_type for f in table_schema.fields])
+        )
         return Schema(
             [attr.evolve(f, source=self) for f in table_schema.fields],
             relation_ids=set(),
-- 
2.43.0

