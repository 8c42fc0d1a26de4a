From 6478b4102330f8a15d8a7749d8ad894bd2068dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 01/38] fix: delimit single-line string literals by their own
 escapes and interpolations

A literal ending in an escaped backslash ran into the next literal on the
line, a literal followed by ''' on the same line was rejected, and quotes
inside an interpolation of an object key (or after a braced expression)
ended the literal, because the recursion re-entered the whole lexer pattern.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..1b4887a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\$(?P<braces>\{(?:[^{}']++|(?&quoted)|(?&braces))*+\})|\\.|[^'\\\r\n])*+')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From 8d4c7fb03d2b250be809a4aeb220a8dbbf09a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:56 +0000
Subject: [PATCH 02/38] fix: drop a CRLF line break directly after the opening
 delimiter of a multi-line string

Only a lone LF was dropped, so a file with CRLF line ends kept an extra line break.
---
 pycep/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..bf33092 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,6 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    content = str(value)[3:-3]
+    line_break = "\r\n" if content.startswith("\r\n") else "\n"
+    return content.removeprefix(line_break)
-- 
2.43.0


From d3476142c7857e3407eae01265d64fbb38fdf77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 03/38] fix: keep the sign of a maxValue argument and
 non-literal minValue arguments

---
 pycep/rules/decorators.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..1f8f8c1 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -57,21 +55,28 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
     }
 
 
-def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+def _signed_value(arg: Any) -> Any:
+    """Turns a negated integer literal into the integer, everything else is returned as is."""
+    operator = arg.get("operator") if isinstance(arg, dict) else None
+    if isinstance(operator, dict) and operator.get("type") == "minus":
+        value = operator["operands"]["integer_value"]
+        if type(value) is int:
+            return -value
+
+    return arg
+
 
+def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": _signed_value(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
-    return {
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
+    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": _signed_value(args[0]),  # ty: ignore[invalid-argument-type]
     }
 
 
-- 
2.43.0


From a0c59ce1d083a5f8c7d8248217d3fe2188b63b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 04/38] fix: keep falsy arguments of a function accessor

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 1b4887a..66771bb 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" (value_brackets ("," value_brackets)*)? ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From 090e3f39dfcef752a5fcde338589569a06ede5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 05/38] fix: keep the slots of resourceGroup arguments
 independent of their values

---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..b7102c8 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # the subscription is given first
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From 96280d86444f42eebc5e2ff1926121b861be1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 06/38] fix: report line numbers of namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..f1770d2 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From f78ddb11840a2a88258bfc10362ac42954acf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 07/38] fix: end line of a nested resource followed by blank
 lines or comments

---
 pycep/bicep.lark     | 4 ++--
 pycep/transformer.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 66771bb..f2ea553 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -82,7 +82,7 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
 
-object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource) _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index f1770d2..53626a3 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -310,8 +310,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From 9d4453fd3c00aa79962854e0077487991b64f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 08/38] fix: keep an empty extension configuration

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 53626a3..bdc10c6 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -155,7 +155,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From 7be3d79a5291bd18f54ca0a6cab3c4db71d7eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 09/38] fix: reject module paths with trailing characters
 instead of truncating them

---
 pycep/transformer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index bdc10c6..17d3d08 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -429,13 +429,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if file_path.startswith("br:"):
             # check if it's referencing the official public registry
-            m = re.match(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
+            m = re.fullmatch(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
             if m:
                 is_public = True
                 registry_name = "mcr.microsoft.com"
             else:
                 # check if it's referencing a privvte registry
-                m = re.match(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
+                m = re.fullmatch(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
                 if m:
                     is_public = False
                     registry_name = m.group("registry_name")
@@ -454,7 +454,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_result
         elif file_path.startswith("br/"):
-            m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
 
@@ -477,7 +477,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_alias_result
         elif file_path.startswith("ts:"):
-            m = re.match(TEMPLATE_SPEC_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec path is invalid: {file_path}")
 
@@ -493,7 +493,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return ts_result
         elif file_path.startswith("ts/"):
-            m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
 
-- 
2.43.0


From 9365cccd31d07730420ddac135c4254e3cd8e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/38] fix: accept every valid character in module alias, path
 and subscription id

---
 pycep/transformer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 17d3d08..8aaa0ad 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -16,14 +16,14 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
-- 
2.43.0


From 633e6a4e4fb11b80832496b89ccf1577e45a6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 11/38] fix: parse an empty text like an empty file

---
 pycep/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..28f1bd4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,18 +33,18 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
         if not BicepValidator.is_valid(bicep_text):
-            if file_path:
+            if file_path is not None:
                 raise ValueError(f"{file_path} file content is invalid")
 
             raise ValueError("Text is invalid")
-- 
2.43.0


From 14d253b8e0e505d8c40af3605d34d9fcb55d3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 12/38] fix: accept underscores in function and decorator names

---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index f2ea553..ce37c54 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,12 +92,12 @@ lambda_expression: (value_brackets | "(" value_brackets "," value_brackets (","
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9_]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
 decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From 5a21060390ba1c1338b97b598b91f79979e755ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 13/38] fix: accept nested parentheses

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ce37c54..baec294 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From 8af33660b397db2a32f450d23f9e1865db5e1bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 14/38] fix: keep every resource name argument of the
 *ResourceId functions

---
 pycep/rules/functions.py | 92 ++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 61 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index b7102c8..d4dcec2 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -428,26 +428,26 @@ def json_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep
 ####################
 
 
-def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.ExtensionResourceId:
-    args_len = len(args)
-    if args_len == 3:
-        resource_id = args[0]
-        resource_type = args[1]
-        resource_name_1 = args[2]
-        resource_name_2 = None
-    else:
-        resource_id = args[0]
-        resource_type = args[1]
-        resource_name_1 = args[2]
-        resource_name_2 = args[3]
+def _resource_names(names: list[Token]) -> dict[str, Token | None]:
+    """Enumerates the resource names, at least the first one is needed and the second one is always part of the result."""
+    name_1, *name_x = names
 
     return {
+        "resource_name_1": name_1,
+        "resource_name_2": None,
+        **{f"resource_name_{idx}": name for idx, name in enumerate(name_x, start=2)},
+    }
+
+
+def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.ExtensionResourceId:
+    resource_id, resource_type, *resource_names = args
+
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "extension_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_id": resource_id,
             "resource_type": resource_type,
-            "resource_name_1": resource_name_1,
-            "resource_name_2": resource_name_2,
+            **_resource_names(resource_names),
         },
     }
 
@@ -476,22 +476,13 @@ def list_func(
 
 
 def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.ManagementGroupResourceId:
-    args_len = len(args)
-    if args_len == 2:
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = None
-    else:
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = args[2]
+    resource_type, *resource_names = args
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "management_group_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
-            "resource_name_1": resource_name_1,
-            "resource_name_2": resource_name_2,
+            **_resource_names(resource_names),
         },
     }
 
@@ -611,56 +602,35 @@ def resource_id(_func_name: str, args: list[Token]) -> pycep_typing.ResourceId:
 
 
 def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.SubscriptionResourceId:
-    # args has between 2-4 items and only for the 2 and 4 items case
+    # args has at least 2 items and only for the 2 items case
     # it is possible to determine the correct parameter references
-    args_len = len(args)
-    if args_len == 2:
-        subscription_id = None
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = None
-    elif args_len == 3:
-        # this case is ambiguous and it could be any of
+    if len(args) <= 3:
+        # the 3 items case is ambiguous and it could be any of
         # 0 -> resource_type, 1 -> resource_name_1, 2 -> resource_name_2
         # 0 -> subscription_id, 1 -> resource_type, 2 -> resource_name_1
         subscription_id = None
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = args[2]
+        resource_type, *resource_names = args
     else:
-        subscription_id = args[0]
-        resource_type = args[1]
-        resource_name_1 = args[2]
-        resource_name_2 = args[3]
+        subscription_id, resource_type, *resource_names = args
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "subscription_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
-            "resource_name_1": resource_name_1,
-            "resource_name_2": resource_name_2,
+            **_resource_names(resource_names),
             "subscription_id": subscription_id,
         },
     }
 
 
 def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.TenantResourceId:
-    args_len = len(args)
-    if args_len == 2:
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = None
-    else:
-        resource_type = args[0]
-        resource_name_1 = args[1]
-        resource_name_2 = args[2]
+    resource_type, *resource_names = args
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "tenant_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
-            "resource_name_1": resource_name_1,
-            "resource_name_2": resource_name_2,
+            **_resource_names(resource_names),
         },
     }
 
-- 
2.43.0


From b182d603e053c2cd723c3d9cfa0b1f787c1ae394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 15/38] fix: reject function arguments that start with a comma

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index baec294..83b5b3d 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -98,7 +98,7 @@ decorators: decorator+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL?)? ")"
 
 // operators
 
-- 
2.43.0


From 96fbb45ae31be3a011128f154b41e06c53432259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 16/38] fix: hoist nested resources of a conditional resource

---
 pycep/transformer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8aaa0ad..1c82ef3 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -588,11 +588,17 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
     def deploy_condition(self, args: tuple[pycep_typing.PossibleValue, dict[str, Any]]) -> pycep_typing.DeployCondition:
         condition, config = args
-        return {
+        result: pycep_typing.DeployCondition = {
             "condition": condition,
             "config": config,
         }
 
+        if isinstance(config, dict) and "__child_resource__" in config:
+            # the conditional resource is the parent, not its body
+            result["__child_resource__"] = config.pop("__child_resource__")  # ty: ignore[invalid-key]
+
+        return result
+
     ####################
     #
     # decorators
-- 
2.43.0


From e4fbb53da03a7a07e8180e86426a5f1479c7cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 17/38] fix: accept a space after the if of a loop filter and
 nothing but a filter in its place

---
 pycep/bicep.lark     | 3 ++-
 pycep/transformer.py | 3 ---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 83b5b3d..322fa99 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,7 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [_IF value_brackets ")"] value_brackets _CPP_COMMENT_NL? "]"
 
 loop_array: STRING "in" value_brackets
 
@@ -176,6 +176,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\$(?P<braces>\{(?:[^{}']++|(?&quoted)|(?&braces))*+\})|\\.|[^'\\\r\n])*+')/
+_IF.2: /if[ \t]*\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 1c82ef3..feb181f 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -540,9 +540,6 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def loop(self, args: tuple[pycep_typing.LoopType, str | None, dict[str, Any]]) -> pycep_typing.Loop:
         loop_type, condition, config = args
 
-        if isinstance(condition, dict) and (func := condition.get("function", {})).get("type") == "if":
-            condition = func["parameters"]["arg_1"]
-
         return {
             "loop_type": loop_type,
             "condition": condition,
-- 
2.43.0


From 600144ffdf6d50fb7b6ceb0af218178130420888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 18/38] fix: accept a comment at the end of a file without a
 final newline

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 322fa99..6898e57 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -1,4 +1,4 @@
-start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)*
+start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)* _CPP_COMMENT?
 
 element: "targetScope" "=" QUOTED_INTERPOLATION                                         -> scope
        | "import" _import_statement                                                     -> custom_import
@@ -182,6 +182,7 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
 
 _NEWLINE: NEWLINE
+_CPP_COMMENT: CPP_COMMENT
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
 
 %import common.C_COMMENT
-- 
2.43.0


From 71b3a33f189b182f86433aa4c065b02e920117cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 19/38] fix: reject nested resources outside of a resource body
 instead of leaking a placeholder entry

---
 pycep/bicep.lark | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 6898e57..c3f396e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -41,11 +41,13 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?output_value: value_brackets | loop
 
-?resource_value: object | loop | deploy_condition
+?resource_value: resource_body | loop | resource_condition
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" resource_value
+
+resource_body: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}" -> object
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -76,13 +78,15 @@ loop_object: STRING "in" "items" "(" value_brackets ")"
 
 deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
+resource_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" resource_body -> deploy_condition
+
 // data types
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
 array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
 
-object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* (pair ("," pair)* _CPP_COMMENT_NL*)* "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
-- 
2.43.0


From d78e3e661a580efaf6d173cee4d634dd1cc52fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 20/38] fix: accept lambda expressions with two parameters

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index c3f396e..0ea1ff3 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,7 +92,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)* ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From 903d5b90fea0131016cceb5672ce9170b83aa656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 21/38] fix: accept a line break after a comma in front of
 every kind of item and property

---
 pycep/bicep.lark | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 0ea1ff3..8f209ca 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -47,7 +47,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" resource_value
 
-resource_body: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}" -> object
+resource_body: "{" _CPP_COMMENT_NL* ((pair ("," _CPP_COMMENT_NL* pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}" -> object
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -84,9 +84,9 @@ resource_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" resource_body -
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
+array: "[" _CPP_COMMENT_NL* (value_brackets ("," _CPP_COMMENT_NL* value_brackets)* _CPP_COMMENT_NL*)* "]"
 
-object: "{" _CPP_COMMENT_NL* (pair ("," pair)* _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* (pair ("," _CPP_COMMENT_NL* pair)* _CPP_COMMENT_NL*)* "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
-- 
2.43.0


From a32f52afa6ae31f276bf5a971598925ae4ff67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 22/38] fix: accept null, true and false as property names

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8f209ca..00d38c9 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -90,7 +90,7 @@ object: "{" _CPP_COMMENT_NL* (pair ("," _CPP_COMMENT_NL* pair)* _CPP_COMMENT_NL*
 
 pair: key ":" (value_brackets | loop) "?"?
 
-!key: "resource" | quoted_string
+!key: "resource" | "null" | "true" | "false" | quoted_string
 
 lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)* ")") "=>" value_brackets
 
-- 
2.43.0


From ccd2aa4ef9b5880d02025702fed0e3c2ded52e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 23/38] fix: split the api version off the type of a nested
 resource

---
 pycep/transformer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index feb181f..235c4e9 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -960,10 +960,14 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
 
-            # inherit type and api version info from parent resource
+            # inherit type and api version info from parent resource, unless it sets its own api version
+            child_type = child_resource["__attrs__"]["type"]
+            if "@" not in child_type:
+                child_type = f"{child_type}@{parent_type_api_pair['api_version']}"
+            type_name, api_version = child_type.split("@")
             child_type_api_pair: pycep_typing.ApiTypeVersion = {
-                "type": f"{parent_type_api_pair['type']}/{child_resource['__attrs__']['type']}",
-                "api_version": parent_type_api_pair["api_version"],
+                "type": f"{parent_type_api_pair['type']}/{type_name}",
+                "api_version": api_version,
             }
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
-- 
2.43.0


From 285830879f96ff395b35bd85a9c0f7d217fa129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 24/38] fix: keep the iterated expression of an object loop

---
 pycep/transformer.py | 4 ++--
 pycep/typing.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 235c4e9..b0dcb29 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -567,13 +567,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
+    def loop_object(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopObject:
         item_name, obj_name = args
         return {
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..654cac2 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -368,7 +368,7 @@ class LoopArrayIndex(TypedDict):
 
 class _LoopObjectDetail(TypedDict):
     item_name: str
-    object_name: str
+    object_name: PossibleValue
 
 
 class LoopObject(TypedDict):
-- 
2.43.0


From acf74b9c9401fa049ddb3001d5437bda65c6bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 25/38] fix: accept a loop over a variable called items

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 00d38c9..592ed20 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -72,7 +72,7 @@ loop_array: STRING "in" value_brackets
 
 loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
 
-loop_object: STRING "in" "items" "(" value_brackets ")"
+loop_object: STRING "in" _ITEMS value_brackets ")"
 
 // deploy condition
 
@@ -181,6 +181,7 @@ QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\$(?P<braces>\{(?:[^{}']++|(?&quoted)|(?&braces))*+\})|\\.|[^'\\\r\n])*+')/
 _IF.2: /if[ \t]*\(/
+_ITEMS.2: /items[ \t]+\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From be9850ce04bcdc725a3723e199b9877d4aed5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 26/38] fix: require the end of the word after a keyword

---
 pycep/bicep.lark | 49 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 592ed20..d247ea0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -1,16 +1,16 @@
 start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)* _CPP_COMMENT?
 
-element: "targetScope" "=" QUOTED_INTERPOLATION                                         -> scope
-       | "import" _import_statement                                                     -> custom_import
-       | "extension" STRING ["with" object] ["as" STRING]                               -> extension
-       | "metadata" STRING "=" metadata_value                                           -> metadata
-       | [decorators] "param" STRING data_type "?"? ["=" value_brackets]                -> param
-       | [decorators] "var" STRING [data_type "?"?] "=" var_value                       -> var
-       | [decorators] "output" STRING data_type "?"? "=" output_value                   -> output
-       | [decorators] "resource" STRING type_api_pair [EXISTING] "=" resource_value     -> resource
-       | [decorators] "module" STRING module_path "=" module_value                      -> module
-       | [decorators] "type" STRING "=" type_value                                      -> custom_type
-       | [decorators] "func" _func_statement                                            -> custom_func
+element: _TARGET_SCOPE "=" QUOTED_INTERPOLATION                                         -> scope
+       | _IMPORT _import_statement                                                      -> custom_import
+       | _EXTENSION STRING ["with" object] [_AS STRING]                                 -> extension
+       | _METADATA STRING "=" metadata_value                                            -> metadata
+       | [decorators] _PARAM STRING data_type "?"? ["=" value_brackets]                 -> param
+       | [decorators] _VAR STRING [data_type "?"?] "=" var_value                        -> var
+       | [decorators] _OUTPUT STRING data_type "?"? "=" output_value                    -> output
+       | [decorators] _RESOURCE STRING type_api_pair [EXISTING] "=" resource_value      -> resource
+       | [decorators] _MODULE STRING module_path "=" module_value                       -> module
+       | [decorators] _TYPE STRING "=" type_value                                       -> custom_type
+       | [decorators] _FUNC _func_statement                                             -> custom_func
 
 ?value: _NEWLINE? "null"                      -> null
       | _NEWLINE? "true"                      -> true
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" resource_value
+child_resource: _RESOURCE STRING QUOTED_INTERPOLATION [EXISTING] "=" resource_value
 
 resource_body: "{" _CPP_COMMENT_NL* ((pair ("," _CPP_COMMENT_NL* pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}" -> object
 
@@ -62,17 +62,17 @@ type_api_pair: QUOTED_INTERPOLATION
 
 module_path: QUOTED_INTERPOLATION
 
-import_alias: (STRING | /\*/) ["as" STRING]
+import_alias: (STRING | /\*/) [_AS STRING]
 
 // loops
 
 loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [_IF value_brackets ")"] value_brackets _CPP_COMMENT_NL? "]"
 
-loop_array: STRING "in" value_brackets
+loop_array: STRING _IN value_brackets
 
-loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
+loop_array_index: "(" STRING "," STRING ")" _IN value_brackets
 
-loop_object: STRING "in" _ITEMS value_brackets ")"
+loop_object: STRING _IN _ITEMS value_brackets ")"
 
 // deploy condition
 
@@ -90,7 +90,7 @@ object: "{" _CPP_COMMENT_NL* (pair ("," _CPP_COMMENT_NL* pair)* _CPP_COMMENT_NL*
 
 pair: key ":" (value_brackets | loop) "?"?
 
-!key: "resource" | "null" | "true" | "false" | quoted_string
+!key: _RESOURCE | "null" | "true" | "false" | quoted_string
 
 lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)* ")") "=>" value_brackets
 
@@ -174,6 +174,21 @@ property_accessor: value_brackets "." "?"? value_brackets
 
 // Terms
 
+// keywords, followed by the end of the word
+_TARGET_SCOPE.1: /targetScope(?!\w)/
+_IMPORT.1: /import(?!\w)/
+_EXTENSION.1: /extension(?!\w)/
+_METADATA.1: /metadata(?!\w)/
+_PARAM.1: /param(?!\w)/
+_VAR.1: /var(?!\w)/
+_OUTPUT.1: /output(?!\w)/
+_RESOURCE.1: /resource(?!\w)/
+_MODULE.1: /module(?!\w)/
+_TYPE.1: /type(?!\w)/
+_FUNC.1: /func(?!\w)/
+_AS.1: /as(?!\w)/
+_IN.1: /in(?!\w)/
+
 EXISTING: "existing"
 
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
-- 
2.43.0


From bca42d82b1c5877584344847f6c8a0907bb53ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 27/38] fix: accept a property with the name of the marker for
 nested resources

---
 pycep/transformer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index b0dcb29..cc890fb 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -294,7 +294,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[Literal["child resource"], pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -312,7 +312,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        return "child resource", result
 
     @v_args(meta=True)
     def module(
@@ -590,9 +590,9 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "config": config,
         }
 
-        if isinstance(config, dict) and "__child_resource__" in config:
+        if isinstance(config, dict) and "child resource" in config:
             # the conditional resource is the parent, not its body
-            result["__child_resource__"] = config.pop("__child_resource__")  # ty: ignore[invalid-key]
+            result["child resource"] = config.pop("child resource")  # ty: ignore[invalid-key]
 
         return result
 
@@ -954,8 +954,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        if "child resource" in config:
+            child_resource = config.pop("child resource")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 85415dd1719ab4b15d08c91c8031e374eda456a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 28/38] fix: require a line break between two declarations

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index d247ea0..df36bce 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -1,4 +1,4 @@
-start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)* _CPP_COMMENT?
+start: (element? _CPP_COMMENT_NL)* element? _CPP_COMMENT?
 
 element: _TARGET_SCOPE "=" QUOTED_INTERPOLATION                                         -> scope
        | _IMPORT _import_statement                                                      -> custom_import
-- 
2.43.0


From 2e2604ca5c4ee61712673a2919c2526ddea91f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 29/38] fix: require a separator between two array items or
 object properties

---
 pycep/bicep.lark | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index df36bce..15b2e55 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -47,7 +47,9 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 child_resource: _RESOURCE STRING QUOTED_INTERPOLATION [EXISTING] "=" resource_value
 
-resource_body: "{" _CPP_COMMENT_NL* ((pair ("," _CPP_COMMENT_NL* pair)* | child_resource _CPP_COMMENT_NL) _CPP_COMMENT_NL*)* "}" -> object
+resource_body: "{" _CPP_COMMENT_NL* (_resource_items (_CPP_COMMENT_NL+ _resource_items)* _CPP_COMMENT_NL*)? "}" -> object
+
+_resource_items: pair ("," _CPP_COMMENT_NL* pair)* | child_resource
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -84,9 +86,9 @@ resource_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" resource_body -
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets ("," _CPP_COMMENT_NL* value_brackets)* _CPP_COMMENT_NL*)* "]"
+array: "[" _CPP_COMMENT_NL* (value_brackets (("," _CPP_COMMENT_NL* | _CPP_COMMENT_NL+) value_brackets)* _CPP_COMMENT_NL*)? "]"
 
-object: "{" _CPP_COMMENT_NL* (pair ("," _CPP_COMMENT_NL* pair)* _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* (pair (("," _CPP_COMMENT_NL* | _CPP_COMMENT_NL+) pair)* _CPP_COMMENT_NL*)? "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
-- 
2.43.0


From e9356d7963aec2604068b5a7b6733eebb0c78f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 30/38] fix: reject surplus arguments of built-in functions and
 decorators instead of dropping them

---
 pycep/rules/decorators.py |  5 +++++
 pycep/rules/functions.py  | 42 +++++++++++++++++++++++++++++++++++++++
 pycep/utils.py            | 20 ++++++++++++++++++-
 3 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index 1f8f8c1..8c0d4f3 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -2,6 +2,8 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any
 
+from pycep.utils import max_args
+
 if TYPE_CHECKING:
     from collections.abc import Callable
 
@@ -35,6 +37,7 @@ def deco_description(_deco_name: str, args: tuple[str]) -> pycep_typing.Decorato
     }
 
 
+@max_args(0)
 def deco_export(_deco_name: str, _args: tuple[None]) -> pycep_typing.DecoratorExport:
     return {
         "type": "export",
@@ -87,12 +90,14 @@ def deco_metadata(_deco_name: str, args: tuple[dict[str, Any]]) -> pycep_typing.
     }
 
 
+@max_args(0)
 def deco_sealed(_deco_name: str, _args: tuple[None]) -> pycep_typing.DecoratorSealed:
     return {
         "type": "sealed",
     }
 
 
+@max_args(0)
 def deco_secure(_deco_name: str, _args: tuple[None]) -> pycep_typing.DecoratorSecure:
     return {
         "type": "secure",
diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index d4dcec2..b1eebf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -2,6 +2,8 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, cast
 
+from pycep.utils import max_args
+
 if TYPE_CHECKING:
     from collections.abc import Callable
 
@@ -17,6 +19,7 @@ if TYPE_CHECKING:
 ####################
 
 
+@max_args(1)
 def any_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.AnyFunc:
     return {
         "type": "any",
@@ -33,6 +36,7 @@ def any_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_
 ####################
 
 
+@max_args(1)
 def array_func(_func_name: str, args: tuple[pycep_typing.PossibleValue, ...]) -> pycep_typing.Array:
     return {
         "type": "array",
@@ -68,6 +72,7 @@ def contains(
     }
 
 
+@max_args(1)
 def empty(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Empty:
     return {
         "type": "empty",
@@ -77,6 +82,7 @@ def empty(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typ
     }
 
 
+@max_args(1)
 def first(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.First:
     return {
         "type": "first",
@@ -86,6 +92,7 @@ def first(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typ
     }
 
 
+@max_args(1)
 def flatten(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Flatten:
     return {
         "type": "flatten",
@@ -110,6 +117,7 @@ def intersection(_func_name: str, args: tuple[str, ...]) -> pycep_typing.Interse
     return result
 
 
+@max_args(1)
 def last(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Last:
     return {
         "type": "last",
@@ -119,6 +127,7 @@ def last(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typi
     }
 
 
+@max_args(1)
 def length(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Length:
     return {
         "type": "length",
@@ -209,6 +218,7 @@ def union(_func_name: str, args: tuple[str, ...]) -> pycep_typing.UnionFunc:
 ####################
 
 
+@max_args(3)
 def date_time_add(
     _func_name: str, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.DateTimeAdd:
@@ -224,6 +234,7 @@ def date_time_add(
     }
 
 
+@max_args(1)
 def date_time_from_epoch(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.DateTimeFromEpoch:
     return {
         "type": "date_time_from_epoch",
@@ -233,6 +244,7 @@ def date_time_from_epoch(_func_name: str, args: tuple[pycep_typing.PossibleValue
     }
 
 
+@max_args(1)
 def date_time_to_epoch(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.DateTimeToEpoch:
     return {
         "type": "date_time_to_epoch",
@@ -242,6 +254,7 @@ def date_time_to_epoch(_func_name: str, args: tuple[pycep_typing.PossibleValue])
     }
 
 
+@max_args(1)
 def utc_now(_func_name: str, args: tuple[pycep_typing.PossibleNoneValue]) -> pycep_typing.UtcNow:
     return {
         "type": "utc_now",
@@ -258,10 +271,12 @@ def utc_now(_func_name: str, args: tuple[pycep_typing.PossibleNoneValue]) -> pyc
 ####################
 
 
+@max_args(0)
 def deployment(_func_name: str, _args: tuple[None]) -> pycep_typing.Deployment:
     return {"type": "deployment"}
 
 
+@max_args(0)
 def environment(_func_name: str, _args: tuple[None]) -> pycep_typing.Environment:
     return {"type": "environment"}
 
@@ -273,6 +288,7 @@ def environment(_func_name: str, _args: tuple[None]) -> pycep_typing.Environment
 ####################
 
 
+@max_args(2)
 def load_text_content(
     _func_name: str, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.LoadTextContent:
@@ -287,6 +303,7 @@ def load_text_content(
     }
 
 
+@max_args(3)
 def load_json_content(
     _func_name: str,
     args: tuple[
@@ -315,6 +332,7 @@ def load_json_content(
     }
 
 
+@max_args(3)
 def load_yaml_content(
     _func_name: str,
     args: tuple[
@@ -343,6 +361,7 @@ def load_yaml_content(
     }
 
 
+@max_args(1)
 def load_file_as_base64(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.LoadFileAsBase64:
     return {
         "type": "load_file_as_base64",
@@ -380,6 +399,7 @@ def filter_func(
 ####################
 
 
+@max_args(1)
 def bool_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.BoolFunc:
     return {
         "type": "bool",
@@ -396,6 +416,7 @@ def bool_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep
 ####################
 
 
+@max_args(1)
 def int_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.IntFunc:
     return {
         "type": "int",
@@ -412,6 +433,7 @@ def int_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_
 ####################
 
 
+@max_args(1)
 def json_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Json:
     return {
         "type": "json",
@@ -487,6 +509,7 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
     }
 
 
+@max_args(5)
 def pick_zones(_func_name: str, args: list[pycep_typing.PossibleNoneValue]) -> pycep_typing.PickZones:
     args_len = len(args)
 
@@ -513,6 +536,7 @@ def pick_zones(_func_name: str, args: list[pycep_typing.PossibleNoneValue]) -> p
     }
 
 
+@max_args(3)
 def reference(
     _func_name: str,
     args: tuple[
@@ -642,6 +666,7 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
 ####################
 
 
+@max_args(1)
 def management_group(_func_name: str, args: tuple[pycep_typing.PossibleNoneValue]) -> pycep_typing.ManagementGroup:
     return {
         "type": "management_group",
@@ -651,6 +676,7 @@ def management_group(_func_name: str, args: tuple[pycep_typing.PossibleNoneValue
     }
 
 
+@max_args(2)
 def resource_group(
     _func_name: str, args: tuple[pycep_typing.PossibleNoneValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.ResourceGroup:
@@ -674,6 +700,7 @@ def resource_group(
     return result
 
 
+@max_args(1)
 def subscription(
     _func_name: str, args: tuple[pycep_typing.PossibleNoneValue, Token | None]
 ) -> pycep_typing.Subscription:
@@ -685,6 +712,7 @@ def subscription(
     }
 
 
+@max_args(0)
 def tenant(_func_name: str, _args: tuple[None]) -> pycep_typing.Tenant:
     return {"type": "tenant"}
 
@@ -696,6 +724,7 @@ def tenant(_func_name: str, _args: tuple[None]) -> pycep_typing.Tenant:
 ####################
 
 
+@max_args(1)
 def base64_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Base64:
     return {
         "type": "base64",
@@ -705,6 +734,7 @@ def base64_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pyc
     }
 
 
+@max_args(1)
 def base64_to_json(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Base64ToJson:
     return {
         "type": "base64_to_json",
@@ -714,6 +744,7 @@ def base64_to_json(_func_name: str, args: tuple[pycep_typing.PossibleValue]) ->
     }
 
 
+@max_args(1)
 def base64_to_string(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Base64ToString:
     return {
         "type": "base64_to_string",
@@ -723,6 +754,7 @@ def base64_to_string(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -
     }
 
 
+@max_args(1)
 def data_uri(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.DataUri:
     return {
         "type": "data_uri",
@@ -732,6 +764,7 @@ def data_uri(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_
     }
 
 
+@max_args(1)
 def data_uri_to_string(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.DataUriToString:
     return {
         "type": "data_uri_to_string",
@@ -807,10 +840,12 @@ def last_index_of(
     }
 
 
+@max_args(0)
 def new_guid(_func_name: str, _args: tuple[object]) -> pycep_typing.NewGuid:
     return {"type": "new_guid"}
 
 
+@max_args(3)
 def pad_left(
     _func_name: str, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.PadLeft:
@@ -877,6 +912,7 @@ def starts_with(
     }
 
 
+@max_args(1)
 def string_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.String:
     return {
         "type": "string",
@@ -886,6 +922,7 @@ def string_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pyc
     }
 
 
+@max_args(3)
 def substring(
     _func_name: str, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue, pycep_typing.PossibleNoneValue]
 ) -> pycep_typing.Substring:
@@ -901,6 +938,7 @@ def substring(
     }
 
 
+@max_args(1)
 def to_lower(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.ToLower:
     return {
         "type": "to_lower",
@@ -910,6 +948,7 @@ def to_lower(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_
     }
 
 
+@max_args(1)
 def to_upper(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.ToUpper:
     return {
         "type": "to_upper",
@@ -919,6 +958,7 @@ def to_upper(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_
     }
 
 
+@max_args(1)
 def trim(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.Trim:
     return {
         "type": "trim",
@@ -952,6 +992,7 @@ def uri(_func_name: str, args: tuple[pycep_typing.PossibleValue, pycep_typing.Po
     }
 
 
+@max_args(1)
 def uri_component(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep_typing.UriComponent:
     return {
         "type": "uri_component",
@@ -961,6 +1002,7 @@ def uri_component(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> p
     }
 
 
+@max_args(1)
 def uri_component_to_string(
     _func_name: str, args: tuple[pycep_typing.PossibleValue]
 ) -> pycep_typing.UriComponentToString:
diff --git a/pycep/utils.py b/pycep/utils.py
index bf33092..d228707 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -1,13 +1,31 @@
 from __future__ import annotations
 
-from typing import TYPE_CHECKING
+from functools import wraps
+from typing import TYPE_CHECKING, Any
 
 from pycep.models import BicepElement
 
 if TYPE_CHECKING:
+    from collections.abc import Callable
+
     from lark import Token
 
 
+def max_args(count: int) -> Callable[[Callable[[str, Any], Any]], Callable[[str, Any], Any]]:
+    """Rejects calls with more than `count` arguments instead of dropping the surplus."""
+
+    def decorator(func: Callable[[str, Any], Any]) -> Callable[[str, Any], Any]:
+        @wraps(func)
+        def wrapper(name: str, args: Any) -> Any:
+            if len(args) > count:
+                raise ValueError(f"{name} takes at most {count} arguments")
+            return func(name, args)
+
+        return wrapper
+
+    return decorator
+
+
 def transform_string_token(value: Token) -> str | BicepElement:
     """Transforms string typed Token to a `str` or `BicepElement`.
 
-- 
2.43.0


From ba0a7bb019b41ab3ccaa2edfcf5685e02e1b60dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 31/38] fix: reject lambda variables that are no names

---
 pycep/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index cc890fb..6b7fdb8 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -932,6 +932,10 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def lambda_expression(self, args: tuple[pycep_typing.PossibleValue, ...]) -> pycep_typing.LambdaExpression:
         arg_1, *arg_x, expr = args
 
+        for arg in (arg_1, *arg_x):
+            if not isinstance(arg, BicepElement):
+                raise ValueError(f"lambda variable is not a name: {arg}")
+
         return {
             "type": "lambda_expression",
             "detail": {
-- 
2.43.0


From 6c9e27085da92d18691d38fc53044a3e1ada4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 32/38] fix: accept a variable called resource as a later array
 item

---
 pycep/bicep.lark | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 15b2e55..d28aefd 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -17,6 +17,7 @@ element: _TARGET_SCOPE "=" QUOTED_INTERPOLATION
       | _NEWLINE? "false"                     -> false
       | _NEWLINE? INT                         -> int_type
       | _NEWLINE? STRING                      -> string
+      | _NEWLINE? resource_name
       | _NEWLINE? QUOTED_INTERPOLATION        -> string
       | MULTI_LINE_STRING                     -> multi_line_string
       | array
@@ -25,6 +26,9 @@ element: _TARGET_SCOPE "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
+// a variable called resource
+!resource_name: _RESOURCE                     -> string
+
 ?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
-- 
2.43.0


From 416c326a006603f52e686eb329ac667e157df375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 33/38] fix: accept any number of comment lines after a
 decorator

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index d28aefd..089afb0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -102,7 +102,8 @@ lambda_expression: (value_brackets | "(" value_brackets "," value_brackets (","
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9_]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9_]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? _decorator_end)
+_decorator_end: ")" | _decorator_end _CPP_COMMENT_NL
 decorators: decorator+
 
 // functions
-- 
2.43.0


From ab5b94e6a3e1f6d9e3fe1ba894fe5aae18c7d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:22 +0000
Subject: [PATCH 34/38] fix: accept any number of comment lines inside a
 function call or decorator

---
 pycep/bicep.lark | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 089afb0..55a47e6 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -102,14 +102,15 @@ lambda_expression: (value_brackets | "(" value_brackets "," value_brackets (","
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9_]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? _decorator_end)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9_]+/ "(" _line_breaks? (value_brackets _line_breaks?)? _decorator_end)
 _decorator_end: ")" | _decorator_end _CPP_COMMENT_NL
 decorators: decorator+
 
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL?)? ")"
+function: FUNCTION _line_breaks? (value_brackets ("," _line_breaks? value_brackets)* _line_breaks?)? ")"
+_line_breaks: _CPP_COMMENT_NL | _line_breaks _CPP_COMMENT_NL
 
 // operators
 
-- 
2.43.0


From 4efe46cbf0989c12d68342eb2d3125c770054158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 35/38] fix: accept any number of comment lines before and
 after a loop

---
 pycep/bicep.lark | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 55a47e6..643c76a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -72,7 +72,7 @@ import_alias: (STRING | /\*/) [_AS STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [_IF value_brackets ")"] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _array_breaks? "for" (loop_array | loop_array_index | loop_object) ":" [_IF value_brackets ")"] value_brackets _line_breaks? "]"
 
 loop_array: STRING _IN value_brackets
 
@@ -90,7 +90,8 @@ resource_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" resource_body -
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets (("," _CPP_COMMENT_NL* | _CPP_COMMENT_NL+) value_brackets)* _CPP_COMMENT_NL*)? "]"
+array: "[" _array_breaks? (value_brackets (("," _CPP_COMMENT_NL* | _CPP_COMMENT_NL+) value_brackets)* _CPP_COMMENT_NL*)? "]"
+_array_breaks: _CPP_COMMENT_NL | _array_breaks _CPP_COMMENT_NL
 
 object: "{" _CPP_COMMENT_NL* (pair (("," _CPP_COMMENT_NL* | _CPP_COMMENT_NL+) pair)* _CPP_COMMENT_NL*)? "}"
 
-- 
2.43.0


From ab5b13e2b6a012683bdc3876934eb916d711a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 36/38] fix: an unclosed multi-line string took exponential
 time to be rejected

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 643c76a..ffed9b6 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -208,7 +208,7 @@ _IF.2: /if[ \t]*\(/
 _ITEMS.2: /items[ \t]+\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT: CPP_COMMENT
-- 
2.43.0


From 8e7101f3389e4cf5bea68a53fa532987045226b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 37/38] fix: an unclosed string interpolation was accepted as
 text, or took exponential time to be rejected

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ffed9b6..533ecc1 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -203,7 +203,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\$(?P<braces>\{(?:[^{}']++|(?&quoted)|(?&braces))*+\})|\\.|[^'\\\r\n])*+')/
+QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\$(?P<braces>\{(?:[^{}']++|(?&quoted)|(?&braces))*+\})|\\.|\$(?!\{)|[^'\\\r\n$])*+')/
 _IF.2: /if[ \t]*\(/
 _ITEMS.2: /items[ \t]+\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
-- 
2.43.0


From ffb8277ba1a9c794b0c5b039453c797faae75ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 38/38] fix: files were decoded with the encoding of the
 environment instead of UTF-8

---
 pycep/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index 28f1bd4..021dbde 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0

