From 4e93245c1ab18487d45ebe4e662c0031a481a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 01/26] fix: keep the order of alias arguments independent of
 the hash seed

Named arguments added by an alias were collected through a set, so
their order (visible to visitors and templates) changed between
processes.
---
 mau/parsers/arguments_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..33446cc 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,14 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            # The order of the keys in the alias definition
+            # is preserved, as it is the order in which templates
+            # and visitors see the resulting named arguments.
+            missing_keys = [
+                key
+                for key in replacement_args.keys()
+                if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From 743af50882d46df29b4d4e8a56b2295b1077d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 02/26] fix: load templates in a reproducible order

Path.iterdir() returns entries in an arbitrary order, which decided
the priority of templates with the same specificity.
---
 mau/visitors/jinja_visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..f8989f3 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -254,7 +254,10 @@ def _load_templates_from_path(
     preprocess = preprocess or (lambda x: x)
 
     # Scan all directories in the given path.
-    for obj in templates_path.iterdir():
+    # The order in which the file system lists the
+    # entries is arbitrary, so they are sorted to always
+    # give the same priority to equivalent templates.
+    for obj in sorted(templates_path.iterdir()):
         # If the object is a directory,
         # recursively load templates from there.
         if obj.is_dir():
-- 
2.43.0


From 82aaf7ad134026258aed75cbf0d67188b29d6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 03/26] fix: always read template files as UTF-8

Every other file is read as UTF-8, while templates depended on the
locale of the process.
---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index f8989f3..1dfdced 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -282,7 +282,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0


From 04f97a9917d471a6a10ff77582d8151c6f11cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 04/26] fix: report unreadable included files as Mau errors

Only missing files were reported with the position of the directive.
Permission errors, directories, I/O errors, and files that are not valid
UTF-8 escaped as foreign exceptions.
---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..00913d1 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -220,7 +220,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, UnicodeError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -293,7 +293,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, UnicodeError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 3ccb0afc568bd14de1ea76b71c872995315fb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 05/26] fix: detect recursive inclusion through blocks

The content of a block was parsed without the list of files that are
being included, so a loop that passes through a block was never detected.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..25ad24e 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,6 +34,7 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=list(parser.forbidden_includes),
     )
 
     if update:
-- 
2.43.0


From 56a770ca0cc6e50a7617aef4aae030026fac5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 06/26] fix: allow the same file to be included more than once

The list of forbidden files was shared and never shrank, so repeated
non-recursive inclusions were rejected as recursive.
---
 mau/parsers/document_processors/include.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 00913d1..04e8635 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -183,15 +183,19 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # The list is local to this inclusion, as the files
+    # included here are forbidden only while they are
+    # being processed, and can be included again later.
+    forbidden_includes = list(parser.forbidden_includes)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -210,11 +214,7 @@ def _parse_mau(
 
     # Add the included URI to the list of forbidden
     # inclusions. More censorship!
-    # We check if the element is already there to
-    # prevent double inclusion but still preserve
-    # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -251,7 +251,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From 0b83340dc8394ec94c577844773467ede16b60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 07/26] fix: detect recursive inclusion through different paths
 of the same file

---
 mau/parsers/document_processors/include.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 04e8635..a4735a3 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+import os
 from dataclasses import dataclass, field
 
 from mau.environment.environment import Environment
@@ -53,6 +54,15 @@ class IncludeCall:
     info: NodeInfo | None = None
 
 
+def _is_same_file(first: str, second: str | None) -> bool:
+    # Check if two paths lead to the same file.
+
+    if not second:
+        return False
+
+    return os.path.realpath(first) == os.path.realpath(second)
+
+
 def include_processor(parser: DocumentParser):
     # Parse content in the form
     #
@@ -193,7 +203,8 @@ def _parse_mau(
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in forbidden_includes:
+    # The same file can be mentioned using different paths.
+    if any(_is_same_file(uri, i) for i in forbidden_includes):
         raise create_parser_exception(
             f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
-- 
2.43.0


From 6a60552d1c003378f2e27cb8146a23a9b5fc1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 08/26] fix: do not load content excluded by a control
 statement

Excluded includes were opened (failing if the file was missing) and
excluded blocks were parsed, executing the inclusions and the variable
definitions they contain. Blocks with a footnote or a group
ignored the control statement, that was applied to the following node.
---
 mau/parsers/document_processors/block.py   | 20 ++++++++++++--------
 mau/parsers/document_processors/include.py | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..7637e41 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -55,6 +55,18 @@ def block_processor(parser: DocumentParser):
     # only through the arguments manager.
     arguments = parser.arguments_buffer.pop_or_default()
 
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here without parsing the
+        # content and without saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            parser.label_buffer.pop()
+
+            return True
+
     # Extract classes and convert them into a list
     classes_str = arguments.named_args.pop("classes", "")
     classes = classes_str.split(",") if classes_str else []
@@ -104,14 +116,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index a4735a3..f2fee48 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -103,6 +103,18 @@ def include_processor(parser: DocumentParser):
 
     arguments = arguments or NodeArguments()
 
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here without loading the
+        # content and without saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            parser.label_buffer.pop()
+
+            return True
+
     node: IncludeImageNode | IncludeNode
 
     match content_type.value:
@@ -129,14 +141,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 4212816ce22520c26a91e88306ae7365887d78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 09/26] fix: record the inclusions made inside blocks

---
 mau/parsers/document_processors/block_engines/default.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 25ad24e..104e4d6 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -37,6 +37,10 @@ def parse_block_content(
         forbidden_includes=list(parser.forbidden_includes),
     )
 
+    # The files included by this block
+    # are included by the document.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 244e7b7121e38a7087a88813664dd1e1bb823c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 10/26] fix: never overwrite the input file with the default
 output

The name of the output was computed replacing every '.mau' in the path,
so an input file with another extension was replaced by its own output,
and paths with directories containing '.mau' were changed.
---
 mau/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..85b443b 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,8 +284,12 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    # If it's not given, replace the Mau extension of the
+    # input file, or add the new one if the input file
+    # has a different extension. In this way, the output
+    # can never be the input file itself.
+    output_file = args.output_file or (
+        f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 20bfa1c420be8589e0efed3e46be49014dfc2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 11/26] fix: do not process text excluded by a control
 statement

The text of excluded paragraphs, headers, and lists was parsed, so an
undefined variable, a footnote, or a header link mentioned there made
the whole document fail, and excluded ordered lists changed the numbers
of the following ones.
---
 mau/parsers/document_processors/header.py    | 30 ++++++-----
 mau/parsers/document_processors/list.py      | 53 +++++++++++++++-----
 mau/parsers/document_processors/paragraph.py | 30 ++++++-----
 3 files changed, 74 insertions(+), 39 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..d8d1917 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -33,6 +33,23 @@ def header_processor(parser: DocumentParser):
     # Calculate the level of the header.
     level = len(header.value)
 
+    # Get the stored arguments.
+    # Headers can receive arguments
+    # only through the arguments manager.
+    arguments = parser.arguments_buffer.pop_or_default()
+
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here without parsing the
+        # text and without saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            parser.label_buffer.pop()
+
+            return True
+
     # Create the header node.
     node = HeaderNode(level)
 
@@ -42,11 +59,6 @@ def header_processor(parser: DocumentParser):
     # Add the resulting nodes to the header.
     node.content = text_nodes
 
-    # Get the stored arguments.
-    # Headers can receive arguments
-    # only through the arguments manager.
-    arguments = parser.arguments_buffer.pop_or_default()
-
     # Internal IDs are used to create anchors
     # in the document. For example, they might be
     # the anchor name in HTML. They are stored
@@ -78,14 +90,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..a461c34 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -109,6 +109,28 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     return nodes
 
 
+def _skip_list_items(parser: DocumentParser):
+    # This skips all items of a list
+    # without parsing their text.
+
+    while parser.tm.peek_token() not in [
+        Token.generate(TokenType.EOF),
+        Token.generate(TokenType.EOL),
+    ]:
+        if not parser.tm.peek_token_is(TokenType.LIST):
+            # The next token is not the EOL or EOF,
+            # so we expect a new list item, but the
+            # token is not LIST.
+            raise create_parser_exception(
+                "Wrong syntax encountered while processing the list.",
+                context=parser.tm.peek_token().context,
+            )
+
+        # Skip the header and the text.
+        parser.tm.get_token(TokenType.LIST)
+        parser.tm.get_token(TokenType.TEXT)
+
+
 def list_processor(parser: DocumentParser):
     # Parse a list.
     # Lists can be ordered (using numbers)
@@ -144,6 +166,24 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Get the stored arguments.
+    # Lists can receive arguments
+    # only through the arguments manager.
+    arguments = parser.arguments_buffer.pop_or_default()
+
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here without parsing the
+        # items and without saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            _skip_list_items(parser)
+            parser.label_buffer.pop()
+
+            return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -152,11 +192,6 @@ def list_processor(parser: DocumentParser):
     # Parse all the following items
     nodes = _process_list_nodes(parser, parent=node)
 
-    # Get the stored arguments.
-    # Lists can receive arguments
-    # only through the arguments manager.
-    arguments = parser.arguments_buffer.pop_or_default()
-
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
@@ -177,14 +212,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..50dc41a 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -26,6 +26,23 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Get the stored arguments.
+    # Paragraphs can receive arguments
+    # only through the arguments manager.
+    arguments = parser.arguments_buffer.pop_or_default()
+
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here without parsing the
+        # text and without saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            parser.label_buffer.pop()
+
+            return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -48,11 +65,6 @@ def paragraph_processor(parser: DocumentParser):
         # the the lines of this paragraph.
         node.content.append(line_node)
 
-    # Get the stored arguments.
-    # Paragraphs can receive arguments
-    # only through the arguments manager.
-    arguments = parser.arguments_buffer.pop_or_default()
-
     # Build the node info.
     node.info = NodeInfo(
         context=Context.merge_contexts(
@@ -66,14 +78,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 0d592342fba81c143fc3e38d71366d06e1b0cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 12/26] fix: ignore footnotes and header links in labels of
 excluded content

A footnote or a header link mentioned in the label of an element excluded
by a control statement had to be defined anyway.
---
 mau/parsers/document_parser.py                | 54 +++++++++++++++----
 mau/parsers/document_processors/block.py      |  2 +-
 mau/parsers/document_processors/header.py     |  2 +-
 .../document_processors/horizontal_rule.py    | 20 ++++---
 mau/parsers/document_processors/include.py    |  2 +-
 mau/parsers/document_processors/label.py      |  8 ++-
 mau/parsers/document_processors/list.py       |  2 +-
 mau/parsers/document_processors/paragraph.py  |  2 +-
 8 files changed, 69 insertions(+), 23 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..f7d8741 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -107,6 +107,10 @@ class DocumentParser(BaseParser):
 
         self.arguments_buffer: ArgumentsBuffer = ArgumentsBuffer()
         self.label_buffer: LabelBuffer = LabelBuffer()
+
+        # The parsed text of the labels stored in the buffer.
+        self.label_text_parsers: list[TextParser] = []
+
         self.control_buffer: ControlBuffer = ControlBuffer()
 
         # The last index in the latest ordered list,
@@ -156,6 +160,32 @@ class DocumentParser(BaseParser):
         # footnotes and internal links, and finally
         # returns the nodes.
 
+        text_parser = self._run_text_parser(text, context, parent)
+
+        # If the preprocessor doesn't return any
+        # node we can stop here.
+        if text_parser is None:  # pragma: no cover
+            return []
+
+        self._add_text_macros(text_parser)
+
+        return text_parser.nodes
+
+    def _add_text_macros(self, text_parser: TextParser):
+        # Extract the footnote mentions
+        # found in a piece of text.
+        self.footnotes_manager.add_footnote_macros(text_parser.footnote_macros)
+
+        # Extract the header links found in a piece of text.
+        self.header_links_manager.add_macros(text_parser.header_links)
+
+    def _run_text_parser(
+        self, text: str, context: Context, parent: Node
+    ) -> TextParser | None:
+        # This replaces variables in a piece of text
+        # and parses it. Footnotes and internal links
+        # are left in the resulting parser.
+
         # Unpack the token initial position.
         start_line, start_column = context.start_position
 
@@ -175,7 +205,7 @@ class DocumentParser(BaseParser):
         # If the preprocessor doesn't return any
         # node we can stop here.
         if not preprocess_parser.nodes:  # pragma: no cover
-            return []
+            return None
 
         # The preprocess parser outputs a single node.
         text = preprocess_parser.get_processed_text().value
@@ -190,18 +220,11 @@ class DocumentParser(BaseParser):
             source_filename=source_filename,
         )
 
-        # Extract the footnote mentions
-        # found in this piece of text.
-        self.footnotes_manager.add_footnote_macros(text_parser.footnote_macros)
-
-        # Extract the header links found in this piece of text.
-        self.header_links_manager.add_macros(text_parser.header_links)
-
         # Assign the given parent to each node.
         for i in text_parser.nodes:
             i.parent = parent
 
-        return text_parser.nodes
+        return text_parser
 
     def pop_labels(self, node: Node):
         # Extract labels from the buffer and
@@ -221,6 +244,19 @@ class DocumentParser(BaseParser):
         # Assign the labels to the node.
         node.labels = labels
 
+        # The labels are now part of the document,
+        # so their footnotes and header links are too.
+        for text_parser in self.label_text_parsers:
+            self._add_text_macros(text_parser)
+
+        self.label_text_parsers = []
+
+    def discard_labels(self):
+        # Remove from the buffer the labels
+        # of a node excluded from the document.
+        self.label_buffer.pop()
+        self.label_text_parsers = []
+
     def _process_eol(self) -> bool:
         # This simply ignores the end of line.
 
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 7637e41..7a28f7d 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -63,7 +63,7 @@ def block_processor(parser: DocumentParser):
         # The labels stored so far belong to
         # the excluded content.
         if not control.process(parser.environment):
-            parser.label_buffer.pop()
+            parser.discard_labels()
 
             return True
 
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index d8d1917..1528048 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -46,7 +46,7 @@ def header_processor(parser: DocumentParser):
         # The labels stored so far belong to
         # the excluded content.
         if not control.process(parser.environment):
-            parser.label_buffer.pop()
+            parser.discard_labels()
 
             return True
 
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..241e174 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -23,6 +23,18 @@ def horizontal_rule_processor(parser: DocumentParser):
     # only through the arguments manager.
     arguments = parser.arguments_buffer.pop_or_default()
 
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here and return without
+        # saving any node.
+        # The labels stored so far belong to
+        # the excluded content.
+        if not control.process(parser.environment):
+            parser.discard_labels()
+
+            return True
+
     # Create the node.
     node = HorizontalRuleNode(
         arguments=NodeArguments(
@@ -37,14 +49,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index f2fee48..45b52ab 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -111,7 +111,7 @@ def include_processor(parser: DocumentParser):
         # The labels stored so far belong to
         # the excluded content.
         if not control.process(parser.environment):
-            parser.label_buffer.pop()
+            parser.discard_labels()
 
             return True
 
diff --git a/mau/parsers/document_processors/label.py b/mau/parsers/document_processors/label.py
index 9a68d3d..be88d1e 100644
--- a/mau/parsers/document_processors/label.py
+++ b/mau/parsers/document_processors/label.py
@@ -29,11 +29,17 @@ def label_processor(parser: DocumentParser):
     text_token = parser.tm.get_token(TokenType.TEXT)
 
     # Process the text of the label.
-    text_nodes = parser._parse_text(
+    # Footnotes and header links are stored only
+    # when the label is assigned to a node.
+    text_nodes = []
+    text_parser = parser._run_text_parser(
         text_token.value,
         text_token.context,
         parser.parent_node,
     )
+    if text_parser is not None:
+        text_nodes = text_parser.nodes
+        parser.label_text_parsers.append(text_parser)
 
     # Create the label node wrapping
     # the text nodes.
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index a461c34..944741d 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -180,7 +180,7 @@ def list_processor(parser: DocumentParser):
         # the excluded content.
         if not control.process(parser.environment):
             _skip_list_items(parser)
-            parser.label_buffer.pop()
+            parser.discard_labels()
 
             return True
 
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index 50dc41a..7881a77 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -39,7 +39,7 @@ def paragraph_processor(parser: DocumentParser):
         # The labels stored so far belong to
         # the excluded content.
         if not control.process(parser.environment):
-            parser.label_buffer.pop()
+            parser.discard_labels()
 
             return True
 
-- 
2.43.0


From 50759c4e51cd16def86dedd90c88ae099490a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 13/26] fix: pass all variables to included files

Variables were nested and flattened again to clone the environment, so
a variable with the name of a namespace (:a:1 and :a.b:2) either stopped
the inclusion with a TypeError or hid the namespaced variable from the
included file.
---
 mau/environment/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..234b816 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,9 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        # Use the flat version, as a variable can have
+        # the same name of a namespace.
+        return cls.from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From 2d129f4a6865bf21a6cc325027c290c2ba5a647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 14/26] fix: parse unclosed style markers in polynomial time

---
 mau/parsers/text_parser.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..39c4eaf 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -60,6 +61,10 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+        # The positions of the style markers that
+        # are known to be never closed.
+        self.unclosed_styles: set[int] = set()
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -423,6 +428,14 @@ class TextParser(BaseParser):
     def _parse_style(self) -> list[Node]:
         # Parse text surrounded by style markers.
 
+        # Unclosed markers can be found again and again by the
+        # enclosing ones (that might be unclosed as well), but
+        # there is no need to parse what follows every time.
+        position = self.tm.index
+
+        if position in self.unclosed_styles:
+            raise TokenError
+
         # Get the style marker
         opening_marker = self.tm.get_token(
             TokenType.LITERAL,
@@ -435,7 +448,11 @@ class TextParser(BaseParser):
         )
 
         # Get the closing marker
-        closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        try:
+            closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        except TokenError:
+            self.unclosed_styles.add(position)
+            raise
 
         # Find the final context.
         context = Context.merge_contexts(opening_marker.context, closing_marker.context)
-- 
2.43.0


From 1d6e681606d2b53275220083588f952a1c77a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 15/26] fix: report text that cannot be parsed as a Mau error

---
 mau/parsers/document_processors/paragraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index 7881a77..686c8e1 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,8 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    # There must be at least one line of text.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From d9ff61ba352ab54528ff617a748be5b0eeaaa57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 16/26] fix: accept list items without text

---
 mau/parsers/document_processors/list.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 944741d..21844da 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -30,7 +30,10 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # The item might have no content.
+    context = Context.merge_contexts(
+        header.context, content[-1].info.context if content else text.context
+    )
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +74,10 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            # The item might have no content.
+            context = Context.merge_contexts(
+                header.context, content[-1].info.context if content else text.context
+            )
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From 3a8680e5fb0dedd6c094f486ccc1ea7995516e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 17/26] fix: accept headers that become empty when variables
 are replaced

---
 mau/parsers/document_processors/header.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 1528048..941a349 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -76,9 +76,13 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text might be empty after variables
+    # have been replaced.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
-- 
2.43.0


From 767b7a9061ad326796a4fcd9e31eaa3a159174d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 18/26] fix: report a wrong list start as a Mau error

---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 21844da..3381012 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -203,7 +203,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The start of a list must be an integer or 'auto', not '{start}'.",
+                context=header.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From 8af023719370e128883c37eba843e8388bb87a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 19/26] fix: report an empty condition as a Mau error

---
 mau/parsers/condition_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/condition_parser.py b/mau/parsers/condition_parser.py
index 49dc6c2..f4c6001 100644
--- a/mau/parsers/condition_parser.py
+++ b/mau/parsers/condition_parser.py
@@ -5,7 +5,7 @@ from mau.lexers.condition_lexer import ConditionLexer
 from mau.message import BaseMessageHandler
 from mau.nodes.condition import ConditionNode
 from mau.nodes.node import NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
@@ -61,6 +61,16 @@ class ConditionParser(BaseParser):
 
         return True
 
+    def finalise(self):
+        super().finalise()
+
+        # An empty text doesn't contain any condition.
+        if self.condition_node is None:
+            raise create_parser_exception(
+                "The condition is missing.",
+                self.tm.peek_token().context,
+            )
+
 
 def process_condition_with_variables(
     condition_token: Token,
-- 
2.43.0


From 3f5a1cbcb7d5e8af567724ce05f7d3fc77158e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 20/26] fix: report a blockgroup directive without group as a
 Mau error

---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 45b52ab..8501fe3 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -366,7 +366,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From ff650003696536a03af6588095aebf2dd4b87ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 21/26] fix: report included paths with null characters as Mau
 errors

---
 mau/parsers/document_processors/include.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 8501fe3..9fadc9e 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -60,7 +60,12 @@ def _is_same_file(first: str, second: str | None) -> bool:
     if not second:
         return False
 
-    return os.path.realpath(first) == os.path.realpath(second)
+    try:
+        return os.path.realpath(first) == os.path.realpath(second)
+    except ValueError:
+        # Paths that contain null characters
+        # do not lead to any file.
+        return False
 
 
 def include_processor(parser: DocumentParser):
@@ -235,7 +240,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except (OSError, UnicodeError) as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -308,7 +313,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except (OSError, UnicodeError) as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From b31435d7c36ed82eebb41f36810ba0ba9f84abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 22/26] fix: report an empty marker delimiter as a Mau error

---
 mau/parsers/document_processors/block_engines/source.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..a34c29f 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -14,6 +14,7 @@ from mau.nodes.source import (
     SourceMarkerNode,
     SourceNode,
 )
+from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 from mau.token import Token
 
@@ -67,6 +68,13 @@ def parse_source_engine(
     # Get the delimiter for markers
     marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
 
+    # An empty delimiter cannot separate anything.
+    if not marker_delimiter:
+        raise create_parser_exception(
+            "The marker delimiter of a source block cannot be empty.",
+            content.context,
+        )
+
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
 
-- 
2.43.0


From 4322ef7fb17249db44e8bd25c51a39ebb18b3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 23/26] fix: locate the error of a footnote defined twice

---
 mau/parsers/document_processors/block.py  | 2 +-
 mau/parsers/managers/footnotes_manager.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 7a28f7d..46e49c0 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -101,7 +101,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..c7b6d64 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -54,13 +55,14 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
-        the list of contents."""
+        the list of contents. The context is the
+        position of the definition."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
-- 
2.43.0


From c20c55bc42a05f12cc5be5a79f8bf21c108a311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 24/26] fix: a variable with the name of a namespace broke the
 rendering

---
 mau/environment/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..edd51ec 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -58,11 +58,17 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
         # If the key still has hierarchical
         # parts, call the function recursively.
         if rest:
+            # The key can be already in use for a plain
+            # value, as a variable can have the same name
+            # of a namespace. The latest definition wins.
+            if not isinstance(output.get(key), dict):
+                output[key] = {}
+
             _split(
                 rest[0],
                 value,
                 separator,
-                output.setdefault(key, {}),
+                output[key],
             )
         else:
             output[key] = value
-- 
2.43.0


From 2d357c8ad87efb627e210315758b20dcbf64b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 25/26] fix: an empty dictionary given by the caller was
 modified by variables defined under it

---
 mau/environment/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index edd51ec..d8d434d 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -70,6 +70,10 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 separator,
                 output[key],
             )
+        elif isinstance(value, MutableMapping):
+            # Other keys might be added to this dictionary,
+            # which belongs to the flat version.
+            output[key] = dict(value)
         else:
             output[key] = value
 
-- 
2.43.0


From 21ff27261d97c36a5da4b6a2b3c864bf5874f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 26/26] fix: ifeval failed on variables that are not text

---
 mau/parsers/text_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 39c4eaf..05b20f4 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -927,13 +927,16 @@ class TextParser(BaseParser):
             )
 
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            # A namespace is not a variable.
+            if variable_value is None or isinstance(variable_value, Environment):
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
                 )
 
-            result.value = variable_value
+            # Values that come from outside can have any type,
+            # but the value has to be a string to be parsed.
+            result.value = str(variable_value)
 
         nodes = []
         if result is not None:
-- 
2.43.0

