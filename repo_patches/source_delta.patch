From e3c80da40c49388b9fae206f885c6f6ce3f7e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 01/42] fix: keep comments and switches of a tuple group in
 token order

---
 cmakelang/parse/additional_nodes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..cb026fe 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -54,6 +54,12 @@ class TupleGroupNode(ArgGroupNode):
       if should_break(tokens[0], breakstack):
         break
 
+      # If it's a sentinel comment, then add it at the current depth
+      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                            lex.TokenType.FORMAT_ON):
+        active_depth.children.append(OnOffNode.consume(ctx, tokens))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
@@ -68,20 +74,15 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
-      # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
-        continue
-
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
         tree.children.append(subtree)
+        active_depth = subtree
         ntup_consumed = 0
 
       # Otherwise is it is a positional argument, so add it to the tree as such
@@ -98,6 +99,7 @@ class TupleGroupNode(ArgGroupNode):
       if ntup_consumed >= ntup:
         npargs_consumed += 1
         subtree = None
+        active_depth = tree
 
     return tree
 
-- 
2.43.0


From 8793223e856822c4a963a62a63c54020f66aaffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 02/42] fix: don't write parentheses inside a disabled region

---
 cmakelang/format/formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..cfbf9f4 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -624,6 +624,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
-- 
2.43.0


From a2a5ef983a265f9a362307cddfded425804bc16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 03/42] fix: pair format switches by their position in the text

---
 cmakelang/format/formatter.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index cfbf9f4..ee79cdc 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -783,6 +783,9 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if not ctx.is_active():
+        # Already within a disabled region, so this comment is part of it
+        return
       spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
@@ -985,11 +988,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1050,11 +1048,6 @@ class AtWordStatementNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(AtWordStatementNode, self).write(config, ctx)
-
 
 class KwargGroupNode(LayoutNode):
   """
@@ -1467,11 +1460,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1575,11 +1563,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
-- 
2.43.0


From b2e8cee5e367bc2a84cd9a398ef010a131b3cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 04/42] fix: disabled regions of a file with a byte-order mark
 are shifted

---
 cmakelang/format/formatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index ee79cdc..d09ed68 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1976,6 +1976,10 @@ class WriteContext(object):
     if sys.version_info[0] < 3:
       assert isinstance(infile_content, unicode)
 
+    # NOTE: token offsets don't count the byte-order mark
+    if infile_content.startswith("\ufeff"):
+      infile_content = infile_content[1:]
+
     # NOTE(josh): must be BytesIO because we use byte-offsets for raw
     # transcription (i.e. between cmake-format: off and cmake-format: on)
     self.infile = io.BytesIO(bytearray(infile_content, 'utf-8'))
-- 
2.43.0


From f450ddc2a760099bd73ec0e5dedc01010b9a88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 05/42] fix: keep the rest of the file after a switch which is
 never turned on

---
 cmakelang/format/formatter.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index d09ed68..c387b78 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -775,11 +775,7 @@ class OnOffSwitchNode(LayoutNode):
             "'#cmake-format: on' with no corresponding 'off' at %d:%d",
             token.begin.line, token.begin.col)
       else:
-        ctx.infile.seek(ctx.offswitch_location.offset, 0)
-        copy_size = token.begin.offset - ctx.offswitch_location.offset
-        copy_bytes = ctx.infile.read(copy_size)
-        copy_text = copy_bytes.decode('utf-8')
-        ctx.outfile.write(copy_text)
+        ctx.outfile.write(ctx.read_disabled(token.begin.offset))
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
@@ -1960,7 +1956,9 @@ class CursorFile(object):
       self._cursor[0] += copy_text.count('\n')
       self._cursor[1] = len(copy_text.split('\n')[-1])
 
-  def getvalue(self):
+  def getvalue(self, final_newline=True):
+    if not final_newline:
+      return self._fobj.getvalue()
     return self._fobj.getvalue() + self._config.format.endl
 
 
@@ -1988,6 +1986,20 @@ class WriteContext(object):
   def is_active(self):
     return self.offswitch_location is None
 
+  def read_disabled(self, end_offset=None):
+    """
+    Return the text from the last offswitch up to `end_offset`, or the end of
+    the file
+    """
+    self.infile.seek(self.offswitch_location.offset, 0)
+    if end_offset is None:
+      copy_bytes = self.infile.read()
+    else:
+      copy_bytes = self.infile.read(
+          end_offset - self.offswitch_location.offset)
+    copy_text = copy_bytes.decode('utf-8')
+    return copy_text
+
 
 def write_tree(root_box, config, infile_content):
   """
@@ -2000,4 +2012,7 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    copy_text = ctx.read_disabled()
+    ctx.outfile.write(copy_text)
+    return ctx.outfile.getvalue(final_newline=not copy_text.endswith("\n"))
   return ctx.outfile.getvalue()
-- 
2.43.0


From 0161d124e8a106ed35bca468d8e149ce342200b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 06/42] fix: end the line of an offswitch with the configured
 line ending

---
 cmakelang/format/formatter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index c387b78..97abf31 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1899,6 +1899,10 @@ class CursorFile(object):
   def cursor(self):
     return Cursor(*self._cursor)
 
+  @property
+  def endl(self):
+    return self._config.format.endl
+
   def assert_at(self, cursor):
     assert (self._cursor[0] == cursor[0]
             and self._cursor[1] == cursor[1]), \
@@ -1998,6 +2002,9 @@ class WriteContext(object):
       copy_bytes = self.infile.read(
           end_offset - self.offswitch_location.offset)
     copy_text = copy_bytes.decode('utf-8')
+    if copy_text.startswith("\n"):
+      # The line of the offswitch itself is formatted
+      copy_text = self.outfile.endl + copy_text[1:]
     return copy_text
 
 
-- 
2.43.0


From 675f0bb2b2dda796efde78816604748280d7ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 07/42] fix: a trailing bracket comment is a comment of its own

---
 cmakelang/parse/simple_nodes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..c523498 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -138,8 +138,17 @@ class CommentNode(TreeNode):
     parent.children.append(node)
     comment_tokens = node.children
 
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      # As in consume(), a bracket comment gets its own node
+      node.children.append(tokens.pop(0))
+      return
+
+    def is_joined(token):
+      return (token.type in COMMENT_TOKENS
+              and is_valid_trailing_comment(token))
+
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while tokens and is_joined(tokens[0]):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,7 +161,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
-          is_valid_trailing_comment(tokens[1])):
+          is_joined(tokens[1])):
         node.children.append(tokens.pop(0))
 
       # Multiple comments separated only by one newline and some whitespace are
@@ -162,7 +171,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
-            is_valid_trailing_comment(tokens[2])):
+            is_joined(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
 
-- 
2.43.0


From 9e4fdf6f8fb4768055cd1206964066c7f4a2cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 08/42] fix: format switches among the sources of a target

---
 cmakelang/parse/funs/add_executable.py | 8 +++++++-
 cmakelang/parse/funs/add_library.py    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..e8dc523 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,9 +4,10 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -104,6 +105,11 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..39672e9 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,8 +4,9 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -78,6 +79,11 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 35e8ca3144cfe118177afed2f15789784093edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 09/42] fix: don't sort arguments if enable_sort is false

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 97abf31..4eb2f17 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1210,7 +1210,8 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
-    if (config.format.autosort and
+    if (config.format.enable_sort and
+        config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
         self.pnode.sortable):
       self._children = sort_arguments(self._children)
-- 
2.43.0


From 1c7b3fe82bc1658459032c64dc9eb3948137f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 10/42] fix: honor the sort tag in add_executable()

---
 cmakelang/parse/funs/add_executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index e8dc523..967d5a1 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -98,7 +98,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       if state_ > parsing_name:
         if get_tag(tokens[0]) in ("unsort", "unsortable"):
           sortable = False
-        elif get_tag(tokens[0]) in ("unsort", "unsortable"):
+        elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
-- 
2.43.0


From 064f150d916dbc82606b818c56c73816e7efa81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 11/42] fix: don't sort arguments across a disabled region

---
 cmakelang/format/formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 4eb2f17..1aa3213 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1213,7 +1213,9 @@ class PargGroupNode(LayoutNode):
     if (config.format.enable_sort and
         config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
-        self.pnode.sortable):
+        self.pnode.sortable and
+        not any(child.node_type is NodeType.ONOFFSWITCH
+                for child in self._children)):
       self._children = sort_arguments(self._children)
 
     super(PargGroupNode, self).lock(config, stmt_depth)
-- 
2.43.0


From 8457b6dd7e8fdeb063922ee3a922a38d9896e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 12/42] fix: apply nested lint suppressions in line order

A pragma in a nested block was ignored as long as a suppression of an outer
block was active, and the end of the inner scope also ended the outer one.
---
 cmakelang/lint/lint_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..3c726bb 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -101,8 +101,10 @@ class FileContext(object):
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    # NOTE(josh): the events are recorded block by block, not in the order of
+    # their lines, and the scopes of the same id may overlap
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_count = collections.defaultdict(int)
 
     for record in records:
       if record.location:
@@ -110,13 +112,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_count[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_count[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_count[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From 1ddbf55d7f2a3cbfc37f38d12e8f2d76ffe1d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 13/42] fix: extend a lint suppression to the last line of its
 block

Also, don't fail on an empty listfile.
---
 cmakelang/lint/basic_checker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..ae9fade 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -543,8 +543,15 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      # The scope includes the last line of the block, unless all that is left
+      # of the block on that line is the indentation of the next statement
+      token = node.get_tokens()[-1]
+      lineno = token.get_location().line + token.spelling.count("\n")
+      if not (token.spelling.endswith("\n") or
+              (token.type is TokenType.WHITESPACE and
+               token.get_location().col == 0)):
+        lineno += 1
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
-- 
2.43.0


From b6eb8b398fe07ac64534d0a8544dd08d5d08f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 14/42] fix: start a lint suppression at the line of its pragma

and not at the first line of the comment which contains it.
---
 cmakelang/lint/basic_checker.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index ae9fade..c9470ad 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -467,8 +467,9 @@ class LintChecker(object):
 
   def parse_pragmas_from_comment(self, node):
     """Parse any cmake-lint directives (pragmas) from line comment tokens within
-      the comment node."""
-    suppressions = []
+      the comment node. Return a list of tuples: the line number of a pragma
+      and the list of ids that it disables."""
+    pragmas = []
     for child in node.children:
       if not isinstance(child, Token):
         continue
@@ -482,9 +483,12 @@ class LintChecker(object):
       row, col, _ = token.get_location()
       content = token.spelling[len(pragma_prefix):]
       col += len(pragma_prefix)
+      suppressions = []
       self.parse_pragmas_from_token(content, row, col, suppressions)
+      if suppressions:
+        pragmas.append((row, suppressions))
 
-    return suppressions
+    return pragmas
 
   def check_body(self, node):
     """Perform checks on a body node."""
@@ -497,11 +501,8 @@ class LintChecker(object):
         continue
 
       if child.node_type is NodeType.COMMENT:
-        requested_suppressions = self.parse_pragmas_from_comment(child)
-        if requested_suppressions:
-          lineno = child.get_tokens()[0].get_location().line
-          new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-          suppressions.extend(new_suppressions)
+        for lineno, requested in self.parse_pragmas_from_comment(child):
+          suppressions.extend(local_ctx.suppress(lineno, requested))
 
       # Check for docstrings
       # TODO(josh): move into flow-control or fundef/macrodef checkers? Would
@@ -739,14 +740,10 @@ class LintChecker(object):
     if not self.am_in_statement():
       return
 
-    requested_suppressions = self.parse_pragmas_from_comment(node)
-    if not requested_suppressions:
-      return
-
     (_cfg, local_ctx) = self.context
-    lineno = node.get_tokens()[0].get_location().line
-    new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-    local_ctx.unsuppress(lineno + 1, new_suppressions)
+    for lineno, requested in self.parse_pragmas_from_comment(node):
+      new_suppressions = local_ctx.suppress(lineno, requested)
+      local_ctx.unsuppress(lineno + 1, new_suppressions)
 
   def am_in_statement(self):
     for node in self._node_stack:
-- 
2.43.0


From 127731ff1f4aa2bbe2a87bf18e85f5253ac8cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 15/42] fix: don't count the carriage return when checking the
 line width

And don't expect a windows line ending after the last newline.
---
 cmakelang/lint/basic_checker.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index c9470ad..3b32d3d 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -214,11 +214,10 @@ class LintChecker(object):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if len(line) > cfg.format.line_width:
-        local_ctx.record_lint(
-            "C0301", len(line), cfg.format.line_width, location=(lineno,))
-
-      if line.endswith("\r"):
+      if lineno == len(lines):
+        # what follows the last newline doesn't have a line ending
+        pass
+      elif line.endswith("\r"):
         if cfg.format.line_ending == "unix":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
@@ -228,6 +227,10 @@ class LintChecker(object):
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
 
+      if len(line) > cfg.format.line_width:
+        local_ctx.record_lint(
+            "C0301", len(line), cfg.format.line_width, location=(lineno,))
+
       if len(line.rstrip()) != len(line):
         local_ctx.record_lint("C0303", location=(lineno,))
 
-- 
2.43.0


From 104b6a45621a9926ea09050efa1ef88502ae4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 16/42] fix: lint crash on a variable reference without closing
 brace

---
 cmakelang/lint/basic_checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 3b32d3d..47f2da3 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -295,6 +295,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
-- 
2.43.0


From 5a2f7af298ef72eab23b1d2b2b052273c0cfb52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 17/42] fix: lint a file with line_ending set to auto

compares each line with the detected line ending instead of raising.
---
 cmakelang/lint/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..9082110 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,8 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.line_ending = detected
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From e9c0b6282513185d569247b2941f1339c89cd21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 18/42] fix: cmake-lint exits with nonzero status on invalid
 options

---
 cmakelang/lint/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 9082110..f1452d8 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -185,7 +185,7 @@ def main():
   try:
     return inner_main()
   except SystemExit:
-    return 0
+    raise
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From ab8b79e23b2457adfabe96d79fd5f77b0c40852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 19/42] fix: lint the standard input

---
 cmakelang/lint/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index f1452d8..bdf2d80 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -146,11 +146,13 @@ def inner_main():
 
     cfg = configuration.Configuration(**config_dict)
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_arg = os.dup(sys.stdin.fileno())
+    else:
+      infile_arg = infile_path
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_arg, mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From c24aba45c01217363c2bb9d95bd35a486009625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 20/42] fix: report the lint of a file which is listed twice
 only once

---
 cmakelang/lint/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index bdf2d80..0609874 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -136,6 +136,10 @@ def inner_main():
   argdict = __main__.get_argdict(args)
 
   for infile_path in args.infilepaths:
+    if infile_path in global_ctx.file_ctxs:
+      # The same file is listed more than once, don't report its lint again
+      continue
+
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-- 
2.43.0


From 6a559621dac0353bc56869281e988963354763a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 21/42] fix: apply command line options to every file

and not only to the first one.
---
 cmakelang/format/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..18e1b01 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -508,7 +508,7 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From b1b1ba640c9af5c7294ac01559edd9e23d0f4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 22/42] fix: dump the per_command options of builtin commands

They are user options, the builtin ones are not part of per_command.
---
 cmakelang/format/__main__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 18e1b01..9d46498 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -39,7 +39,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -381,9 +380,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
 
   if outfmt == 'yaml':
     import yaml
-- 
2.43.0


From ea9fc2af3ef985698d297dca2d5a6ec645a890ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 23/42] fix: don't truncate the output file if the text can't
 be encoded

---
 cmakelang/format/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 9d46498..d7abade 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -531,6 +531,9 @@ def onefile_main(infile_path, args, argparse_dict):
       raise common.FormatError("Check failed: {}".format(infile_path))
     return
 
+  # Make sure that the text can be encoded before we truncate the output file
+  outtext.encode(cfg.encode.output_encoding)
+
   if args.in_place:
     if intext == outtext:
       logger.debug("No delta for %s", infile_path)
-- 
2.43.0


From e946d39a60fed74b45866d454a99e8463609d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 24/42] fix: python config file without extension is read as
 yaml

and its options were ignored.
---
 cmakelang/format/__main__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index d7abade..209eef5 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -25,6 +25,7 @@ import io
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 
@@ -237,13 +238,20 @@ def try_get_configdict(configfile_path):
   """
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return json.load(config_file)
+      config_dict = json.load(config_file)
+    if isinstance(config_dict, Mapping):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
+      config_dict = load_yaml(config_file)
+    # NOTE(josh): a python config file may happen to be valid yaml, but then
+    # it's a string or a mapping with a line of code as it's key
+    if (isinstance(config_dict, Mapping) and
+        all(re.match(r"^[\w-]+$", "{}".format(key)) for key in config_dict)):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
-- 
2.43.0


From 1a02a8190213f09f24b551c8091e26e212980619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 25/42] fix: merge legacy config options in the order of the
 files

An option at the root of a config file took precedence over the same option in
the section of a file listed later.
---
 cmakelang/format/__main__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 209eef5..712debf 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -323,10 +323,27 @@ def get_configdict(configfile_paths):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
       include_queue.append(include_path)
+    move_legacy_options(increment_dict)
     map_merge(config_dict, increment_dict)
   return config_dict
 
 
+def move_legacy_options(config_dict):
+  """
+  Move options at the root of `config_dict` (legacy config style) into the
+  section that they belong to. Otherwise they would take precedence over the
+  same option in the section of a config file which is merged later.
+  """
+  # pylint: disable=protected-access
+  for descr in configuration.Configuration._field_registry:
+    if not isinstance(config_dict.get(descr.name, {}), Mapping):
+      continue
+    for fieldname in descr.subtree_class.get_field_names():
+      if fieldname in config_dict:
+        section = config_dict.setdefault(descr.name, {})
+        section[fieldname] = config_dict.pop(fieldname)
+
+
 def map_merge(output_map, increment_map):
   """
   Merge `increment_map` into `output_map` recursively.
-- 
2.43.0


From 635012d7e4295cb974a25a106e433502a9fbed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 26/42] fix: keep leading spaces of multiline arguments and
 disabled regions

when use_tabchars is set. Only the indentation that we write is converted.
---
 cmakelang/format/__main__.py  | 1 -
 cmakelang/format/formatter.py | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 712debf..0ee80ce 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -172,7 +172,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 1aa3213..7a2e002 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -115,7 +115,7 @@ def count_indentation(linestr):
   for idx, char in enumerate(linestr):
     if char != ' ':
       return idx
-  return 0
+  return len(linestr)
 
 
 def replace_with_tabs(content, config):
@@ -1936,7 +1936,10 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      padding = ' ' * cols
+      if self._cursor[1] == 0:
+        padding = replace_with_tabs(padding, self._config)
+      self._fobj.write(padding)
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From fdaf5ef16bb39ffe64c360647a2333c6b894e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 27/42] fix: escape the listfile in annotated html

---
 cmakelang/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..d522d78 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -9,6 +9,7 @@ from __future__ import unicode_literals
 import io
 import logging
 import os
+from xml.sax.saxutils import escape
 
 from cmakelang import lex
 from cmakelang.parse.common import TreeNode
@@ -27,7 +28,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(escape(node.spelling))
     outfile.write('</span>')
 
 
-- 
2.43.0


From 8dc4c47c69829cd3e19221017e951deb5d34db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 28/42] fix: config file option of cmake-annotate

---
 cmakelang/annotate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..7965817 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -136,14 +136,17 @@ def main():
 
   argdict = __main__.get_argdict(args)
   output_format = argdict.pop("format")
+  config_files = None
+  if args.config_file is not None:
+    config_files = [args.config_file]
 
   for infile_path in args.infilepaths:
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From c63264b8ef5eb0ffb0aa68d304ff5367e2f0c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 29/42] fix: keep the line endings of an annotated listfile

---
 cmakelang/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 7965817..43982b2 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -170,7 +170,8 @@ def main():
           os.dup(sys.stdin.fileno()),
           mode='r', encoding=cfg.encode.input_encoding, newline='')
     else:
-      infile = io.open(infile_path, 'r', encoding=cfg.encode.input_encoding)
+      infile = io.open(
+          infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
     try:
       with infile:
-- 
2.43.0


From c749a64c173b1bdd01ab146c8e23e92f2542564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 30/42] fix: a lint suppression at the top level lasts to the
 end of the file

---
 cmakelang/lint/basic_checker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 47f2da3..3aef869 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -553,9 +553,10 @@ class LintChecker(object):
       # of the block on that line is the indentation of the next statement
       token = node.get_tokens()[-1]
       lineno = token.get_location().line + token.spelling.count("\n")
-      if not (token.spelling.endswith("\n") or
-              (token.type is TokenType.WHITESPACE and
-               token.get_location().col == 0)):
+      if node.parent is None or not (
+          token.spelling.endswith("\n") or
+          (token.type is TokenType.WHITESPACE and
+           token.get_location().col == 0)):
         lineno += 1
       local_ctx.unsuppress(lineno, suppressions)
 
-- 
2.43.0


From 6af39319720673860646b0688560057f639f2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 31/42] fix: lint suppressions in comments of untyped nodes

---
 cmakelang/lint/basic_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 3aef869..1e6e0ac 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -10,7 +10,6 @@ from cmakelang.parse.argument_nodes import (
     ArgGroupNode, ConditionalGroupNode, PositionalGroupNode
 )
 from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
-from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.util import get_min_npargs
@@ -821,7 +820,8 @@ class LintChecker(object):
       self.check_statement(node)
     elif isinstance(node, PositionalGroupNode):
       self.check_positional_group(node)
-    elif isinstance(node, CommentNode):
+    elif node.node_type is NodeType.COMMENT:
+      # not every comment among the arguments is a CommentNode
       self.check_comment(node)
 
     for child in node.children:
-- 
2.43.0


From 221832b3cec99252cbdbd0032c08bb46490988f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 32/42] fix: a number starting a continued line of an
 enumerated comment was lost

The separator of an enumeration ('.' or ':') was used unescaped in the
pattern which recognizes the next item, so that a line such as
'200 items' was taken for an item and its first word was dropped.
---
 cmakelang/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..27b93d3 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -134,7 +134,8 @@ def parse(lines, config=None):
         # TODO(josh) We want to match lines with either the same number of
         # spaces or with the colon in the same column
         bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^{}\d+{}( .*)$'.format(
+                indent_str, re.escape(bullet_punctuation)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From 3937ac179ea28e8a36bc924d73e9889e41b3c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 33/42] fix: a line comment was joined to a preceding one that
 isn't aligned with it

The node of a line comment includes the newline that follows if another
comment comes next, so is_line_comment() didn't recognize it and the next
comment was put behind it, on the same line.
---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 7a2e002..fe73a7e 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -178,7 +178,7 @@ def is_line_comment(node):
   if not node.children:
     return False
 
-  return node.children[-1].type == TokenType.COMMENT
+  return node.children[0].type == TokenType.COMMENT
 
 
 def get_pathstr(node_path):
-- 
2.43.0


From c8b9b2923249cb9b357e66e5d6fce21ca6c1df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 34/42] fix: unsort annotation after EXCLUDE_FROM_ALL in
 add_library was ignored

The group of sources was created as soon as EXCLUDE_FROM_ALL was parsed,
before the annotation was seen.
---
 cmakelang/parse/funs/add_library.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 39672e9..a012a46 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -110,11 +110,12 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
         child.children.append(token)
         CommentNode.consume_trailing(ctx, tokens, child)
         parg_group.children.append(child)
-      state_ += 1
-      src_group = PositionalGroupNode(sortable=sortable, tags=["file-list"])
-      src_group.spec = PositionalSpec("+")
-      active_depth = src_group
-      tree.children.append(src_group)
+      else:
+        state_ += 1
+        src_group = PositionalGroupNode(sortable=sortable, tags=["file-list"])
+        src_group.spec = PositionalSpec("+")
+        active_depth = src_group
+        tree.children.append(src_group)
     elif state_ is parsing_sources:
       token = tokens.pop(0)
       child = TreeNode(NodeType.ARGUMENT)
-- 
2.43.0


From 59ba1a0e967de736e5f1632a826b0ff81f63e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 35/42] fix: crash on add_library(name) at the end of a
 listfile

---
 cmakelang/parse/funs/add_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index a012a46..9347a14 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -271,7 +271,8 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if "${" in second_token.spelling or (
+      third_token is not None and "${" in third_token.spelling):
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
-- 
2.43.0


From 3274168009deb0d505deb842c37523c70269f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 36/42] fix: missing positional arguments are no internal error

A command or keyword with an exact number of arguments was rejected with an
InternalError if the argument list was closed before the first of them.
---
 cmakelang/parse/argument_nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..01e2145 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -149,10 +149,11 @@ class StandardArgTree(ArgGroupNode):
         # ```install(RUNTIME COMPONENT runtime)``. In this case the second
         # occurance of "runtime" should not match the ``RUNTIME`` keyword
         # and should not break the positional parser.
-        # TODO(josh): this is kind of hacky because it will force the positional
-        # parser to consume a right parenthesis and will lead to parse errors
-        # in the event of a missing positional argument. Such errors will be
-        # difficult to debug for the user.
+        # NOTE(josh): the closing parenthesis always breaks, even if there are
+        # not enough positional arguments.
+        if tokens[0].type == lex.TokenType.RIGHT_PAREN:
+          break
+
         if pargspecs:
           pspec = pargspecs[0]
         else:
-- 
2.43.0


From 87ac5027bfe3d8b38a0954cdc1d2fc1ae2c579b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 37/42] fix: honor nargs in a dictionary of positional
 arguments

The documented key is nargs, but it was always overwritten by '*'.
---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..054755d 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -445,7 +445,7 @@ def parse_pspec(pargs, flags):
 
     if isinstance(pargdecl, dict):
         # A dictionary is interpreted as init kwargs
-      if "npargs" not in pargdecl:
+      if "nargs" not in pargdecl:
         pargdecl = dict(pargdecl)
         pargdecl["nargs"] = ZERO_OR_MORE
       out.append(PositionalSpec(**pargdecl))
-- 
2.43.0


From 0f944d3aed90c82a129f72179db0f472d37de8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 38/42] fix: nargs given as a string of digits means exactly
 that many

---
 cmakelang/parse/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 054755d..3e40d6b 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -64,6 +64,9 @@ class PositionalSpec(tuple):
       tags = []
     if not flags:
       flags = []
+    if isinstance(nargs, STRING_TYPES) and re.match(r"^[0-9]+$", nargs):
+      # e.g. "3" means exactly three
+      nargs = int(nargs)
     return tuple.__new__(
         cls, (nargs, sortable, tags, flags, legacy, max_pargs_hwrap,
               always_wrap))
-- 
2.43.0


From 09d7d5c8f3f8a3f57215e0c72ba01ef2cb93ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 39/42] fix: lint statements that assign to no variable

list(), list(REVERSE) and set(#[[comment]]) are parsed, but the linter aborted
with an exception when it looked for the name of the variable they assign to.
---
 cmakelang/lint/basic_checker.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 1e6e0ac..204c5d7 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -99,11 +99,21 @@ def get_prefix_comment(prevchild):
   return prevchild[1]
 
 
+def get_list_args(node):
+  """Given a statement parse node for a `list()` command, return the tokens of
+     the leading positional arguments (there are none in an empty `list()`)."""
+  if not node.argtree.parg_groups:
+    return []
+  return node.argtree.parg_groups[0].get_tokens(kind="semantic")
+
+
 def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
-  semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  semtoks = get_list_args(node)
+  if not semtoks:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -620,6 +630,8 @@ class LintChecker(object):
 
     if node.get_funname() == "set":
       varname = node.argtree.varname
+      if varname is None:
+        return
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
       if varname is None:
@@ -719,8 +731,13 @@ class LintChecker(object):
     for stmt in find_statements_in_subtree(tree, ["set", "list"]):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
+        if token is None:
+          continue
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        semtoks = get_list_args(stmt)
+        if len(semtoks) < 2:
+          continue
+        token = semtoks[1]
       else:
         continue
       self.check_varname(token.spelling, token, "Assignment to")
-- 
2.43.0


From 034ee93f8b384cd1698b2d358a6d7de93bd26fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 40/42] fix: lint build_command() without aborting

The message of W0106 needs two arguments, so the linter aborted at any
build_command() statement; W0104 is the record for a deprecated command. And
compare the spelling of the second argument with the keywords, rather than the
method that would compute its upper case.
---
 cmakelang/parse/funs/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..992c05a 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,9 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if second_token is not None and second_token.spelling.upper() not in kwargs:
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
-- 
2.43.0


From 9c9bef5dd693392cc5d45edb5bec146e83e14e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 41/42] fix: report an unexpected argument of
 add_custom_target()

The message of E1122 (duplicate keyword argument) needs an argument, so the
linter aborted; the record for an unexpected positional argument is E1121.
---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From c778c23821003de1e6e152908e1f66d8fd256917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 42/42] fix: build_command(<variable>) is not the deprecated
 form

The token after its only argument is the closing parenthesis.
---
 cmakelang/parse/funs/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 992c05a..9c5c90f 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,7 +30,9 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper() not in kwargs:
+  if (second_token is not None and
+      second_token.type is not lex.TokenType.RIGHT_PAREN and
+      second_token.spelling.upper() not in kwargs):
     ctx.lint_ctx.record_lint(
         "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
-- 
2.43.0

