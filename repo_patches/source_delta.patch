From 09c8a5bed0826622f677ffa41222c3ce87e57deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 001/112] fix: accept any character in mdpo command arguments

Comments like '<!-- mdpo-context menu: file, edit -->' were not recognised
as commands because the argument only admitted word characters and spaces.
---
 src/mdpo/command.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..dcdd443 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -1,7 +1,9 @@
 """mdpo HTML commands related utilities."""
 
 
-COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}([\w\s]+)?\-\->'
+COMMAND_SEARCH_REGEX = (
+    r'<\!\-\-\s*(?!\-\->)(\S+?)(?:\s+(?!\-\->)(\S.*?)|\s*)\-\->'
+)
 
 MDPO_COMMANDS = [
     'context',
@@ -34,7 +36,7 @@ def parse_mdpo_html_command(value):
         and its value.
     """
     import re
-    command_match = re.compile(COMMAND_SEARCH_REGEX).search(value)
+    command_match = re.compile(COMMAND_SEARCH_REGEX, re.DOTALL).search(value)
     if command_match:
         command, comment = command_match.groups()
         return (command, comment.rstrip(' ') if comment else None)
-- 
2.43.0


From dbb39541c6b74be4dd5e359d4cb88a8d03a004e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 002/112] fix: remove only mdpo commands from translated output

po2md dropped every HTML comment that looked like a command and mdpo2html
left in the output extraction only commands like mdpo-include.
---
 src/mdpo/command.py            | 15 +++++++++++++++
 src/mdpo/mdpo2html/__init__.py | 18 ++++++++++--------
 src/mdpo/po2md/__init__.py     |  7 +++++--
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index dcdd443..38b3409 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -63,6 +63,21 @@ def normalize_mdpo_command(value):
     )
 
 
+def is_mdpo_command(value):
+    """Check if the name of a comment corresponds to a mdpo command.
+
+    Args:
+        value (str): Full command name, with aliases already resolved.
+
+    Returns:
+        bool: ``True`` if is a mdpo command.
+    """
+    return (
+        value.startswith('mdpo-')
+        and normalize_mdpo_command(value) is not None
+    )
+
+
 def normalize_mdpo_command_aliases(command_aliases):
     """Validate and normalizes a mapping of mdpo command aliases.
 
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..ca6654c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -11,6 +11,7 @@ import md4c
 import polib
 
 from mdpo.command import (
+    is_mdpo_command,
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
@@ -389,14 +390,14 @@ class MdPo2HTML(HTMLParser):
             command, comment = parse_mdpo_html_command(
                 data_as_comment,
             )
-            if command is None:
+            with contextlib.suppress(KeyError):  # not custom command
+                command = self.command_aliases[command]
+
+            if command is None or not is_mdpo_command(command):
                 self.output += data_as_comment
             else:
                 self._remove_lastline_from_output_if_empty()
 
-                with contextlib.suppress(KeyError):  # not custom command
-                    command = self.command_aliases[command]
-
                 if command in (
                     'mdpo-disable-next-block',
                     'mdpo-disable-next-line',
@@ -411,8 +412,11 @@ class MdPo2HTML(HTMLParser):
                     'mdpo-enable-next-line',
                 ):
                     self.enable_next_block = True
-                elif command == 'mdpo-context' and comment:
-                    self.current_msgctxt = comment
+                elif command == 'mdpo-context':
+                    if comment:
+                        self.current_msgctxt = comment
+                    else:
+                        self.output += data_as_comment
                 elif command == 'mdpo-include-codeblock':
                     warnings.warn(
                         'Code blocks translations are not supported'
@@ -420,8 +424,6 @@ class MdPo2HTML(HTMLParser):
                         SyntaxWarning,
                         stacklevel=2,
                     )
-                else:
-                    self.output += data_as_comment
 
     def translate(self, filepath_or_content, save=None, html_encoding='utf-8'):
         content = to_file_content_if_is_file(
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..ed24413 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -7,6 +7,7 @@ import md_ulb_pwrap
 import polib
 
 from mdpo.command import (
+    is_mdpo_command,
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
@@ -357,8 +358,6 @@ class Po2Md:
         if original_command is None:
             return False
 
-        self._inside_htmlblock[1] = True
-
         try:
             command = self.command_aliases[original_command]
         except KeyError:  # not custom command
@@ -367,6 +366,10 @@ class Po2Md:
         # process solved command
         self.command(command, comment, original_command)
 
+        if not is_mdpo_command(command):  # other comments are kept
+            return False
+
+        self._inside_htmlblock[1] = True
         return True
 
     def _escape_translation(self, text):
-- 
2.43.0


From fcc01669163b00390db07c90485e1b3db726c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 003/112] fix: extract separately the text of a list item and
 its nested blocks

The text of a tight list item was glued to headings, code, HTML commands
following it, and entering a nested list or a quote dropped pending commands.
---
 src/mdpo/md2po/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..c0aa1ff 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -573,6 +573,10 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_block', self, block, details):
             return
 
+        if self.current_msgid:
+            # the text of a tight list item ends where a nested block starts
+            self._save_current_msgid()
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if not any([
@@ -596,10 +600,7 @@ class Md2Po:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
-                # changing UL deeep
-                self._save_current_msgid()
-            elif not any([
+            if self._uls_deep == 1 and not any([
                 self._quoteblocks_deep,
                 self._inside_olblock,
             ]):
@@ -616,8 +617,6 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.H.value
         elif block is md4c.BlockType.QUOTE:
             self._quoteblocks_deep += 1
-            if self._inside_liblock:
-                self._save_current_msgid()
             if self._quoteblocks_deep == 1:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.QUOTE.value
@@ -630,8 +629,6 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            if self._inside_olblock or self._uls_deep:
-                self._save_current_msgid()
             self._inside_olblock = True
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
-- 
2.43.0


From eedb52fa0284b5c8b201ed58846bce24d7ab6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 004/112] fix: join the lines of multiline setext headings

---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c0aa1ff..5cfdea8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -899,7 +899,7 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._current_wikilink_target:
                     if text != self._current_wikilink_target:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ed24413..97952f7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -914,7 +914,7 @@ class Po2Md:
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
 
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
-- 
2.43.0


From bb72f9c91a5c75632f81066136192479863c1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 005/112] fix: locate the content of nested ordered lists in
 the outermost block

---
 src/mdpo/md2po/__init__.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 5cfdea8..71cbc29 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -125,7 +125,7 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
-        '_inside_olblock',
+        '_ols_deep',
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
@@ -371,7 +371,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._ols_deep = 0
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -583,7 +583,7 @@ class Md2Po:
                 self._inside_hblock,
                 self._uls_deep,
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
@@ -592,7 +592,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
@@ -602,7 +602,7 @@ class Md2Po:
             self._uls_deep += 1
             if self._uls_deep == 1 and not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
@@ -611,7 +611,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.H.value
@@ -624,24 +624,24 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            self._inside_olblock = True
+            self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
                 self._uls_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.HTML.value
         elif block is md4c.BlockType.TABLE and not any([
             self._quoteblocks_deep,
-            self._inside_olblock,
+            self._ols_deep,
             self._uls_deep,
         ]):
             self._current_top_level_block_number += 1
@@ -674,7 +674,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._ols_deep -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 1c662ab536ad0ce7fe5b724519311bf21449e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 006/112] fix: build the markup of spans from their whole
 content

Backticks inside links, padded or multiline code spans, images with several
text chunks or markup in the alternative text, wikilinks with markup, nested
underlines, empty destinations and attributes with entities were mangled or
crashed because only the first or last chunk of each span was considered.
---
 src/mdpo/md.py             | 100 ++++++++++++
 src/mdpo/md2po/__init__.py | 305 ++++++++++++-------------------------
 src/mdpo/po2md/__init__.py | 299 +++++++++++++-----------------------
 3 files changed, 306 insertions(+), 398 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..7035c61 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,5 +1,9 @@
 """Markdown related utilities for mdpo."""
 
+import polib
+
+from mdpo.text import min_not_max_chars_in_a_row
+
 
 LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
@@ -30,6 +34,102 @@ def parse_link_references(content):
     return response
 
 
+def span_attribute_text(attribute):
+    """Text of an attribute of a span, as provided by the MD4C parser.
+
+    Args:
+        attribute (list): Tuples with the type and the text of each part of
+            the attribute, or ``None`` if the span does not have it.
+
+    Returns:
+        str: Text of the attribute.
+    """
+    return ''.join(text for _, text in attribute) if attribute else ''
+
+
+def find_link_reference_target(link_references, href, title):
+    """Find the target of the link reference used by a link or an image.
+
+    Args:
+        link_references (list): Link references of the document.
+        href (str): Destination of the link.
+        title (str): Title of the link.
+
+    Returns:
+        str: Link reference target or ``None`` if the link is not referenced.
+    """
+    for target, reference_href, reference_title in link_references:
+        if reference_href == href and (reference_title or '') == title:
+            return target
+    return None
+
+
+def _resource_markup(href, title):
+    if ' ' in href or href.count('(') != href.count(')'):
+        href = f'<{href}>'
+    title_part = f' "{polib.escape(title)}"' if title else ''
+    return f'({href}{title_part})'
+
+
+def link_markup(text, href, title, link_references):
+    """Build the markup of a link.
+
+    Args:
+        text (str): Text of the link.
+        href (str): Destination of the link.
+        title (str): Title of the link.
+        link_references (list): Link references of the document.
+
+    Returns:
+        str: Markdown link.
+    """
+    target = find_link_reference_target(link_references, href, title)
+    if target:
+        return f'[{text}]' if target == text else f'[{text}][{target}]'
+    if text == href and text:
+        # autolink vs link clash (see implementation notes)
+        return f'<{text} "{polib.escape(title)}">' if title else f'<{text}>'
+    return f'[{text}]{_resource_markup(href, title)}'
+
+
+def image_markup(text, src, title, link_references):
+    """Build the markup of an image.
+
+    Args:
+        text (str): Alternative text of the image.
+        src (str): Source of the image.
+        title (str): Title of the image.
+        link_references (list): Link references of the document.
+
+    Returns:
+        str: Markdown image.
+    """
+    target = find_link_reference_target(link_references, src, title)
+    if target:
+        return f'![{text}][{target}]'
+    return f'![{text}]{_resource_markup(src, title)}'
+
+
+def codespan_delimiters(char, text):
+    """Delimiters needed by the text of a code span.
+
+    Args:
+        char (str): Character used to build the delimiters.
+        text (str): Text of the code span.
+
+    Returns:
+        tuple: Number of characters of each delimiter and padding to add to
+        both sides of the text.
+    """
+    padded = text.startswith(char) or text.endswith(char) or (
+        text[:1] == text[-1:] == ' ' and text.strip(' ')
+    )
+    return (
+        min_not_max_chars_in_a_row(char, text),
+        ' ' if padded else '',
+    )
+
+
 def solve_link_reference_targets(translations):
     """Solve link reference targets in markdown blocks.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 71cbc29..4b79d2a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,6 +1,5 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
-import contextlib
 import glob
 import os
 
@@ -18,7 +17,13 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    codespan_delimiters,
+    image_markup,
+    link_markup,
+    parse_link_references,
+    span_attribute_text,
+)
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -29,7 +34,7 @@ from mdpo.po import (
     po_escaped_string,
     remove_not_found_entries,
 )
-from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
+from mdpo.text import parse_wrapwidth_argument
 
 
 class Md2Po:
@@ -118,24 +123,18 @@ class Md2Po:
         'underline_start_string',
         'underline_end_string',
 
-        '_inside_uspan',
+        '_uspans_deep',
         '_inside_htmlblock',
         '_inside_codeblock',
         '_inside_pblock',
-        '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
         '_ols_deep',
         '_inside_hblock',
         '_quoteblocks_deep',
-        '_codespan_start_index',
-        '_codespan_backticks',
-        '_current_aspan_text',
-        '_current_aspan_ref_target',
-        '_current_wikilink_target',
+        '_span_texts',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
-        '_current_imgspan',
         '_uls_deep',
     }
 
@@ -361,10 +360,8 @@ class Md2Po:
                 self._leavespan_replacer[md4c.SpanType.U.value] = \
                     self.underline_end_string
 
-            # optimization to skip checking for
-            # ``self.md4c_generic_parser_kwargs.get('underline')``
-            # inside spans
-            self._inside_uspan = False
+            # underline spans for double '_' character enters two times
+            self._uspans_deep = 0
 
         self._inside_htmlblock = False
         self._inside_codeblock = False
@@ -377,18 +374,11 @@ class Md2Po:
         self._quoteblocks_deep = 0
         self._uls_deep = 0
 
-        self._codespan_start_index = None
-        self._codespan_backticks = None
-
-        self._inside_aspan = False
-        self._current_aspan_text = ''
-        # indicates the target of the current link, which is referenced and
-        # extracted without using MD4C, so we can preserve it as referenced
-        self._current_aspan_ref_target = None
+        # texts of the links, images, code spans and wikilinks being
+        # currently built (nesting), whose markup depends on their content
+        self._span_texts = []
 
         self.link_references = None
-        self._current_wikilink_target = None
-        self._current_imgspan = {}
 
     def _save_msgid(
         self,
@@ -677,6 +667,17 @@ class Md2Po:
                 self._ols_deep -= 1
             self._save_current_msgid()
 
+    def _get_link_references(self):
+        if self.link_references is None:
+            self.link_references = parse_link_references(self.content)
+        return self.link_references
+
+    def _add_text(self, text):
+        if self._span_texts:
+            self._span_texts[-1] += text
+        else:
+            self.current_msgid += text
+
     def enter_span(self, span, details):
         # raise 'enter_span' event
         if raise_skip_event(self.events, 'enter_span', self, span, details):
@@ -691,67 +692,23 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
-        # underline spans for double '_' character enters two times
-        if not self._inside_uspan:
-            if self._inside_aspan:  # span inside link text
-                with contextlib.suppress(KeyError):
-                    self._current_aspan_text += self._enterspan_replacer[
-                        span.value
-                    ]
-            elif span is not md4c.SpanType.LATEXMATH_DISPLAY:
-                with contextlib.suppress(KeyError):
-                    self.current_msgid += (
-                        self._enterspan_replacer[span.value]
-                    )
-
-        if span is md4c.SpanType.A:
-            # here resides the logic of discover if the current link
-            # is referenced
-            if self.link_references is None:
-                self.link_references = parse_link_references(self.content)
-
-            self._inside_aspan = True
-
-            current_aspan_href = details['href'][0][1]
-            self._current_aspan_ref_target = None
-
-            if details['title']:
-                current_aspan_title = details['title'][0][1]
-                for target, href, title in self.link_references:
-                    if (
-                        href == current_aspan_href
-                        and title == current_aspan_title
-                    ):
-                        self._current_aspan_ref_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
-                        self._current_aspan_ref_target = target
-                        break
-
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = True
-
-            # entering a code span, literal backticks encountered inside
-            # will be escaped
-            #
-            # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
-        elif span is md4c.SpanType.IMG:
-            if self.link_references is None:
-                self.link_references = parse_link_references(self.content)
-
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['text'] = ''
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = True
-        elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        if span is md4c.SpanType.U:
+            self._uspans_deep += 1
+
+        if span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
+        elif span is not md4c.SpanType.U or self._uspans_deep == 1:
+            self._add_text(self._enterspan_replacer.get(span.value, ''))
+
+        if span in {
+            md4c.SpanType.A,
+            md4c.SpanType.CODE,
+            md4c.SpanType.IMG,
+            md4c.SpanType.WIKILINK,
+        }:
+            self._span_texts.append('')
+            if span is md4c.SpanType.CODE:
+                self._inside_codespan = True
 
     def leave_span(self, span, details):
         # raise 'leave_span' event
@@ -763,97 +720,65 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
-        if not self._inside_uspan:
-            if span is md4c.SpanType.WIKILINK:
-                self.current_msgid += self._current_wikilink_target
-                self._current_wikilink_target = None
-            if self._inside_aspan:  # span inside link text
-                with contextlib.suppress(KeyError):
-                    self._current_aspan_text += self._leavespan_replacer[
-                        span.value
-                    ]
-            elif not self._inside_latexmath_display:
-                with contextlib.suppress(KeyError):
-                    self.current_msgid += (
-                        self._leavespan_replacer[span.value]
-                    )
-
-        if span is md4c.SpanType.A:
-            if self._current_aspan_ref_target:  # referenced link
-                self.current_msgid += f'[{self._current_aspan_text}]'
-                if self._current_aspan_ref_target != self._current_aspan_text:
-                    self.current_msgid += (
-                        f'[{self._current_aspan_ref_target}]'
-                    )
-                self._current_aspan_ref_target = None
-            else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
-                    # autolink vs link clash (see implementation notes)
-                    self.current_msgid += f'<{self._current_aspan_text}'
-                    if title:
-                        self.current_msgid += f' "{polib.escape(title)}"'
-                    self.current_msgid += '>'
-                else:
-                    title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
-                    self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
-                    )
-            self._inside_aspan = False
-            self._current_aspan_text = ''
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = False
-            self._codespan_start_index = None
-
-            # add backticks at the end for escape internal backticks
-            if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
+        if span in {
+            md4c.SpanType.A,
+            md4c.SpanType.CODE,
+            md4c.SpanType.IMG,
+            md4c.SpanType.WIKILINK,
+        }:
+            text = self._span_texts.pop() if self._span_texts else ''
+
+            if span is md4c.SpanType.A:
+                self._add_text(
+                    link_markup(
+                        text,
+                        span_attribute_text(details['href']),
+                        span_attribute_text(details['title']),
+                        self._get_link_references(),
+                    ),
                 )
-            else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
+            elif span is md4c.SpanType.IMG:
+                self._add_text(
+                    image_markup(
+                        text,
+                        span_attribute_text(details['src']),
+                        span_attribute_text(details['title']),
+                        self._get_link_references(),
+                    ),
+                )
+            elif span is md4c.SpanType.CODE:
+                self._inside_codespan = False
+
+                # literal backticks inside the code are escaped adding more
+                # backticks to the delimiters
+                length, padding = codespan_delimiters(
+                    self.code_start_string,
+                    text,
+                )
+                self._add_text(
+                    f'{self.code_start_string * (length - 1)}{padding}'
+                    f'{text}{padding}{self.code_end_string * (length - 1)}',
                 )
-            self._codespan_backticks = None
-        elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
-            if details['title']:
-                imgspan_title = details['title'][0][1]
-                for target, href, title in self.link_references:
-                    if href == imgspan_src and title == imgspan_title:
-                        referenced_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
-                        referenced_target = target
-                        break
-
-            alt_text = self._current_imgspan['text']
-            img_markup = f'![{alt_text}]'
-            if referenced_target:
-                img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{polib.escape(imgspan_title)}"'
-                img_markup += ')'
-
-            self._current_imgspan = {}
+                target = span_attribute_text(details['target'])
+                # self-referenced wikilinks only have target
+                self._add_text(
+                    target if text == target else f'{target}|{text}',
+                )
 
-            if self._inside_aspan:
-                self._current_aspan_text += img_markup
-            else:
-                self.current_msgid += img_markup
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = False
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        if span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_msgid += self._inside_latexmath_display_text
             self._inside_latexmath_display_text = ''
             self._save_current_msgid()
+        elif (
+            not self._inside_latexmath_display
+            and (span is not md4c.SpanType.U or self._uspans_deep == 1)
+        ):
+            self._add_text(self._leavespan_replacer.get(span.value, ''))
+
+        if span is md4c.SpanType.U:
+            self._uspans_deep -= 1
 
     def text(self, block, text):
         # raise 'text' event
@@ -862,36 +787,9 @@ class Md2Po:
 
         if not self._inside_htmlblock:
             if not self._inside_codeblock:
-                if any([  # softbreaks
-                    self._inside_liblock, self._inside_aspan,
-                ]) and text == '\n':
-                    text = ' '
-                if not self.plaintext:
-                    if self._current_imgspan:
-                        self._current_imgspan['text'] = text
-                        return
-                    if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
-                    elif self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
-                    elif text == self.italic_start_string:
+                text = text.replace('\n', ' ')  # softbreaks
+                if not self.plaintext and not self._inside_codespan:
+                    if text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
                         text = self.code_start_string_escaped
@@ -899,19 +797,10 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
-                if self._inside_pblock or self._inside_hblock:
-                    text = text.replace('\n', ' ')
-                if self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        # not self-referenced wikilink
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text.strip()
                     return
-                self.current_msgid += text
+                self._add_text(text)
             elif not self.disable_next_codeblock and (
                 self.include_codeblocks or self.include_next_codeblock
             ):
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 97952f7..dcccb1b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,7 +1,5 @@
 """Markdown files translator using PO files as reference."""
 
-import contextlib
-
 import md4c
 import md_ulb_pwrap
 import polib
@@ -13,7 +11,13 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    codespan_delimiters,
+    image_markup,
+    link_markup,
+    parse_link_references,
+    span_attribute_text,
+)
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -22,7 +26,6 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
-    min_not_max_chars_in_a_row,
     parse_wrapwidth_argument,
 )
 
@@ -108,23 +111,16 @@ class Po2Md:
         '_inside_liblock',
         '_inside_liblock_first_p',
         '_inside_hblock',
-        '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
-        '_codespan_start_index',
-        '_codespan_backticks',
-        '_codespan_inside_current_msgid',
         '_inside_quoteblock',
-        '_current_aspan_ref_target',
-        '_current_aspan_href',
-        '_current_aspan_text',
-        '_current_imgspan',
+        '_span_texts',
+        '_uspans_deep',
         '_current_thead_aligns',
         '_aimg_title_inside_current_msgid',
         '_ul_marks',
         '_ol_marks',
         '_current_list_type',
-        '_current_wikilink_target',
         'link_references',
     }
 
@@ -259,12 +255,18 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
+        # underline spans for double '_' character enters two times
+        self._uspans_deep = 0
 
+        self._inside_latexmath_display = False
+        if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
+            self._enterspan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_start_string
+            self._leavespan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_end_string
             self.latexmath_display_start_string = kwargs.get(
                 'latexmath_display_start_string',
                 '$$',
@@ -287,19 +289,14 @@ class Po2Md:
         self._inside_liblock_first_p = False
 
         self._inside_codespan = False
-        self._codespan_start_index = None
-        self._codespan_backticks = None
-        self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
 
-        self._inside_aspan = False
-        self._current_aspan_ref_target = None
-        self._current_aspan_href = None
-        self._current_aspan_text = ''
+        # texts of the links, images, code spans and wikilinks being
+        # currently built (nesting), whose markup depends on their content
+        self._span_texts = []
 
         self.link_references = None
-        self._current_imgspan = {}
 
         # current table head alignments
         self._current_thead_aligns = []
@@ -319,8 +316,6 @@ class Po2Md:
         # (second parameter is tasklist item or not)
         self._current_list_type = []
 
-        self._current_wikilink_target = None
-
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
         if raise_skip_event(
@@ -472,7 +467,6 @@ class Po2Md:
         self.disable_next_block = False
         self.enable_next_block = False
 
-        self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
 
     def _save_current_line(self):
@@ -712,6 +706,17 @@ class Po2Md:
                 self.current_line = self.current_line.rstrip('\n')
             self._inside_htmlblock[0] = False
 
+    def _get_link_references(self):
+        if self.link_references is None:
+            self.link_references = parse_link_references(self.content)
+        return self.link_references
+
+    def _add_text(self, text):
+        if self._span_texts:
+            self._span_texts[-1] += text
+        else:
+            self.current_msgid += text
+
     def enter_span(self, span, details):
         # raise 'enter_span' event
         if raise_skip_event(
@@ -723,51 +728,21 @@ class Po2Md:
         ):
             return
 
-        with contextlib.suppress(KeyError):
-            if self._inside_aspan:  # span inside link text
-                self._current_aspan_text += self._enterspan_replacer[span.value]
-            else:
-                self.current_msgid += self._enterspan_replacer[span.value]
-
-        if span is md4c.SpanType.A:
-            self._inside_aspan = True
-
-            if self.link_references is None:
-                self.link_references = parse_link_references(self.content)
-
-            self._current_aspan_href = details['href'][0][1]
-            self._current_aspan_ref_target = None
-
-            if details['title']:
-                current_aspan_title = details['title'][0][1]
-                for target, href, title in self.link_references:
-                    if (
-                        href == self._current_aspan_href
-                        and title == current_aspan_title
-                    ):
-                        self._current_aspan_ref_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
-                        self._current_aspan_ref_target = target
-                        break
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
-            self._codespan_inside_current_msgid = True
-        elif span is md4c.SpanType.IMG:
-            if self.link_references is None:
-                self.link_references = parse_link_references(self.content)
-
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['text'] = ''
-        elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
+        if span is md4c.SpanType.U:
+            self._uspans_deep += 1
+
+        if span is not md4c.SpanType.U or self._uspans_deep == 1:
+            self._add_text(self._enterspan_replacer.get(span.value, ''))
+
+        if span in {
+            md4c.SpanType.A,
+            md4c.SpanType.CODE,
+            md4c.SpanType.IMG,
+            md4c.SpanType.WIKILINK,
+        }:
+            self._span_texts.append('')
+            if span is md4c.SpanType.CODE:
+                self._inside_codespan = True
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -782,86 +757,62 @@ class Po2Md:
         ):
             return
 
-        if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
-            self._current_wikilink_target = None
-
-        if self._inside_aspan:  # span inside link text
-            with contextlib.suppress(KeyError):
-                self._current_aspan_text += self._leavespan_replacer[
-                    span.value
-                ]
-        elif not self._inside_latexmath_display:
-            with contextlib.suppress(KeyError):
-                self.current_msgid += self._leavespan_replacer[span.value]
-
-        if span is md4c.SpanType.A:
-            if self._current_aspan_ref_target:  # referenced link
-                self.current_msgid += f'[{self._current_aspan_text}]'
-                if self._current_aspan_ref_target != self._current_aspan_text:
-                    self.current_msgid += (
-                        f'[{self._current_aspan_ref_target}]'
-                    )
-                self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
-                # autolink vs link clash (see implementation notes)
-                self.current_msgid += f'<{self._current_aspan_text}'
-                if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += '>'
-            elif self._current_aspan_href:
-                self.current_msgid += (
-                    f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
+        if span in {
+            md4c.SpanType.A,
+            md4c.SpanType.CODE,
+            md4c.SpanType.IMG,
+            md4c.SpanType.WIKILINK,
+        }:
+            text = self._span_texts.pop() if self._span_texts else ''
+
+            if span is md4c.SpanType.A:
+                title = span_attribute_text(details['title'])
+                self._aimg_title_inside_current_msgid |= bool(title)
+                self._add_text(
+                    link_markup(
+                        text,
+                        span_attribute_text(details['href']),
+                        title,
+                        self._get_link_references(),
+                    ),
+                )
+            elif span is md4c.SpanType.IMG:
+                self._add_text(
+                    image_markup(
+                        text,
+                        span_attribute_text(details['src']),
+                        span_attribute_text(details['title']),
+                        self._get_link_references(),
+                    ),
+                )
+            elif span is md4c.SpanType.CODE:
+                self._inside_codespan = False
+
+                # literal backticks inside the code are escaped adding more
+                # backticks to the delimiters
+                length, padding = codespan_delimiters(
+                    self.code_start_string,
+                    text,
+                )
+                self._add_text(
+                    f'{self.code_start_string * (length - 1)}{padding}'
+                    f'{text}{padding}{self.code_end_string * (length - 1)}',
                 )
-                if details['title']:
-                    self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
-                    self.current_msgid += f' "{escaped_title}"'
-                self.current_msgid += ')'
-            self._current_aspan_href = None
-            self._inside_aspan = False
-            self._current_aspan_text = ''
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
-            self._codespan_backticks = None
-        elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
-            if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
-                for target, href, title in self.link_references:
-                    if href == imgspan_src and title == imgspan_title:
-                        referenced_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
-                        referenced_target = target
-                        break
-
-            alt_text = self._current_imgspan['text']
-            img_markup = f'![{alt_text}]'
-            if referenced_target:
-                img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
-                if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
-                img_markup += ')'
+                target = span_attribute_text(details['target'])
+                # self-referenced wikilinks only have target
+                self._add_text(
+                    target if text == target else f'{target}|{text}',
+                )
 
-            if self._inside_aspan:
-                self._current_aspan_text += img_markup
-            else:
-                self.current_msgid += img_markup
+        if (
+            not self._inside_latexmath_display
+            and (span is not md4c.SpanType.U or self._uspans_deep == 1)
+        ):
+            self._add_text(self._leavespan_replacer.get(span.value, ''))
 
-            self._current_imgspan = {}
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
+        if span is md4c.SpanType.U:
+            self._uspans_deep -= 1
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
@@ -884,49 +835,17 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
-                    text = ' '
-                if self._current_imgspan:
-                    self._current_imgspan['text'] = text
-                    return
-                if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
-                    )
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
-                elif self._inside_aspan:
-                    self._current_aspan_text += text
-                    return
-                elif text == self.italic_start_string:
-                    text = self.italic_start_string_escaped
-                elif text == self.code_start_string:
-                    text = self.code_start_string_escaped
-                elif text == self.code_end_string:  # pragma: no cover
-                    text = self.code_end_string_escaped
-                elif text == self.italic_end_string:  # pragma: no cover
-                    text = self.italic_end_string_escaped
-
-                if self._inside_pblock or self._inside_hblock:
-                    text = text.replace('\n', ' ')
-                if text == self._current_aspan_href:
-                    # self-referenced wiki or inline link
-                    self._current_aspan_href = None
-
-                elif self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
-                self.current_msgid += text
+                text = text.replace('\n', ' ')  # softbreaks
+                if not self._inside_codespan:
+                    if text == self.italic_start_string:
+                        text = self.italic_start_string_escaped
+                    elif text == self.code_start_string:
+                        text = self.code_start_string_escaped
+                    elif text == self.code_end_string:  # pragma: no cover
+                        text = self.code_end_string_escaped
+                    elif text == self.italic_end_string:  # pragma: no cover
+                        text = self.italic_end_string_escaped
+                self._add_text(text)
             else:
                 if self._inside_liblock:
                     indent = '   ' * len(self._current_list_type)
-- 
2.43.0


From d5c4ea8ec0b4d5ca7ef8e9736a5f519db7b239f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 007/112] fix: keep strikethrough and underline spans in po2md

---
 src/mdpo/po2md/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index dcccb1b..c065ac6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -242,11 +242,11 @@ class Po2Md:
 
         if 'wikilinks' in self.extensions:
             self.wikilink_start_string = kwargs.get(
-                'link_end_string',
+                'wikilink_start_string',
                 self.wikilink_start_string,
             )
             self.wikilink_end_string = kwargs.get(
-                'link_end_string',
+                'wikilink_end_string',
                 self.wikilink_end_string,
             )
 
@@ -255,6 +255,19 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        if 'strikethrough' in self.extensions:
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_start_string', '~~')
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_end_string', '~~')
+
+        if 'underline' in self.extensions:
+            # underline text is standarized with double '_'
+            self._enterspan_replacer[md4c.SpanType.U.value] = kwargs.get(
+                'underline_start_string', '__')
+            self._leavespan_replacer[md4c.SpanType.U.value] = kwargs.get(
+                'underline_end_string', '__')
+
         # underline spans for double '_' character enters two times
         self._uspans_deep = 0
 
-- 
2.43.0


From 30f25df4c64b9be8165a5d36415685c4ea8874be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 008/112] fix: do not extract titles of disabled blocks in
 plaintext mode

---
 src/mdpo/md2po/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 4b79d2a..eb5bc6a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -684,8 +684,11 @@ class Md2Po:
             return
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
-                details['title']:
-            self._save_msgid(details['title'][0][1])
+                details['title'] and (
+                    self.enable_next_block
+                    or not (self.disable or self.disable_next_block)
+        ):
+            self._save_msgid(span_attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From acfa38e2c7d67f72194daf0bc9a93561f4a73f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 009/112] fix: do not leak pending commands from one extracted
 file into the next

---
 src/mdpo/md2po/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index eb5bc6a..efa7743 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -900,6 +900,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -912,6 +913,10 @@ class Md2Po:
                 self.enable_next_block = False
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
+                self.include_codeblocks = include_codeblocks
+                self.current_msgid = ''
+                self.current_msgctxt = None
+                self.current_tcomment = None
                 self.link_references = None
                 self._current_top_level_block_number = 0
                 self._current_top_level_block_type = None
-- 
2.43.0


From 0ecde0e1ed837443c0c4ab848dbbe1d20ddd6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 010/112] fix: apply next block commands, contexts and comments
 to the next message

They were discarded when a block without text, as a thematic break or a list
item containing only a comment, was found before it.
---
 src/mdpo/md2po/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index efa7743..eaa36e4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -480,11 +480,11 @@ class Md2Po:
                         flags=['fuzzy'] if fuzzy else [],
                     ),
                 )
-        self.disable_next_block = False
-        self.enable_next_block = False
-        self.current_msgid = ''
-        self.current_tcomment = None
-        self.current_msgctxt = None
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_msgid = ''
+            self.current_tcomment = None
+            self.current_msgctxt = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
-- 
2.43.0


From bd04e229171f93397234fc12f1a577272541e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 011/112] fix: update catalog entries by context and text,
 filling the empty ones

---
 src/mdpo/md2po/__init__.py | 32 +++++++++++++++++++++-----------
 src/mdpo/po.py             | 33 ++++++++++++---------------------
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index eaa36e4..63a0157 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -426,19 +426,29 @@ class Md2Po:
             if occurrence not in entry.occurrences:
                 entry.occurrences.append(occurrence)
 
-        _equal_entry = find_entry_in_entries(
-            entry,
-            self.pofile,
-            compare_obsolete=False,
-            compare_msgstr=False,
-            compare_occurrences=False,
+        # the current entry of the PO file is preferred over obsolete ones
+        _current_entry, _obsolete_entry = (
+            find_entry_in_entries(
+                entry,
+                (e for e in self.pofile if bool(e.obsolete) is obsolete),
+                compare_obsolete=False,
+                compare_msgstr=False,
+                compare_occurrences=False,
+            ) for obsolete in (False, True)
         )
-
-        if _equal_entry and _equal_entry.msgstr:
-            entry.msgstr = _equal_entry.msgstr
-            if _equal_entry.fuzzy and not entry.fuzzy:
+        if _current_entry:
+            if not _current_entry.msgstr and entry.msgstr:
+                _current_entry.msgstr = entry.msgstr
+                if entry.fuzzy and not _current_entry.fuzzy:
+                    _current_entry.flags.append('fuzzy')
+            entry.msgstr = _current_entry.msgstr
+            if _current_entry.fuzzy and not entry.fuzzy:
                 entry.flags.append('fuzzy')
-        if entry not in self.pofile:
+        else:
+            if _obsolete_entry and _obsolete_entry.msgstr:
+                entry.msgstr = _obsolete_entry.msgstr
+                if _obsolete_entry.fuzzy and not entry.fuzzy:
+                    entry.flags.append('fuzzy')
             self.pofile.append(entry)
         self.found_entries.append(entry)
 
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..f90d02b 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,25 +63,21 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for entry in list(pofile):  # entries could be removed iterating
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_obsolete=False,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
-            _equal_not_obsolete_found = find_entry_in_entries(
-                entry,
-                entries,
-                compare_obsolete=False,
-                compare_occurrences=False,
-            )
-            if _equal_not_obsolete_found:
+            entry.obsolete = True
+            obsolete = True
+        elif entry.obsolete:
+            if entry in pofile:  # there is other not obsolete
                 pofile.remove(entry)
             else:
-                entry.obsolete = True
-                obsolete = True
-        else:
-            entry.obsolete = False
+                entry.obsolete = False
     return obsolete
 
 
@@ -98,16 +94,11 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_obsolete=False,
+            compare_msgstr=False,
             compare_occurrences=False,
-        ):
-            _equal_not_obsolete_found = find_entry_in_entries(
-                entry,
-                entries,
-                compare_obsolete=False,
-                compare_occurrences=False,
-            )
-            if not _equal_not_obsolete_found:
-                entries_to_remove.append(entry)
+        ) or (entry.obsolete and entry in pofile):
+            entries_to_remove.append(entry)
     for entry in entries_to_remove:
         pofile.remove(entry)
 
-- 
2.43.0


From 5ef32046caca6630b153637de85fb44c323a6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 012/112] fix: do not confuse messages without context with
 those of context '0'

---
 src/mdpo/polib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From 9e5e39c9399288b3cec30b09b0752ab52d0088e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 013/112] fix: extract link references without pending contexts
 and comments

---
 src/mdpo/md2po/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 63a0157..b432dd4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -825,6 +825,9 @@ class Md2Po:
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
+            # link references are translated without context
+            self.current_msgctxt = None
+            self.current_tcomment = None
 
             # 'link_reference' event
             pre_events = self.events.get('link_reference')
-- 
2.43.0


From d59d6d4fb564976cfd3011c43f7bb8ce883c6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 014/112] fix: parse titles and destinations of link references
 as the Markdown parser does

---
 src/mdpo/md.py             | 38 +++++++++++++++++++++++++++++++++++---
 src/mdpo/md2po/__init__.py |  7 ++++---
 src/mdpo/po2md/__init__.py |  9 ++++-----
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 7035c61..278f7c2 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -6,7 +6,9 @@ from mdpo.text import min_not_max_chars_in_a_row
 
 
 LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
+    r'^\[([^\]]+)\]:\s+<?((?<=<)[^<>]+(?=>)|[^\s<>]+)>?'
+    r'(?:\s+(?:"((?:\\.|[^"\\])*)"|\'((?:\\.|[^\'\\])*)\''
+    r'|\(((?:\\.|[^()\\])*)\)))?$'
 )
 
 
@@ -23,14 +25,28 @@ def parse_link_references(content):
     import re
 
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
+    code_fence_re = re.compile(r'(`{3,}(?=[^`]*$)|~{3,})(.*)')
 
     response = []
+    code_fence = ''  # inside fenced code blocks there are not references
     for line in content.splitlines():
         linestrip = line.strip()
-        if linestrip and linestrip.startswith('['):
+        match = re.match(code_fence_re, linestrip)
+        if code_fence:
+            if match and not match.group(2) and \
+                    match.group(1).startswith(code_fence):
+                code_fence = ''
+        elif match:
+            code_fence = match.group(1)
+        elif linestrip.startswith('['):
             match = re.search(link_reference_re, linestrip)
             if match:
-                response.append(match.groups())
+                target, href, *titles = match.groups()
+                title = next(filter(None, titles), None)
+                if title:
+                    # backslash escapes
+                    title = re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', title)
+                response.append((target, href, title))
     return response
 
 
@@ -71,6 +87,22 @@ def _resource_markup(href, title):
     return f'({href}{title_part})'
 
 
+def link_reference_markup(target, href, title):
+    """Build the markup of the definition of a link reference.
+
+    Args:
+        target (str): Target of the link reference.
+        href (str): Destination of the link reference.
+        title (str): Title of the link reference.
+
+    Returns:
+        str: Markdown link reference definition.
+    """
+    href_part = f' <{href}>' if ' ' in href else f' {href}'
+    title_part = f' "{polib.escape(title)}"' if title else ''
+    return f'[{target}]:{href_part}{title_part}'
+
+
 def link_markup(text, href, title, link_references):
     """Build the markup of a link.
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index b432dd4..ebc37a0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -21,6 +21,7 @@ from mdpo.md import (
     codespan_delimiters,
     image_markup,
     link_markup,
+    link_reference_markup,
     parse_link_references,
     span_attribute_text,
 )
@@ -841,10 +842,10 @@ class Md2Po:
                     if skip:
                         continue
 
-                self.current_msgid = '[{}]:{}{}'.format(
+                self.current_msgid = link_reference_markup(
                     target,
-                    f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                    href,
+                    title,
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c065ac6..e361a1b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -15,6 +15,7 @@ from mdpo.md import (
     codespan_delimiters,
     image_markup,
     link_markup,
+    link_reference_markup,
     parse_link_references,
     span_attribute_text,
 )
@@ -885,16 +886,14 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
-                href_title = f' {href}{title_part}'
-                if href_title in added_references:
+                if (href, title) in added_references:
                     continue
 
-                msgid = f'[{target}]:{href_title}'
+                msgid = link_reference_markup(target, href, title)
                 self.outputlines.append(
                     self._translate_msgid(msgid, None, None),
                 )
-                added_references.append(href_title)
+                added_references.append((href, title))
             self.outputlines.append('')
 
     def translate(
-- 
2.43.0


From b85b70b761b38fa1536a0a0901116229813f3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 015/112] fix: remove the right entry when there are others
 with context '0'

---
 src/mdpo/po.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index f90d02b..86e67c9 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -48,6 +48,24 @@ def find_entry_in_entries(entry, entries, **kwargs):
     return response
 
 
+def remove_entry(pofile, entry):
+    """Remove an entry from a PO file.
+
+    The method ``remove`` of lists could remove other entry because the
+    comparison of :py:class:`polib.POEntry` does not distinguish between some
+    contexts.
+
+    Args:
+        pofile (:py:class:`polib.POFile`): PO file from which the entry will
+            be removed.
+        entry (:py:class:`polib.POEntry`): Entry to remove.
+    """
+    for i, candidate in enumerate(pofile):
+        if candidate is entry:
+            del pofile[i]
+            break
+
+
 def mark_not_found_entries_as_obsoletes(
     pofile,
     entries,
@@ -75,7 +93,7 @@ def mark_not_found_entries_as_obsoletes(
             obsolete = True
         elif entry.obsolete:
             if entry in pofile:  # there is other not obsolete
-                pofile.remove(entry)
+                remove_entry(pofile, entry)
             else:
                 entry.obsolete = False
     return obsolete
@@ -100,7 +118,7 @@ def remove_not_found_entries(pofile, entries):
         ) or (entry.obsolete and entry in pofile):
             entries_to_remove.append(entry)
     for entry in entries_to_remove:
-        pofile.remove(entry)
+        remove_entry(pofile, entry)
 
 
 def pofiles_to_unique_translations_dicts(pofiles):
-- 
2.43.0


From 1ad4ef717ba4da02dfc859c307fb1d965d50b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 016/112] fix: do not duplicate obsolete entries

---
 src/mdpo/po.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 86e67c9..328430c 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -89,6 +89,17 @@ def mark_not_found_entries_as_obsoletes(
             compare_msgstr=False,
             compare_occurrences=False,
         ):
+            if not entry.obsolete:
+                # this replaces the previous obsolete entry, if any
+                previous = find_entry_in_entries(
+                    entry,
+                    (e for e in pofile if e.obsolete),
+                    compare_obsolete=False,
+                    compare_msgstr=False,
+                    compare_occurrences=False,
+                )
+                if previous:
+                    remove_entry(pofile, previous)
             entry.obsolete = True
             obsolete = True
         elif entry.obsolete:
-- 
2.43.0


From 132aad220d1da14f150a6333bc2428f873439911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 017/112] fix: keep the HTML at the end of the translated
 document

---
 src/mdpo/po2md/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e361a1b..54630f6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,5 +1,7 @@
 """Markdown files translator using PO files as reference."""
 
+import re
+
 import md4c
 import md_ulb_pwrap
 import polib
@@ -869,6 +871,18 @@ class Po2Md:
         elif not self._process_command(text):
             self.current_line += text
 
+    def _save_ending_html(self):
+        # HTML blocks are saved with the next block, so those at the end of
+        # the document are pending. The documents which only have comments
+        # are considered empty.
+        html = self.current_line.strip('\n')
+        if html and (
+            self.outputlines
+            or re.sub('<!--.*?-->', '', html, flags=re.DOTALL).strip()
+        ):
+            self.current_line = f'{html}\n'
+            self._save_current_line()
+
     def _append_link_references(self):
         if self.link_references:
             self.disable_next_block = False
@@ -923,6 +937,7 @@ class Po2Md:
             self.leave_span,
             self.text,
         )
+        self._save_ending_html()
         self._append_link_references()  # add link references to the end
 
         self.disable_next_block = False
-- 
2.43.0


From 506494b68a87bd78d83f3d64056beedce7051150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 018/112] fix: do not join HTML blocks with the next block when
 removing commands

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 54630f6..7b91807 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -295,6 +295,7 @@ class Po2Md:
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
+            0,  # start of the HTML block in the current line
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -599,7 +600,7 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False]
+            self._inside_htmlblock = [True, False, len(self.current_line)]
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -719,7 +720,12 @@ class Po2Md:
             if not self._inside_htmlblock[1]:
                 self.current_line += '\n'
             else:
-                self.current_line = self.current_line.rstrip('\n')
+                # remove the line of the command, unless there is more HTML
+                start = self._inside_htmlblock[2]
+                if self.current_line[start:].strip():
+                    self.current_line += '\n'
+                else:
+                    self.current_line = self.current_line[:start]
             self._inside_htmlblock[0] = False
 
     def _get_link_references(self):
-- 
2.43.0


From 9527e87fcd4c8ee5164ac9ff59a2c24675e4a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 019/112] fix: keep code blocks nested in lists and quotes, and
 their fences and info strings, in po2md

---
 src/mdpo/po2md/__init__.py | 107 +++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7b91807..8d3dff3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -117,6 +117,7 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_inside_quoteblock',
+        '_quoteblock_list_depth',
         '_span_texts',
         '_uspans_deep',
         '_current_thead_aligns',
@@ -308,6 +309,7 @@ class Po2Md:
         self._inside_codespan = False
 
         self._inside_quoteblock = False
+        self._quoteblock_list_depth = 0  # depth of the lists which contains it
 
         # texts of the links, images, code spans and wikilinks being
         # currently built (nesting), whose markup depends on their content
@@ -441,12 +443,7 @@ class Po2Md:
                 ),
             )
 
-        if self._inside_indented_codeblock:
-            new_translation = ''
-            for line in translation.splitlines():
-                new_translation += f'    {line}\n'
-            translation = new_translation
-        else:
+        if not self._inside_codeblock:
             first_line_width_diff = 0
             if self._inside_liblock or self._inside_quoteblock:
                 first_line_width_diff = -2
@@ -460,7 +457,7 @@ class Po2Md:
             # Wrap lines with Unicode Line Break algorithm
             #
             # Only execute it for text outside tables
-            if not self._inside_codeblock and not self._current_thead_aligns:
+            if not self._current_thead_aligns:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
@@ -474,7 +471,7 @@ class Po2Md:
                 ]):
                     translation += '\n'
 
-        if translation.rstrip('\n'):
+        if translation.rstrip('\n') or self._inside_codeblock:
             self.current_line += translation
 
         self.current_msgid = ''
@@ -494,6 +491,50 @@ class Po2Md:
         )
         self.current_line = ''
 
+    def _save_codeblock(self, code, details):
+        lines = code.removesuffix('\n').split('\n')
+        prefix = '   ' * len(self._current_list_type)
+        if self._inside_indented_codeblock:
+            if self._current_list_type and \
+                    self._current_list_type[-1][0] == 'ul':
+                # the content of UL items starts two columns after its mark
+                prefix = prefix[:-1]
+            if self._current_list_type and not self.current_line:
+                # it can't interrupt a paragraph
+                self._save_current_line()
+            lines = [f'    {line}' for line in lines]
+        else:
+            # the fence must be longer than those inside the code
+            fence_char, length = details['fence_char'], 3
+            for line in lines:
+                line = line.lstrip()
+                inner = len(line) - len(line.lstrip(fence_char))
+                length = max(length, inner + 1 if inner >= length else 0)
+            fence = fence_char * length
+            info = span_attribute_text(details['info'])
+            lines = [f'{fence}{info}', *lines, fence]
+
+        if self._inside_quoteblock:
+            depth = self._quoteblock_list_depth * 3
+            prefix = f'{prefix[:depth]}> {prefix[depth:]}'
+
+        for line in lines:
+            self.outputlines.append(
+                f'{self.current_line}{prefix}{line}'
+                if line else f'{self.current_line}{prefix.rstrip()}',
+            )
+            self.current_line = ''
+
+        if self._inside_quoteblock:
+            self._save_quoteblock_separator()
+        elif not self._current_list_type:
+            self._save_current_line()
+
+    def _save_quoteblock_separator(self):
+        indent = '   ' * self._quoteblock_list_depth
+        self.current_line = f'{indent}>'
+        self._save_current_line()
+
     def enter_block(self, block, details):
         # raise 'enter_block' event
         if raise_skip_event(
@@ -516,25 +557,14 @@ class Po2Md:
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
-            self._inside_codeblock = True
-            indent = ''
-
             if self._inside_liblock:
                 self._save_current_msgid()
-                if self.current_line:
+                if self.current_line.strip('> '):
                     self._save_current_line()
-                indent += '   ' * len(self._current_list_type)
-
-            if details['fence_char'] is not None:
-                fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
-                if details['lang']:
-                    self.current_line += details['lang'][0][1]
-            else:
-                self._inside_indented_codeblock = True
-
-            if self.current_line:
-                self._save_current_line()
+            if self._inside_quoteblock:
+                self.current_line = self.current_line.rstrip('> ')
+            self._inside_codeblock = True
+            self._inside_indented_codeblock = details['fence_char'] is None
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
             hash_signs = '#' * details['level']
@@ -596,6 +626,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
+            self._quoteblock_list_depth = len(self._current_list_type)
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -629,28 +660,14 @@ class Po2Md:
 
             self._inside_pblock = False
             if self._inside_quoteblock:
-                self.current_line = '>'
-                self._save_current_line()
+                self._save_quoteblock_separator()
 
         elif block is md4c.BlockType.CODE:
+            pending_line, self.current_line = self.current_line, ''
             self._save_current_msgid()
+            code, self.current_line = self.current_line, pending_line
+            self._save_codeblock(code, details)
             self._inside_codeblock = False
-
-            indent = ''
-            if self._inside_liblock:
-                indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
-            if not self._inside_indented_codeblock:
-                fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
-
-            self._save_current_line()
-            # prevent two newlines after indented code block
-            if not self._inside_liblock and (
-                    not self._inside_indented_codeblock
-            ):
-                self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
             self._save_current_msgid()
@@ -707,7 +724,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1].strip() == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
@@ -869,10 +886,6 @@ class Po2Md:
                         text = self.italic_end_string_escaped
                 self._add_text(text)
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From a9f385b15f64429516532bdb2052356604b4440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 020/112] fix: keep headings, HTML, thematic breaks and ordered
 lists inside list items and quotes in po2md

---
 src/mdpo/po2md/__init__.py | 61 +++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8d3dff3..e2be666 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -495,10 +495,7 @@ class Po2Md:
         lines = code.removesuffix('\n').split('\n')
         prefix = '   ' * len(self._current_list_type)
         if self._inside_indented_codeblock:
-            if self._current_list_type and \
-                    self._current_list_type[-1][0] == 'ul':
-                # the content of UL items starts two columns after its mark
-                prefix = prefix[:-1]
+            prefix = self._list_indent()
             if self._current_list_type and not self.current_line:
                 # it can't interrupt a paragraph
                 self._save_current_line()
@@ -530,6 +527,21 @@ class Po2Md:
         elif not self._current_list_type:
             self._save_current_line()
 
+    def _list_indent(self):
+        indent = '   ' * len(self._current_list_type)
+        if self._current_list_type and self._current_list_type[-1][0] == 'ul':
+            # the content of UL items starts two columns after its mark
+            indent = indent[:-1]
+        return indent
+
+    def _save_tight_item_text(self):
+        # the text of tight list items is not inside a paragraph block
+        if not self._inside_liblock or not self.current_msgid:
+            return False
+        self._save_current_msgid()
+        self._save_current_line()
+        return True
+
     def _save_quoteblock_separator(self):
         indent = '   ' * self._quoteblock_list_depth
         self.current_line = f'{indent}>'
@@ -566,6 +578,9 @@ class Po2Md:
             self._inside_codeblock = True
             self._inside_indented_codeblock = details['fence_char'] is None
         elif block is md4c.BlockType.H:
+            self._save_tight_item_text()
+            if self._current_list_type and not self.current_line.strip('> '):
+                self.current_line += '   ' * len(self._current_list_type)
             self._inside_hblock = True
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
@@ -597,9 +612,12 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if not self._ol_marks:
+                self._save_tight_item_text()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
+            self._save_tight_item_text()
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
             indent = (
@@ -631,6 +649,9 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
+            if not self._save_tight_item_text() and \
+                    self._current_list_type and not self.current_line:
+                self._save_current_line()
             self._inside_htmlblock = [True, False, len(self.current_line)]
 
     def leave_block(self, block, details):
@@ -730,19 +751,31 @@ class Po2Md:
                 self._save_current_line()
             self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
-                self._save_current_line()
+            if not self._current_list_type:
+                if self._inside_quoteblock:
+                    self._save_quoteblock_separator()
+                else:
+                    self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-            if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
-            else:
+            start = self._inside_htmlblock[2]
+            html = self.current_line[start:].strip('\n')
+            if not html.strip() and self._inside_htmlblock[1]:
                 # remove the line of the command, unless there is more HTML
-                start = self._inside_htmlblock[2]
-                if self.current_line[start:].strip():
-                    self.current_line += '\n'
-                else:
-                    self.current_line = self.current_line[:start]
+                self.current_line = self.current_line[:start]
+            elif self._inside_quoteblock or self._current_list_type:
+                self.current_line = self.current_line[:start]
+                for line in html.split('\n'):
+                    if not self.current_line:
+                        if self._inside_quoteblock:
+                            self.current_line += '> '
+                        self.current_line += self._list_indent()
+                    self.current_line += line
+                    self._save_current_line()
+                if self._inside_quoteblock:
+                    self._save_quoteblock_separator()
+            else:
+                self.current_line += '\n'
             self._inside_htmlblock[0] = False
 
     def _get_link_references(self):
-- 
2.43.0


From a92c3407fbb8158d6b493105673091555e39b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 021/112] fix: indent the content of list items after a nested
 list in po2md

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e2be666..672a8ba 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -534,6 +534,12 @@ class Po2Md:
             indent = indent[:-1]
         return indent
 
+    def _leave_list(self):
+        self._current_list_type.pop()
+        # returns to the item which contains the list
+        self._inside_liblock = bool(self._current_list_type)
+        self._inside_liblock_first_p = False
+
     def _save_tight_item_text(self):
         # the text of tight list items is not inside a paragraph block
         if not self._inside_liblock or not self.current_msgid:
@@ -708,14 +714,14 @@ class Po2Md:
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
-            self._current_list_type.pop()
+            self._leave_list()
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
-            self._current_list_type.pop()
+            self._leave_list()
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._ol_marks and self.outputlines[-1]:
-- 
2.43.0


From 15e4f21ca15c8b378ebe25e42751d2aa173bf524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 022/112] fix: prefix the blocks of quotes nested in lists in
 po2md

---
 src/mdpo/po2md/__init__.py | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 672a8ba..4028f83 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -512,8 +512,7 @@ class Po2Md:
             lines = [f'{fence}{info}', *lines, fence]
 
         if self._inside_quoteblock:
-            depth = self._quoteblock_list_depth * 3
-            prefix = f'{prefix[:depth]}> {prefix[depth:]}'
+            prefix = self._quoteblock_prefix()
 
         for line in lines:
             self.outputlines.append(
@@ -534,6 +533,12 @@ class Po2Md:
             indent = indent[:-1]
         return indent
 
+    def _quoteblock_prefix(self):
+        # there could be lists inside the quote and a quote inside lists
+        indent = '   ' * len(self._current_list_type)
+        depth = self._quoteblock_list_depth * 3
+        return f'{indent[:depth]}> {indent[depth:]}'
+
     def _leave_list(self):
         self._current_list_type.pop()
         # returns to the item which contains the list
@@ -586,7 +591,10 @@ class Po2Md:
         elif block is md4c.BlockType.H:
             self._save_tight_item_text()
             if self._current_list_type and not self.current_line.strip('> '):
-                self.current_line += '   ' * len(self._current_list_type)
+                self.current_line = (
+                    self._quoteblock_prefix() if self._inside_quoteblock
+                    else '   ' * len(self._current_list_type)
+                )
             self._inside_hblock = True
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
@@ -630,9 +638,14 @@ class Po2Md:
                 '   ' * len(self._current_list_type)
                 if not self.current_line.startswith(('- ', '> - ')) else ''
             )
+            if self._inside_quoteblock and not self.current_line.strip('> '):
+                self.current_line = self._quoteblock_prefix()
+                indent = ''
             self.current_line += f'{indent}***'
             self._save_current_line()
-            if not self._inside_liblock:
+            if self._inside_quoteblock and self._quoteblock_list_depth:
+                self._save_quoteblock_separator()
+            elif not self._inside_liblock:
                 if self._inside_quoteblock:
                     self.current_line += f'{indent}>'
                 self._save_current_line()
@@ -700,12 +713,15 @@ class Po2Md:
             self._save_current_msgid()
             if self._inside_quoteblock:
                 self._save_current_line()
-                self.current_line += '> '
+                if self._quoteblock_list_depth:
+                    self._save_quoteblock_separator()
+                else:
+                    self.current_line += '> '
+                    self._save_current_line()
+                    self.current_line += '> '
             else:
                 self.current_line += '\n'
-            self._save_current_line()
-            if self._inside_quoteblock:
-                self.current_line += '> '
+                self._save_current_line()
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
@@ -772,14 +788,18 @@ class Po2Md:
             elif self._inside_quoteblock or self._current_list_type:
                 self.current_line = self.current_line[:start]
                 for line in html.split('\n'):
-                    if not self.current_line:
-                        if self._inside_quoteblock:
-                            self.current_line += '> '
-                        self.current_line += self._list_indent()
+                    if not self.current_line.strip('> '):
+                        self.current_line = (
+                            self._quoteblock_prefix()
+                            if self._inside_quoteblock
+                            else self._list_indent()
+                        )
                     self.current_line += line
                     self._save_current_line()
                 if self._inside_quoteblock:
                     self._save_quoteblock_separator()
+                else:
+                    self._save_current_line()
             else:
                 self.current_line += '\n'
             self._inside_htmlblock[0] = False
-- 
2.43.0


From a3ef99efa72c7a111c5fb3e06dfac9189e5ff2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 023/112] fix: end tables nested in lists before headings and
 code in po2md

---
 src/mdpo/po2md/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4028f83..f631ddb 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -545,6 +545,12 @@ class Po2Md:
         self._inside_liblock = bool(self._current_list_type)
         self._inside_liblock_first_p = False
 
+    def _save_nested_table_end(self):
+        # tables nested in lists need a blank line to be interrupted
+        if self._current_list_type and not self.current_line and \
+                self.outputlines and self.outputlines[-1].endswith('|'):
+            self._save_current_line()
+
     def _save_tight_item_text(self):
         # the text of tight list items is not inside a paragraph block
         if not self._inside_liblock or not self.current_msgid:
@@ -586,10 +592,12 @@ class Po2Md:
                     self._save_current_line()
             if self._inside_quoteblock:
                 self.current_line = self.current_line.rstrip('> ')
+            self._save_nested_table_end()
             self._inside_codeblock = True
             self._inside_indented_codeblock = details['fence_char'] is None
         elif block is md4c.BlockType.H:
             self._save_tight_item_text()
+            self._save_nested_table_end()
             if self._current_list_type and not self.current_line.strip('> '):
                 self.current_line = (
                     self._quoteblock_prefix() if self._inside_quoteblock
-- 
2.43.0


From 6892e97c147bdc17f269802a9589118ab72ac54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 024/112] fix: separate code and tables from other blocks of a
 quote in po2md

---
 src/mdpo/po2md/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f631ddb..6f1f512 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -496,7 +496,8 @@ class Po2Md:
         prefix = '   ' * len(self._current_list_type)
         if self._inside_indented_codeblock:
             prefix = self._list_indent()
-            if self._current_list_type and not self.current_line:
+            if self._current_list_type and not self.current_line and \
+                    not self._inside_quoteblock:
                 # it can't interrupt a paragraph
                 self._save_current_line()
             lines = [f'    {line}' for line in lines]
@@ -781,11 +782,11 @@ class Po2Md:
                 self._save_current_line()
             self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._current_list_type:
-                if self._inside_quoteblock:
+            if self._inside_quoteblock:
+                if len(self._current_list_type) == self._quoteblock_list_depth:
                     self._save_quoteblock_separator()
-                else:
-                    self._save_current_line()
+            elif not self._current_list_type:
+                self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             start = self._inside_htmlblock[2]
-- 
2.43.0


From ff545c2e4f63e9c7578b5dd90be89448befcb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 025/112] fix: keep nested quotes in po2md

---
 src/mdpo/po2md/__init__.py | 42 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6f1f512..17c5799 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -117,6 +117,7 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_inside_quoteblock',
+        '_quoteblock_marks',
         '_quoteblock_list_depth',
         '_span_texts',
         '_uspans_deep',
@@ -309,6 +310,7 @@ class Po2Md:
         self._inside_codespan = False
 
         self._inside_quoteblock = False
+        self._quoteblock_marks = ''  # one for each nested quote
         self._quoteblock_list_depth = 0  # depth of the lists which contains it
 
         # texts of the links, images, code spans and wikilinks being
@@ -538,7 +540,7 @@ class Po2Md:
         # there could be lists inside the quote and a quote inside lists
         indent = '   ' * len(self._current_list_type)
         depth = self._quoteblock_list_depth * 3
-        return f'{indent[:depth]}> {indent[depth:]}'
+        return f'{indent[:depth]}{self._quoteblock_marks}{indent[depth:]}'
 
     def _leave_list(self):
         self._current_list_type.pop()
@@ -562,7 +564,7 @@ class Po2Md:
 
     def _save_quoteblock_separator(self):
         indent = '   ' * self._quoteblock_list_depth
-        self.current_line = f'{indent}>'
+        self.current_line = f'{indent}{self._quoteblock_marks}'
         self._save_current_line()
 
     def enter_block(self, block, details):
@@ -580,10 +582,13 @@ class Po2Md:
             and (not self.current_line or self.current_line[0] != '>')
             and not self._current_thead_aligns
             and block not in {
-                md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
+                md4c.BlockType.QUOTE,
+                md4c.BlockType.TABLE,
+                md4c.BlockType.THEAD,
+                md4c.BlockType.TR,
             }
         ):
-            self.current_line += '> '
+            self.current_line += self._quoteblock_marks
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -661,7 +666,7 @@ class Po2Md:
         elif block is md4c.BlockType.TR:
             self.current_line += '   ' * len(self._current_list_type)
             if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += '> '
+                self.current_line += self._quoteblock_marks
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -671,8 +676,10 @@ class Po2Md:
             if self._inside_liblock:
                 self._save_current_msgid()
                 self._save_current_line()
+            if not self._inside_quoteblock:
+                self._quoteblock_list_depth = len(self._current_list_type)
             self._inside_quoteblock = True
-            self._quoteblock_list_depth = len(self._current_list_type)
+            self._quoteblock_marks += '> '
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -725,9 +732,9 @@ class Po2Md:
                 if self._quoteblock_list_depth:
                     self._save_quoteblock_separator()
                 else:
-                    self.current_line += '> '
+                    self.current_line += self._quoteblock_marks
                     self._save_current_line()
-                    self.current_line += '> '
+                    self.current_line += self._quoteblock_marks
             else:
                 self.current_line += '\n'
                 self._save_current_line()
@@ -741,14 +748,14 @@ class Po2Md:
             self._ul_marks.pop()
             self._leave_list()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quoteblock_marks
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._leave_list()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quoteblock_marks
             if not self._ol_marks and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
@@ -761,7 +768,7 @@ class Po2Md:
             # build thead separator
             thead_separator = ''
             if self._inside_quoteblock:
-                thead_separator += '> '
+                thead_separator += self._quoteblock_marks
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -776,11 +783,16 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines and self.outputlines[-1].strip() == '>':
+            separator = self._quoteblock_marks.rstrip()
+            if self.outputlines and self.outputlines[-1].strip() == separator:
                 self.outputlines.pop()
-            if not self._inside_liblock:
-                self._save_current_line()
-            self._inside_quoteblock = False
+            self._quoteblock_marks = self._quoteblock_marks[2:]
+            if self._quoteblock_marks:  # nested quote
+                self._save_quoteblock_separator()
+            else:
+                if not self._inside_liblock:
+                    self._save_current_line()
+                self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
             if self._inside_quoteblock:
                 if len(self._current_list_type) == self._quoteblock_list_depth:
-- 
2.43.0


From 5e13853549579947133789cae8c1d7176d0ca40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 026/112] fix: keep the checkboxes of ordered lists in po2md

---
 src/mdpo/po2md/__init__.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 17c5799..8e8c214 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -450,11 +450,10 @@ class Po2Md:
             if self._inside_liblock or self._inside_quoteblock:
                 first_line_width_diff = -2
                 if self._inside_liblock:
-                    if self._current_list_type[-1][0] == 'ul':
-                        if self._current_list_type[-1][-1][-1] is True:
-                            first_line_width_diff = -6
-                    else:
+                    if self._current_list_type[-1][0] == 'ol':
                         first_line_width_diff = -3
+                    if self._current_list_type[-1][-1][-1:] == [True]:
+                        first_line_width_diff -= 4
 
             # Wrap lines with Unicode Line Break algorithm
             #
@@ -622,15 +621,14 @@ class Po2Md:
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
-                self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}{self._ul_marks[-1]} '
-                if details['is_task']:
-                    mark = details['task_mark']
-                    self.current_line += f'[{mark}] '
-                self._current_list_type[-1][-1].append(details['is_task'])
+            if details['is_task']:
+                mark = details['task_mark']
+                self.current_line += f'[{mark}] '
+            self._current_list_type[-1][-1].append(details['is_task'])
             self._inside_liblock = True
             self._inside_liblock_first_p = True
         elif block is md4c.BlockType.UL:
-- 
2.43.0


From 7ce25f68d1bee1390432c132ccb8ca6c0ef3fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 027/112] fix: do not wrap the text of headings in po2md

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8e8c214..ffdce6b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -457,8 +457,8 @@ class Po2Md:
 
             # Wrap lines with Unicode Line Break algorithm
             #
-            # Only execute it for text outside tables
-            if not self._current_thead_aligns:
+            # Only execute it for text outside tables and headings
+            if not self._current_thead_aligns and not self._inside_hblock:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
-- 
2.43.0


From 06bc7322c70a7f474c401e5044d8301d053dc8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 028/112] fix: keep the blocks of lists inside quotes in po2md

---
 src/mdpo/po2md/__init__.py | 64 +++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ffdce6b..658be99 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -537,10 +537,17 @@ class Po2Md:
 
     def _quoteblock_prefix(self):
         # there could be lists inside the quote and a quote inside lists
-        indent = '   ' * len(self._current_list_type)
         depth = self._quoteblock_list_depth * 3
+        if self._inside_list_of_quoteblock():
+            indent = self._list_indent()
+        else:
+            indent = '   ' * len(self._current_list_type)
         return f'{indent[:depth]}{self._quoteblock_marks}{indent[depth:]}'
 
+    def _inside_list_of_quoteblock(self):
+        return self._inside_quoteblock and \
+            len(self._current_list_type) > self._quoteblock_list_depth
+
     def _leave_list(self):
         self._current_list_type.pop()
         # returns to the item which contains the list
@@ -578,7 +585,7 @@ class Po2Md:
 
         if (
             self._inside_quoteblock
-            and (not self.current_line or self.current_line[0] != '>')
+            and not self.current_line.split('\n')[-1].startswith('>')
             and not self._current_thead_aligns
             and block not in {
                 md4c.BlockType.QUOTE,
@@ -618,6 +625,8 @@ class Po2Md:
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
+                        if self._inside_quoteblock:
+                            self.current_line = self._quoteblock_marks
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
@@ -645,7 +654,10 @@ class Po2Md:
         elif block is md4c.BlockType.HR:
             self._save_tight_item_text()
             if self._current_list_type and not self.current_line:
-                self._save_current_line()
+                if self._inside_quoteblock:
+                    self._save_quoteblock_separator()
+                else:
+                    self._save_current_line()
             indent = (
                 '   ' * len(self._current_list_type)
                 if not self.current_line.startswith(('- ', '> - ')) else ''
@@ -659,12 +671,15 @@ class Po2Md:
                 self._save_quoteblock_separator()
             elif not self._inside_liblock:
                 if self._inside_quoteblock:
-                    self.current_line += f'{indent}>'
+                    self.current_line += f'{indent}{self._quoteblock_marks}'
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
-            self.current_line += '   ' * len(self._current_list_type)
-            if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += self._quoteblock_marks
+            if self._inside_list_of_quoteblock():
+                self.current_line = self._quoteblock_prefix()
+            else:
+                self.current_line += '   ' * len(self._current_list_type)
+                if self._inside_quoteblock and self._current_thead_aligns:
+                    self.current_line += self._quoteblock_marks
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -676,10 +691,17 @@ class Po2Md:
                 self._save_current_line()
             if not self._inside_quoteblock:
                 self._quoteblock_list_depth = len(self._current_list_type)
+            elif not self.current_line.strip('> '):
+                # the marks are added by the blocks of the nested quote
+                self.current_line = ''
             self._inside_quoteblock = True
             self._quoteblock_marks += '> '
         elif block is md4c.BlockType.TABLE:
-            if self._current_list_type and not self._inside_quoteblock:
+            if self._inside_list_of_quoteblock():
+                if not self.current_line.strip('> ') and \
+                        self.outputlines[-1].strip('> '):
+                    self._save_quoteblock_separator()
+            elif self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
             if not self._save_tight_item_text() and \
@@ -702,7 +724,17 @@ class Po2Md:
             self._save_current_msgid()
 
             if self._inside_liblock:
-                if self._inside_quoteblock:
+                if self._inside_list_of_quoteblock():
+                    if self._inside_liblock_first_p:
+                        self._inside_liblock_first_p = False
+                    else:
+                        text = self.current_line[len(self._quoteblock_marks):]
+                        if self.outputlines[-1].strip('> '):
+                            self._save_quoteblock_separator()
+                        self.current_line = (
+                            f'{self._quoteblock_prefix()}{text}'
+                        )
+                elif self._inside_quoteblock:
                     indent = '   ' * len(self._current_list_type)
                     self.current_line = f'{indent}{self.current_line}'
                 elif self._inside_liblock_first_p:
@@ -765,8 +797,12 @@ class Po2Md:
         elif block is md4c.BlockType.THEAD:
             # build thead separator
             thead_separator = ''
-            if self._inside_quoteblock:
-                thead_separator += self._quoteblock_marks
+            if self._inside_list_of_quoteblock():
+                self.current_line = self._quoteblock_prefix()
+            else:
+                self.current_line += '   ' * len(self._current_list_type)
+                if self._inside_quoteblock:
+                    thead_separator += self._quoteblock_marks
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -777,8 +813,7 @@ class Po2Md:
                 else:
                     thead_separator += '| --: '
 
-            indent = '   ' * len(self._current_list_type)
-            self.current_line += f'{indent}{thead_separator}|'
+            self.current_line += f'{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
             separator = self._quoteblock_marks.rstrip()
@@ -793,8 +828,7 @@ class Po2Md:
                 self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
             if self._inside_quoteblock:
-                if len(self._current_list_type) == self._quoteblock_list_depth:
-                    self._save_quoteblock_separator()
+                self._save_quoteblock_separator()
             elif not self._current_list_type:
                 self._save_current_line()
             self._current_thead_aligns = []
-- 
2.43.0


From 8d63220599dd8c1e4fe33dc0a4e0dd7d1c3671ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 029/112] fix: apply next block commands and contexts to the
 next message in po2md

---
 src/mdpo/po2md/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 658be99..4dd9b6d 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -427,6 +427,11 @@ class Po2Md:
         ):
             return
 
+        if not self.current_msgid:
+            # next block commands, contexts and comments apply to
+            # the next message
+            return
+
         if (not self.disable and not self.disable_next_block) or \
                 self.enable_next_block:
             translation = self._translate_msgid(
-- 
2.43.0


From 4e8f24071ea0c600067527eeb2aec8a07664993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 030/112] fix: included messages consume pending commands also
 in po2md

---
 src/mdpo/po2md/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4dd9b6d..a039d42 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -368,6 +368,12 @@ class Po2Md:
                 self.current_msgctxt = comment
             elif mdpo_command == 'mdpo-translator':
                 self.current_tcomment = comment
+            elif mdpo_command == 'mdpo-include':
+                # the included message consumes the pending commands
+                self.disable_next_block = False
+                self.enable_next_block = False
+                self.current_msgctxt = None
+                self.current_tcomment = None
 
     def _process_command(self, text):
         original_command, comment = parse_mdpo_html_command(text)
-- 
2.43.0


From 9bd885dc2670bd8bc49f2391c44e01238bf36c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 031/112] fix: untranslated entries do not hide the
 translations of other PO files

---
 src/mdpo/po.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 328430c..3ef7251 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -149,13 +149,15 @@ def pofiles_to_unique_translations_dicts(pofiles):
     for pofile in pofiles:
         for entry in pofile:
             if entry.msgctxt:
-                if entry.msgctxt not in translations_with_msgctxt:
-                    translations_with_msgctxt[entry.msgctxt] = {}
-                translations_with_msgctxt[
-                    entry.msgctxt
-                ][entry.msgid] = entry.msgstr
+                entries = translations_with_msgctxt.setdefault(
+                    entry.msgctxt,
+                    {},
+                )
             else:
-                translations[entry.msgid] = entry.msgstr
+                entries = translations
+            # untranslated messages don't hide previous translations
+            if entry.msgstr or entry.msgid not in entries:
+                entries[entry.msgid] = entry.msgstr
     return (translations, translations_with_msgctxt)
 
 
-- 
2.43.0


From 09e78a0fa788231d6b0e2cbe4103e6acceceef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 032/112] fix: do not crash with tiny wrap widths in po2md

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a039d42..c3fe41f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -473,7 +473,7 @@ class Po2Md:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
+                    max(self.wrapwidth + first_line_width_diff, 1),
                 )
 
                 if not any([
-- 
2.43.0


From c9e0150bba644ca4f72bc92cf743a7b756fa8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 033/112] fix: do not split nested quotes inside lists in po2md

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c3fe41f..1f1cf67 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -697,7 +697,7 @@ class Po2Md:
         elif block is md4c.BlockType.TD:
             self.current_line += '| '
         elif block is md4c.BlockType.QUOTE:
-            if self._inside_liblock:
+            if self._inside_liblock and not self._inside_quoteblock:
                 self._save_current_msgid()
                 self._save_current_line()
             if not self._inside_quoteblock:
-- 
2.43.0


From 0e728bce1972c2fa08674699fddf51eb5c6dbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 034/112] fix: do not emit two consecutive blank lines inside
 list items in po2md

---
 src/mdpo/po2md/__init__.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1f1cf67..9ebfce5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -496,6 +496,15 @@ class Po2Md:
         self._aimg_title_inside_current_msgid = False
 
     def _save_current_line(self):
+        if (
+            self._current_list_type and not self._inside_quoteblock and
+            not self._inside_codeblock and
+            not self.current_line.strip() and self.outputlines and
+            not self.outputlines[-1].rpartition('\n')[2].strip()
+        ):
+            # two consecutive blank lines would end the list
+            self.current_line = ''
+            return
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
         self.outputlines.append(
@@ -634,7 +643,10 @@ class Po2Md:
                 # inside OL
                 if len(self._ol_marks) > 1:
                     self._save_current_msgid()
-                    if not self._ol_marks[-1][0]:
+                    if self._inside_quoteblock and \
+                            not self.current_line.strip('> '):
+                        self.current_line = self._quoteblock_marks
+                    elif not self._ol_marks[-1][0]:
                         self._save_current_line()
                         if self._inside_quoteblock:
                             self.current_line = self._quoteblock_marks
@@ -654,7 +666,9 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             if self._current_list_type:
                 self._save_current_msgid()
-                self._save_current_line()
+                if not self._inside_quoteblock or \
+                        self.current_line.strip('> '):
+                    self._save_current_line()
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
@@ -849,6 +863,9 @@ class Po2Md:
             if not html.strip() and self._inside_htmlblock[1]:
                 # remove the line of the command, unless there is more HTML
                 self.current_line = self.current_line[:start]
+                if self._inside_quoteblock and \
+                        not self.current_line.strip('> '):
+                    self.current_line = ''
             elif self._inside_quoteblock or self._current_list_type:
                 self.current_line = self.current_line[:start]
                 for line in html.split('\n'):
-- 
2.43.0


From 7225e7f20534f38f1bd76f6fdb779ae644f2841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 035/112] fix: indent the text after other blocks of a list
 item in po2md

---
 src/mdpo/po2md/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9ebfce5..3729404 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -484,6 +484,13 @@ class Po2Md:
                     translation += '\n'
 
         if translation.rstrip('\n') or self._inside_codeblock:
+            if (
+                self._inside_liblock and not self._inside_pblock and
+                not self._inside_quoteblock and
+                not self._inside_codeblock and not self.current_line
+            ):
+                # text after other block inside a tight item
+                self.current_line = '   ' * len(self._current_list_type)
             self.current_line += translation
 
         self.current_msgid = ''
@@ -766,7 +773,9 @@ class Po2Md:
                     self._inside_liblock_first_p = False
                 else:
                     indent = '   ' * len(self._current_list_type)
-                    self.current_line = f'\n{indent}{self.current_line}'
+                    if self.outputlines[-1].rpartition('\n')[2].strip():
+                        indent = f'\n{indent}'
+                    self.current_line = f'{indent}{self.current_line}'
             self._save_current_line()
 
             self._inside_pblock = False
-- 
2.43.0


From 461015199738f57458a06d230fefe58d58cbef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 036/112] fix: keep nested quotes which follow a removed
 command in po2md

---
 src/mdpo/po2md/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3729404..2ab1747 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -872,9 +872,10 @@ class Po2Md:
             if not html.strip() and self._inside_htmlblock[1]:
                 # remove the line of the command, unless there is more HTML
                 self.current_line = self.current_line[:start]
-                if self._inside_quoteblock and \
-                        not self.current_line.strip('> '):
-                    self.current_line = ''
+                if self._inside_quoteblock:
+                    head, sep, marks = self.current_line.rpartition('\n')
+                    if not marks.strip('> '):
+                        self.current_line = f'{head}{sep}'
             elif self._inside_quoteblock or self._current_list_type:
                 self.current_line = self.current_line[:start]
                 for line in html.split('\n'):
-- 
2.43.0


From 253df906a02f5aec1fd8aa791fcd832ba61e9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 037/112] fix: indent the text after other blocks of quoted
 list items in po2md

---
 src/mdpo/po2md/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2ab1747..e4d608e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -486,11 +486,14 @@ class Po2Md:
         if translation.rstrip('\n') or self._inside_codeblock:
             if (
                 self._inside_liblock and not self._inside_pblock and
-                not self._inside_quoteblock and
-                not self._inside_codeblock and not self.current_line
+                not self._inside_codeblock and
+                not self.current_line.strip('> ')
             ):
                 # text after other block inside a tight item
-                self.current_line = '   ' * len(self._current_list_type)
+                if self._inside_list_of_quoteblock():
+                    self.current_line = self._quoteblock_prefix()
+                elif not self._inside_quoteblock:
+                    self.current_line = '   ' * len(self._current_list_type)
             self.current_line += translation
 
         self.current_msgid = ''
-- 
2.43.0


From 3190c8a96759e19549b4da9de6cee8d85ebe2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 038/112] fix: do not separate with blank lines the tight lists
 nested in others of different type

---
 src/mdpo/po2md/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e4d608e..ce18e57 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -816,14 +816,15 @@ class Po2Md:
             self._leave_list()
             if self._inside_quoteblock:
                 self.current_line += self._quoteblock_marks
-            if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
+            if not self._current_list_type and \
+                    self.outputlines[-1].split('\n')[-1]:
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._leave_list()
             if self._inside_quoteblock:
                 self.current_line += self._quoteblock_marks
-            if not self._ol_marks and self.outputlines[-1]:
+            if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
             self._save_current_msgid()
-- 
2.43.0


From c966c31cbd39d92e5d75098a42186b999bf34dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 039/112] fix: do not escape line breaks of titles as backslash
 sequences

---
 src/mdpo/md.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 278f7c2..700f384 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,7 +1,5 @@
 """Markdown related utilities for mdpo."""
 
-import polib
-
 from mdpo.text import min_not_max_chars_in_a_row
 
 
@@ -80,10 +78,16 @@ def find_link_reference_target(link_references, href, title):
     return None
 
 
+def _title_markup(title):
+    # line breaks of titles are kept as blanks, like those of texts
+    title = title.replace('\n', ' ').replace('\\', r'\\').replace('"', r'\"')
+    return f'"{title}"'
+
+
 def _resource_markup(href, title):
     if ' ' in href or href.count('(') != href.count(')'):
         href = f'<{href}>'
-    title_part = f' "{polib.escape(title)}"' if title else ''
+    title_part = f' {_title_markup(title)}' if title else ''
     return f'({href}{title_part})'
 
 
@@ -99,7 +103,7 @@ def link_reference_markup(target, href, title):
         str: Markdown link reference definition.
     """
     href_part = f' <{href}>' if ' ' in href else f' {href}'
-    title_part = f' "{polib.escape(title)}"' if title else ''
+    title_part = f' {_title_markup(title)}' if title else ''
     return f'[{target}]:{href_part}{title_part}'
 
 
@@ -120,7 +124,7 @@ def link_markup(text, href, title, link_references):
         return f'[{text}]' if target == text else f'[{text}][{target}]'
     if text == href and text:
         # autolink vs link clash (see implementation notes)
-        return f'<{text} "{polib.escape(title)}">' if title else f'<{text}>'
+        return f'<{text} {_title_markup(title)}>' if title else f'<{text}>'
     return f'[{text}]{_resource_markup(href, title)}'
 
 
-- 
2.43.0


From 13e1507ea53cb6342ea04a128bcdb83486b7f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 040/112] fix: do not separate the items after nested lists of
 quotes in po2md

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ce18e57..7d93502 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -814,7 +814,7 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._leave_list()
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += self._quoteblock_marks
             if not self._current_list_type and \
                     self.outputlines[-1].split('\n')[-1]:
@@ -822,7 +822,7 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._leave_list()
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += self._quoteblock_marks
             if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
-- 
2.43.0


From e1ed24d7fd97917783284629ac92255dfe2a64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 041/112] fix: do not crash in mdpo2html with contexts unknown
 to the PO files

---
 src/mdpo/mdpo2html/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ca6654c..8a8599c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -262,9 +262,10 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt,
+                    {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From b580edcb792aa9acaa60d992e17dd215da58eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 042/112] fix: keep escaped the values of attributes in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8a8599c..ae48781 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -43,7 +43,7 @@ def _html_attrs_to_str(attrs):
     for name, value in attrs.items():
         response += name
         if value is not None:
-            response += f'="{value}"'
+            response += f'="{html.escape(value)}"'
         response += ' '
     return response.rstrip(' ')
 
-- 
2.43.0


From 7cc479733d3247d7a80bfcc5ad6e1ed293810a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 043/112] fix: keep escaped the text outside translated
 elements in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ae48781..7318cdf 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -376,6 +376,9 @@ class MdPo2HTML(HTMLParser):
                 )
                 or not self.context
             ):
+                if self.cdata_elem is None:
+                    # character references have been converted by the parser
+                    data = html.escape(data, quote=False)
                 self.output += data
             else:
                 if self.context:
-- 
2.43.0


From f88b5e3e3721fab1b82742257e6db2a5fbbd2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 044/112] fix: keep declarations and processing instructions in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 7318cdf..12a859c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -385,6 +385,12 @@ class MdPo2HTML(HTMLParser):
                     data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
+    def handle_decl(self, decl):
+        self.output += f'<!{decl}>'
+
+    def handle_pi(self, data):
+        self.output += f'<?{data}>'
+
     def handle_comment(self, data):
 
         if self.replacer:
-- 
2.43.0


From 87872fa859ece1261a50748eb87726ffd049461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 045/112] fix: translate links with markup inside or at the end
 of the text in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 12a859c..c9616a9 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -155,7 +155,7 @@ class MdPo2HTML(HTMLParser):
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
 
-        _current_link_target = ''
+        _current_link_targets = []
 
         _last_start_tag = None
         _last_end_tag = None
@@ -178,12 +178,13 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags:
+                elif handled in self.link_tags and 'href' in attrs:
                     title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
+                    _current_link_target = f'({href}'
                     if title:
                         _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
+                    _current_link_targets.append(f'{_current_link_target})')
+                    _current_replacement += '['
 
                     raw_html_template += f'<{handled}'
 
@@ -211,13 +212,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += handled
                 else:
                     raw_html_template += '{}'
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    _current_replacement += handled
             elif handle == 'end':
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
@@ -226,6 +221,8 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
+                elif handled in self.link_tags and _current_link_targets:
+                    _current_replacement += f']{_current_link_targets.pop()}'
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
                     _inside_code = False
@@ -280,14 +277,19 @@ class MdPo2HTML(HTMLParser):
 
         html_before_first_replacement = raw_html_template.split('{')[0]
         html_after_last_replacement = raw_html_template.split('}')[-1]
-        for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
+        for tags_group in [
+            self.bold_tags,
+            self.italic_tags,
+            self.code_tags,
+            self.link_tags,
+        ]:
             for tag in tags_group:
-                html_before_first_replacement = \
-                    html_before_first_replacement.split(f'<{tag}>')[0]
+                html_before_first_replacement = re.split(
+                    f'<{re.escape(tag)}[ >]',
+                    html_before_first_replacement,
+                )[0]
                 html_after_last_replacement = \
                     html_after_last_replacement.split(f'</{tag}>')[-1]
-            html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
 
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
-- 
2.43.0


From 41f72f53b7d2de64e02a6431e3fb78803e92dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 046/112] fix: translate images without self-closing slash in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c9616a9..c171a6b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -315,7 +315,10 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
-        if tag in self.ignore_grouper_tags:
+        if tag in self.image_tags:
+            # images don't have end tag
+            self.handle_startendtag(tag, attrs)
+        elif tag in self.ignore_grouper_tags:
             self.context.append(tag)
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-- 
2.43.0


From 1d87aa29aaa62e5f1df6f8c3adcb5028b0ae7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 047/112] fix: keep ordered lists in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c171a6b..e62c72c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -326,7 +326,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
+            or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
             attrs_repr = (
@@ -356,7 +356,9 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in [
+            'ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody',
+        ]:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From 8554509f294248c781d7eba78ceece09f7aadaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 048/112] fix: do not close twice the elements with paragraphs
 inside in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e62c72c..b8f1572 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -353,6 +353,9 @@ class MdPo2HTML(HTMLParser):
                 self.context.pop()
         elif self.context and self.context[0] in self.ignore_grouper_tags:
             self.output += f'</{tag}>'
+        elif tag in PROCESS_REPLACER_TAGS and not self.replacer:
+            # its content has been processed by an inner element
+            self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-- 
2.43.0


From d73bc2892086ed08cfd2f430e64dfd11bc6db89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 049/112] fix: translate the text which follows <hr> in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index b8f1572..ea7ce15 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -319,7 +319,8 @@ class MdPo2HTML(HTMLParser):
             # images don't have end tag
             self.handle_startendtag(tag, attrs)
         elif tag in self.ignore_grouper_tags:
-            self.context.append(tag)
+            if tag != 'hr':  # doesn't have end tag
+                self.context.append(tag)
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
-- 
2.43.0


From 1621af869211353c5d3c69ab3693b10b4ba6a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 050/112] fix: do not duplicate elements without text in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ea7ce15..0e167ac 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -244,6 +244,11 @@ class MdPo2HTML(HTMLParser):
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
+        if '{}' not in raw_html_template:  # there is not any text
+            self.output += raw_html_template
+            self.context = []
+            return
+
         _current_replacement = html.unescape(_current_replacement)
 
         if (self.disable and not self.enable_next_block) \
-- 
2.43.0


From 61f0a12872250a449583a302a03b146dde6db90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 051/112] fix: translate separately the text of list items and
 their nested blocks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 0e167ac..a21e7ee 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -320,6 +320,13 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
+        if self.replacer and (
+            tag in self.ignore_grouper_tags
+            or tag in {'ul', 'ol', 'blockquote', 'table', 'pre'}
+        ):
+            # text of an element before a nested block
+            self._process_replacer()
+
         if tag in self.image_tags:
             # images don't have end tag
             self.handle_startendtag(tag, attrs)
-- 
2.43.0


From c3ee56405702fa6dbeeb3fd00168b2ae7806a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 052/112] fix: keep code blocks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index a21e7ee..6255fdd 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -318,11 +318,15 @@ class MdPo2HTML(HTMLParser):
         self.enable_next_block = False
         self.current_msgctxt = None
 
+    def _is_grouper_tag(self, tag):
+        # code blocks are not translated
+        return tag == 'pre' or tag in self.ignore_grouper_tags
+
     def handle_starttag(self, tag, attrs):
 
         if self.replacer and (
-            tag in self.ignore_grouper_tags
-            or tag in {'ul', 'ol', 'blockquote', 'table', 'pre'}
+            self._is_grouper_tag(tag)
+            or tag in {'ul', 'ol', 'blockquote', 'table'}
         ):
             # text of an element before a nested block
             self._process_replacer()
@@ -330,7 +334,7 @@ class MdPo2HTML(HTMLParser):
         if tag in self.image_tags:
             # images don't have end tag
             self.handle_startendtag(tag, attrs)
-        elif tag in self.ignore_grouper_tags:
+        elif self._is_grouper_tag(tag):
             if tag != 'hr':  # doesn't have end tag
                 self.context.append(tag)
             attrs_repr = (
@@ -338,7 +342,7 @@ class MdPo2HTML(HTMLParser):
             )
             self.output += f'<{tag}{attrs_repr}>'
         elif (
-            (self.context and self.context[0] in self.ignore_grouper_tags)
+            (self.context and self._is_grouper_tag(self.context[0]))
             or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
@@ -360,11 +364,11 @@ class MdPo2HTML(HTMLParser):
 
     def handle_endtag(self, tag):
 
-        if tag in self.ignore_grouper_tags:
+        if self._is_grouper_tag(tag):
             self.output += f'</{tag}>'
             if self.context:
                 self.context.pop()
-        elif self.context and self.context[0] in self.ignore_grouper_tags:
+        elif self.context and self._is_grouper_tag(self.context[0]):
             self.output += f'</{tag}>'
         elif tag in PROCESS_REPLACER_TAGS and not self.replacer:
             # its content has been processed by an inner element
@@ -395,7 +399,7 @@ class MdPo2HTML(HTMLParser):
                 not self.replacer
                 or (
                     self.context
-                    and self.context[0] in self.ignore_grouper_tags
+                    and self._is_grouper_tag(self.context[0])
                 )
                 or not self.context
             ):
-- 
2.43.0


From a6397f16ac5c0beec5ad0f1b60ad12be25c9bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 053/112] fix: build the destinations and titles of links as
 md2po does in mdpo2html

---
 src/mdpo/md.py                 |  6 +++---
 src/mdpo/mdpo2html/__init__.py | 17 +++++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 700f384..4847599 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -84,7 +84,7 @@ def _title_markup(title):
     return f'"{title}"'
 
 
-def _resource_markup(href, title):
+def resource_markup(href, title):
     if ' ' in href or href.count('(') != href.count(')'):
         href = f'<{href}>'
     title_part = f' {_title_markup(title)}' if title else ''
@@ -125,7 +125,7 @@ def link_markup(text, href, title, link_references):
     if text == href and text:
         # autolink vs link clash (see implementation notes)
         return f'<{text} {_title_markup(title)}>' if title else f'<{text}>'
-    return f'[{text}]{_resource_markup(href, title)}'
+    return f'[{text}]{resource_markup(href, title)}'
 
 
 def image_markup(text, src, title, link_references):
@@ -143,7 +143,7 @@ def image_markup(text, src, title, link_references):
     target = find_link_reference_target(link_references, src, title)
     if target:
         return f'![{text}][{target}]'
-    return f'![{text}]{_resource_markup(src, title)}'
+    return f'![{text}]{resource_markup(src, title)}'
 
 
 def codespan_delimiters(char, text):
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 6255fdd..65754be 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -16,7 +16,7 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import resource_markup, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -180,10 +180,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags and 'href' in attrs:
                     title, href = attrs.get('title'), attrs['href']
-                    _current_link_target = f'({href}'
-                    if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_targets.append(f'{_current_link_target})')
+                    _current_link_targets.append(resource_markup(href, title))
                     _current_replacement += '['
 
                     raw_html_template += f'<{handled}'
@@ -231,11 +228,11 @@ class MdPo2HTML(HTMLParser):
             elif handle == 'startend':
                 if handled in self.image_tags:
                     alt, src = attrs.get('alt', ''), attrs['src']
-                    _current_replacement += f'![{alt}]({src}'
-                    title = attrs.get('title')
-                    if title:
-                        _current_replacement += f' "{title}"'
-                    _current_replacement += ')'
+                    _current_replacement += f'![{alt}]'
+                    _current_replacement += resource_markup(
+                        src,
+                        attrs.get('title'),
+                    )
 
                     raw_html_template += '{}'
                 else:
-- 
2.43.0


From ea33be6b041d98f08c5a2c970f4f0965fb3e229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 054/112] fix: keep braces inside attributes in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 65754be..5056e37 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -27,6 +27,7 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+REPLACEMENT_MARK = '\0'
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -183,16 +184,8 @@ class MdPo2HTML(HTMLParser):
                     _current_link_targets.append(resource_markup(href, title))
                     _current_replacement += '['
 
-                    raw_html_template += f'<{handled}'
-
-                    for attr in attrs:
-                        if attr in ['title', 'href']:
-                            raw_html_template += f' {attr}="{{}}"'
-                        #     These attributes are not included in output
-                    # if attrs_except_href_title:
-                    # raw_html_template += _html_attrs_to_str(
-                    #     attrs_except_href_title) + '>'
-                    raw_html_template += '>'
+                    # other attributes are not included in output
+                    raw_html_template += f'<{handled}>'
                 else:
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
@@ -208,7 +201,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += handled
                     _current_replacement += handled
                 else:
-                    raw_html_template += '{}'
+                    raw_html_template += REPLACEMENT_MARK
                     _current_replacement += handled
             elif handle == 'end':
                 raw_html_template += f'</{handled}>'
@@ -234,14 +227,14 @@ class MdPo2HTML(HTMLParser):
                         attrs.get('title'),
                     )
 
-                    raw_html_template += '{}'
+                    raw_html_template += REPLACEMENT_MARK
                 else:
                     attrs_repr = (
                         f' {_html_attrs_to_str(attrs)}' if attrs else ''
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
-        if '{}' not in raw_html_template:  # there is not any text
+        if REPLACEMENT_MARK not in raw_html_template:  # there is not any text
             self.output += raw_html_template
             self.context = []
             return
@@ -277,8 +270,12 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
-        html_before_first_replacement = raw_html_template.split('{')[0]
-        html_after_last_replacement = raw_html_template.split('}')[-1]
+        html_before_first_replacement = raw_html_template.split(
+            REPLACEMENT_MARK,
+        )[0]
+        html_after_last_replacement = raw_html_template.split(
+            REPLACEMENT_MARK,
+        )[-1]
         for tags_group in [
             self.bold_tags,
             self.italic_tags,
-- 
2.43.0


From e870aefec487b2e028dcb5802483f4aa5862e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 055/112] fix: do not rewrite untranslated elements in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5056e37..511aaba 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -155,6 +155,7 @@ class MdPo2HTML(HTMLParser):
 
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
+        original_html = ''
 
         _current_link_targets = []
 
@@ -169,6 +170,7 @@ class MdPo2HTML(HTMLParser):
                 attrs_repr = (
                     f' {_html_attrs_to_str(attrs)}' if attrs else ''
                 )
+                original_html += f'<{handled}{attrs_repr}>'
 
                 if handled in self.code_tags:
                     _current_replacement += '`'
@@ -197,6 +199,7 @@ class MdPo2HTML(HTMLParser):
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
 
+                original_html += html.escape(handled, quote=False)
                 if all((ch in ALIGNMENT_CHARS) for ch in handled):
                     raw_html_template += handled
                     _current_replacement += handled
@@ -204,6 +207,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += REPLACEMENT_MARK
                     _current_replacement += handled
             elif handle == 'end':
+                original_html += f'</{handled}>'
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
                     _current_replacement += '`'
@@ -217,8 +221,13 @@ class MdPo2HTML(HTMLParser):
                 if _last_end_tag == 'code':
                     _inside_code = False
             elif handle == 'comment':
+                original_html += f'<!--{handled}-->'
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
+                attrs_repr = (
+                    f' {_html_attrs_to_str(attrs)}' if attrs else ''
+                )
+                original_html += f'<{handled}{attrs_repr}/>'
                 if handled in self.image_tags:
                     alt, src = attrs.get('alt', ''), attrs['src']
                     _current_replacement += f'![{alt}]'
@@ -229,9 +238,6 @@ class MdPo2HTML(HTMLParser):
 
                     raw_html_template += REPLACEMENT_MARK
                 else:
-                    attrs_repr = (
-                        f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                    )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if REPLACEMENT_MARK not in raw_html_template:  # there is not any text
@@ -243,11 +249,11 @@ class MdPo2HTML(HTMLParser):
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
-            replacement = _current_replacement
+            replacement = None
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
@@ -260,9 +266,6 @@ class MdPo2HTML(HTMLParser):
                 ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
-
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
                 if tt in tags_group:
@@ -290,14 +293,17 @@ class MdPo2HTML(HTMLParser):
                 html_after_last_replacement = \
                     html_after_last_replacement.split(f'</{tag}>')[-1]
 
-        html_inner = '\n'.join(
-            self.html_renderer.parse(replacement).split('\n')[:-1],
-        )
-        html_inner = '>'.join(html_inner.split('>')[1:])
-        html_inner = '<'.join(html_inner.split('<')[:-1])
+        if replacement:
+            html_inner = '\n'.join(
+                self.html_renderer.parse(replacement).split('\n')[:-1],
+            )
+            html_inner = '>'.join(html_inner.split('>')[1:])
+            html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
+            html_template = html_before_first_replacement + html_inner + \
+                html_after_last_replacement
+        else:  # untranslated
+            html_template = original_html
 
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
-- 
2.43.0


From 0c3f93dea6697d8c227c79d62a3b763b427988f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 056/112] fix: accept paths to files with glob characters

---
 src/mdpo/io.py                | 15 ++++++++++++++-
 src/mdpo/md2po/__init__.py    |  4 ++--
 src/mdpo/md2po2md/__init__.py |  6 +++---
 src/mdpo/po.py                |  6 ++----
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..b82c208 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -57,6 +57,19 @@ def filter_paths(filepaths, ignore_paths=frozenset()):
     return response
 
 
+def glob_or_file(value):
+    """Paths that match a glob, which could be the path of an existing file.
+
+    Args:
+        value (str): Glob or path to a file, whose name could contain the
+            special characters of globs.
+
+    Returns:
+        list: Paths to the files that match.
+    """
+    return [value] if os.path.isfile(value) else glob.glob(value)
+
+
 def to_file_content_if_is_file(value, encoding='utf-8'):
     """Check if the value passed is a file path or string content.
 
@@ -92,7 +105,7 @@ def to_files_or_content(value):
         a list of files is passed or a string).
     """
     try:
-        parsed = glob.glob(value)
+        parsed = glob_or_file(value)
     except TypeError:
         # inferes list
         return (True, value)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ebc37a0..00056ff 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,6 +1,5 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
-import glob
 import os
 
 import md4c
@@ -14,6 +13,7 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
     filter_paths,
     flatten,
+    glob_or_file,
     save_file_checking_file_changed,
     to_files_or_content,
 )
@@ -143,7 +143,7 @@ class Md2Po:
         is_glob, files_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                flatten(map(glob_or_file, files_or_content)),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..0ea0867 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -1,8 +1,8 @@
 """Markdown to PO file to Markdown translator."""
 
-import glob
 import os
 
+from mdpo.io import glob_or_file
 from mdpo.md2po import Md2Po
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
+        input_paths_glob_ = glob_or_file(input_paths_glob)
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
@@ -149,7 +149,7 @@ def markdown_to_pofile_to_markdown(
 
             # md2po
             md2po = Md2Po(
-                filepath,
+                [filepath],
                 extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 3ef7251..f2def49 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,8 @@
 """PO files related stuff."""
 
-import glob
-
 import polib
 
-from mdpo.io import filter_paths
+from mdpo.io import filter_paths, glob_or_file
 from mdpo.polib import poentry__cmp__
 
 
@@ -180,7 +178,7 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
 
     for pofiles_glob in pofiles_globs:
         for po_filepath in filter_paths(
-            glob.glob(pofiles_glob),
+            glob_or_file(pofiles_glob),
             ignore_paths=ignore,
         ):
             if po_filepath not in _po_filepaths:
-- 
2.43.0


From e13f05f2d987effb3e1737f51fa29020d931bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 057/112] fix: wrap PO files by the width passed to md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 0ea0867..223fab3 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
-- 
2.43.0


From 8f2bff659bb82bd9d2a5cb51c8672aeb04979073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 058/112] fix: use the extensions passed to md2po2md in
 translations

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 223fab3..5c01ba7 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -176,7 +176,7 @@ def markdown_to_pofile_to_markdown(
                 po_encoding=po_encoding,
                 wrapwidth=md_wrapwidth,
                 _check_saved_files_changed=_check_saved_files_changed,
-                **(po2md_kwargs or {}),
+                **{'extensions': extensions, **(po2md_kwargs or {})},
             )
             po2md.translate(
                 filepath,
-- 
2.43.0


From 6421fb09097bb663eb765402f1d85920b9ab99b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 059/112] fix: accept the extension placeholder in output
 schemas of md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 5c01ba7..2404f0e 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -118,7 +118,7 @@ def markdown_to_pofile_to_markdown(
 
             file_basename = os.path.splitext(os.path.basename(filepath))[0]
 
-            format_kwargs = {'lang': lang}
+            format_kwargs = {'lang': lang, 'ext': 'po'}
             if '{basename}' in output_paths_schema:
                 format_kwargs['basename'] = file_basename
             po_filepath = output_paths_schema.format(**format_kwargs)
-- 
2.43.0


From 896cb40ff85a5e4d6db96bd8c60fb7c61ab776b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 060/112] fix: compare the saved bytes in check mode

---
 src/mdpo/io.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index b82c208..623fe8e 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -3,6 +3,7 @@
 import glob
 import os
 from contextlib import contextmanager
+from io import BytesIO, TextIOWrapper
 
 
 @contextmanager
@@ -131,18 +132,22 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     Returns:
         bool: If the PO file content has been changed.
     """
-    if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
-        return True
-
-    with open(filepath, encoding=encoding) as f:
-        prev_content = f.read()
-    changed = prev_content != content
-    if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
-    return changed
+    buffer = BytesIO()
+    with TextIOWrapper(buffer, encoding=encoding) as f:
+        f.write(content)
+        f.flush()
+        new_content = buffer.getvalue()
+
+    # files are compared without decoding them because their content
+    # could differ only in the line endings or the encoding
+    if os.path.isfile(filepath):
+        with open(filepath, 'rb') as f:
+            if f.read() == new_content:
+                return False
+
+    with open(filepath, 'wb') as f:
+        f.write(new_content)
+    return True
 
 
 def flatten(xss):
-- 
2.43.0


From b6878f0f46824c4914dca97ef69f43b7776c393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 061/112] fix: report changes in MO files in check mode

---
 src/mdpo/md2po/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 00056ff..4a37cf5 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -959,7 +959,16 @@ class Md2Po:
             else:
                 self.pofile.save(fpath=po_filepath)
         if mo_filepath:
-            self.pofile.save_as_mofile(mo_filepath)
+            if self._saved_files_changed is False:
+                prev_content = None
+                if os.path.isfile(mo_filepath):
+                    with open(mo_filepath, 'rb') as f:
+                        prev_content = f.read()
+                self.pofile.save_as_mofile(mo_filepath)
+                with open(mo_filepath, 'rb') as f:
+                    self._saved_files_changed = f.read() != prev_content
+            else:
+                self.pofile.save_as_mofile(mo_filepath)
         return self.pofile
 
 
-- 
2.43.0


From c244a4609d1b3febf7e4a64a3d678d4e47e65ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 062/112] fix: do not crash checking the entries of PO files in
 po2md and mdpo2html CLIs

---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..52a2b67 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -129,7 +129,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -152,7 +152,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -169,8 +169,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..130c19b 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,7 +176,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -193,8 +193,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 3c48d6d791747bbe05e51e3f848b67f5eaf579dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 063/112] fix: keep the order of the PO files and languages
 passed to CLIs

---
 src/mdpo/md2po2md/__main__.py  | 3 ++-
 src/mdpo/mdpo2html/__main__.py | 2 +-
 src/mdpo/po2md/__main__.py     | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po2md/__main__.py b/src/mdpo/md2po2md/__main__.py
index 72ae6e6..dfd6769 100755
--- a/src/mdpo/md2po2md/__main__.py
+++ b/src/mdpo/md2po2md/__main__.py
@@ -113,7 +113,8 @@ def parse_options(args):
         sys.exit(1)
     opts.input_paths_glob = input_paths_glob
 
-    opts.langs = set(itertools.chain(*opts.langs))  # flatten
+    # flatten, without repeated languages
+    opts.langs = list(dict.fromkeys(itertools.chain(*opts.langs)))
 
     if opts.extensions is None:
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 52a2b67..3ea0524 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -93,7 +93,7 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 130c19b..b77dd23 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -111,7 +111,7 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
-- 
2.43.0


From 7bf15fc74fbb8aa04034c23772ee76314b99340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 064/112] fix: do not crash checking entries in md2po CLI
 without PO file

---
 src/mdpo/md2po/__main__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..166ba46 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -6,6 +6,7 @@ See :ref:`md2po CLI<cli:md2po>`.
 """
 
 import argparse
+import os
 import sys
 
 from mdpo.cli import (
@@ -239,9 +240,14 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and md2po._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = (
+            (opts.po_filepath,)
+            if opts.po_filepath and os.path.isfile(opts.po_filepath) else ()
+        )
+
         if opts.no_obsolete:
             locations = list(check_obsolete_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -258,7 +264,7 @@ def run(args=frozenset()):
 
         if opts.no_fuzzy:
             locations = list(check_fuzzy_entries_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -276,7 +282,7 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From b415817ecd52f5db3ed75e4f569142dba1970320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 065/112] fix: accept several handlers for an event in CLIs

---
 src/mdpo/cli.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..21d169e 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,12 +329,20 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
-        event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        event_name, colon, filefunc = event_name_filefunc.partition(':')
+        if not colon:
+            sys.stderr.write(
+                f"The value '{event_name_filefunc}' passed to argument"
+                " -e/--event can't be parsed. Please, separate the pair"
+                " '<event_name:path/to/file.py::function>' with a ':'"
+                ' character.\n',
+            )
+            sys.exit(1)
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From 2045a95b09aac244e8ddd81ce0f031fcd9372bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 066/112] fix: do not confuse the files of event handlers with
 other modules

---
 src/mdpo/event.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..83ef77f 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -175,7 +175,10 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
+                # the name must not be the same as that of other modules
+                modname = os.path.splitext(
+                    os.path.abspath(fpath),
+                )[0].replace(os.sep, '.')
                 if modname in sys.modules:
                     mod = sys.modules[modname]
                 else:
-- 
2.43.0


From c5eab5ad46bdab4e2f01a51c36685f4d00d7e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 067/112] fix: include the generator header in plaintext mode
 without changing the metadata passed

---
 src/mdpo/md2po/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 4a37cf5..b7ec9c1 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -237,7 +237,13 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
+        _include_xheader = kwargs.get('xheader', False)
+
+        if _include_xheader:
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
@@ -273,13 +279,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From abfff65e5d98b3c9a2b958700bf718180c8e1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 068/112] fix: unescape all the escaped separators of keys

---
 src/mdpo/text.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..7209fbe 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -76,15 +76,20 @@ def parse_escaped_pair(value, separator=':'):
         tuple: Parsed key-value pair.
     """
     import re
+    escaped_separator = re.escape(separator)
     splits = re.split(
-        re.compile(fr'([^\\]{separator})'),
+        re.compile(fr'([^\\]{escaped_separator})'),
         value.lstrip('\\'),
         maxsplit=1,
     )
     if len(splits) == 1:
         raise ValueError()
     return (
-        (splits[0] + splits[1][0]).replace(rf'\\{separator}', separator, 1),
+        re.sub(
+            rf'\\+{escaped_separator}',
+            lambda _: separator,
+            splits[0] + splits[1][0],
+        ),
         splits[2].lstrip(),
     )
 
-- 
2.43.0


From 819f72c75b336f64ba2a7206b1fbb07a78896de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 069/112] fix: do not join with the next messages those skipped
 by events

---
 src/mdpo/md2po/__init__.py | 2 ++
 src/mdpo/po2md/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index b7ec9c1..196a6ee 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -468,6 +468,8 @@ class Md2Po:
             self.current_tcomment,
             ['fuzzy'] if fuzzy else [],
         ):
+            # don't join the message with the next one
+            self.current_msgid = ''
             return
 
         if self.current_msgid:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7d93502..d835414 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -431,6 +431,8 @@ class Po2Md:
             self.current_tcomment,
             [],
         ):
+            # don't join the message with the next one
+            self.current_msgid = ''
             return
 
         if not self.current_msgid:
-- 
2.43.0


From d50f14eee410eb5702a7d722f2bc08069e3b6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 070/112] fix: do not read as files the directories matched by
 globs

---
 src/mdpo/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 623fe8e..d2462f4 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -68,7 +68,9 @@ def glob_or_file(value):
     Returns:
         list: Paths to the files that match.
     """
-    return [value] if os.path.isfile(value) else glob.glob(value)
+    if os.path.isfile(value):
+        return [value]
+    return [path for path in glob.glob(value) if not os.path.isdir(path)]
 
 
 def to_file_content_if_is_file(value, encoding='utf-8'):
-- 
2.43.0


From 4b383c4a4f150c47fbf6c83081f234bb74f63792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 071/112] fix: apply the default translation to titles in
 plaintext mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 196a6ee..19e2a70 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -700,7 +700,10 @@ class Md2Po:
                     self.enable_next_block
                     or not (self.disable or self.disable_next_block)
         ):
-            self._save_msgid(span_attribute_text(details['title']))
+            self._save_msgid(
+                span_attribute_text(details['title']),
+                msgstr=self.msgstr,
+            )
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From 0ff9abe66da13a424abe6630bce8f75ea23d3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 072/112] fix: drop trailing tabs of the text of commands

---
 src/mdpo/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 38b3409..1e2bef4 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -39,7 +39,7 @@ def parse_mdpo_html_command(value):
     command_match = re.compile(COMMAND_SEARCH_REGEX, re.DOTALL).search(value)
     if command_match:
         command, comment = command_match.groups()
-        return (command, comment.rstrip(' ') if comment else None)
+        return (command, comment.rstrip(' \t') if comment else None)
     return (None, None)
 
 
-- 
2.43.0


From 0522a332aa9dd24adc39e9c5ae8445809d94364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 073/112] fix: accept contents with null characters or a lot of
 separators

---
 src/mdpo/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index d2462f4..f8098f2 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -112,6 +112,9 @@ def to_files_or_content(value):
     except TypeError:
         # inferes list
         return (True, value)
+    except (RecursionError, ValueError):
+        # contents with too many separators or with null characters
+        return (False, value)
     except Exception as err:
         # some strings like '[s-m]' will produce
         if err.__module__ == 're' and err.__class__.__name__ == 'error':
-- 
2.43.0


From ec18b6678eb6a90da305d802c901eb9fdbae0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 074/112] fix: give preference to enabling commands in
 mdpo2html as the other programs do

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 511aaba..d637a91 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -247,8 +247,8 @@ class MdPo2HTML(HTMLParser):
 
         _current_replacement = html.unescape(_current_replacement)
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = None
 
             self.disabled_entries.append(
-- 
2.43.0


From d22787c6cf2dc6a1cf73599770f132a0db855de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 075/112] fix: do not crash wrapping PO files at one or two
 characters

---
 src/mdpo/md2po/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 19e2a70..a24c905 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -889,7 +889,8 @@ class Md2Po:
         )
         self.pofile = polib.pofile(
             self.po_filepath,
-            wrapwidth=parse_wrapwidth_argument(wrapwidth),
+            # lines of PO files include two quotes at least
+            wrapwidth=max(parse_wrapwidth_argument(wrapwidth), 3),
             **pofile_kwargs,
         )
 
-- 
2.43.0


From ba22d9399a78482a9aec89582c20f84426c3c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 076/112] fix: import explicitly the module which loads the
 files of event handlers

---
 src/mdpo/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 83ef77f..d3577fc 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -1,6 +1,6 @@
 """Custom events executed during the parsing process of an implementation."""
 
-import importlib
+import importlib.util
 import os
 import sys
 
-- 
2.43.0


From ab10b5f378ab7355656194adad67a93873e39bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 077/112] fix: create the directories named by the extension
 placeholder in md2po2md

---
 src/mdpo/md2po2md/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 2404f0e..7d91667 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -131,7 +131,8 @@ def markdown_to_pofile_to_markdown(
             )
 
             os.makedirs(os.path.abspath(po_dirpath), exist_ok=True)
-            if os.path.isdir(po_filepath):
+            po_filepath_is_file = not os.path.isdir(po_filepath)
+            if not po_filepath_is_file:
                 po_filepath = os.path.join(
                     po_filepath.rstrip(os.sep),
                     f'{os.path.basename(filepath)}.po',
@@ -141,6 +142,14 @@ def markdown_to_pofile_to_markdown(
 
             format_kwargs['ext'] = md_ext.lstrip('.')
             md_filepath = output_paths_schema.format(**format_kwargs)
+            # the directory could include the extension
+            os.makedirs(
+                os.path.abspath(
+                    os.path.dirname(md_filepath) if po_filepath_is_file
+                    else md_filepath,
+                ),
+                exist_ok=True,
+            )
             if os.path.isdir(md_filepath):
                 md_filepath = os.path.join(
                     md_filepath.rstrip(os.sep),
-- 
2.43.0


From 12e9dd09fcd8dbac9f644842f74bccb552affa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 078/112] fix: find in the gates the messages which are not
 separated by empty lines

---
 src/mdpo/po.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index f2def49..e926c63 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -260,14 +260,19 @@ def parse_obsoletes_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    inside_obsolete_message = False
+    inside_obsolete_message, inside_msgstr = (False, False)
     for i, line in enumerate(content_lines):
-        if not inside_obsolete_message and line[0:3] == b'#~ ':
-            inside_obsolete_message = True
+        if line[0:3] != b'#~ ':
+            inside_obsolete_message = False
+        # messages could not be separated by empty lines
+        elif not inside_obsolete_message or (
+            inside_msgstr and line.startswith((b'#~ msgid', b'#~ msgctxt'))
+        ):
+            inside_obsolete_message, inside_msgstr = (True, False)
 
             yield f'{location_prefix}{i + 1}'
-        elif inside_obsolete_message and line[0:3] != b'#~ ':
-            inside_obsolete_message = False
+        elif line.startswith(b'#~ msgstr'):
+            inside_msgstr = True
 
 
 def parse_fuzzy_from_content_lines(
@@ -307,5 +312,8 @@ def parse_empty_msgstr_from_content_lines(
             line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
         ) and not content_lines[i - 1].startswith(b'msgid ""'):
             next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
+            # messages could not be separated by empty lines
+            if next_i == n_lines or not content_lines[next_i].startswith(
+                (b'"', b'#~ "'),
+            ):
                 yield f'{location_prefix}{next_i}'
-- 
2.43.0


From de8a87b963b0205a6cefe08ec0159beb80aa14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 079/112] fix: check the widths before writing files in
 md2po2md

---
 src/mdpo/md2po2md/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 7d91667..794632f 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -11,6 +11,7 @@ from mdpo.po import (
     check_obsolete_entries_in_filepaths,
 )
 from mdpo.po2md import Po2Md
+from mdpo.text import parse_wrapwidth_argument
 
 
 def markdown_to_pofile_to_markdown(
@@ -107,6 +108,10 @@ def markdown_to_pofile_to_markdown(
                 f"The glob '{input_paths_glob}' does not match any file.",
             )
 
+    # don't write any file if some of the widths are not valid
+    for wrapwidth in (po_wrapwidth, md_wrapwidth):
+        parse_wrapwidth_argument(wrapwidth)
+
     _saved_files_changed = None if not _check_saved_files_changed else False
     obsoletes = []
     fuzzies = []
-- 
2.43.0


From 6d6f52138d031c76929c9e4e45ab84d0b58eb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 080/112] fix: do not truncate the files to save when their
 contents can't be encoded

---
 src/mdpo/md2po/__init__.py     | 13 ++++++-------
 src/mdpo/mdpo2html/__init__.py | 14 ++++++--------
 src/mdpo/po2md/__init__.py     | 14 ++++++--------
 3 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index a24c905..433afe0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -955,14 +955,13 @@ class Md2Po:
             self.pofile.metadata.update(self.metadata)
 
         if save and po_filepath:
+            changed = save_file_checking_file_changed(
+                po_filepath,
+                str(self.pofile),
+                encoding=self.pofile.encoding,
+            )
             if self._saved_files_changed is False:
-                self._saved_files_changed = save_file_checking_file_changed(
-                    po_filepath,
-                    str(self.pofile),
-                    encoding=self.pofile.encoding,
-                )
-            else:
-                self.pofile.save(fpath=po_filepath)
+                self._saved_files_changed = changed
         if mo_filepath:
             if self._saved_files_changed is False:
                 prev_content = None
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d637a91..89a9bad 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -475,15 +475,13 @@ class MdPo2HTML(HTMLParser):
         self.feed(content)
 
         if save:
+            changed = save_file_checking_file_changed(
+                save,
+                self.output,
+                encoding=html_encoding,
+            )
             if self._saved_files_changed is False:
-                self._saved_files_changed = save_file_checking_file_changed(
-                    save,
-                    self.output,
-                    encoding=html_encoding,
-                )
-            else:
-                with open(save, 'w', encoding=html_encoding) as f:
-                    f.write(self.output)
+                self._saved_files_changed = changed
 
         self.reset()
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d835414..5238bf0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1123,15 +1123,13 @@ class Po2Md:
         self.output = '\n'.join(self.outputlines)
 
         if save:
+            changed = save_file_checking_file_changed(
+                save,
+                self.output,
+                encoding=md_encoding,
+            )
             if self._saved_files_changed is False:
-                self._saved_files_changed = save_file_checking_file_changed(
-                    save,
-                    self.output,
-                    encoding=md_encoding,
-                )
-            else:
-                with open(save, 'w', encoding=md_encoding) as f:
-                    f.write(self.output)
+                self._saved_files_changed = changed
         return self.output
 
 
-- 
2.43.0


From 3e563154c19e61a4077e0d957bc5f3d59f686de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 081/112] fix: require the PO files in the mdpo2html CLI

---
 src/mdpo/mdpo2html/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 3ea0524..84e7d1e 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -44,7 +44,7 @@ def build_parser():
     )
     parser.add_argument(
         '-p', '--po-files', '--pofiles', metavar='POFILES', action='append',
-        nargs='*', dest='pofiles',
+        nargs='*', dest='pofiles', required=True,
         help='Glob matching a set of PO files from where to extract references'
              ' to make the replacements translating strings. This argument'
              ' can be passed multiple times.',
-- 
2.43.0


From 22f92062318b1013eead047ebc9ecf240c4e36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 082/112] fix: do not use files of event handlers which were
 not executed completely

---
 src/mdpo/event.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index d3577fc..b87fce5 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -3,6 +3,10 @@
 import importlib.util
 import os
 import sys
+import threading
+
+
+_IMPORT_LOCK = threading.RLock()
 
 
 def raise_skip_event(events, event_name, *event_args):
@@ -134,6 +138,31 @@ def add_debug_events(implementation_name, events):
         events[event_name].append(function)
 
 
+def _import_file(fpath):
+    """Import a file as a module, only once.
+
+    Args:
+        fpath (str): Path to the file.
+
+    Returns:
+        module: Module executed.
+    """
+    # the name must not be the same as that of other modules
+    modname = os.path.abspath(fpath)
+    with _IMPORT_LOCK:
+        if modname not in sys.modules:
+            spec = importlib.util.spec_from_file_location(modname, fpath)
+            mod = importlib.util.module_from_spec(spec)
+            sys.modules[modname] = mod
+            try:
+                spec.loader.exec_module(mod)
+            except BaseException:
+                # do not let use it partially executed
+                del sys.modules[modname]
+                raise
+        return sys.modules[modname]
+
+
 def parse_events_kwarg(events_kwarg):
     """Parse ``events`` kwarg passed to implementations.
 
@@ -175,20 +204,7 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                # the name must not be the same as that of other modules
-                modname = os.path.splitext(
-                    os.path.abspath(fpath),
-                )[0].replace(os.sep, '.')
-                if modname in sys.modules:
-                    mod = sys.modules[modname]
-                else:
-                    spec = importlib.util.spec_from_file_location(
-                        modname, fpath,
-                    )
-                    mod = importlib.util.module_from_spec(spec)
-                    sys.modules[modname] = mod
-                    spec.loader.exec_module(mod)
-
+                mod = _import_file(fpath)
                 func_owner = mod
                 if '.' in funcname:
                     # is a method
-- 
2.43.0


From 05e25bd5368b5439f691bd5bfe50ba7a3505a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 083/112] fix: translate messages surrounded by blanks in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 89a9bad..4e37b78 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -260,12 +260,16 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt.get(
+                translations = self.translations_with_msgctxt.get(
                     self.current_msgctxt,
                     {},
-                ).get(_current_replacement)
+                )
             else:
-                replacement = self.translations.get(_current_replacement)
+                translations = self.translations
+            # the blanks aligning the HTML are not part of the messages
+            replacement = translations.get(
+                _current_replacement,
+            ) or translations.get(_current_replacement.strip())
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
                 if tt in tags_group:
-- 
2.43.0


From ec93aa9e83ae2155e45a63b1d14cbd3e84e1b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 084/112] fix: do not unescape twice the character references
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 4e37b78..deacdb1 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -245,8 +245,6 @@ class MdPo2HTML(HTMLParser):
             self.context = []
             return
 
-        _current_replacement = html.unescape(_current_replacement)
-
         if (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
             replacement = None
-- 
2.43.0


From dab0407157e3adcf12f4c1838340071236a995db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 085/112] fix: included messages consume the pending commands
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index deacdb1..d432f6a 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -456,6 +456,11 @@ class MdPo2HTML(HTMLParser):
                         self.current_msgctxt = comment
                     else:
                         self.output += data_as_comment
+                elif command == 'mdpo-include':
+                    # the included message consumes the previous commands
+                    self.disable_next_block = False
+                    self.enable_next_block = False
+                    self.current_msgctxt = None
                 elif command == 'mdpo-include-codeblock':
                     warnings.warn(
                         'Code blocks translations are not supported'
-- 
2.43.0


From 415553eebe1b43e95184609a3ba083840f426ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 086/112] fix: do not lose text outside of the known elements
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d432f6a..68fc62c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -329,6 +329,7 @@ class MdPo2HTML(HTMLParser):
         if self.replacer and (
             self._is_grouper_tag(tag)
             or tag in {'ul', 'ol', 'blockquote', 'table'}
+            or (tag in PROCESS_REPLACER_TAGS and tag not in {'td', 'th'})
         ):
             # text of an element before a nested block
             self._process_replacer()
@@ -381,6 +382,8 @@ class MdPo2HTML(HTMLParser):
         elif tag in [
             'ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody',
         ]:
+            if self.replacer:  # elements not closed or unknown
+                self._process_replacer()
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
@@ -480,6 +483,9 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        if self.replacer:  # elements not closed or unknown
+            self._process_replacer()
 
         if save:
             changed = save_file_checking_file_changed(
-- 
2.43.0


From 994f6fa513e835be7573a5edbb2f66fcd4866649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 087/112] fix: read and write Markdown files as UTF-8 by
 default in md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 794632f..c42a0ca 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -25,7 +25,7 @@ def markdown_to_pofile_to_markdown(
     po_wrapwidth=78,
     md_wrapwidth=80,
     po_encoding=None,
-    md_encoding=None,
+    md_encoding='utf-8',
     include_codeblocks=False,
     md2po_kwargs=None,
     po2md_kwargs=None,
-- 
2.43.0


From a4d463b9a5dab467f7a7f2a624c1943c28ebbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 088/112] fix: read files of ignored messages as UTF-8 by
 default in md2po

---
 src/mdpo/md2po/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 166ba46..c07305c 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -183,7 +183,10 @@ def parse_options(args):
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 
     if opts.ignore_msgids is not None:
-        with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
+        with open(
+            opts.ignore_msgids,
+            encoding=opts.po_encoding or 'utf-8',
+        ) as f:
             opts.ignore_msgids = f.read().splitlines()
     else:
         opts.ignore_msgids = []
-- 
2.43.0


From 07c45f2a3b43917f3adcfa7c6bcc1301adefc523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 089/112] fix: check entries of PO files in the encoding passed
 to programs

---
 src/mdpo/md2po/__main__.py     |  3 +++
 src/mdpo/md2po2md/__init__.py  | 15 +++++++++------
 src/mdpo/mdpo2html/__main__.py |  3 +++
 src/mdpo/po.py                 | 27 ++++++++++++++++++---------
 src/mdpo/po2md/__main__.py     |  3 +++
 5 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index c07305c..968f85c 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -251,6 +251,7 @@ def run(args=frozenset()):
         if opts.no_obsolete:
             locations = list(check_obsolete_entries_in_filepaths(
                 po_filepaths,
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -268,6 +269,7 @@ def run(args=frozenset()):
         if opts.no_fuzzy:
             locations = list(check_fuzzy_entries_in_filepaths(
                 po_filepaths,
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -286,6 +288,7 @@ def run(args=frozenset()):
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
                 po_filepaths,
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index c42a0ca..6c373d1 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -203,16 +203,19 @@ def markdown_to_pofile_to_markdown(
             if no_obsolete:
                 obsoletes.extend(check_obsolete_entries_in_filepaths(
                     [po_filepath],
+                    encoding=po_encoding,
                 ))
 
             if no_fuzzy:
-                fuzzies.extend(
-                    check_fuzzy_entries_in_filepaths([po_filepath]),
-                )
+                fuzzies.extend(check_fuzzy_entries_in_filepaths(
+                    [po_filepath],
+                    encoding=po_encoding,
+                ))
 
             if no_empty_msgstr:
-                empties.extend(
-                    check_empty_msgstrs_in_filepaths([po_filepath]),
-                )
+                empties.extend(check_empty_msgstrs_in_filepaths(
+                    [po_filepath],
+                    encoding=po_encoding,
+                ))
 
     return (_saved_files_changed, obsoletes, fuzzies, empties)
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 84e7d1e..32c6b7c 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -130,6 +130,7 @@ def run(args=frozenset()):
             )
             locations = list(check_obsolete_entries_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -153,6 +154,7 @@ def run(args=frozenset()):
             )
             locations = list(check_fuzzy_entries_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,6 +178,7 @@ def run(args=frozenset()):
             )
             locations = list(check_empty_msgstrs_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index e926c63..934bba2 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -190,18 +190,27 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
     return pofiles
 
 
-def check_obsolete_entries_in_filepaths(filenames):
+def _read_content_lines(filename, encoding=None):
+    with open(filename, 'rb') as f:
+        content = f.read()
+    if encoding:
+        # the bytes of ASCII characters could be different
+        content = content.decode(encoding).encode('utf-8')
+    return content.splitlines(keepends=True)
+
+
+def check_obsolete_entries_in_filepaths(filenames, encoding=None):
     """Warns about all obsolete entries found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it's known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_obsoletes_from_content_lines(
             content_lines,
@@ -209,18 +218,18 @@ def check_obsolete_entries_in_filepaths(filenames):
         )
 
 
-def check_fuzzy_entries_in_filepaths(filenames):
+def check_fuzzy_entries_in_filepaths(filenames, encoding=None):
     """Warns about all fuzzy entries found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it's known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_fuzzy_from_content_lines(
             content_lines,
@@ -228,18 +237,18 @@ def check_fuzzy_entries_in_filepaths(filenames):
         )
 
 
-def check_empty_msgstrs_in_filepaths(filenames):
+def check_empty_msgstrs_in_filepaths(filenames, encoding=None):
     """Warns about all empty msgstr found in a set of PO files.
 
     Args:
         filenames (list): Set of file names to check.
+        encoding (str): Encoding of the files, if it's known.
 
     Returns:
         list(str): error messages produced.
     """
     for filename in filenames:
-        with open(filename, 'rb') as f:
-            content_lines = f.readlines()
+        content_lines = _read_content_lines(filename, encoding)
 
         yield from parse_empty_msgstr_from_content_lines(
             content_lines,
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index b77dd23..c56bae4 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -154,6 +154,7 @@ def run(args=frozenset()):
             )
             locations = list(check_obsolete_entries_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -177,6 +178,7 @@ def run(args=frozenset()):
             )
             locations = list(check_fuzzy_entries_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -200,6 +202,7 @@ def run(args=frozenset()):
             )
             locations = list(check_empty_msgstrs_in_filepaths(
                 [pofile.fpath for pofile in pofiles],
+                encoding=opts.po_encoding,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From a245f14b807e7e64261f5e75fb27db309d4ef685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 090/112] fix: translate messages of contents with CRLF line
 endings in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 68fc62c..b4b0534 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -482,7 +482,8 @@ class MdPo2HTML(HTMLParser):
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
 
-        self.feed(content)
+        # the line endings of files are converted reading them
+        self.feed(content.replace('\r\n', '\n'))
         self.close()
         if self.replacer:  # elements not closed or unknown
             self._process_replacer()
-- 
2.43.0


From 69d20b26a05c28b9f77cfd84a940892b74233875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 091/112] fix: ignore unknown encodings of PO files checking
 entries like polib

---
 src/mdpo/po.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 934bba2..1fb3093 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -195,7 +195,10 @@ def _read_content_lines(filename, encoding=None):
         content = f.read()
     if encoding:
         # the bytes of ASCII characters could be different
-        content = content.decode(encoding).encode('utf-8')
+        try:
+            content = content.decode(encoding).encode('utf-8')
+        except LookupError:  # polib ignores unknown encodings
+            pass
     return content.splitlines(keepends=True)
 
 
-- 
2.43.0


From 74b5de0144123a9f2340b484507a63928894f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 092/112] fix: keep link destinations with unbalanced
 parentheses and backslash escapes

---
 src/mdpo/md.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 4847599..8f9a5be 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -23,6 +23,7 @@ def parse_link_references(content):
     import re
 
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
+    backslash_escape_re = re.compile(r'\\([!-/:-@\[-`{-~])')
     code_fence_re = re.compile(r'(`{3,}(?=[^`]*$)|~{3,})(.*)')
 
     response = []
@@ -40,10 +41,10 @@ def parse_link_references(content):
             match = re.search(link_reference_re, linestrip)
             if match:
                 target, href, *titles = match.groups()
+                href = re.sub(backslash_escape_re, r'\1', href)
                 title = next(filter(None, titles), None)
                 if title:
-                    # backslash escapes
-                    title = re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', title)
+                    title = re.sub(backslash_escape_re, r'\1', title)
                 response.append((target, href, title))
     return response
 
@@ -84,11 +85,19 @@ def _title_markup(title):
     return f'"{title}"'
 
 
+def _destination_markup(href):
+    # destinations with blanks or unbalanced parentheses need to be enclosed
+    depth = 0
+    for char in href:
+        depth += (char == '(') - (char == ')')
+        if depth < 0:
+            break
+    return f'<{href}>' if ' ' in href or depth else href
+
+
 def resource_markup(href, title):
-    if ' ' in href or href.count('(') != href.count(')'):
-        href = f'<{href}>'
     title_part = f' {_title_markup(title)}' if title else ''
-    return f'({href}{title_part})'
+    return f'({_destination_markup(href)}{title_part})'
 
 
 def link_reference_markup(target, href, title):
@@ -102,9 +111,8 @@ def link_reference_markup(target, href, title):
     Returns:
         str: Markdown link reference definition.
     """
-    href_part = f' <{href}>' if ' ' in href else f' {href}'
     title_part = f' {_title_markup(title)}' if title else ''
-    return f'[{target}]:{href_part}{title_part}'
+    return f'[{target}]: {_destination_markup(href)}{title_part}'
 
 
 def link_markup(text, href, title, link_references):
-- 
2.43.0


From edad766bcf912a996f92408f741301db2a00cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 093/112] fix: translate references of links and images with
 definitions, titles and contexts in mdpo2html

---
 src/mdpo/md.py                 | 155 +++++++++++++++------------------
 src/mdpo/mdpo2html/__init__.py |  23 +++--
 2 files changed, 78 insertions(+), 100 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 8f9a5be..fac285a 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -174,7 +174,58 @@ def codespan_delimiters(char, text):
     )
 
 
-def solve_link_reference_targets(translations):
+def _link_references_resources(messages):
+    """Resources of the link references defined by a set of messages.
+
+    Args:
+        messages (iterable): Messages, those which are not definitions of
+            link references are ignored.
+
+    Returns:
+        dict: Mapping of link reference targets to their markup as resources
+        of links.
+    """
+    response = {}
+    for message in messages:
+        if message.startswith('['):  # filter for performance improvement
+            for target, href, title in parse_link_references(message):
+                response.setdefault(target, resource_markup(href, title))
+    return response
+
+
+def _solve_link_references(text, resources):
+    """Replace the references of the links and images of a message.
+
+    Args:
+        text (str): Message.
+        resources (dict): Mapping of link reference targets to resources.
+
+    Returns:
+        str: Message whose links and images include their resources.
+    """
+    import re
+
+    # escaped characters, code spans and brackets
+    token_re = re.compile(
+        r'\\.|(?<!`)(`+)(?!`).+?(?<!`)\1(?!`)|\[|\](?:\[([^\[\]]*)\])?',
+    )
+    response, openings, last = '', [], 0
+    for match in token_re.finditer(text):
+        response += text[last:match.start()]
+        last = match.end()
+        token = match.group()
+        if token == '[':
+            openings.append(len(response) + 1)
+        elif token[0] == ']' and openings:
+            text_start = openings.pop()
+            target = match.group(2) or response[text_start:]
+            if target in resources and not text.startswith('(', last):
+                token = f']{resources[target]}'
+        response += token
+    return response + text[last:]
+
+
+def solve_link_reference_targets(translations, definitions=None):
     """Solve link reference targets in markdown blocks.
 
     Given a dictionary of msgid/msgstr translations, those link references
@@ -183,98 +234,28 @@ def solve_link_reference_targets(translations):
     Args:
         translations (dict): Mapping of msgid-msgstr entries from which
             the resolved translations will be extracted.
+        definitions (dict): Mapping of msgid-msgstr entries which includes the
+            definitions of the link references. By default, ``translations``.
 
     Returns:
         dict: New created messages with solved link reference targets.
     """
-    import re
+    if definitions is None:
+        definitions = translations
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
+    msgids_resources = _link_references_resources(definitions)
+    if not msgids_resources:
+        return {}
+    msgstrs_resources = {
+        **msgids_resources,
+        **_link_references_resources(definitions.values()),
+    }
 
     solutions = {}
-
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
-
-    # discover link reference definitions
     for msgid, msgstr in translations.items():
-        if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
-            if msgid_match:
-                msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
-                if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
-
+        if msgstr and not parse_link_references(msgid):
+            solved_msgid = _solve_link_references(msgid, msgids_resources)
+            solved_msgstr = _solve_link_references(msgstr, msgstrs_resources)
+            if solved_msgid != msgid or solved_msgstr != msgstr:
+                solutions[solved_msgid] = solved_msgstr
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index b4b0534..c1803ba 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -97,11 +97,6 @@ class MdPo2HTML(HTMLParser):
             False if _check_saved_files_changed is not None else None
         )
 
-        # references of msgids and their msgstrs changing referenced link
-        # targets by their real target, needed to support link references
-        # (this variable is redefined when the first link tag `a` is found)
-        self.real_link_reference_targets = None
-
         # code markup
         self.code_tags = code_tags
 
@@ -354,14 +349,6 @@ class MdPo2HTML(HTMLParser):
             )
             self.output += f'<{tag}{attrs_repr}>'
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
-                )
-                self.translations.update(self.real_link_reference_targets)
-
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
 
@@ -482,6 +469,16 @@ class MdPo2HTML(HTMLParser):
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
 
+        # extend translations to populate messages changing their link
+        # references by their resources, needed to support link references
+        for translations in (
+            *self.translations_with_msgctxt.values(),
+            self.translations,
+        ):
+            translations.update(
+                solve_link_reference_targets(translations, self.translations),
+            )
+
         # the line endings of files are converted reading them
         self.feed(content.replace('\r\n', '\n'))
         self.close()
-- 
2.43.0


From b1dbcfde8c5d67994022396aa98adea6d47949eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 094/112] fix: keep order and translate text of list items
 after nested blocks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c1803ba..d7f3f31 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -74,6 +74,7 @@ class MdPo2HTML(HTMLParser):
         self.replacer = []
         self._raw_replacement = ''
         self.context = []
+        self._lists_deep = 0
         self.current_msgctxt = None
 
         self.translations = None
@@ -319,6 +320,11 @@ class MdPo2HTML(HTMLParser):
         # code blocks are not translated
         return tag == 'pre' or tag in self.ignore_grouper_tags
 
+    def _is_item_text(self):
+        # texts of list items after other blocks
+        return self._lists_deep > 0 and not self.context and \
+            self.cdata_elem is None
+
     def handle_starttag(self, tag, attrs):
 
         if self.replacer and (
@@ -329,6 +335,9 @@ class MdPo2HTML(HTMLParser):
             # text of an element before a nested block
             self._process_replacer()
 
+        if tag in {'ul', 'ol'}:
+            self._lists_deep += 1
+
         if tag in self.image_tags:
             # images don't have end tag
             self.handle_startendtag(tag, attrs)
@@ -354,6 +363,9 @@ class MdPo2HTML(HTMLParser):
 
     def handle_endtag(self, tag):
 
+        if tag in {'ul', 'ol'}:
+            self._lists_deep -= 1
+
         if self._is_grouper_tag(tag):
             self.output += f'</{tag}>'
             if self.context:
@@ -379,28 +391,30 @@ class MdPo2HTML(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
 
-        if not self.replacer:
+        if not self.replacer and not (
+            tag in self.image_tags and self._is_item_text()
+        ):
             self.output += self.get_starttag_text()
         else:
             self.replacer.append(('startend', tag, OrderedDict(attrs)))
 
     def handle_data(self, data):
 
-        if data:
-            if (
-                not self.replacer
-                or (
-                    self.context
-                    and self._is_grouper_tag(self.context[0])
-                )
-                or not self.context
+        if not self.replacer and data.strip() and self._is_item_text():
+            text = data.lstrip()
+            self.output += data[:-len(text)]
+            self.replacer.append(('data', text.replace('\n', ' '), None))
+        elif data:
+            if not self.replacer or (
+                self.context
+                and self._is_grouper_tag(self.context[0])
             ):
                 if self.cdata_elem is None:
                     # character references have been converted by the parser
                     data = html.escape(data, quote=False)
                 self.output += data
             else:
-                if self.context:
+                if self.context or self._lists_deep > 0:
                     data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
-- 
2.43.0


From 074d6199ffae1f34ba08809c3c32f217792ff089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 095/112] fix: keep content of scripts and styles in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index d7f3f31..5a714fd 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -317,8 +317,11 @@ class MdPo2HTML(HTMLParser):
         self.current_msgctxt = None
 
     def _is_grouper_tag(self, tag):
-        # code blocks are not translated
-        return tag == 'pre' or tag in self.ignore_grouper_tags
+        # code blocks, scripts and styles are not translated
+        return (
+            tag == 'pre' or tag in self.CDATA_CONTENT_ELEMENTS
+            or tag in self.ignore_grouper_tags
+        )
 
     def _is_item_text(self):
         # texts of list items after other blocks
-- 
2.43.0


From f412691c20a344b72e0d8e1847aa92ca25d47ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 096/112] fix: keep attributes of links without text in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5a714fd..19519c6 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -237,7 +237,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if REPLACEMENT_MARK not in raw_html_template:  # there is not any text
-            self.output += raw_html_template
+            self.output += original_html
             self.context = []
             return
 
-- 
2.43.0


From f69805fc62a20c8c0b677463e2a14b2c1dbc1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 097/112] fix: keep strikethrough markup with the
 'dialect_github' extension

---
 src/mdpo/md2po/__init__.py | 4 +++-
 src/mdpo/po2md/__init__.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 433afe0..89c0986 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -291,7 +291,9 @@ class Md2Po:
                 md4c.SpanType.CODE.value: self.code_end_string,
             }
 
-            if 'strikethrough' in self.extensions:
+            if not {'strikethrough', 'dialect_github'}.isdisjoint(
+                self.extensions,
+            ):
                 self.strikethrough_start_string = kwargs.get(
                     'strikethrough_start_string', '~~',
                 )
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5238bf0..9ed1971 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -260,7 +260,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'strikethrough' in self.extensions:
+        if not {'strikethrough', 'dialect_github'}.isdisjoint(
+            self.extensions,
+        ):
             self._enterspan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
                 'strikethrough_start_string', '~~')
             self._leavespan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
-- 
2.43.0


From ec6263bda6ea3d3ef5dbad66422e44ade51fcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 098/112] fix: keep blanks inside custom code tags in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 19519c6..f1422ec 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -187,7 +187,7 @@ class MdPo2HTML(HTMLParser):
                 else:
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
-                if _last_start_tag == 'code':
+                if _last_start_tag in self.code_tags:
                     _inside_code = True
 
             elif handle == 'data':
@@ -214,7 +214,7 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.link_tags and _current_link_targets:
                     _current_replacement += f']{_current_link_targets.pop()}'
                 _last_end_tag = handled
-                if _last_end_tag == 'code':
+                if _last_end_tag in self.code_tags:
                     _inside_code = False
             elif handle == 'comment':
                 original_html += f'<!--{handled}-->'
-- 
2.43.0


From 2a46b57eb282490ff99d95bd61dcbf16f5869768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 099/112] fix: merge only adjacent markups of the same tag in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index f1422ec..954a681 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -130,12 +130,10 @@ class MdPo2HTML(HTMLParser):
             for tag in tags_group:
                 if tag not in template_tags:
                     continue
-                for _tag in tags_group:
-                    if _tag not in template_tags:
-                        continue
-                    regex = fr'</{tag}>\s*<{_tag}>'
-                    if regex not in regexes:
-                        regexes.append(regex)
+                # the tags of the merged element must match
+                regex = fr'</{tag}>\s*<{tag}>'
+                if regex not in regexes:
+                    regexes.append(regex)
 
             for regex in regexes:
                 html = re.sub(regex, ' ', html)
-- 
2.43.0


From 0122b714f2b5903dc70f69a914abf8e6d9ae435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 100/112] fix: don't extract link references written inside of
 other blocks

---
 src/mdpo/md.py             | 59 +++++++++++++++++++++++++++++++++++---
 src/mdpo/md2po/__init__.py |  5 +++-
 src/mdpo/po2md/__init__.py |  5 +++-
 3 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index fac285a..6057afc 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -10,11 +10,56 @@ LINK_REFERENCE_REGEX = (
 )
 
 
-def parse_link_references(content):
+def _discard_not_parsed_references(content, references, extensions):
+    """Discard link references which are the text of other blocks.
+
+    Args:
+        content (str): Markdown content.
+        references (list): Tuples with the index of the line, target, href and
+            title of each link reference found in the content.
+        extensions (list): Extensions used to parse the content.
+
+    Returns:
+        list: Link references, those which the parser returns as text inside
+        of blocks (code, HTML, paragraphs...) are not included.
+    """
+    import re
+
+    import md4c
+
+    # the parser does not return the link references, but it does return the
+    # marks which replace their targets if they are text
+    mark = 'mdporeference'
+    while mark in content:
+        mark += 'x'
+    lines = content.splitlines(keepends=True)
+    for i, (n, target, *_) in enumerate(references):
+        lines[n] = lines[n].replace(f'[{target}]', f'[{mark}{i}n]', 1)
+
+    texts = []
+    md4c.GenericParser(0, **dict.fromkeys(extensions, True)).parse(
+        ''.join(lines),
+        lambda *_: None,
+        lambda *_: None,
+        lambda *_: None,
+        lambda *_: None,
+        lambda _, text: texts.append(text),
+    )
+    not_parsed = set(re.findall(rf'{mark}(\d+)n', '\n'.join(texts)))
+    return [
+        reference for i, reference in enumerate(references)
+        if str(i) not in not_parsed
+    ]
+
+
+def parse_link_references(content, extensions=None):
     """Parses link references found in a Markdown content.
 
     Args:
         content (str): Markdown content to be parsed.
+        extensions (list): Extensions used to parse the content, to ignore
+            those lines which are the text of other blocks. If not defined,
+            the content is not parsed.
 
     Returns:
         list: Tuples with 3 values, target, href and title for each link
@@ -28,7 +73,7 @@ def parse_link_references(content):
 
     response = []
     code_fence = ''  # inside fenced code blocks there are not references
-    for line in content.splitlines():
+    for n, line in enumerate(content.splitlines()):
         linestrip = line.strip()
         match = re.match(code_fence_re, linestrip)
         if code_fence:
@@ -45,8 +90,14 @@ def parse_link_references(content):
                 title = next(filter(None, titles), None)
                 if title:
                     title = re.sub(backslash_escape_re, r'\1', title)
-                response.append((target, href, title))
-    return response
+                response.append((n, target, href, title))
+    if response and extensions is not None:
+        response = _discard_not_parsed_references(
+            content,
+            response,
+            extensions,
+        )
+    return [reference[1:] for reference in response]
 
 
 def span_attribute_text(attribute):
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 89c0986..8a6f7bc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -683,7 +683,10 @@ class Md2Po:
 
     def _get_link_references(self):
         if self.link_references is None:
-            self.link_references = parse_link_references(self.content)
+            self.link_references = parse_link_references(
+                self.content,
+                self.extensions,
+            )
         return self.link_references
 
     def _add_text(self, text):
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9ed1971..5dd9aee 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -905,7 +905,10 @@ class Po2Md:
 
     def _get_link_references(self):
         if self.link_references is None:
-            self.link_references = parse_link_references(self.content)
+            self.link_references = parse_link_references(
+                self.content,
+                self.extensions,
+            )
         return self.link_references
 
     def _add_text(self, text):
-- 
2.43.0


From 5470ce2e6e1b9341434a33764cfebe9cd4f015fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 101/112] fix: join lines of titles extracted in plaintext mode

---
 src/mdpo/md2po/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 8a6f7bc..8fd91cf 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -706,7 +706,8 @@ class Md2Po:
                     or not (self.disable or self.disable_next_block)
         ):
             self._save_msgid(
-                span_attribute_text(details['title']),
+                # softbreaks
+                span_attribute_text(details['title']).replace('\n', ' '),
                 msgstr=self.msgstr,
             )
 
-- 
2.43.0


From 15e8d4a784b65be9506ee116353f9414d30c33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 102/112] fix: keep the order of declarations and CDATA
 sections in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 954a681..ffe425a 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -217,6 +217,9 @@ class MdPo2HTML(HTMLParser):
             elif handle == 'comment':
                 original_html += f'<!--{handled}-->'
                 raw_html_template += f'<!--{handled}-->'
+            elif handle == 'declaration':
+                original_html += handled
+                raw_html_template += handled
             elif handle == 'startend':
                 attrs_repr = (
                     f' {_html_attrs_to_str(attrs)}' if attrs else ''
@@ -419,11 +422,21 @@ class MdPo2HTML(HTMLParser):
                     data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
+    def _handle_declaration(self, declaration):
+        if self.replacer:
+            self.replacer.append(('declaration', declaration, None))
+        else:
+            self.output += declaration
+
     def handle_decl(self, decl):
-        self.output += f'<!{decl}>'
+        self._handle_declaration(f'<!{decl}>')
 
     def handle_pi(self, data):
-        self.output += f'<?{data}>'
+        self._handle_declaration(f'<?{data}>')
+
+    def unknown_decl(self, data):
+        end = ']]>' if data.startswith('CDATA[') else ']>'
+        self._handle_declaration(f'<![{data}{end}')
 
     def handle_comment(self, data):
 
-- 
2.43.0


From 41e7dcccb6fdbecf9b9bde471ca7492ffc369cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 103/112] fix: blank lines and indentation of HTML blocks
 inside and after lists in po2md

---
 src/mdpo/po2md/__init__.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5dd9aee..0843706 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -113,6 +113,7 @@ class Po2Md:
         '_inside_pblock',
         '_inside_liblock',
         '_inside_liblock_first_p',
+        '_after_list',
         '_inside_hblock',
         '_inside_codespan',
         '_inside_latexmath_display',
@@ -308,6 +309,8 @@ class Po2Md:
         self._inside_liblock = False
         # first li block paragraph (li block "title")
         self._inside_liblock_first_p = False
+        # the previous block was a list
+        self._after_list = False
 
         self._inside_codespan = False
 
@@ -512,7 +515,7 @@ class Po2Md:
     def _save_current_line(self):
         if (
             self._current_list_type and not self._inside_quoteblock and
-            not self._inside_codeblock and
+            not self._inside_codeblock and not self._inside_htmlblock[0] and
             not self.current_line.strip() and self.outputlines and
             not self.outputlines[-1].rpartition('\n')[2].strip()
         ):
@@ -587,6 +590,7 @@ class Po2Md:
         # returns to the item which contains the list
         self._inside_liblock = bool(self._current_list_type)
         self._inside_liblock_first_p = False
+        self._after_list = True
 
     def _save_nested_table_end(self):
         # tables nested in lists need a blank line to be interrupted
@@ -743,10 +747,17 @@ class Po2Md:
             elif self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            if not self._save_tight_item_text() and \
-                    self._current_list_type and not self.current_line:
-                self._save_current_line()
+            if not self._save_tight_item_text() and self._current_list_type:
+                if not self.current_line:
+                    self._save_current_line()
+                elif (
+                    self._inside_list_of_quoteblock()
+                    and not self.current_line.strip('> ')
+                    and self.outputlines[-1].strip('> ')
+                ):
+                    self._save_quoteblock_separator()
             self._inside_htmlblock = [True, False, len(self.current_line)]
+        self._after_list = self._after_list and block is md4c.BlockType.HTML
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -885,6 +896,7 @@ class Po2Md:
                     if not marks.strip('> '):
                         self.current_line = f'{head}{sep}'
             elif self._inside_quoteblock or self._current_list_type:
+                self._after_list = False
                 self.current_line = self.current_line[:start]
                 for line in html.split('\n'):
                     if not self.current_line.strip('> '):
@@ -900,6 +912,7 @@ class Po2Md:
                 else:
                     self._save_current_line()
             else:
+                self._after_list = False
                 self.current_line += '\n'
             self._inside_htmlblock[0] = False
 
@@ -1049,6 +1062,10 @@ class Po2Md:
             else:
                 self.current_msgid += text
         elif not self._process_command(text):
+            if self._after_list and \
+                    len(self.current_line) == self._inside_htmlblock[2]:
+                # the indentation could place it inside the list
+                text = text.lstrip(' ')
             self.current_line += text
 
     def _save_ending_html(self):
-- 
2.43.0


From 1ecebf936858233c773fa5479b1365e0c0f2e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 104/112] fix: structure of quotes inside lists with nested
 lists in po2md

---
 src/mdpo/po2md/__init__.py | 79 ++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0843706..32542ea 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -119,7 +119,7 @@ class Po2Md:
         '_inside_latexmath_display',
         '_inside_quoteblock',
         '_quoteblock_marks',
-        '_quoteblock_list_depth',
+        '_outer_blocks',
         '_span_texts',
         '_uspans_deep',
         '_current_thead_aligns',
@@ -316,7 +316,7 @@ class Po2Md:
 
         self._inside_quoteblock = False
         self._quoteblock_marks = ''  # one for each nested quote
-        self._quoteblock_list_depth = 0  # depth of the lists which contains it
+        self._outer_blocks = []  # state out of the quotes inside lists
 
         # texts of the links, images, code spans and wikilinks being
         # currently built (nesting), whose markup depends on their content
@@ -573,17 +573,11 @@ class Po2Md:
         return indent
 
     def _quoteblock_prefix(self):
-        # there could be lists inside the quote and a quote inside lists
-        depth = self._quoteblock_list_depth * 3
-        if self._inside_list_of_quoteblock():
-            indent = self._list_indent()
-        else:
-            indent = '   ' * len(self._current_list_type)
-        return f'{indent[:depth]}{self._quoteblock_marks}{indent[depth:]}'
+        # there could be lists inside the quote
+        return f'{self._quoteblock_marks}{self._list_indent()}'
 
     def _inside_list_of_quoteblock(self):
-        return self._inside_quoteblock and \
-            len(self._current_list_type) > self._quoteblock_list_depth
+        return self._inside_quoteblock and bool(self._current_list_type)
 
     def _leave_list(self):
         self._current_list_type.pop()
@@ -607,10 +601,43 @@ class Po2Md:
         return True
 
     def _save_quoteblock_separator(self):
-        indent = '   ' * self._quoteblock_list_depth
-        self.current_line = f'{indent}{self._quoteblock_marks}'
+        self.current_line = self._quoteblock_marks
         self._save_current_line()
 
+    def _enter_quoteblock_of_list(self):
+        # quotes inside lists are built apart, as if they were outside them
+        self._save_current_msgid()
+        if self.current_line.strip('> ') or not self._inside_quoteblock:
+            self._save_current_line()
+        self._outer_blocks.append({
+            attr: getattr(self, attr) for attr in (
+                'outputlines', 'current_line', '_current_list_type',
+                '_ul_marks', '_ol_marks', '_inside_liblock',
+                '_inside_quoteblock', '_quoteblock_marks',
+            )
+        })
+        self.outputlines, self.current_line = [], ''
+        self._current_list_type, self._ul_marks, self._ol_marks = [], [], []
+        self._inside_liblock = self._inside_liblock_first_p = False
+        self._inside_quoteblock = False
+        self._quoteblock_marks = ''
+
+    def _leave_quoteblock_of_list(self):
+        self._save_current_line()
+        lines = '\n'.join(self.outputlines).strip('\n').split('\n')
+        for attr, value in self._outer_blocks.pop().items():
+            setattr(self, attr, value)
+        self._inside_liblock_first_p = False
+        prefix = (
+            self._quoteblock_prefix() if self._inside_quoteblock
+            else '   ' * len(self._current_list_type)
+        )
+        for line in lines:
+            self.current_line = f'{prefix}> {line}'
+            self._save_current_line()
+        if self._inside_quoteblock:
+            self._save_quoteblock_separator()
+
     def enter_block(self, block, details):
         # raise 'enter_block' event
         if raise_skip_event(
@@ -710,9 +737,7 @@ class Po2Md:
                 indent = ''
             self.current_line += f'{indent}***'
             self._save_current_line()
-            if self._inside_quoteblock and self._quoteblock_list_depth:
-                self._save_quoteblock_separator()
-            elif not self._inside_liblock:
+            if not self._inside_liblock:
                 if self._inside_quoteblock:
                     self.current_line += f'{indent}{self._quoteblock_marks}'
                 self._save_current_line()
@@ -728,13 +753,11 @@ class Po2Md:
             self._current_thead_aligns.append(details['align'].value)
         elif block is md4c.BlockType.TD:
             self.current_line += '| '
+        elif block is md4c.BlockType.QUOTE and self._current_list_type:
+            self._enter_quoteblock_of_list()
         elif block is md4c.BlockType.QUOTE:
-            if self._inside_liblock and not self._inside_quoteblock:
-                self._save_current_msgid()
-                self._save_current_line()
-            if not self._inside_quoteblock:
-                self._quoteblock_list_depth = len(self._current_list_type)
-            elif not self.current_line.strip('> '):
+            if self._inside_quoteblock and \
+                    not self.current_line.strip('> '):
                 # the marks are added by the blocks of the nested quote
                 self.current_line = ''
             self._inside_quoteblock = True
@@ -811,12 +834,9 @@ class Po2Md:
             self._save_current_msgid()
             if self._inside_quoteblock:
                 self._save_current_line()
-                if self._quoteblock_list_depth:
-                    self._save_quoteblock_separator()
-                else:
-                    self.current_line += self._quoteblock_marks
-                    self._save_current_line()
-                    self.current_line += self._quoteblock_marks
+                self.current_line += self._quoteblock_marks
+                self._save_current_line()
+                self.current_line += self._quoteblock_marks
             else:
                 self.current_line += '\n'
                 self._save_current_line()
@@ -868,6 +888,9 @@ class Po2Md:
 
             self.current_line += f'{thead_separator}|'
             self._save_current_line()
+        elif block is md4c.BlockType.QUOTE and \
+                not self._quoteblock_marks:
+            self._leave_quoteblock_of_list()
         elif block is md4c.BlockType.QUOTE:
             separator = self._quoteblock_marks.rstrip()
             if self.outputlines and self.outputlines[-1].strip() == separator:
-- 
2.43.0


From 67fa2a3900037c8acc1f77329b05c3ea90f9f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 105/112] fix: save the text of ordered list items before
 entering their nested lists

---
 src/mdpo/po2md/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 32542ea..012fde8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -717,7 +717,11 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
-            if not self._ol_marks:
+            if self._ol_marks:
+                self._save_current_msgid()
+                if self._inside_quoteblock and self.current_line.strip('> '):
+                    self._save_current_line()
+            else:
                 self._save_tight_item_text()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
-- 
2.43.0


From 30de4f35bce31f5428ed864358133ead419e6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:14 +0000
Subject: [PATCH 106/112] fix: don't read as link references lines whose
 brackets are escaped or unbalanced

---
 src/mdpo/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 6057afc..548e515 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -4,7 +4,7 @@ from mdpo.text import min_not_max_chars_in_a_row
 
 
 LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?((?<=<)[^<>]+(?=>)|[^\s<>]+)>?'
+    r'^\[((?:\\.|[^\[\]\\])+)\]:\s+<?((?<=<)[^<>]+(?=>)|[^\s<>]+)>?'
     r'(?:\s+(?:"((?:\\.|[^"\\])*)"|\'((?:\\.|[^\'\\])*)\''
     r'|\(((?:\\.|[^()\\])*)\)))?$'
 )
-- 
2.43.0


From 6aaffe901ff5f15168e017a04ec1d3315bb96959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 107/112] fix: keep the trailing spaces of code blocks in
 quotes inside lists

---
 src/mdpo/po2md/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 012fde8..e0c199a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -633,8 +633,10 @@ class Po2Md:
             else '   ' * len(self._current_list_type)
         )
         for line in lines:
-            self.current_line = f'{prefix}> {line}'
-            self._save_current_line()
+            # the trailing spaces of code are part of it
+            self.outputlines.append(
+                f'{prefix}> {line}' if line else f'{prefix}>',
+            )
         if self._inside_quoteblock:
             self._save_quoteblock_separator()
 
-- 
2.43.0


From c554c54ad29fc8981246e9ecdd1c1e70624048c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:21 +0000
Subject: [PATCH 108/112] fix: don't add a line to empty fenced code blocks

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e0c199a..893e207 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -530,7 +530,7 @@ class Po2Md:
         self.current_line = ''
 
     def _save_codeblock(self, code, details):
-        lines = code.removesuffix('\n').split('\n')
+        lines = code.removesuffix('\n').split('\n') if code else []
         prefix = '   ' * len(self._current_list_type)
         if self._inside_indented_codeblock:
             prefix = self._list_indent()
-- 
2.43.0


From 5e887631e697bf2615e2170b2f11922f139ac428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 109/112] fix: separate nested lists which start with an empty
 item from the text before them

---
 src/mdpo/po2md/__init__.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 893e207..e194dee 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -592,6 +592,25 @@ class Po2Md:
                 self.outputlines and self.outputlines[-1].endswith('|'):
             self._save_current_line()
 
+    def _save_empty_item_separator(self):
+        # lists which start with an empty item can't interrupt a paragraph
+        if len(self._current_list_type) < 2 or \
+                len(self._current_list_type[-1][-1]) > 1 or \
+                not self.outputlines:
+            return
+        item, mark_regex = self.current_line, r'[-*+]|\d+[.)]|'
+        previous = self.outputlines[-1].rpartition('\n')[2]
+        if (
+            re.fullmatch(mark_regex, item.strip('> '))
+            and not re.fullmatch(mark_regex, previous.strip('> '))
+        ):
+            self.current_line = ''
+            if self._inside_quoteblock:
+                self._save_quoteblock_separator()
+            else:
+                self._save_current_line()
+            self.current_line = item
+
     def _save_tight_item_text(self):
         # the text of tight list items is not inside a paragraph block
         if not self._inside_liblock or not self.current_msgid:
@@ -851,6 +870,7 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_liblock = False
             if self.current_line:
+                self._save_empty_item_separator()
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
-- 
2.43.0


From aba3dc0eb2852e6195942896de9f9d3ad4de13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:38 +0000
Subject: [PATCH 110/112] fix: definitions after code blocks which start items
 of lists were not found

---
 src/mdpo/md.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 548e515..a0fba14 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -75,7 +75,8 @@ def parse_link_references(content, extensions=None):
     code_fence = ''  # inside fenced code blocks there are not references
     for n, line in enumerate(content.splitlines()):
         linestrip = line.strip()
-        match = re.match(code_fence_re, linestrip)
+        # code blocks could start after other marks, only the parser knows
+        match = extensions is None and re.match(code_fence_re, linestrip)
         if code_fence:
             if match and not match.group(2) and \
                     match.group(1).startswith(code_fence):
-- 
2.43.0


From aedeb17e0a67b949b4dfb1ce7464392ee49fa242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:41 +0000
Subject: [PATCH 111/112] fix: texts of list items after self-closed thematic
 breaks were not translated

---
 src/mdpo/mdpo2html/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ffe425a..8d27cdb 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -395,6 +395,9 @@ class MdPo2HTML(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
 
+        if self.replacer and self._is_grouper_tag(tag):
+            self._process_replacer()
+
         if not self.replacer and not (
             tag in self.image_tags and self._is_item_text()
         ):
-- 
2.43.0


From b077c5d7bfbd381c3d3292ee293ebfbdb599a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 112/112] fix: list items which start with other blocks lost
 their structure

---
 src/mdpo/po2md/__init__.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e194dee..58101fc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -522,6 +522,7 @@ class Po2Md:
             # two consecutive blank lines would end the list
             self.current_line = ''
             return
+        self._save_empty_item_separator()
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
         self.outputlines.append(
@@ -598,16 +599,14 @@ class Po2Md:
                 len(self._current_list_type[-1][-1]) > 1 or \
                 not self.outputlines:
             return
-        item, mark_regex = self.current_line, r'[-*+]|\d+[.)]|'
-        previous = self.outputlines[-1].rpartition('\n')[2]
-        if (
-            re.fullmatch(mark_regex, item.strip('> '))
-            and not re.fullmatch(mark_regex, previous.strip('> '))
-        ):
-            self.current_line = ''
+        item, mark_regex = self.current_line, r'[-*+]|\d+[.)]'
+        previous = self.outputlines[-1].rpartition('\n')[2].strip('> ')
+        if previous and re.fullmatch(mark_regex, item.strip('> ')) and \
+                not re.fullmatch(mark_regex, previous):
             if self._inside_quoteblock:
                 self._save_quoteblock_separator()
             else:
+                self.current_line = ''
                 self._save_current_line()
             self.current_line = item
 
@@ -742,8 +741,9 @@ class Po2Md:
                 self._save_current_msgid()
                 if self._inside_quoteblock and self.current_line.strip('> '):
                     self._save_current_line()
-            else:
-                self._save_tight_item_text()
+            elif not self._save_tight_item_text() and \
+                    self._current_list_type and self.current_line.strip('> '):
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
@@ -755,12 +755,14 @@ class Po2Md:
                     self._save_current_line()
             indent = (
                 '   ' * len(self._current_list_type)
-                if not self.current_line.startswith(('- ', '> - ')) else ''
+                if not self.current_line.strip('> ') else ''
             )
             if self._inside_quoteblock and not self.current_line.strip('> '):
                 self.current_line = self._quoteblock_prefix()
                 indent = ''
-            self.current_line += f'{indent}***'
+            # '* ***' is not an item
+            hr = '---' if self.current_line.endswith('* ') else '***'
+            self.current_line += f'{indent}{hr}'
             self._save_current_line()
             if not self._inside_liblock:
                 if self._inside_quoteblock:
@@ -792,6 +794,8 @@ class Po2Md:
                 if not self.current_line.strip('> ') and \
                         self.outputlines[-1].strip('> '):
                     self._save_quoteblock_separator()
+                elif self.current_line.strip('> '):
+                    self._save_current_line()
             elif self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
@@ -806,6 +810,12 @@ class Po2Md:
                     self._save_quoteblock_separator()
             self._inside_htmlblock = [True, False, len(self.current_line)]
         self._after_list = self._after_list and block is md4c.BlockType.HTML
+        if block not in {
+            md4c.BlockType.LI,
+            md4c.BlockType.P,
+            md4c.BlockType.HTML,
+        }:
+            self._inside_liblock_first_p = False
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -870,7 +880,6 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_liblock = False
             if self.current_line:
-                self._save_empty_item_separator()
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
@@ -945,7 +954,7 @@ class Po2Md:
                     if not marks.strip('> '):
                         self.current_line = f'{head}{sep}'
             elif self._inside_quoteblock or self._current_list_type:
-                self._after_list = False
+                self._after_list = self._inside_liblock_first_p = False
                 self.current_line = self.current_line[:start]
                 for line in html.split('\n'):
                     if not self.current_line.strip('> '):
-- 
2.43.0

