From 9ed985e3df71fc423d51064089a37552bd912bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 01/56] fix: number ordered list items consecutively when there
 is whitespace between them

---
 gopher_render/rendering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..2b148fa 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,10 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        # Only count the list items: pretty printed html will have whitespace
+        # data between them.
+        items = [t for t in tag.parent.tag_children() if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From 1537831378bf77784d18ac32368052233821ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 02/56] fix: text fed in several pieces renders the same as
 when fed at once

---
 gopher_render/_parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..01e22b3 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -251,7 +251,20 @@ class LinkParser(TagParser):
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
-        if not context['in_pre']:
+        self.in_pre = context['in_pre']
+        self._raw = ""
+        self.data = ""
+        self.closed = True
+        self.append(data)
+
+    def append(self, data):
+        """
+        Add to the data. The html parser may deliver a single run of text in
+        several pieces, depending on how it was fed.
+        """
+        self._raw += data
+        data = self._raw
+        if not self.in_pre:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
             # because it may be followed or preceeded by a tag that depends on
@@ -270,7 +283,6 @@ class DataParser(TagParser):
             data = ' '.join(data_split)
             data = re.sub('[ \t]+', ' ', data)
         self.data = data
-        self.closed = True
 
     def render(self, box):
         return self.data
@@ -547,6 +559,12 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
+        siblings = (parent or self.tree).children
+        if siblings:
+            last = siblings[-1]
+            if isinstance(last, DataParser) and last.in_pre == self._in_pre:
+                last.append(data)
+                return
         d = DataParser(parent, data, in_pre=self._in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From 28aa402995ee10120a4296e83bf1ee1672c2e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 03/56] fix: links outside any element no longer crash with
 'after_block' link placement

---
 gopher_render/_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 01e22b3..e767f5f 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -298,6 +298,10 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self._pending_links = []
+
+    def add_pending_link(self, link):
+        self._pending_links.append(link)
 
     def tag_children(self):
         """
@@ -308,8 +312,15 @@ class DocumentParser(object):
     def append(self, tag):
         self.children.append(tag)
 
+    def render_pending_links(self, box):
+        rendered = [l.link_render(box) for l in self._pending_links]
+        if rendered:
+            rendered.insert(0, '\n')
+        return "".join(rendered)
+
     def reset(self):
         self.children = []
+        self._pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -620,6 +631,7 @@ class GopherHTMLParser(HTMLParser):
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
+        self._parsed.append(self.tree.render_pending_links(self._box))
 
         if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
-- 
2.43.0


From 3c10e830f8bc488fc9b903e8ee0fad97b16d63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 04/56] fix: apply renderer settings to inline and extracted
 links

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index e767f5f..ccb8bbb 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -226,10 +226,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From 9da6031bcac9a8b5dd973a63de199cc8cc464747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 05/56] fix: a class attribute without a value no longer
 crashes the parser

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index ccb8bbb..533d1df 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,8 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            # The value will be None for a class attribute with no value
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
-- 
2.43.0


From 3491ba98fa583f2c7c302355ca3601c8d07ac9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 06/56] fix: void elements such as hr no longer swallow the
 content that follows them

---
 gopher_render/_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 533d1df..ed28b2c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -23,6 +23,13 @@ from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer,
 from .rendering import AnsiEscapeCodeRenderer
 
 
+# Elements that never have content or an end tag.
+VOID_TAGS = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link',
+    'meta', 'param', 'source', 'track', 'wbr',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -30,7 +37,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in VOID_TAGS
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -541,8 +548,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in VOID_TAGS:
+            # br, img, etc. tags are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From ff73b4c34ed76108d26ae050e80b0f9f4b596302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 07/56] fix: honour the width argument when no box is provided

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index ed28b2c..de2d3a1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -404,7 +404,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From ebc2ec935531220c731df66f17b273c19b006346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 08/56] fix: nested boxes with padding or borders no longer
 overflow their parent

---
 gopher_render/rendering.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 2b148fa..b3ce733 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -180,21 +180,23 @@ class Box(object):
     def padded_width():
         doc = "The width of the element including the padding."
         def fget(self):
-            # This has to include the width of the local line template
-            # but exclude any added by further up the hierarchy.
+            # This has to include the width of the local padding and line
+            # template but exclude any added by further up the hierarchy.
             return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
+                (self.total_padding[BoxSide.LEFT] - self.padding[BoxSide.LEFT]) +
+                (self.total_padding[BoxSide.RIGHT] - self.padding[BoxSide.RIGHT]) +
                 (self.total_line_template_padding - self.line_template_padding)
             )
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+            return self.padded_width + (
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From e649e59e9296135d98f9f2ab36b41b35b3940fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 09/56] fix: colour 0 of the 8-bit ANSI palette is no longer
 ignored

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index b3ce733..07afbfa 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1329,7 +1329,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour not in (None, ''):
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1340,7 +1340,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour not in (None, ''):
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From 0c04d80aa3cdd4e8b109663ffe9c64f6846bd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 10/56] fix: the ANSI font setting no longer raises a NameError

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 07afbfa..793739a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1324,7 +1324,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From 6f75fbb11cf1c554d0b6d85319f1d4d3a744c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 11/56] fix: a malformed link url no longer crashes the parser

---
 gopher_render/_parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index de2d3a1..dc03f84 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -159,7 +159,18 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            # Accessing the port can raise as well
+            hostname, port = parsed.hostname, parsed.port
+        except ValueError:
+            # Not a valid url: pass it along as it is, as a web link
+            return dict(
+                type='h',
+                selector="URL:{}".format(self.href),
+                host=self._context['gopher_host'],
+                port=self._context['gopher_port'],
+            )
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
@@ -172,8 +183,8 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=parsed.port,
+                host=hostname,
+                port=port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 3c7264fe020d40ef38cee4660545f1465b39f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 12/56] fix: gopher urls without a port use the default port
 rather than None

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index dc03f84..bd6f237 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -184,7 +184,8 @@ class LinkParser(TagParser):
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=hostname,
-                port=port,
+                # 70 is the default port for the protocol
+                port=70 if port is None else port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 5631bf4851c19d1479e69fd15474398277e636f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 13/56] fix: do not mistake a dot in a directory name for a
 file extension in links

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bd6f237..51cc137 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -137,7 +137,8 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
+        # Only the last segment of the path can have an extension
+        p = path.rpartition('/')[2].rpartition('.')
         if p[0] == "":
             # No file extension, so gopher menu?
             return 1
-- 
2.43.0


From bc653f0cb6e2de7f5ec200dc95f9755ee008afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 14/56] fix: nth-child and nth-last-child selectors match the
 wrong element for 0, and crash for series

---
 gopher_render/_selectors.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..03ee461 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    parse_series,
 )
 
 
@@ -175,18 +176,28 @@ def _combination_matches(tag, selector):
 
 # Pseudo Classes
 
+def _series_matches(arguments, position):
+    # The arguments may be a number, 'odd', 'even', or a series like '2n+1'.
+    try:
+        a, b = parse_series(arguments)
+    except ValueError:
+        return False
+    if a == 0:
+        return position == b
+    return (position - b) % a == 0 and (position - b) // a >= 0
+
+
 def _nth_child_matches(tag, selector):
     if not hasattr(tag, 'parent') or tag.parent is None:
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
+    position = tag_children.index(tag) + 1
+    return (
+        _series_matches(selector.arguments, position) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _nth_last_child_matches(tag, selector):
@@ -194,13 +205,12 @@ def _nth_last_child_matches(tag, selector):
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
+    position = len(tag_children) - tag_children.index(tag)
+    return (
+        _series_matches(selector.arguments, position) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _first_child_matches(tag, selector):
-- 
2.43.0


From 00916ee13d985723c61b4d50556d684b90b6960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 15/56] fix: attribute selectors no longer crash for attributes
 without a value

---
 gopher_render/_selectors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 03ee461..ed5ecc5 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -144,6 +144,13 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        if attr_val is None:
+            # An attribute without a value is the same as an empty one
+            attr_val = ""
+        if selector.operator in ('^=', '$=', '*=') and selector.value == "":
+            # Every string contains the empty string, but the css specification
+            # says that these should not match anything.
+            return False
         if selector.operator == '=':
             return attr_val == selector.value
         if selector.operator == '~=':
-- 
2.43.0


From e47a4e13c78ad8e5e4d9738387f925c9a73efe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 16/56] fix: reset the parser fully, even in the middle of
 preformatted text

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 51cc137..5bf7429 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -683,3 +683,4 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._in_pre = False
-- 
2.43.0


From 0f8acf534d552db20f8877368e2345c67977988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:07 +0000
Subject: [PATCH 17/56] fix: closing the parser more than once no longer
 repeats the output

---
 gopher_render/_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 5bf7429..424f699 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -647,6 +647,10 @@ class GopherHTMLParser(HTMLParser):
             if t.parent is None:
                 self.tree.append(t)
 
+        # The whole tree is rendered each time, so anything from a previous call
+        # has to be discarded.
+        self._parsed = []
+
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
-- 
2.43.0


From 3ac9a1cd00b0e9bb92934d42d18c7c3315c5c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:08 +0000
Subject: [PATCH 18/56] fix: settings of a derived renderer apply even if a
 distant base has identical ones

---
 gopher_render/rendering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 793739a..6a318c6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -304,9 +304,8 @@ class Renderer(metaclass=_RendererMeta):
         all_classes = inspect.getmro(cls)
         all_bases = []
         for klass in all_classes[::-1]:
-            if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+            if 'settings' in vars(klass):
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From f8293c96a52a6c7c0439aa940a51fc726a6d1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 19/56] fix: apply the start_index, step and line_template
 settings to ordered list items

---
 gopher_render/rendering.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 6a318c6..6812fb0 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1078,19 +1078,24 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        """
+        Adjust the formatting settings.
+        """
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
-        self.settings.line_template = self.settings.line_template.format(
-            self.order,
-            '{}'
-        )
-        super().__init__(tag, **kwargs)
+        # A template without a place for the ordinal is used as it is.
+        if '{1' in self.settings.line_template:
+            self.settings.line_template = self.settings.line_template.format(
+                self.order,
+                '{}'
+            )
 
     def _get_ordinal(self, tag, start_index, step):
         # Only count the list items: pretty printed html will have whitespace
-- 
2.43.0


From 0e27695ea320df4c57e9ffe92e5c2971ce71cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 20/56] fix: ignore ANSI escape sequences when padding,
 justifying and underlining lines

---
 gopher_render/rendering.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 6812fb0..688522f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,10 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
-        padding_spaces = width - orig_len
+        indent = ' ' * (len(line) - len(ls))
+        padding_spaces = width - textwrap._len(line)
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
         if padding_spaces == 0:
@@ -61,12 +60,16 @@ def center_justify(text, width, *args, **kwargs):
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
+    # Escape sequences are invisible, so make an allowance for them
+    width += len(text) - textwrap._len(text)
     return text.center(width, *args, **kwargs)
 
 
 def right(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
+    # Escape sequences are invisible, so make an allowance for them
+    width += len(text) - textwrap._len(text)
     return text.rjust(width, *args, **kwargs)
 
 
@@ -444,7 +447,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -512,7 +515,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From 8187dc6ecbc53155e368c7832ee41544d50413e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 21/56] fix: do not break words in the middle of an ANSI escape
 sequence

---
 gopher_render/_textwrap.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..9095750 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -33,6 +33,30 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        Determine where to break the word as if there were no ANSI escape
+        sequences in it, to make sure that none of them gets broken.
+        """
+        chunk = reversed_chunks[-1]
+        plain = _escape_regex.sub("", chunk)
+        if plain == chunk or not self.break_long_words:
+            super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            return
+        piece = []
+        super()._handle_long_word([plain], piece, cur_len, width)
+        count = len(piece[0])
+        end = 0
+        while count > 0:
+            escape = _escape_regex.match(chunk, end)
+            if escape:
+                end = escape.end()
+            else:
+                end += 1
+                count -= 1
+        cur_line.append(chunk[:end])
+        reversed_chunks[-1] = chunk[end:]
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From 93df6e9ba7e2eafa218407b3a59efae1c4886e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 22/56] fix: deeply nested blocks no longer crash when there is
 no width left

---
 gopher_render/rendering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 688522f..247a3f0 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -160,12 +160,14 @@ class Box(object):
         Block content should be wrapped to this width.
         """
         def fget(self):
-            return self.width - (
+            # Deep nesting can use up the whole width, but it is not possible
+            # to wrap anything to nothing.
+            return max(1, self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 self.total_line_template_padding
-            )
+            ))
         return locals()
     inner_width_excluding_line_template = property(**inner_width_excluding_line_template())
 
-- 
2.43.0


From a7238717ac7633497538c9a93096291228ce13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 23/56] fix: only mark link descriptions as trimmed when they
 actually are

---
 gopher_render/rendering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 247a3f0..ca826b3 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -745,8 +745,9 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
+        content = content.strip()
         trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
+        content = content[:max_link_description]
         if trimming:
             content = "{}...".format(content)
 
@@ -856,8 +857,9 @@ class ExtractedImageLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
+        trimmed_title = title.strip()
+        trimming = len(trimmed_title) > max_link_description
+        trimmed_title = trimmed_title[:max_link_description]
         if trimming:
             trimmed_title = "{}...".format(trimmed_title)
 
-- 
2.43.0


From 466442b670de7f4d8f1be8aec80bb4c1df238790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 24/56] fix: line breaks and tabs in link descriptions no
 longer corrupt gophermap links

---
 gopher_render/rendering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index ca826b3..23deae7 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -755,6 +755,8 @@ class ExtractedLinkRenderer(BlockRenderer):
             description = title if title is not None else content
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
+            # Tabs and newlines are the delimiters of the format
+            description = " ".join(description.split())
             return settings.gophermap_template.format(
                 description=super()._inner_render(description),
                 link_reference=link_ref,
@@ -867,6 +869,8 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             description = trimmed_title
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
+            # Tabs and newlines are the delimiters of the format
+            description = " ".join(description.split())
             return settings.gophermap_template.format(
                 description=super()._inner_render(description),
                 link_reference=link_ref,
-- 
2.43.0


From 27d3a76a3eb598deb13ca4b253199628f889d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 25/56] fix: avoid an endless loop wrapping a lone ANSI escape
 sequence to no width

---
 gopher_render/_textwrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 9095750..dbdbcec 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -40,6 +40,10 @@ class AnsiAwareTextWrapper(TextWrapper):
         """
         chunk = reversed_chunks[-1]
         plain = _escape_regex.sub("", chunk)
+        if not plain:
+            # Only escape sequences, which take up no space
+            cur_line.append(reversed_chunks.pop())
+            return
         if plain == chunk or not self.break_long_words:
             super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
             return
-- 
2.43.0


From 9b49994cb2e649f956586a5afc7c46fe994c2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 26/56] fix: list footer images even if links are not placed in
 the footer

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 424f699..c860545 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -658,7 +658,7 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.append(self.tree.render_pending_links(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From 077bfbf8f98dc33d9309d43e421a70a965660aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 27/56] fix: do not indent the links in the footer of a
 gophermap by the left margin

---
 gopher_render/_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c860545..06a5a1b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -658,22 +658,26 @@ class GopherHTMLParser(HTMLParser):
             self._parsed.append(t.render(self._box))
         self._parsed.append(self.tree.render_pending_links(self._box))
 
+        footer = []
         if len(self._footer_pending_links) > 0:
-            self._parsed.append("\n")
+            footer.append("\n")
             for l in self._footer_pending_links:
-                self._parsed.append(l.link_render(self._box))
+                footer.append(l.link_render(self._box))
+        if self._output_format != 'gophermap':
+            self._parsed.extend(footer)
+            footer = []
 
         # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
+        # Gophermap links should definitely not be indented. That is easy enough
+        # to avoid in the footer, but for inter-block links it will be troublesome.
         # Could perhaps identify the points where links need to be inserted
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         indented = self._indent_body()
-        self.parsed = "{}{}{}".format(
+        self.parsed = "{}{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
             indented,
+            "".join(footer),
             "\n" * self._box.margin[BoxSide.BOTTOM]
         )
         if self._optimise:
-- 
2.43.0


From 94e4d84dc8ee5b8660f6cd1fe922eabdff1578d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 28/56] fix: settings that match an element without a renderer
 of its own apply to the default renderer

---
 gopher_render/_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 06a5a1b..498b800 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -358,7 +358,7 @@ class RendererMap(object):
             selector = cssselect.parse(key)
             self._map.append(RendererMapping(selector, renderer_dict[key]))
 
-    def get_for_tag(self, tag):
+    def get_for_tag(self, tag, default=None):
         all_matches = []
         for mapping in self._map:
             match, specificity = tag_matches(tag, mapping.selector)
@@ -383,6 +383,12 @@ class RendererMap(object):
                 renderer = r
             if s is not None:
                 renderer_settings.update(s)
+        if not renderer and default is not None:
+            try:
+                renderer = default[0]
+                renderer_settings = {**(default[1] or {}), **renderer_settings}
+            except TypeError:
+                renderer = default
         if not renderer:
             return None
         return (renderer, renderer_settings)
@@ -508,10 +514,7 @@ class GopherHTMLParser(HTMLParser):
         return t
 
     def _get_renderer(self, tag):
-        renderer = self._renderer_map.get_for_tag(tag)
-        if not renderer:
-            renderer = self._default_renderer
-        return renderer
+        return self._renderer_map.get_for_tag(tag, self._default_renderer)
 
     def _get_extracted_link_renderer(self, tag):
         try:
-- 
2.43.0


From 70b3fbc555deba5d82f2b90af0998e20851be1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 29/56] fix: capitalizing text no longer corrupts ANSI escape
 sequences in it

---
 gopher_render/rendering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 23deae7..0b665d7 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -86,7 +86,11 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    # The case of an escape sequence is significant, so leave those alone
+    parts = [p.upper() for p in textwrap._escape_regex.split(text)]
+    for position, escape in enumerate(textwrap._escape_regex.findall(text)):
+        parts.insert(position * 2 + 1, escape)
+    return "".join(parts)
 
 
 def spread(text, spread_char, count):
-- 
2.43.0


From 589de97019646575647cd7762610453c73aea248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 30/56] fix: trimming a styled link description no longer
 leaves the style active

---
 gopher_render/rendering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 0b665d7..de0a1b4 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -750,10 +750,11 @@ class ExtractedLinkRenderer(BlockRenderer):
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
         content = content.strip()
-        trimming = len(content) > max_link_description
-        content = content[:max_link_description]
+        # Trimming must not leave an ANSI escape sequence broken or unbalanced
+        plain = textwrap._escape_regex.sub("", content)
+        trimming = len(plain) > max_link_description
         if trimming:
-            content = "{}...".format(content)
+            content = "{}...".format(plain[:max_link_description])
 
         if output_format == 'gophermap':
             description = title if title is not None else content
-- 
2.43.0


From de222082c15f7f08a0a44b6dab51c4d023bac975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 31/56] fix: keep the lines of lists and other blocks nested in
 list items

---
 gopher_render/rendering.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index de0a1b4..7ac9d5a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -73,6 +73,19 @@ def right(text, width, *args, **kwargs):
     return text.rjust(width, *args, **kwargs)
 
 
+def _justify_lines(justify_func, text, width, **kwargs):
+    """
+    Justify each line separately, so that the lines of any nested blocks are
+    retained. Blank lines are not.
+    """
+    justified = []
+    for line in text.split('\n'):
+        if line.strip():
+            justified.append(justify_func(line, width, **kwargs))
+            kwargs['initial_indent'] = kwargs['subsequent_indent']
+    return '\n'.join(justified)
+
+
 justifications = {
     'none': _noop,
     'full': full_justify,
@@ -1075,7 +1088,7 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        justified = _justify_lines(justify_func, inner, width, **justify_args)
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
@@ -1198,7 +1211,7 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        justified = _justify_lines(justify_func, inner, width, **justify_args)
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
-- 
2.43.0


From 9d29b5adb256096f43dfc5419bd498aeefab1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 32/56] fix: anchors without a href are no longer listed as
 links to None

---
 gopher_render/_parser.py   | 5 +++--
 gopher_render/rendering.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 498b800..1eabe0b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -531,7 +531,8 @@ class GopherHTMLParser(HTMLParser):
         t = None
         if tag == 'pre':
             self._in_pre = True
-        if tag in ('a', 'img'):
+        # An a tag without a href is just an anchor
+        if tag == 'img' or (tag == 'a' and dict(attrs).get('href') is not None):
             t = LinkParser(
                 tag,
                 parent,
@@ -620,7 +621,7 @@ class GopherHTMLParser(HTMLParser):
     def _assign_renderers(self, tags):
         for tag in tags:
             renderer = self._get_renderer(tag)
-            if tag.tag in ('a', 'img'):
+            if isinstance(tag, LinkParser):
                 tag.assign_renderer((
                         renderer,
                         self._get_extracted_link_renderer(tag)
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ac9d5a..5e4d246 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -725,6 +725,9 @@ class LinkRenderer(InlineRenderer):
     def render(self, content):
         settings = self.settings
         capitalize_func = capitalize if settings.capitalized else _noop
+        if "link_placement" not in self.context:
+            # An anchor rather than a link
+            return capitalize_func(super().render(content))
         if self.context["link_placement"] == "inline":
             if "title" in self.context and self.context["title"]:
                 return settings.templates["inline"][1].format(
-- 
2.43.0


From c02e83175fc6dd5512f36223e2d2e75036dfdf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 33/56] fix: references to extracted images are labelled with
 the alternative text

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1eabe0b..677ccd1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -134,6 +134,8 @@ class LinkParser(TagParser):
             self.title = self.attrs.get('alt', None)
             self.href = self.attrs.get('src', None)
             self.gopher_link = self._parse_href()
+        # These are required for references as well, not just the links
+        self._context.update(href=self.href, title=self.title)
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-- 
2.43.0


From 43a14fcf63ebab4ba5fc2e011470cda80bba8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 34/56] fix: do not pad the lines of extracted images in
 gophermaps

---
 gopher_render/rendering.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5e4d246..0a46e66 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -914,6 +914,31 @@ class ExtractedImageLinkRenderer(BlockRenderer):
                 **keywords
             )
 
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
 
 # TODO: i tags should also have a renderer for icons
 class EmRenderer(InlineRenderer):
-- 
2.43.0


From de8a0abc4ba2bbf6b0a0f38fa617ae50bcebf383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 35/56] fix: letter spacing of headings leaves escape sequences
 alone

They were taken apart by the spacing between the letters.
---
 gopher_render/rendering.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 0a46e66..0cfe537 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -108,7 +108,20 @@ def capitalize(text):
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    # Keep escape sequences together, and with the character they precede
+    chars = []
+    position = 0
+    escapes = ""
+    while position < len(text):
+        escape = textwrap._escape_regex.match(text, position)
+        if escape:
+            escapes += escape.group()
+            position = escape.end()
+        else:
+            chars.append(escapes + text[position])
+            escapes = ""
+            position += 1
+    return s.join(chars) + escapes
 
 
 class BoxSide:
-- 
2.43.0


From 3efdfb7fc3d29eefec2add034185950bd8ffff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 36/56] fix: styling continues after a nested styled element

An element that switched off its own colours or effects also switched off
those of the elements around it for the rest of their content.
---
 gopher_render/rendering.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 0cfe537..b9924b9 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1350,6 +1350,26 @@ def _get_sequence_for_colour(colour, is_background=False):
     )
 
 
+def _switches_off(sequence, enabled):
+    """
+    Does the first escape sequence undo what the second one enabled?
+    """
+    code, enabled_code = sequence[2:-1], enabled[2:-1].split(';')[0]
+    if code in ('', '0'):
+        return True
+    if code == '39':
+        return enabled_code == '38' or int(enabled_code) in ansi_colours.values()
+    if code == '49':
+        return enabled_code == '48' or (
+            int(enabled_code) - ANSI_BACKGROUND_COLOUR_OFFSET in ansi_colours.values()
+        )
+    if code == str(ANSI_FONT_OFFSET):
+        return int(enabled_code) - ANSI_FONT_OFFSET in range(10)
+    return (int(enabled_code), code) in [
+        (effect[0], str(effect[1])) for effect in ansi_escape_sequences.values()
+    ]
+
+
 class AnsiEscapeCodeRenderer(InlineRenderer):
     """
     Inline renderer that can style text using ANSI terminal escape sequences.
@@ -1430,6 +1450,16 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
         if normalise:
             disable.append(ANSI_ESCAPE_SEQUENCE.format(0))
 
+        # Elements inside of this one may have switched off what is still
+        # required for the rest of the content.
+        inner = textwrap._escape_regex.sub(
+            lambda escape: escape.group() + "".join([
+                sequence for sequence in enable
+                if _switches_off(escape.group(), sequence)
+            ]),
+            inner
+        )
+
         return "{}{}{}".format(
             "".join(enable),
             inner,
-- 
2.43.0


From e50c4cfdb54457fa5ab1c2e5aee2fce3163989a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 37/56] fix: report mismatched end tags on standard error

The command line prints the rendered text on standard output, and the reports
came in the midst of it.
---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 677ccd1..67c63da 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from html.parser import HTMLParser
 from urllib.parse import urlparse
 from collections import namedtuple
@@ -575,13 +576,13 @@ class GopherHTMLParser(HTMLParser):
         if tag == 'pre':
             self._in_pre = False
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
         if top.tag == tag:
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
-- 
2.43.0


From 0c4b363b0131d9f7189b665762e4e4aa91e6973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 38/56] fix: attribute selectors with values never matched or
 crashed

---
 gopher_render/_selectors.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index ed5ecc5..4b73c0a 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -147,23 +147,25 @@ def _attribute_matches(tag, selector):
         if attr_val is None:
             # An attribute without a value is the same as an empty one
             attr_val = ""
-        if selector.operator in ('^=', '$=', '*=') and selector.value == "":
+        # cssselect gives the value as a token since version 1.1.0
+        value = getattr(selector.value, 'value', selector.value)
+        if selector.operator in ('^=', '$=', '*=') and value == "":
             # Every string contains the empty string, but the css specification
             # says that these should not match anything.
             return False
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value in attr_val
     return False
 
 
-- 
2.43.0


From 7c3842651d9bf12c2eb1d393e1e695f0119ac994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:16 +0000
Subject: [PATCH 39/56] fix: entries of images in links rendered in place were
 lost

---
 gopher_render/_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 67c63da..d45a1e8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -138,6 +138,11 @@ class LinkParser(TagParser):
         # These are required for references as well, not just the links
         self._context.update(href=self.href, title=self.title)
 
+    def add_pending_link(self, link):
+        # The content of a link may be rendered in more than one place, or not
+        # with the rest of the block, so what is in it goes after what it is in.
+        self.parent.add_pending_link(link)
+
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
         # Only the last segment of the path can have an extension
-- 
2.43.0


From 3f3d90c7e6fe9ab67d2b8e1d0d0fc337de213451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 40/56] fix: gopher urls without a host pointed to the host
 None

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d45a1e8..77503ab 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -187,7 +187,7 @@ class LinkParser(TagParser):
                 host=self._context['gopher_host'],
                 port=self._context['gopher_port'],
             )
-        elif parsed.scheme == 'gopher':
+        elif parsed.scheme == 'gopher' and hostname:
             # Absolute gopher url
             return dict(
                 type=self._guess_type(parsed.path),
@@ -196,7 +196,7 @@ class LinkParser(TagParser):
                 # 70 is the default port for the protocol
                 port=70 if port is None else port,
             )
-        elif parsed.scheme == '':
+        elif parsed.scheme in ('', 'gopher'):
             # Relative URL - interpret as a relative gopher link
             return dict(
                 type=self._guess_type(parsed.path),
-- 
2.43.0


From d9bb55ccc818162affd0f7f424daf5a8cfe85299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 41/56] fix: background colours of the github theme were
 ignored

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From dc4f666c42980c8b659644a891b850dd3c097d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 42/56] fix: escape sequences changed how text was wrapped and
 stripped

---
 gopher_render/_textwrap.py | 62 ++++++++++++++++++++++++++++++++++++++
 gopher_render/rendering.py | 15 ++++++---
 2 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index dbdbcec..87298b4 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,6 +27,28 @@ def _len(obj):
     return len(actual)
 
 
+def _strip(text):
+    """
+    Remove the whitespace around the text, but not any ANSI escape sequences.
+    """
+    start, end = 0, len(text)
+    escapes = [e.span() for e in _escape_regex.finditer(text)]
+    leading, trailing = "", ""
+    while True:
+        start += len(text[start:end]) - len(text[start:end].lstrip())
+        if not escapes or escapes[0][0] != start:
+            break
+        leading += text[slice(*escapes[0])]
+        start = escapes.pop(0)[1]
+    while True:
+        end = start + len(text[start:end].rstrip())
+        if not escapes or escapes[-1][1] != end:
+            break
+        trailing = text[slice(*escapes[-1])] + trailing
+        end = escapes.pop()[0]
+    return leading + text[start:end] + trailing
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
@@ -61,6 +83,46 @@ class AnsiAwareTextWrapper(TextWrapper):
         cur_line.append(chunk[:end])
         reversed_chunks[-1] = chunk[end:]
 
+    def wrap(self, text):
+        """
+        Wrap the text as if there were no ANSI escape sequences in it, and put
+        them back between the same characters.
+        """
+        plain = _escape_regex.sub("", text)
+        if plain == text:
+            return super().wrap(text)
+        lines = super().wrap(plain) or [""]
+
+        # Whitespace may be replaced or dropped, so count the other characters.
+        # Sequences that follow whitespace belong to the character after them.
+        count = 0
+        after_space = True
+        before, after = {}, {}
+        position = 0
+        while position < len(text):
+            escape = _escape_regex.match(text, position)
+            if escape:
+                target, key = (before, count + 1) if after_space else (after, count)
+                target[key] = target.get(key, "") + escape.group()
+                position = escape.end()
+            else:
+                after_space = text[position].isspace()
+                count += not after_space
+                position += 1
+
+        restored = []
+        position = 0
+        for line in lines:
+            chars = []
+            for char in line:
+                if not char.isspace():
+                    position += 1
+                    char = before.get(position, "") + char + after.get(position, "")
+                chars.append(char)
+            restored.append("".join(chars))
+        restored[-1] += before.get(count + 1, "")
+        return restored
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index b9924b9..415ceb5 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -79,10 +79,17 @@ def _justify_lines(justify_func, text, width, **kwargs):
     retained. Blank lines are not.
     """
     justified = []
+    escapes = ""
     for line in text.split('\n'):
-        if line.strip():
-            justified.append(justify_func(line, width, **kwargs))
+        if textwrap._escape_regex.sub("", line).strip():
+            justified.append(justify_func(escapes + line, width, **kwargs))
             kwargs['initial_indent'] = kwargs['subsequent_indent']
+            escapes = ""
+        else:
+            # There is nothing to see but there may be escape sequences
+            escapes += textwrap._strip(line)
+    if escapes:
+        justified.append((justified.pop() if justified else "") + escapes)
     return '\n'.join(justified)
 
 
@@ -660,7 +667,7 @@ class ParagraphRenderer(BlockRenderer):
         for chunk in inner_split:
             # I think we can safely strip here because the paragraph renderer
             # is expected to reformat its contents...
-            j = justify_func(chunk.strip(), width, **justify_args)
+            j = justify_func(textwrap._strip(chunk), width, **justify_args)
             justified.append(j)
         justified = '\n'.join(justified)
         just_split = justified.split("\n")
@@ -778,7 +785,7 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        content = content.strip()
+        content = textwrap._strip(content)
         # Trimming must not leave an ANSI escape sequence broken or unbalanced
         plain = textwrap._escape_regex.sub("", content)
         trimming = len(plain) > max_link_description
-- 
2.43.0


From 30db72f307f105e665ce95fa73c5b854695161b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 43/56] fix: styled text was centered differently

---
 gopher_render/rendering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 415ceb5..4fa8020 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -60,9 +60,11 @@ def center_justify(text, width, *args, **kwargs):
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    # Escape sequences are invisible, so make an allowance for them
-    width += len(text) - textwrap._len(text)
-    return text.center(width, *args, **kwargs)
+    # Escape sequences are invisible, so center as much as can be seen
+    visible = textwrap._len(text)
+    centered = ("x" * visible).center(width, *args, **kwargs)
+    left = (len(centered) - visible + (width & 1)) // 2
+    return centered[:left] + text + centered[left + visible:]
 
 
 def right(text, width, *args, **kwargs):
-- 
2.43.0


From 67c06fd197150875f5419bd3a9cc6b08aa5114af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 44/56] fix: escape sequences behind the last line end made a
 line of their own

---
 gopher_render/rendering.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 4fa8020..cab688c 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -75,6 +75,17 @@ def right(text, width, *args, **kwargs):
     return text.rjust(width, *args, **kwargs)
 
 
+def _split_lines(text):
+    """
+    The lines of the text. Escape sequences behind the last line end do not
+    make another line.
+    """
+    lines = text.splitlines()
+    if len(lines) > 1 and lines[-1] and not textwrap._len(lines[-1]):
+        lines[-2:] = ["".join(lines[-2:])]
+    return lines
+
+
 def _justify_lines(justify_func, text, width, **kwargs):
     """
     Justify each line separately, so that the lines of any nested blocks are
@@ -721,7 +732,7 @@ class PreRenderer(BlockRenderer):
     def _inner_render(self, content):
         settings = self.settings
 
-        lines = content.splitlines()
+        lines = _split_lines(content)
         formatted = []
         for line in lines:
             formatted.append(
@@ -1059,7 +1070,7 @@ class BlockQuoteRenderer(BlockRenderer):
 
         width = self.box.inner_width
 
-        content_split = content.splitlines()
+        content_split = _split_lines(content)
         template = self.settings.line_template
 
         return "\n".join(
-- 
2.43.0


From aebde284df9b73f44b60e297cd24f6edfe804cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 45/56] fix: escape sequences on a line of their own before the
 last line end took that line away

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index cab688c..455f5e3 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -81,7 +81,7 @@ def _split_lines(text):
     make another line.
     """
     lines = text.splitlines()
-    if len(lines) > 1 and lines[-1] and not textwrap._len(lines[-1]):
+    if len(lines) > 1 and lines[-1] and not textwrap._len(lines[-1]) and text.endswith(lines[-1]):
         lines[-2:] = ["".join(lines[-2:])]
     return lines
 
-- 
2.43.0


From 92b092782d06fe5a2793ae978332d76b090b135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 46/56] fix: selectors with pseudo-elements no longer match the
 element itself

---
 gopher_render/_selectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 4b73c0a..955a89f 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -344,6 +344,9 @@ def tag_matches(tag, selector):
     matched = False
     best_specificity = None
     for s in selector:
+        if s.pseudo_element is not None:
+            # It selects something that is not an element
+            continue
         is_match = _selector_matches(tag, s.parsed_tree)
         if is_match:
             if _more_specific(s.specificity(), best_specificity):
-- 
2.43.0


From 9432563b015d95e3ea53b4aef7053de9bf652b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 47/56] fix: match the names of elements and attributes in
 selectors regardless of case

---
 gopher_render/_selectors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 955a89f..0c54f46 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -24,7 +24,8 @@ def _element_matches(tag, element):
     if hasattr(tag, 'data'):
         return False
     # element.element will be None for the universal selector ('*')
-    return tag.tag == element.element or element.element is None
+    # The names of html elements are case-insensitive
+    return element.element is None or tag.tag == element.element.lower()
 
 
 def _hash_matches(tag, hash):
@@ -136,11 +137,13 @@ def _attribute_matches(tag, selector):
     # not handled here.
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
-    if selector.attrib in tag.attrs:
+    # The names of html attributes are case-insensitive
+    attrib = selector.attrib.lower()
+    if attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
-        attr_val = tag.attrs[selector.attrib]
-        if selector.attrib == 'class':
+        attr_val = tag.attrs[attrib]
+        if attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
-- 
2.43.0


From 714e8614c0f1dafb03c0894a52187cdf5df50ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 48/56] fix: selectors with a namespace no longer match
 elements and attributes that have none

---
 gopher_render/_selectors.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 0c54f46..9cf320a 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -23,6 +23,9 @@ def _element_matches(tag, element):
         return False
     if hasattr(tag, 'data'):
         return False
+    if element.namespace:
+        # Namespaces are not handled, so nothing is in one
+        return False
     # element.element will be None for the universal selector ('*')
     # The names of html elements are case-insensitive
     return element.element is None or tag.tag == element.element.lower()
@@ -133,8 +136,10 @@ def _column_matches(tag, selector):
 def _attribute_matches(tag, selector):
     if not _selector_matches(tag, selector.selector):
         return False
-    # This selector allows a namespace to be specified as well, but that is
-    # not handled here.
+    # This selector allows a namespace to be specified as well, but as those
+    # are not handled, nothing is in one.
+    if selector.namespace:
+        return False
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
     # The names of html attributes are case-insensitive
-- 
2.43.0


From afa84a5d4ec53498f19aa9c8d3453cf5f3df7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 49/56] fix: match class attributes as they are written, and
 separate words by ASCII whitespace only

---
 gopher_render/_parser.py    |  5 +++--
 gopher_render/_selectors.py | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 77503ab..725dc95 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -5,7 +5,7 @@ from urllib.parse import urlparse
 from collections import namedtuple
 import cssselect
 
-from ._selectors import tag_matches, Specificity
+from ._selectors import tag_matches, split_words, Specificity
 
 from .rendering import full_justify
 
@@ -60,7 +60,8 @@ class TagParser(object):
     def __extract_classes(self):
         if 'class' in self.attrs:
             # The value will be None for a class attribute with no value
-            self.attrs['class'] = (self.attrs['class'] or '').split()
+            self.class_attr = self.attrs['class'] or ''
+            self.attrs['class'] = split_words(self.class_attr)
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 9cf320a..1346018 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -1,3 +1,4 @@
+import re
 import cssselect
 from cssselect.parser import (
     Selector,
@@ -14,6 +15,13 @@ from cssselect.parser import (
 )
 
 
+def split_words(value):
+    """
+    The words of an attribute value. Only ASCII whitespace separates them.
+    """
+    return re.findall('[^ \t\n\f\r]+', value)
+
+
 # Basic match functions
 
 def _element_matches(tag, element):
@@ -149,9 +157,9 @@ def _attribute_matches(tag, selector):
             return True
         attr_val = tag.attrs[attrib]
         if attrib == 'class':
-            # The class attribute is split during parsing, so have to rejoin
-            # it for ease of comparison
-            attr_val = " ".join(attr_val)
+            # The class attribute is split during parsing, so have to use it
+            # as it was, or rejoin it for ease of comparison
+            attr_val = getattr(tag, 'class_attr', " ".join(attr_val))
         if attr_val is None:
             # An attribute without a value is the same as an empty one
             attr_val = ""
@@ -164,7 +172,7 @@ def _attribute_matches(tag, selector):
         if selector.operator == '=':
             return attr_val == value
         if selector.operator == '~=':
-            split_val = attr_val.split()
+            split_val = split_words(attr_val)
             return value in split_val
         if selector.operator == '|=':
             return attr_val == value or attr_val.startswith("{}-".format(value))
-- 
2.43.0


From 698ebf8a4820da54c59472f23b776016cb6e16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 50/56] fix: allow escaped braces in line templates

---
 gopher_render/rendering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 455f5e3..3b9d2e6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -152,8 +152,7 @@ class BoxSide:
 
 
 def _get_template_width(template):
-    # TODO: This needs to be more sophisticated
-    return len(template) - 2
+    return len(template.format(''))
 
 
 class Box(object):
@@ -1182,7 +1181,10 @@ class OrderedListItemRenderer(ListItemRenderer):
         )
         # A template without a place for the ordinal is used as it is.
         if '{1' in self.settings.line_template:
-            self.settings.line_template = self.settings.line_template.format(
+            # It will be formatted again, so escaped braces have to stay escaped.
+            template = self.settings.line_template
+            template = template.replace('{{', '{{{{').replace('}}', '}}}}')
+            self.settings.line_template = template.format(
                 self.order,
                 '{}'
             )
-- 
2.43.0


From 9edb15f16683d9ce95d508adabaa14cd29cbb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 51/56] fix: tell selecting the primary font from the end of
 another font

---
 gopher_render/rendering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3b9d2e6..11fca7b 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1440,7 +1440,11 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
+            font = settings.font + ANSI_FONT_OFFSET
+            if font == ANSI_FONT_OFFSET:
+                # This must not look like the end of another font
+                font = "{0};{0}".format(font)
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(font))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From f3149f3f9f63d092303dbae603c06c8fd24d399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:37 +0000
Subject: [PATCH 52/56] fix: images without a src no longer refer to None

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 725dc95..595901e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -134,7 +134,8 @@ class LinkParser(TagParser):
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            # Without an address there is nothing to point to
+            self.href = self.attrs.get('src') or ''
             self.gopher_link = self._parse_href()
         # These are required for references as well, not just the links
         self._context.update(href=self.href, title=self.title)
-- 
2.43.0


From bbb0cae75ef07d0b7dda540d9e21180009b0dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 53/56] fix: preformatted text ends with its element, not with
 any end tag of a pre

---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 595901e..1ef3635 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -580,8 +580,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
@@ -594,6 +592,8 @@ class GopherHTMLParser(HTMLParser):
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
             self._tag_stack.pop()
+            # It might not be the only one, and only its own end tag ends it
+            self._in_pre = any(t.tag == 'pre' for t in self._tag_stack)
 
     def handle_data(self, data):
         # Ignore any whitespace data on its own, unless in a pre tag
@@ -660,6 +660,7 @@ class GopherHTMLParser(HTMLParser):
             t = self._tag_stack.pop()
             if t.parent is None:
                 self.tree.append(t)
+        self._in_pre = False
 
         # The whole tree is rendered each time, so anything from a previous call
         # has to be discarded.
-- 
2.43.0


From 12eb3aad1af1b11b4f862c5a59d0232de9b7529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 54/56] fix: settings for link entries without naming a
 renderer

---
 gopher_render/_parser.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1ef3635..77f84ef 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -527,14 +527,8 @@ class GopherHTMLParser(HTMLParser):
         return self._renderer_map.get_for_tag(tag, self._default_renderer)
 
     def _get_extracted_link_renderer(self, tag):
-        try:
-            renderer = self._extracted_link_renderer_map.get_for_tag(tag)
-        except KeyError:
-            renderer = None
-        if not renderer:
-            # This should have been matched in the map anyway
-            renderer = self.extracted_link_renderers['a']
-        return renderer
+        default = ExtractedImageLinkRenderer if tag.tag == 'img' else ExtractedLinkRenderer
+        return self._extracted_link_renderer_map.get_for_tag(tag, default)
 
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
-- 
2.43.0


From fa274b9838650aaed81b8449539a84ea72238177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:39 +0000
Subject: [PATCH 55/56] fix: settings for the default without naming a renderer

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 77f84ef..13715eb 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -395,7 +395,7 @@ class RendererMap(object):
                 renderer_settings.update(s)
         if not renderer and default is not None:
             try:
-                renderer = default[0]
+                renderer = default[0] or Renderer
                 renderer_settings = {**(default[1] or {}), **renderer_settings}
             except TypeError:
                 renderer = default
-- 
2.43.0


From e037d7f732b609d227af396cc20127e22f73613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 56/56] fix: parameters belong to the path of relative links
 too

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 13715eb..6aaecbc 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,7 +1,7 @@
 import re
 import sys
 from html.parser import HTMLParser
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from collections import namedtuple
 import cssselect
 
@@ -171,7 +171,7 @@ class LinkParser(TagParser):
         elements of a gophermap link
         """
         try:
-            parsed = urlparse(self.href)
+            parsed = urlsplit(self.href)
             # Accessing the port can raise as well
             hostname, port = parsed.hostname, parsed.port
         except ValueError:
-- 
2.43.0

