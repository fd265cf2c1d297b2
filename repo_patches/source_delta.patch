From 3e47f1d8a5172839f3de5ab2a116b7c97c0aba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 01/37] fix: compute explicit y positions in horizontal boxes
 from the parent's height

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From 52760bfebb0e8dc71e35238c5851dacd1eec75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 02/37] fix: reject size and position texts with extra brackets
 or a trailing newline

---
 elsie/boxtree/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/value.py b/elsie/boxtree/value.py
index 36f42ec..ad50020 100644
--- a/elsie/boxtree/value.py
+++ b/elsie/boxtree/value.py
@@ -6,7 +6,7 @@ from .lazy import LazyValue
 
 class SizeValue:
     parser = re.compile(
-        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]+$"
+        r"^(?P<min_size>\d+)\Z|^(?P<ratio>\d+)%\Z|^(?P<fill_1>fill)\Z|^fill[(](?P<fill>\d+)[)]\Z"
     )  # noqa
 
     def __init__(self, min_size=0, ratio=None, fill=0, lazy_value=None):
@@ -72,7 +72,7 @@ class SizeValue:
 
 
 class PosValue:
-    parser = re.compile(r"^(?P<fix_pos>^\d+$)|^(?P<ratio>^\d+)%$|^\[(?P<align>\d+)%\]$")
+    parser = re.compile(r"^(?P<fix_pos>^\d+\Z)|^(?P<ratio>^\d+)%\Z|^\[(?P<align>\d+)%\]\Z")
 
     def __init__(self, fix_pos=None, ratio=None, align=None, lazy_value=None):
         self.fix_pos = fix_pos
-- 
2.43.0


From da940a87108a85f75d4da2ae579f287bf4463767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/37] fix: reopen user sections in their original order when
 merging highlighted code

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..2224ad9 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -185,7 +185,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 27975d23412cd50ef3c367c02de4dd7d4c898b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 04/37] fix: keep dummy and suppressed sections open across
 line breaks of a text

---
 elsie/render/backends/svg/draw.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..744f2b3 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
-- 
2.43.0


From dea1eb6726184ec01a59812059d26de9a1fcc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 05/37] fix: restore the priority of the enclosing style when a
 section of a text ends

---
 elsie/render/backends/svg/draw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 744f2b3..511acca 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -109,8 +109,9 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            current_priority = next(
+                s.priority for s in reversed(active_styles) if s is not None
+            )
         else:
             raise Exception("Invalid token")
 
-- 
2.43.0


From d982f804c53ba2624fe538c6174729fdccd28457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 06/37] fix: scale a fitted text from its natural size on every
 layout

---
 elsie/text/textboxitem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..3a9e9ae 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -34,9 +34,10 @@ class TextBoxItem(BoxItem):
         self._make_query(box.slide.slides.backend)
 
         if scale_to_fit:
+            natural_size = self._text_size
 
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = natural_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From 327d46f4b2533e63bd44ac2f9f9409d98a5ec72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 07/37] fix: escape quotes and white space in XML attribute
 values

---
 elsie/utils/sxml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..feb7505 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -22,14 +22,18 @@ class Xml:
 
     def set(self, name, value, escape=True):
         assert self.is_open
+        value = escape_text(str(value))
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = value.replace("'", "&#39;")
+            # References survive the white space normalization of XML parsers
+            for c in "\t\n\r":
+                value = value.replace(c, "&#{};".format(ord(c)))
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
         text = escape_text(str(text))
-        text = text.replace(" ", "&#160;")
+        text = text.replace(" ", "&#160;").replace("\r", "&#13;")
         self.chunks.append(text)
 
     def close(self, text=None):
-- 
2.43.0


From 55173e54f2ccfbbf578655bbb1949f0050ab16df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 08/37] fix: let an inner style switch bold and italic off in
 SVG texts

---
 elsie/render/backends/svg/draw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 511acca..64757eb 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -16,10 +16,10 @@ def set_font_from_style(xml, style):
         s += "fill:{};".format(style.color)
     if style.opacity is not None:
         s += f"fill-opacity:{style.opacity};"
-    if style.bold:
-        s += "font-weight: bold;"
-    if style.italic:
-        s += "font-style: italic;"
+    if style.bold is not None:
+        s += "font-weight: {};".format("bold" if style.bold else "normal")
+    if style.italic is not None:
+        s += "font-style: {};".format("italic" if style.italic else "normal")
     if s:
         xml.set("style", s)
 
-- 
2.43.0


From a7a945eb337dfde3083ab4859b905809bfedebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 09/37] fix: convert lengths of SVG images given in inches and
 picas

---
 elsie/render/backends/svg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..42934b9 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -33,6 +33,10 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
+    elif suffix == "in":
+        factor = 96.0
+    elif suffix == "pc":
+        factor = 16.0
     else:
         factor = 1.0
     return float(text) * factor
-- 
2.43.0


From 07638ed67c18ebf5c7c1317fc45dc2da967d1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 10/37] fix: rename every reference to a renamed id of an SVG
 and no others

---
 elsie/render/backends/svg/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index 42934b9..4443b8e 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,8 +1,11 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
     from ....utils.sxml import Xml
 
+ID_REFERENCE = re.compile(r"#([\w.:-]+)")
+
 
 def svg_begin(xml, width=None, height=None, view_box=None, inkscape_namespace=False):
     xml.element("svg")
@@ -43,18 +46,20 @@ def svg_size_to_pixels(text):
 
 
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add(e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        return match.group(0) + (suffix if match.group(1) in ids else "")
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if "#" in value and name != "id":
+                e.set(name, ID_REFERENCE.sub(rename, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 784561c16d987339d947d5ec4a370d34352bd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 11/37] fix: hide the image elements of the first fragment in
 later fragments of the slide

---
 elsie/boxtree/boxmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..bfbc454 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -616,7 +616,7 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if not fragments and select_fragments is None:
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
-- 
2.43.0


From 1d73af06419ca6aa3bc9d34bc73ad585291f65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 12/37] fix: keep the text behind hidden elements of an image

---
 elsie/render/image.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..f53719c 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -33,5 +33,12 @@ def create_image_data(root, step):
     root = deepcopy(root)
     find_hidden_elements(root)
     for element, child in hidden:
+        if child.tail:
+            # Removing an element must not remove the text behind it
+            previous = child.getprevious()
+            if previous is None:
+                element.text = (element.text or "") + child.tail
+            else:
+                previous.tail = (previous.tail or "") + child.tail
         element.remove(child)
     return et.tostring(root).decode()
-- 
2.43.0


From 83c7cf05d27b37c03607ed7e3868ebe74171c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 13/37] fix: use the defaults of OpenRaster for missing
 attributes of layers

---
 elsie/render/ora.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..0e8ef30 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,20 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1.0))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +87,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
-    if opacity is not None and opacity < 0.9999:
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1.0))
+    if opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From 551176192ab069e03d7b46ffda50f6e4283ca5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 14/37] fix: do not take black parts of opaque OpenRaster
 layers for empty

---
 elsie/render/ora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 0e8ef30..2820aff 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -24,7 +24,8 @@ def convert_ora_to_svg(filename):
             src = element.get("src")
             if src is not None and src not in sources:
                 with archive.open(src) as f:
-                    img = Image.open(f)
+                    # The bounding box has to depend on the alpha channel only
+                    img = Image.open(f).convert("RGBA")
                     box = img.getbbox()
 
                     if box is None:
-- 
2.43.0


From 3eb4afb6c45d638f82662aa9793e257c4e09ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 15/37] fix: draw LaTeX in its own size with every backend

---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..9487523 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From 013fd4583e8af607ecbe7989ba960e8b777ae228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 16/37] fix: accept included PDF files together with slide
 names and post-processing

---
 elsie/slides/slide.py     | 2 ++
 elsie/slides/slidedeck.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..5733bf1 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -68,6 +68,8 @@ class Slide:
 
 
 class ExternPdfSlide:
+    name = None
+
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
 
diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 213725de239450594edcd6992054510826e99ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 17/37] fix: keep the measurements of a deck in the query cache
 when it is rendered again

---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..8d2dc0f 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -80,8 +80,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = dict(self.used_query_cache)
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From ff7fd44a849132f2084b12ce3cd2482992d3b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 18/37] fix: keep the place of included PDF files when grouping
 slides per page

---
 elsie/render/render.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..67ea01d 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,10 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            # Pages without SVG keep their place among the others
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From ba2c971a419056b4955af3946ef149741b982330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 19/37] fix: accept blank Markdown input

---
 elsie/text/textparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 2224ad9..a6879b0 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -292,5 +292,7 @@ def _tokens_merge_helper(tokens1, tokens2):
 def trim_indent(text: str) -> str:
     """Find the smallest common indent from the left in the text and remove it from the text."""
     lines = text.splitlines(keepends=False)
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines if line.strip())
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return "\n".join(line[min_indent:] for line in lines)
-- 
2.43.0


From 06f7ba87042128c5816e5b78f1803a7288f8e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 20/37] fix: accept nested Markdown lists that start at zero

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..15728db 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -158,7 +158,7 @@ class ListBuilder:
         self, default_label, start=None, indent=None, label=None, level=None, **box_args
     ):
         start = start if start is not None else 1
-        assert start >= 1
+        assert start >= 0
         indent = indent if indent is not None else self.default_indent
         level = level if level is not None else self.level
 
-- 
2.43.0


From 33c5300439a7609fefc49cf6a36e0d7f268bd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 21/37] fix: do not hand the counters of a list over to label
 functions

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 15728db..ff7ef05 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -147,7 +147,7 @@ class ListBuilder:
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
-                actual_label(label_box, self.level)
+                actual_label(label_box, list(self.level))
             elif isinstance(actual_label, str):
                 label_box.text(actual_label)
             else:
-- 
2.43.0


From 9f0c5c8218e0d0faf8903a848d4e4d418f604e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 22/37] fix: fail instead of waiting forever when Inkscape ends

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..4809e02 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape ended unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From fc2e6e3d8a0739d3a4fca51a529e8666bc943e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 23/37] fix: close the document in Inkscape when a query or an
 export fails

---
 elsie/render/inkscape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 4809e02..e321f88 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,8 +11,10 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            inkscape.run_command("file-close")
 
 
 class InkscapeShell:
-- 
2.43.0


From cf21b8c0d87e7d1e8cc53ac8d5ed1b2553a66bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 24/37] fix: produce files again that were pruned from the
 cache

---
 elsie/utils/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..025e1d4 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -62,6 +62,7 @@ class FsCache:
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
+            self.cache_files.remove(filename)
 
     def get(self, input_data, data_type, constructor):
         cache_file = self._get_filename(input_data, data_type)
-- 
2.43.0


From f2b8cdec43b1cc826825c2ae78cf658719db11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 25/37] fix: never keep incomplete files in the cache and
 recover from failed producers

---
 elsie/utils/cache.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 025e1d4..60e75ff 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -29,6 +29,10 @@ class FsCache:
     def _full_path(self, filename):
         return os.path.join(self.cache_dir, filename)
 
+    def _temp_path(self, filename):
+        # The extension has to stay the same
+        return self._full_path("new-{}.{}".format(os.getpid(), filename))
+
     def ensure_by_file(self, filename, data_type, constructor, wait_on_collision=True):
         with open(filename, "rb") as f:
             data = f.read()
@@ -52,11 +56,17 @@ class FsCache:
 
         condition = threading.Condition(self.lock)
         self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        try:
+            # Only complete files get a name of the cache
+            temp_path = self._temp_path(cache_file)
+            constructor(input_data, temp_path, data_type)
+            os.replace(temp_path, full_path)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
@@ -74,8 +84,10 @@ class FsCache:
                 return f.read()
 
         result = constructor(input_data)
-        with open(full_path, "w") as f:
+        temp_path = self._temp_path(cache_file)
+        with open(temp_path, "w") as f:
             f.write(result)
+        os.replace(temp_path, full_path)
         self.cache_files.add(cache_file)
         return result
 
-- 
2.43.0


From a560b4fa32cf1f9fd6ce3682a48a12b49fd4a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 26/37] fix: reflect the given control point in consecutive
 smooth curves drawn by Cairo

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..857d414 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -28,9 +28,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            first_cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*first_cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From 5d7e9a3d90985976aaa2450bd88d72f1495220a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 27/37] fix: draw all segments of path commands with Cairo

---
 elsie/render/backends/cairo/shapes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 857d414..d06806f 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,21 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_segments(commands):
+    """
+    Commands with several segments are split into commands with one segment each.
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            # More points of a move are drawn as lines, as in SVG
+            yield "L" if name == "M" and i else name, args[i : i + nargs]
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_segments(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From c834892927e958c8cc2229ff4f1ec0d9a285c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 28/37] fix: do not stroke later shapes with the dashes of an
 ellipse drawn by Cairo

---
 elsie/render/backends/cairo/rcontext.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..219e624 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -123,16 +123,21 @@ class CairoRenderingContext(RenderingContext):
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-            transform(
-                self.ctx, center, rotation=rotation, scale_x=scale_x, scale_y=scale_y
-            )
-            if bg_color:
-                fill_shape(self.ctx, draw, bg_color=bg_color)
+            with ctx_scope(self.ctx):
+                transform(
+                    self.ctx,
+                    center,
+                    rotation=rotation,
+                    scale_x=scale_x,
+                    scale_y=scale_y,
+                )
+                if bg_color:
+                    fill_shape(self.ctx, draw, bg_color=bg_color)
+                if color:
+                    draw()
+            # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
             if color:
-                draw()
-        # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
-        if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From a0cf14b28d5dc1f26676a4d0d44461b8cc45f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 29/37] fix: draw nothing for ellipses and images without
 extent with Cairo

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 219e624..5637708 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -111,6 +111,8 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if not rect.width or not rect.height:
+            return  # As in SVG; the transformation could not be inverted
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
@@ -221,6 +223,8 @@ class CairoRenderingContext(RenderingContext):
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
+        if not width or not height:
+            return
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
@@ -249,6 +253,8 @@ class CairoRenderingContext(RenderingContext):
         rotation=None,
         **kwargs,
     ):
+        if not width or not height:
+            return
         root = et.fromstring(svg)
         normalized = normalize_svg(root)
         normalized_svg = et.tostring(normalized, encoding="utf8")
-- 
2.43.0


From 7dca2529c02167602edcfc3b26fd052683bc3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 30/37] fix: apply the view box of a slide to SVG images drawn
 by Cairo

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 5637708..d216cd3 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -267,4 +267,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             rotation=rotation,
             dpi=self.cairosvg_dpi,
+            matrix=self.ctx.get_matrix(),
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..26f91f3 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -26,6 +26,7 @@ class CairoSurface(Surface):
         map_rgba=None,
         map_image=None,
         rotation=None,
+        matrix=None,
     ):
         self.surface = surface
         self.cairo = None
@@ -89,6 +90,9 @@ class CairoSurface(Surface):
         self.context.scale(
             self.device_units_per_user_units, self.device_units_per_user_units
         )
+        if matrix is not None:
+            # The transformation of the page, including its view box
+            self.context.set_matrix(matrix)
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +112,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    rotation=None,
+    dpi=96,
+    matrix=None,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -120,5 +132,6 @@ def render_svg(
         dpi=dpi,
         output_width=width,
         output_height=height,
+        matrix=matrix,
     )
     instance.draw(tree)
-- 
2.43.0


From b0f6d3e8beced9f17ecbe1d393996559a422bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 31/37] fix: draw all corners of rounded rectangles as elliptic
 arcs with Cairo

---
 elsie/render/backends/cairo/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..06a1f61 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -21,11 +21,11 @@ def rounded_rectangle(ctx: cairo.Context, x, y, w, h, rx, ry):
     ctx.new_path()
     ctx.move_to(x + rx, y)
     ctx.rel_line_to(w - 2 * rx, 0.0)
-    ctx.rel_curve_to(c1, 0.0, rx, c2, rx, ry)
+    ctx.rel_curve_to(c1, 0.0, rx, ry - c2, rx, ry)
     ctx.rel_line_to(0, h - 2 * ry)
     ctx.rel_curve_to(0.0, c2, c1 - rx, ry, -rx, ry)
     ctx.rel_line_to(-w + 2 * rx, 0)
-    ctx.rel_curve_to(-c1, 0, -rx, -c2, -rx, -ry)
+    ctx.rel_curve_to(-c1, 0, -rx, c2 - ry, -rx, -ry)
     ctx.rel_line_to(0, -h + 2 * ry)
     ctx.rel_curve_to(0.0, -c2, rx - c1, -ry, rx, -ry)
     ctx.close_path()
-- 
2.43.0


From c5c8648d6c7cd8dddb951ab51dacfe098d79b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 32/37] fix: measure nested sections of a text with Cairo

---
 elsie/render/backends/cairo/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..94b4143 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -183,10 +183,11 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
+                depth = len(stack)
             stack.append(value)
         elif type == "end":
             stack.pop()
-            if start is not None and not stack:
+            if start is not None and len(stack) == depth:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From 5e8cd75b77fe2bcdece1f96a0ac10a4c827644b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 33/37] fix: return cached texts with their original line
 breaks

---
 elsie/utils/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 60e75ff..70991fa 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -80,12 +80,12 @@ class FsCache:
         full_path = os.path.join(self.cache_dir, cache_file)
 
         if cache_file in self.cache_files:
-            with open(full_path, "r") as f:
+            with open(full_path, "r", newline="") as f:
                 return f.read()
 
         result = constructor(input_data)
         temp_path = self._temp_path(cache_file)
-        with open(temp_path, "w") as f:
+        with open(temp_path, "w", newline="") as f:
             f.write(result)
         os.replace(temp_path, full_path)
         self.cache_files.add(cache_file)
-- 
2.43.0


From c13c8b728758fb97e6e61ccb94966a99a456c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 34/37] fix: do not share cache files between versions that
 continue each other

---
 elsie/utils/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 70991fa..1a5cd22 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -7,8 +7,8 @@ import threading
 class FsCache:
     def __init__(self, cache_dir, version):
         start = f"elsie-{version}/".encode()
-        self.hasher = hashlib.sha1()
-        self.hasher.update(start)
+        # The digest has a fixed length, so it cannot be mixed up with the input
+        self.hasher = hashlib.sha1(hashlib.sha1(start).digest())
         self.cache_dir = cache_dir
         self.touched_files = set()
         self.cache_files = {
-- 
2.43.0


From b748ddf384e9f32df05c5017a41fb0760109856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 35/37] fix: draw the numeric variant of styled sections of a
 text

---
 elsie/render/backends/svg/draw.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 64757eb..07572cd 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -24,6 +24,11 @@ def set_font_from_style(xml, style):
         xml.set("style", s)
 
 
+def set_numbers_from_style(xml, style):
+    if style.variant_numeric:
+        xml.set("font-variant-numeric", style.variant_numeric)
+
+
 def set_paint_style(
     xml, color=None, bg_color=None, stroke_width=None, stroke_dasharray=None
 ):
@@ -70,8 +75,7 @@ def draw_text(
     active_styles = [style]
 
     xml.element("tspan")
-    if style.variant_numeric:
-        xml.set("font-variant-numeric", style.variant_numeric)
+    set_numbers_from_style(xml, style)
 
     current_priority = style.priority
 
@@ -89,6 +93,8 @@ def draw_text(
                     xml.set("dy", line_size * value)
                 if s is not None:
                     set_font_from_style(xml, s)
+                    if j > 0:
+                        set_numbers_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -106,6 +112,7 @@ def draw_text(
             xml.set("xml:space", "preserve")
             if s:
                 set_font_from_style(xml, s)
+                set_numbers_from_style(xml, s)
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-- 
2.43.0


From 1552e356907d5128823a8c1012d698e0a2ba948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 36/37] fix: apply the opacity of text styles in the Cairo
 backend

---
 elsie/render/backends/cairo/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 94b4143..53be0f1 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -45,6 +45,10 @@ def style_to_attributes(
             *to_pango_color(get_rgb_color(style.color)), **kwargs
         ),
     ]
+    if style.opacity is not None:
+        # zero would mean that the opacity is not set
+        alpha = max(1, round(style.opacity * (2**16 - 1)))
+        attrs.append(Attribute.from_foreground_alpha(alpha, **kwargs))
     if text_scale is not None:
         attrs.append(attr_from_scale(text_scale, **kwargs))
 
-- 
2.43.0


From 45bd581e0833f4b1f4d944e78e53e23abac0bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 37/37] fix: register a cache file in progress under the lock
 that looked for it

---
 elsie/utils/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 1a5cd22..66db9db 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -53,9 +53,10 @@ class FsCache:
                 return full_path
             if cache_file in self.cache_files:
                 return full_path
+            # Under the same lock, so two threads never make the same file
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
         try:
             # Only complete files get a name of the cache
             temp_path = self._temp_path(cache_file)
-- 
2.43.0

