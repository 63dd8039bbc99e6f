From 992c5608cdd1e605970af30d08946535311872dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 01/58] fix: accept boolean style attributes with a value
 ("b:0") in a style string

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..03bf1bb 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
-- 
2.43.0


From 1611e8575f8400b00e0534631585eb2cfe804102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 02/58] fix: keep paragraph lines inside their rectangle
 (indent, list indent, alignment) and escape list texts

Lines after a first line that ends a rectangle moved left by the indent,
right and centered lines ignored indent and list indent, a resumed list
paragraph or one with line breaks ignored the list indent in its width,
the last lines of a justified paragraph could overflow, list texts were
not escaped, and texts in registered fonts were escaped twice.
---
 pdfme/fonts.py |   2 +-
 pdfme/text.py  | 170 +++++++++++++++++++------------------------------
 2 files changed, 65 insertions(+), 107 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..df6c2e0 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -377,7 +377,7 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        return ''.join(as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text)
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..a807f66 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -468,8 +468,6 @@ class PDFTextBase:
         self.content = content
         self.finished = False
         self.is_first_line = True
-        self.correct_indent = True
-        self.list_setup_done = False
 
     @property
     def stream(self) -> str:
@@ -602,12 +600,16 @@ class PDFTextBase:
         self.current_height = 0
         self.lines = []
 
-        line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.is_first_line and self.list_text:
+            self.setup_list()
+        line_width = self.width - (self.list_indent if self.list_text else 0)
+        if self.is_first_line:
+            line_width -= self.indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
 
-        self.last_indent = 0
+        self.last_x = 0
         self.last_state = self.last_factor = self.last_fill = None
         self.last_color = self.last_stroke_width = None
 
@@ -645,8 +647,9 @@ class PDFTextBase:
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
+                        self.fonts, self.width - (
+                            self.list_indent if self.list_text else 0
+                        ), self.text_align, self.line_height
                     )
                     if not continue_:
                         return self.result
@@ -685,10 +688,6 @@ class PDFTextBase:
             style=style, ids=part.get('ids')
         )
 
-        if not self.list_setup_done and self.list_text:
-            self.list_setup_done = True
-            self.setup_list()
-
         self.current_line_used_fonts.add((
             new_line_part.state.font_family,
             new_line_part.state.font_mode
@@ -700,7 +699,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
 
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
@@ -709,9 +707,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
@@ -739,6 +735,8 @@ class PDFTextBase:
             )
 
         line_height = self.current_line.height
+        if self.is_first_line and self.list_text:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
@@ -762,17 +760,20 @@ class PDFTextBase:
             return True
 
     def setup_list(self) -> None:
-        """This function is called when the first part of the paragraph is going
+        """This function is called when the first line of the paragraph is going
         to be added, and if this is a list paragraph, i.e. a paragraph with a
         something on its left (a bullet, a number, etc), this function will
-        setup everything needed to display the text of the list paragraph, and
-        will adjust its width to make space for the list text.
+        setup everything needed to display the text of the list paragraph.
 
         Raises:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        style = TEXT_DEFAULTS.copy()
+        for part in self.content:
+            if isinstance(part, dict) and 'type' not in part:
+                style.update(part.get('style', {}))
+                break
 
         if self.list_style is None:
             self.list_style = {}
@@ -801,7 +802,6 @@ class PDFTextBase:
             )
 
         self.list_state = line_part.state
-        self.current_line.max_width -= self.list_indent
 
     def add_line_to_stream(self, line: PDFTextLine, is_last:bool=False) -> None:
         """Function to add a PDFTextLine representing a paragraph line to the
@@ -816,84 +816,41 @@ class PDFTextBase:
         x = self.list_indent if self.list_text else 0
         line_height = line.height
         full_line_height = line_height
-        ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
         factor_width = self.width - words_width - x
-        adjusted_indent = 0
+        if self.is_first_line:
+            factor_width -= self.indent
+            x += self.indent
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
-            if self.text_align == 'c':
-                indent /= 2
-            x += indent
-            adjusted_indent = indent - self.last_indent
-            self.last_indent = indent
-
-        if not self.started:
-            self.started = True
-            if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
-                self.is_first_line = False
-
-                first_indent = (
-                    adjusted_indent if self.text_align in ['r', 'c']
-                    else self.indent
-                )
-
-                if self.list_text:
-                    first_indent += self.list_indent
-                    if self.list_state.size > full_line_height:
-                        full_line_height = self.list_state.size
-
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
-
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
-                        round(full_line_height, 3),
-                        self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
-                    )
-                else:
-                    self.text += ' {} -{} Td'.format(
-                        round(first_indent, 3), round(full_line_height, 3)
-                    )
-            else:
-                first_indent = adjusted_indent
-                if self.list_text:
-                    first_indent += self.list_indent
-                self.text += ' {} -{} Td'.format(
-                    round(first_indent, 3), round(full_line_height, 3)
-                )
-        else:
-            if self.correct_indent:
-                self.correct_indent = False
-                adjusted_indent -= self.indent
+            free_width = self.width - x - words_width - spaces_width
+            x += free_width / 2 if self.text_align == 'c' else free_width
 
+        y_shift = 0
+        if self.started:
             full_line_height *= self.line_height
+            y_shift = full_line_height
+        elif self.is_first_line and self.list_text:
+            full_line_height = max(full_line_height, self.list_state.size)
+            self.text += ' 0 -{} Td{} ({})Tj'.format(
+                round(full_line_height, 3),
+                self.list_state.compare(self.last_state),
+                self.encode_words(self.list_state, str(self.list_text))
+            )
+        else:
+            y_shift = full_line_height
 
-            self.text += ' {} -{} Td'.format(round(adjusted_indent, 3),
-                                        round(full_line_height, 3))
+        x_shift = round(x - self.last_x, 3)
+        self.text += ' {} -{} Td'.format(x_shift, round(y_shift, 3))
+        self.last_x += x_shift
+        self.started = True
+        self.is_first_line = False
 
         self.y_ -= full_line_height
 
-        factor = 1 if ignore_factor else factor_width / spaces_width
+        factor = 1
+        if self.text_align == 'j' and spaces_width != 0:
+            factor = factor_width / spaces_width
+            if is_last and factor > 1:
+                factor = 1
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
@@ -958,25 +915,26 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
-            else:
-                stream += ' ({})Tj'.format(text)
+            stream += ' ({})Tj'.format(
+                self.encode_words(part.state, ''.join(part.words))
+            )
         return stream
 
+    def encode_words(self, state: PDFState, text: str) -> str:
+        """Function that transforms a text into the contents of a PDF string
+        that can be shown with the font in ``state``.
+
+        Args:
+            state (PDFState): the state with the font of the text.
+            text (str): the text to be transformed.
+
+        Returns:
+            str: the contents of the PDF string.
+        """
+        if state.font_family in STANDARD_FONTS:
+            return self.clean_words(text)
+        return state.font.encode_text(text)
+
     def output_graphics(
         self, part: PDFTextLinePart, x: Number, y: Number, part_width: Number
     ) -> str:
-- 
2.43.0


From e47aab7c38d6a2db3d2dde19f8671e28a1cf4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 03/58] fix: restore the whole state of a paragraph in
 PDFText.set_state

A text resumed in another column, cell or page repeated its list text and
first line indent, and a text that found no room after set_state skipped
to the position of the abandoned attempt.
---
 pdfme/text.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index a807f66..8f02104 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -531,10 +531,15 @@ class PDFTextBase:
         """
         return {
             'last_part': self.last_part,
-            'last_word': self.last_word
+            'last_word': self.last_word,
+            'is_first_line': self.is_first_line,
+            'finished': self.finished
         }
 
-    def set_state(self, last_part: int=None, last_word: int=None) -> None:
+    def set_state(
+        self, last_part: int=None, last_word: int=None,
+        is_first_line: bool=None, finished: bool=False
+    ) -> None:
         """Function to update the state of the paragraph
 
         The arguments of this method define the current state of this paragraph,
@@ -546,9 +551,16 @@ class PDFTextBase:
             last_word (int): this is the index of the
                 word of the last part that was added the last time method
                 ``run`` was called.
+            is_first_line (bool, optional): whether the first line has not been
+                added yet. If None, this is deduced from the other arguments.
+            finished (bool, optional): whether all of the parts were added.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        if is_first_line is None:
+            is_first_line = not last_part and not last_word
+        self.last_part = self.last_part_added = self.last_part_line = last_part
+        self.last_word = self.last_word_added = self.last_word_line = last_word
+        self.is_first_line = is_first_line
+        self.finished = finished
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 1d7989a7a1885c526cd82f2c7925db9fea56a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 04/58] fix: trailing spaces and registered fonts keep lines
 inside their rectangle

Trailing spaces moved centered and right aligned lines, and word spacing has
no effect on the two byte codes of registered fonts, so justified lines in
these fonts overflowed.
---
 pdfme/text.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8f02104..69c767f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -300,6 +300,16 @@ class PDFTextLine:
             PDFTextLinePart(last_part.style, self.fonts, last_part.ids)
         ]
 
+    def remove_last_spaces(self) -> None:
+        """Function to remove the spaces at the end of this line, as they must
+        not be part of its width.
+        """
+        for part in reversed(self.line_parts):
+            while len(part.words) and part.words[-1] == ' ':
+                part.pop_word()
+            if len(part.words):
+                break
+
     def add_word(self, word:str) -> dict:
         """Function to add a word to this line.
 
@@ -348,11 +358,7 @@ class PDFTextLine:
                 if (self.min_width + self.next_line.min_width < self.max_width):
                     return {'status': 'preadded'}
                 else:
-                    if (
-                        len(self.line_parts[-1].words) and
-                        self.line_parts[-1].words[-1] == ' '
-                    ):
-                        self.line_parts[-1].pop_word(-1)
+                    self.remove_last_spaces()
                     self.next_line.firstWordAdded = True
                     self.next_line.top_margin = self.bottom
                     self.next_line.next_line = PDFTextLine(
@@ -745,6 +751,8 @@ class PDFTextBase:
             self.current_line.line_parts.extend(
                 self.current_line.next_line.line_parts
             )
+        if is_last:
+            self.current_line.remove_last_spaces()
 
         line_height = self.current_line.height
         if self.is_first_line and self.list_text:
@@ -927,9 +935,16 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            stream += ' ({})Tj'.format(
-                self.encode_words(part.state, ''.join(part.words))
+            words = [''.join(part.words)]
+            if tw != 0 and part.state.font_family not in STANDARD_FONTS:
+                # Tw has no effect in fonts with codes of more than one byte
+                words = re.split('(?<= )', words[0])
+            space = '){}('.format(-round(tw * 1000 / part.state.size, 3))
+            text = space.join(
+                self.encode_words(part.state, word) for word in words
             )
+            stream += (' ({})Tj' if len(words) == 1 else ' [({})]TJ') \
+                .format(text)
         return stream
 
     def encode_words(self, state: PDFState, text: str) -> str:
-- 
2.43.0


From 790e8aa9c34831f0b3ffb87aa153e7be49b11b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 05/58] fix: a stream is kept when encoding it fails

---
 pdfme/parser.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..609f7e1 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -142,8 +142,8 @@ def parse_stream(obj: dict) -> bytes:
     Returns:
         bytes: bytes representing the corresponding PDF Stream.
     """
-    stream_ = obj.pop('__stream__')
-    skip_filter = obj.pop('__skip_filter__', False)
+    stream_ = obj['__stream__']
+    skip_filter = obj.get('__skip_filter__', False)
 
     if isinstance(stream_, bytes):
         stream_str = stream_
@@ -157,12 +157,12 @@ def parse_stream(obj: dict) -> bytes:
     stream = encode_stream(stream_str, obj['Filter']) \
         if 'Filter' in obj and not skip_filter else stream_str
 
-    obj['Length'] = len(stream)
-    ret = parse_dict(obj) + b'stream\n' + stream + b'\nendstream'
-    obj['__stream__'] = stream_
-    if skip_filter:
-        obj['__skip_filter__'] = True
-    return ret
+    stream_dict = {
+        key: value for key, value in obj.items()
+        if key not in ('__stream__', '__skip_filter__')
+    }
+    stream_dict['Length'] = len(stream)
+    return parse_dict(stream_dict) + b'stream\n' + stream + b'\nendstream'
 
 from .encoders import encode_stream
 from .utils import subs
-- 
2.43.0


From 44fac4b102e5de1e43ed834a1bb95b3316308f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 06/58] fix: write every string and float as a valid PDF object

A backslash was not escaped, a title or label out of latin-1 made every
later output fail, and very small floats were written with an exponent.
---
 pdfme/parser.py | 24 ++++++++++++++++++++++--
 pdfme/pdf.py    |  4 ++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 609f7e1..f74889b 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -79,11 +79,31 @@ def parse_obj(obj: ObjectType) -> bytes:
         return obj
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
-    elif isinstance(obj, (int, float)):
+    elif isinstance(obj, float):
+        number = str(obj)
+        if 'e' in number:
+            number = '{:.10f}'.format(obj)
+        return number.encode('latin')
+    elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        string = re.sub(rb'([()\\])', rb'\\\1', encode_string(obj))
+        return b'(' + string.replace(b'\r', b'\\r') + b')'
 
+def encode_string(string: str) -> bytes:
+    """Function to convert a python string to the bytes of a PDF string, before
+    they are escaped.
+
+    Args:
+        string (str): the string to be encoded.
+
+    Returns:
+        bytes: the bytes of the string.
+    """
+    try:
+        return string.encode('latin')
+    except UnicodeEncodeError:
+        return b'\xfe\xff' + string.encode('UTF-16-BE')
 
 def parse_dict(obj: dict) -> bytes:
     """Function to convert a python dict to a bytes object representing the
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..cbcba94 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -996,7 +996,7 @@ class PDF:
         dests = list(self.dests.keys())
         if len(dests) == 0:
             return
-        dests.sort()
+        dests.sort(key=encode_string)
         self._build_dests_tree(dests, [self.dests[k] for k in dests])
 
     def _build_outlines_tree(
@@ -1076,7 +1076,7 @@ from .content import PDFContent
 from .fonts import PDFFonts
 from .image import PDFImage
 from .page import PDFPage
-from .parser import PDFObject
+from .parser import PDFObject, encode_string
 from .table import PDFTable
 from .text import PDFText
 from .utils import (
-- 
2.43.0


From 1df23ce39d15c2322de48f0c63b64a83c2541e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 07/58] fix: write the whole file to raw buffers that make
 short writes

---
 pdfme/base.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pdfme/base.py b/pdfme/base.py
index c6cf22c..714b372 100644
--- a/pdfme/base.py
+++ b/pdfme/base.py
@@ -114,6 +114,25 @@ class PDFBase:
     def _trailer_id(self) -> bytes:
         return b'<' + str(uuid4()).replace('-', '').encode('latin') + b'>'
 
+    def _write(self, buffer: Any, data: bytes) -> None:
+        """Write all of the bytes in ``data``, even if ``buffer`` is a raw file
+        that writes only some of them at a time.
+
+        Args:
+            buffer (file_like): A file-like object to write into.
+            data (bytes): the bytes to be written.
+
+        Raises:
+            OSError: if ``buffer`` doesn't accept any more bytes.
+        """
+        while True:
+            written = buffer.write(data)
+            if written is None or written >= len(data):
+                return
+            if written == 0:
+                raise OSError("the buffer doesn't accept any more bytes")
+            data = data[written:]
+
     def output(self, buffer: Any) -> None:
         """Create the PDF file.
 
@@ -122,7 +141,7 @@ class PDFBase:
         """
         header = subs('%PDF-{}\n%%\x129\x129\x129\n', self.version)
         count = len(header)
-        buffer.write(header)
+        self._write(buffer, header)
 
         xref = '\nxref\n0 {}\n0000000000 65535 f \n'.format(self.count)
 
@@ -133,7 +152,7 @@ class PDFBase:
             bytes_ = subs('{} 0 obj\n', i + 1) + obj_bytes + \
                 '\nendobj\n'.encode('latin')
             count += len(bytes_)
-            buffer.write(bytes_)
+            self._write(buffer, bytes_)
 
         self.trailer['Size'] = self.count
         if 'ID' not in self.trailer:
@@ -142,8 +161,8 @@ class PDFBase:
 
         footer = '\nstartxref\n{}\n%%EOF'.format(count + 1)
 
-        buffer.write(
-            (xref + 'trailer\n').encode('latin') + trailer +
+        self._write(
+            buffer, (xref + 'trailer\n').encode('latin') + trailer +
             footer.encode('latin')
         )
 
-- 
2.43.0


From 7bdb32c322d41eeced215232af019f224cc680db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 08/58] fix: registered fonts can be used in more than one
 document

The list of loaded fonts was shared by all of the documents, so the second
one to use a registered font failed, and fonts added with PDF.add_font
could not be used at all.
---
 pdfme/fonts.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index df6c2e0..835c635 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = set()
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -431,20 +431,20 @@ class PDFFonts:
         Returns:
             PDFFont: an object that represents a PDF font.
         """
-        if font_family in STANDARD_FONTS:
-            family = self.fonts[font_family]
-        else:
-            font_type = (font_family, mode)
+        font_type = (font_family, mode)
+        if (
+            font_family not in STANDARD_FONTS and
+            font_type not in self.loaded_fonts
+        ):
             if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
-                    self.load_font(PDFFont.registered_fonts[font_type],
-                        font_family,
-                        mode)
-                    PDFFont.loaded_fonts.append(font_type)
-                family = self.fonts[font_family]
-            else:
+                self.load_font(
+                    PDFFont.registered_fonts[font_type], font_family, mode
+                )
+            elif font_family not in self.fonts or any(
+                family == font_family for family, _ in PDFFont.registered_fonts
+            ):
                 raise ValueError('Unknown font family requested!')
-            
+        family = self.fonts[font_family]
         return family['n'] if mode not in family else family[mode]
 
     def load_font(self, path: str, font_family: str, mode: str='n') -> None:
@@ -460,6 +460,7 @@ class PDFFonts:
         if not font_family in self.fonts:
             self.fonts[font_family] = {'n': font}
         self.fonts[font_family][mode] = font
+        self.loaded_fonts.add((font_family, mode))
         self.index += 1
 
 from .parser import PDFObject
-- 
2.43.0


From f44b65d1da3ba9208f81e7870d57c392b6f91942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 09/58] fix: embed font files without the time of the save, so
 builds are reproducible

---
 pdfme/fonts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 835c635..94c1e10 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -251,7 +251,9 @@ class PDFTrueTypeFont(PDFFont):
                 'pip install fonttools'
             )
         self.filename = str(Path(filename))
-        font = self.font = ttLib.TTFont(self.filename)
+        font = self.font = ttLib.TTFont(
+            self.filename, recalcTimestamp=False
+        )
 
         cmap = self.cmap = self.font['cmap'].getBestCmap()
 
-- 
2.43.0


From d2bb3846a7eb8e09befc6b15e177735c07520a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 10/58] fix: fonts can be registered while another thread
 builds a document

---
 pdfme/fonts.py | 3 ++-
 pdfme/utils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 94c1e10..42dcea8 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -443,7 +443,8 @@ class PDFFonts:
                     PDFFont.registered_fonts[font_type], font_family, mode
                 )
             elif font_family not in self.fonts or any(
-                family == font_family for family, _ in PDFFont.registered_fonts
+                family == font_family
+                for family, _ in list(PDFFont.registered_fonts)
             ):
                 raise ValueError('Unknown font family requested!')
         family = self.fonts[font_family]
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 03bf1bb..f6d88cd 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -200,7 +200,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 if value not in fonts.fonts:
                     font_found = False
 
-                    for f in PDFFont.registered_fonts:
+                    for f in list(PDFFont.registered_fonts):
                         if f[0] == value:
                             font_found = True
                             break
-- 
2.43.0


From b533e47cfc726c845942275381364079e2f1c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 11/58] fix: labels and outlines of a paragraph that goes on in
 the next page are added once, at its beginning

---
 pdfme/pdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index cbcba94..6748b66 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outlines_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -598,6 +599,8 @@ class PDF:
             if len(rects) == 0:
                 continue
             if id_.startswith('$label:'):
+                if id_[7:] in self.dests:
+                    continue
                 d = rects[0]
                 x_ref = x + d[0]
                 self.dests[id_[7:]] = [
@@ -630,6 +633,9 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                if id_ in self.outlines_ids:
+                    continue
+                self.outlines_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From 62232b4a7929facfcd9e60211577ea9a76017496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 12/58] fix: PDF.text doesn't change the paragraph description
 passed by the user

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6748b66..03c710b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -510,7 +510,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = {**content, 'style': style}
         return content
 
     def _position_and_size(
-- 
2.43.0


From 993424866e407caef163184c45aeaa15e3c96ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 13/58] fix: restore the whole state of a table in
 PDFTable.set_state

---
 pdfme/table.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..95220d1 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -228,10 +228,14 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index, 'delayed': copy(self.delayed),
+            'first_row': self.first_row
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None,
+        first_row: bool=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -242,11 +246,15 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            first_row (bool, optional): whether or not the first row has not
+                been added yet.
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
+        if first_row is not None:
+            self.first_row = first_row
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 3407e3b2f6c30b067c3c975ea76113c434b658c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 14/58] fix: discarded attempts to balance columns leave no
 table lines and fills behind

---
 pdfme/content.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..e178a36 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -389,6 +389,8 @@ class PDFContentPart:
         self.will_reset = False
         self.resetting = False
         self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -649,6 +651,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -727,6 +731,8 @@ class PDFContentPart:
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
                 self.parts_index = len(self.p.parts)
+                self.lines_index = len(self.p.lines)
+                self.fills_index = len(self.p.fills)
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 0503a8d5d2804eb43233621d004c66617132e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 15/58] fix: a first table row that is empty or spans rows is
 not moved to the next page

---
 pdfme/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 95220d1..cc47e1d 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -560,7 +560,10 @@ class PDFTable:
 
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0:
+            if (
+                self.max_height == 0 and len(self.delayed) > 0 and
+                not any(self.heights_mem.values())
+            ):
                 return 'cancel'
 
         ret = True
-- 
2.43.0


From 4c5be04b36cba28b90a118fa15e76cc91956b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 16/58] fix: numbers can be elements of a content box

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index e178a36..780fdf5 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -788,7 +788,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            return {'.': str(element)}
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From 3ccff9148342baf281528748b301ec15672039c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 17/58] fix: a group is added to the page exactly as it was
 measured

---
 pdfme/content.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 780fdf5..b4f6500 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1133,8 +1133,12 @@ class PDFContentPart:
         """
         initial_y = self.y
 
+        initial_starting = self.starting
+        initial_last_bottom = self.last_bottom
+
         if not self.starting:
             self.y -=  style.get('margin_top', 0)
+        group_y = self.y
 
         images = {}
         images_size = 0
@@ -1158,11 +1162,15 @@ class PDFContentPart:
                     )
                 group_element['tries'] += 1
                 self.y = initial_y
+                self.starting = initial_starting
+                self.last_bottom = initial_last_bottom
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-        new_images_size = images_size + self.y - self.max_y
-        image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        free_size = max(0, self.y - self.max_y - 1e-6)
+        image_ratio = 1 + free_size / images_size if images_size > 0 else 1
+        self.y = group_y
+        self.starting = initial_starting
+        self.last_bottom = initial_last_bottom
 
         for i, element in enumerate(group_element['group']):
             min_height = None
-- 
2.43.0


From 65e6a8aaf23c08949f2ee7932093a504e934abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 18/58] fix: a cell without contents is empty, not endless

---
 pdfme/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index cc47e1d..77e4bac 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -823,6 +823,8 @@ class PDFTable:
             real_height, did_finished = self.process_table(
                 element, x, y, width, height, style, delayed
             )
+        else:
+            did_finished = True
 
         if did_finished:
             self.delayed.pop(col, None)
-- 
2.43.0


From aad165f073f46fc10fb7082889e984a8eb7b7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 19/58] fix: a table without rows or columns is empty

---
 pdfme/table.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 77e4bac..5c3b8c0 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,11 +169,12 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        if len(content) == 0 or len(content[0]) == 0:
+        self.delayed = {}
+        self.first_row = True
+        self.cols_count = 0 if len(content) == 0 else len(content[0])
+        if self.cols_count == 0:
             return
 
-        self.cols_count = len(content[0])
-        self.delayed = {}
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -195,7 +196,6 @@ class PDFTable:
         self.set_default_border()
         self.setup_borders([] if borders is None else borders)
         self.setup_fills([] if fills is None else fills)
-        self.first_row = True
 
     def setup(
         self, x: Number=None, y: Number=None,
@@ -479,11 +479,15 @@ class PDFTable:
         self.fills_mem = {}
         self.heights_mem = {}
         self.rowspan = {}
+        self.current_height = 0
+        if self.cols_count == 0:
+            self.finished = True
+            return
+
         self.vert_lines = [
             {'list': [], 'interrupted': True}
             for i in range(self.cols_count + 1)
         ]
-        self.current_height = 0
 
         can_continue = True
         if len(self.delayed) > 0:
-- 
2.43.0


From 82ff5a0c0c2f2e917be9dd0f0766a8ad29b98341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 20/58] fix: empty rows and nested tables stay inside the
 rectangle of the table

---
 pdfme/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 5c3b8c0..7a3ef90 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -483,6 +483,8 @@ class PDFTable:
         if self.cols_count == 0:
             self.finished = True
             return
+        if self.height <= 0:
+            return
 
         self.vert_lines = [
             {'list': [], 'interrupted': True}
@@ -835,7 +837,10 @@ class PDFTable:
         else:
             self.delayed[col] = delayed
 
-        real_height += padd_y if real_height>0 else (0 if self.first_row else 4)
+        if real_height > 0:
+            real_height += padd_y
+        elif not self.first_row:
+            real_height += min(4, max(0, self.row_max_height))
         if rowspan > 0:
             self.heights_mem[col] = real_height
             real_height = 0
-- 
2.43.0


From 7bcb38f3819fca6981827cced2a9686b20e9e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 21/58] fix: an element that does not fit in any page is an
 error, not endless pages

---
 pdfme/content.py  |  5 ++++
 pdfme/document.py | 10 +++----
 pdfme/pdf.py      | 71 ++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index b4f6500..29f129e 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -266,6 +266,11 @@ class PDFContent:
         Returns:
             dict: a dict with the state of this content box.
         """
+        if self.pdf_content_part is None:
+            return {
+                'section_element_index': 0, 'section_delayed': [],
+                'children_memory': []
+            }
         return self.pdf_content_part.get_state()
 
     def set_state(
diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..ac4357b 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -313,6 +313,7 @@ class PDFDocument:
             k: section_style[k] for k in PAGE_PROPS if k in section_style
         }
 
+        tries = 0
         while True:
             page_n = len(self.pdf.pages)
 
@@ -354,10 +355,12 @@ class PDFDocument:
 
             self.pdf.add_page()
 
+            section_state = self.section.get_state()
             self._add_content()
 
             if self.section.finished:
                 break
+            tries = self.pdf._count_tries(self.section, section_state, tries)
 
     def _add_content(self) -> None:
         """Method to add the section contents to the current page.
@@ -366,12 +369,7 @@ class PDFDocument:
             Exception: if the footnotes added to the page are very large.
         """
 
-        section_state = self.section.get_state() \
-            if self.section.pdf_content_part is not None else {
-                'section_element_index': 0,
-                'section_delayed': [],
-                'children_memory': []
-            }
+        section_state = self.section.get_state()
 
         self.section.run(height=self.height)
         footnotes_obj = self._process_footnotes()
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 03c710b..c6bee07 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1,9 +1,12 @@
 import json
 from io import BytesIO
 from pathlib import Path
-from typing import Any, Iterable, Union
+from typing import Any, Callable, Iterable, Union
 
 Number = Union[int, float]
+
+# pages in a row an element can leave empty before it's considered too large
+MAX_TRIES = 50
 PageType = Union[Number, str, Iterable[Number]]
 MarginType = Union[int, float, Iterable[Number], dict]
 ColorType = Union[int, float, str, list, tuple]
@@ -699,12 +702,7 @@ class PDF:
             text_align=text_align, line_height=line_height, indent=indent,
             list_text=list_text, list_indent=list_indent, list_style=list_style
         )
-        while not pdf_text.finished:
-            self.add_page()
-            pdf_text = self._text(pdf_text, self.page.content_width,
-                self.page.content_height, self.page.margin_left,
-                self.page.margin_top
-            )
+        self._add_remaining(pdf_text, self._text)
 
     def _default_content_style(self) -> dict:
         """This method returns a dict with the PDF default values used by
@@ -801,12 +799,7 @@ class PDF:
             content, widths=widths, style=style, borders=borders, fills=fills,
             x=self.page.margin_left, width=self.page.content_width
         )
-        while not pdf_table.finished:
-            self.add_page()
-            pdf_table = self._table(
-                pdf_table, self.page.content_width, self.page.content_height,
-                self.page.margin_left, self.page.margin_top
-            )
+        self._add_remaining(pdf_table, self._table)
 
     def _create_content(
         self, content: dict, width: Number=None, height: Number=None,
@@ -874,12 +867,58 @@ class PDF:
         pdf_content = self._content(
             content, x=self.page.margin_left, width=self.page.content_width
         )
-        while not pdf_content.finished:
+        self._add_remaining(pdf_content, self._content)
+
+    def _add_remaining(
+        self, element: Union['PDFText', 'PDFTable', 'PDFContent'],
+        add: Callable
+    ) -> None:
+        """Method to add new pages with the remaining parts of an element,
+        until all of its contents are added to the document.
+
+        Args:
+            element (PDFText, PDFTable, PDFContent): the element being added.
+            add (Callable): the method used to add the element to a page.
+
+        Raises:
+            Exception: if nothing of the element could be added to many pages
+                in a row.
+        """
+        tries = 0
+        while not element.finished:
+            state = element.get_state()
             self.add_page()
-            pdf_content = self._content(pdf_content,
-                self.page.content_width, self.page.content_height,
+            add(
+                element, self.page.content_width, self.page.content_height,
                 self.page.margin_left, self.page.margin_top
             )
+            tries = self._count_tries(element, state, tries)
+
+    def _count_tries(
+        self, element: Union['PDFText', 'PDFTable', 'PDFContent'], state: dict,
+        tries: int
+    ) -> int:
+        """Method to count the pages in a row where nothing of an element
+        could be added.
+
+        Args:
+            element (PDFText, PDFTable, PDFContent): the element being added.
+            state (dict): the state of the element before the last page.
+            tries (int): the count until the last page.
+
+        Raises:
+            Exception: if the count is too large.
+
+        Returns:
+            int: the new count.
+        """
+        if element.finished or element.get_state() != state:
+            return 0
+        if tries >= MAX_TRIES:
+            raise Exception(
+                'Part of the element could not be fitted in the document'
+            )
+        return tries + 1
 
     def _add_graphics(self, graphics: Iterable) -> None:
         """Method to add a list of PDF graphics streams to current page.
-- 
2.43.0


From c57f3554428e1fa4ef1911ee5f941cc335ab8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 22/58] fix: elements of a content box are not changed, and
 balancing columns does not use up their tries

---
 pdfme/content.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 29f129e..b6dcc64 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -867,7 +867,7 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
+            element = {**element, 'style': style.copy()}
             pdf_text = PDFText(
                 element, self.width, self.max_height, self.x, self.y,
                 fonts=self.p.fonts, pdf=self.p.pdf, **par_style
@@ -946,7 +946,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            tries = element.get('tries', 0)
+            if tries >= 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -954,9 +955,8 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
             image_place = style.get('image_place', 'flow')
-            ret['delayed'] = element
+            ret['delayed'] = {**element, 'tries': tries + 1}
             if image_place == 'normal':
                 ret['next'] = True
             elif image_place == 'flow':
@@ -1160,16 +1160,19 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                tries = group_element.get('tries', 0)
+                if tries >= 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
                 self.y = initial_y
                 self.starting = initial_starting
                 self.last_bottom = initial_last_bottom
-                return {'delayed': group_element, 'next': False, 'flow': True}
+                return {
+                    'delayed': {**group_element, 'tries': tries + 1},
+                    'next': False, 'flow': True
+                }
 
         free_size = max(0, self.y - self.max_y - 1e-6)
         image_ratio = 1 + free_size / images_size if images_size > 0 else 1
-- 
2.43.0


From a635c838701f4f837503fa91961a2de3dcaefc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 23/58] fix: a delayed element does not make a nested content
 box start again

---
 pdfme/content.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index b6dcc64..286a395 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -469,7 +469,7 @@ class PDFContentPart:
 
         if (
             len(self.delayed) > 0 and
-            self.element_index >= len(self.elements) - 1
+            self.element_index >= len(self.elements)
         ):
             return 'next'
 
@@ -713,19 +713,19 @@ class PDFContentPart:
                 self.minim_forward = True
                 return 'break'
             else:
+                same_element = self.element_index == self.section_element_index
                 self.section_element_index = self.element_index
                 self.section_delayed = copy(self.delayed)
                 new_index = {
                     'index': self.element_index,
                     'delayed': copy(self.delayed)
                 }
-                if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
-                else:
+                if children_memory is not None:
                     self.children_memory = copy(children_memory)
-                    new_children_memory = copy(children_memory)
-                    new_children_memory.append(new_index)
+                elif not same_element:
+                    self.children_memory = []
+                new_children_memory = copy(self.children_memory)
+                new_children_memory.append(new_index)
 
                 if self.is_root:
                     return 'interrupt'
-- 
2.43.0


From 96cfa3fde46e3272df5f383f2bf105fb86b7114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 24/58] fix: the height of a spanning cell that goes on in the
 next page is the height of its contents

---
 pdfme/table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 7a3ef90..52b6d76 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -580,6 +580,12 @@ class PDFTable:
                 ret = False
                 break
 
+        if not ret:
+            # spanning cells are cut here too
+            self.max_height = max(
+                self.max_height, *self.heights_mem.values(), 0
+            )
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
-- 
2.43.0


From fa919a34d5f20edefbbd773c19d206280ab81dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 25/58] fix: balancing columns never goes below the bottom of
 the rectangle

---
 pdfme/content.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 286a395..79e61ef 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -393,6 +393,8 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
+        self.balance = True # whether or not the columns can be balanced
+        self.bottom = max_y
         self.parts_index = len(self.p.parts)
         self.lines_index = len(self.p.lines)
         self.fills_index = len(self.p.fills)
@@ -591,7 +593,7 @@ class PDFContentPart:
             if len(self.delayed) > 0:
                 continue
 
-            if not self.resetting and self.cols_n > 1:
+            if not self.resetting and self.cols_n > 1 and self.balance:
                 if self.last_child_of_resetting():
                     break
                 self.start_resetting()
@@ -633,7 +635,7 @@ class PDFContentPart:
         """
 
         parent = self.parent
-        if parent and self.last  and parent.cols_n > 1:
+        if parent and self.last and parent.cols_n > 1 and parent.balance:
             parent.start_resetting()
             return
 
@@ -648,7 +650,10 @@ class PDFContentPart:
             True if resetting process should continue or False if this process
             is done.
         """
-        if self.minim_diff_last and self.minim_diff_last - self.minim_diff < 1:
+        if self.resetting and self.minim_forward and self.max_y <= self.bottom:
+            # it doesn't fit: the columns are filled one after the other
+            self.balance = False
+        elif self.minim_diff_last and self.minim_diff_last - self.minim_diff < 1:
             if self.minim_forward:
                 self.minim_diff *= 2
             else:
@@ -660,18 +665,20 @@ class PDFContentPart:
         self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
-        if self.minim_diff is None:
+        if not self.balance:
+            self.max_y = self.bottom
+        elif self.minim_diff is None:
             self.minim_diff = (self.min_y - self.max_y) / 2
             self.max_y += self.minim_diff
         else:
             self.minim_diff_last = self.minim_diff
             self.minim_diff /= 2
             if self.minim_forward:
-                self.max_y -= self.minim_diff
+                self.max_y = max(self.bottom, self.max_y - self.minim_diff)
             else:
                 self.max_y += self.minim_diff
 
-        self.resetting = True
+        self.resetting = self.balance
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
@@ -738,6 +745,10 @@ class PDFContentPart:
                 self.parts_index = len(self.p.parts)
                 self.lines_index = len(self.p.lines)
                 self.fills_index = len(self.p.fills)
+                self.balance = True
+                self.minim_diff_last = None
+                self.minim_diff = None
+                self.minim_forward = None
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 4a33553d49bd0b4e3f9bdd3c7350026b2b66694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 26/58] fix: a nested content box goes on from where it was in
 the last column

---
 pdfme/content.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 79e61ef..2f868d2 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -391,6 +391,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index # current index
         self.delayed = copy(self.section_delayed) # current delayed elements
+        self.partial_children_memory = None
         self.will_reset = False
         self.resetting = False
         self.balance = True # whether or not the columns can be balanced
@@ -682,6 +683,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
+        self.partial_children_memory = None
 
         return True
 
@@ -729,6 +731,9 @@ class PDFContentPart:
                 }
                 if children_memory is not None:
                     self.children_memory = copy(children_memory)
+                elif self.partial_children_memory is not None:
+                    self.children_memory = self.partial_children_memory
+                    self.partial_children_memory = None
                 elif not same_element:
                     self.children_memory = []
                 new_children_memory = copy(self.children_memory)
@@ -1064,14 +1069,15 @@ class PDFContentPart:
         down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            # what happened in this section is newer
+            memory = self.partial_children_memory if down_condition2 else \
+                self.children_memory
+            child = memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From d2b64da1fbe987bdded61111f4d900922481f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 27/58] fix: finished cells keep their spans and fills when
 their row goes on in the next page

---
 pdfme/table.py | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 52b6d76..79dbd29 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -533,9 +533,20 @@ class PDFTable:
             line for vert_line in self.vert_lines for line in vert_line['list']
         )
 
-        if self.current_index >= len(self.content) and len(self.delayed) == 0:
+        if (
+            self.current_index >= len(self.content) and
+            not self.has_unfinished()
+        ):
             self.finished = True
 
+    def has_unfinished(self) -> bool:
+        """Method to know if there are cells that should be continued.
+
+        Returns:
+            bool: whether any of the delayed cells has not been finished.
+        """
+        return any(not cell['finished'] for cell in self.delayed.values())
+
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
 
@@ -567,20 +578,28 @@ class PDFTable:
         if self.first_row:
             self.first_row = False
             if (
-                self.max_height == 0 and len(self.delayed) > 0 and
+                self.max_height == 0 and self.has_unfinished() and
                 not any(self.heights_mem.values())
             ):
                 return 'cancel'
 
         ret = True
-        if sum(v['colspan'] for v in self.delayed.values()) == self.cols_count:
+        unfinished = {
+            col: v for col, v in self.delayed.items() if not v['finished']
+        }
+        if sum(v['colspan'] for v in unfinished.values()) == self.cols_count:
             ret = False
-        for col in self.delayed:
+        for col in unfinished:
             if not col in self.rowspan:
                 ret = False
                 break
 
-        if not ret:
+        if ret:
+            # finished cells are only needed if their rows are interrupted
+            self.delayed = {
+                col: v for col, v in self.delayed.items() if col in self.rowspan
+            }
+        else:
             # spanning cells are cut here too
             self.max_height = max(
                 self.max_height, *self.heights_mem.values(), 0
@@ -705,7 +724,7 @@ class PDFTable:
             tuple: tuple with a copy of ``element``, the element ``style``,
             and the ``cell_style``.
         """
-        if isinstance(element, dict) and 'delayed' in element:
+        if isinstance(element, dict) and 'cell_style' in element:
             cell_style = element['cell_style']
             style = {}
         else:
@@ -740,7 +759,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -750,12 +769,13 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the row where the cell begins.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+                self.fills_defs.get(row, {}).get(col, None)
             )
 
         if fill_color is not None:
@@ -812,7 +832,9 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
@@ -838,10 +860,8 @@ class PDFTable:
         else:
             did_finished = True
 
-        if did_finished:
-            self.delayed.pop(col, None)
-        else:
-            self.delayed[col] = delayed
+        delayed['finished'] = did_finished
+        self.delayed[col] = delayed
 
         if real_height > 0:
             real_height += padd_y
-- 
2.43.0


From 09f0cdc6ea5d8a6a1b8430b10f766bb8fb372f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 28/58] fix: margins can be a string with one number or a tuple
 of three numbers

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index f6d88cd..e8b413b 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -113,7 +113,7 @@ def parse_margin(margin: MarginType) -> dict:
     if isinstance(margin, str):
         margin = re.split(',| ', margin)
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
@@ -128,7 +128,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From f02d9c2205f8c1ec736797e6e2502157e9cd64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 29/58] fix: building a document doesn't change its description

---
 pdfme/document.py | 5 ++---
 pdfme/utils.py    | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index ac4357b..823058c 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -188,7 +188,7 @@ class PDFDocument:
             new_range_dict['pages'] = parse_range_string(range_dict['pages'])
             self.per_page.append(new_range_dict)
 
-        self.sections = document.get('sections', [])
+        self.sections = [copy(s) for s in document.get('sections', [])]
 
         self.x = self.y = self.width = self.height = 0
 
@@ -214,9 +214,8 @@ class PDFDocument:
                 self._traverse_document_footnotes(child)
         elif isinstance(element, dict):
             if 'footnote' in element:
-                element.setdefault('ids', [])
                 name = '$footnote:' + str(len(self.footnotes))
-                element['ids'].append(name)
+                element['ids'] = [*element.get('ids', []), name]
                 element['style'] = '$footnote'
                 element['var'] = name
                 self.pdf.context[name] = '0'
diff --git a/pdfme/utils.py b/pdfme/utils.py
index e8b413b..3d26879 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -373,6 +373,8 @@ def copy(obj: Any) -> Any:
     """
     if isinstance(obj, list):
         return [copy(el) for el in obj]
+    elif isinstance(obj, tuple):
+        return tuple(copy(el) for el in obj)
     elif isinstance(obj, dict):
         return {k: copy(v) for k, v in obj.items()}
     else:
-- 
2.43.0


From cf8cce8d9799ba7b4dbd268909c8c40a2861df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 30/58] fix: footnotes can have a named style

---
 pdfme/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 823058c..6c93ca5 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -446,7 +446,8 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
+            style = copy(process_style(footnote.get('style'), self.pdf))
+            footnote['style'] = style
             style.update(dict(
                 list_text=str(index + 1) + ' ', list_style='$footnote'
             ))
-- 
2.43.0


From 08c8f69edc5a99d2ea6b2ea46182ff6e1d8be006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 31/58] fix: the page style of a section or of per_page isn't
 kept for the pages that follow

---
 pdfme/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 6c93ca5..9a1864b 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -172,6 +172,10 @@ class PDFDocument:
         )
 
         self.style = style
+        self.page_args = dict(
+            page_size=(self.pdf.page_width, self.pdf.page_height),
+            rotate_page=self.pdf.rotate_page, margin=self.pdf.margin
+        )
 
         self.pdf.context.update(context)
 
@@ -316,7 +320,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = {**self.page_args, **section_page_args}
 
             running_sections = set(section.get('running_sections', []))
 
-- 
2.43.0


From 2cf5c187affa326b3992b3efdd95445b365f9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 32/58] fix: the order of the running sections doesn't depend
 on the hash seed

---
 pdfme/document.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 9a1864b..e74ee63 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -322,7 +322,8 @@ class PDFDocument:
 
             page_args = {**self.page_args, **section_page_args}
 
-            running_sections = set(section.get('running_sections', []))
+            # keys are used as an ordered set
+            running_sections = dict.fromkeys(section.get('running_sections', []))
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -334,9 +335,10 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
+                        for name in per_page_rs.get('exclude', []):
+                            running_sections.pop(name, None)
                         running_sections.update(
-                            set(per_page_rs.get('include', []))
+                            dict.fromkeys(per_page_rs.get('include', []))
                         )
 
             self.pdf.setup_page(**page_args)
-- 
2.43.0


From ac1247d6b589f016a1d6239129c52ed4586b2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 33/58] fix: None in the rectangle of a running section is the
 same as not defined

---
 pdfme/document.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/document.py b/pdfme/document.py
index e74ee63..fe17ee6 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -256,6 +256,9 @@ class PDFDocument:
         self.pdf.running_sections = []
         for name in running_sections:
             section = copy(self.running_sections[name])
+            for key in ('width', 'height', 'x', 'y'):
+                if section.get(key) is None:
+                    section.pop(key, None)
 
             if section.get('width') in ['left', 'right']:
                 section['width'] = margin[section.get('width')]
-- 
2.43.0


From 897431321bd91bb60134c25ed726bdaaf897e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 34/58] fix: the numbers of the footnotes are those of their
 notes when the space these take changes what fits in the page

---
 pdfme/document.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index fe17ee6..6a417b8 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -11,6 +11,9 @@ STYLE_PROPS = dict(
 PAGE_PROPS = ('page_size', 'rotate_page', 'margin')
 PAGE_NUMBERING = ('page_numbering_offset', 'page_numbering_style')
 
+# times that a page is arranged until the numbers of its footnotes are right
+MAX_FOOTNOTES_PASSES = 10
+
 class PDFDocument:
     """Class that helps to build a PDF document from a dict (``document``
     argument) describing the document contents.
@@ -387,20 +390,38 @@ class PDFDocument:
             self.pdf._add_parts(self.section.parts)
             self.pdf.page._y -= self.section.current_height
         else:
-            footnotes_height = footnotes_obj.current_height
-            if footnotes_height >= self.height - self.footnotes_margin - 20:
-                raise Exception(
-                    "footnotes are very large and don't fit in one page"
+            new_height = self.height
+            # the numbers of the footnotes and the space they take can change
+            # what fits in the page, and this in turn can change the footnotes
+            for _ in range(MAX_FOOTNOTES_PASSES):
+                footnotes_height = footnotes_obj.current_height
+                if (
+                    not footnotes_obj.finished or footnotes_height
+                    >= self.height - self.footnotes_margin - 20
+                ):
+                    raise Exception(
+                        "footnotes are very large and don't fit in one page"
+                    )
+                new_height = min(
+                    new_height,
+                    self.height - footnotes_height - self.footnotes_margin
                 )
-            new_height = self.height - footnotes_obj.current_height \
-                - self.footnotes_margin
 
-            if section_state is not None:
                 self.section.set_state(**section_state)
                 self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
+                self.section.run(height=new_height)
+
+                context = self.pdf.context.copy()
+                footnotes_obj = self._process_footnotes()
+                if context == self.pdf.context and (
+                    footnotes_obj is None or
+                    footnotes_obj.current_height <= footnotes_height
+                ):
+                    break
 
-            footnotes_obj = self._process_footnotes()
+            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+            self.pdf._add_parts(self.section.parts)
+            self.pdf.page._y -= self.section.current_height
 
             if footnotes_obj is not None:
                 self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-- 
2.43.0


From 19359845bdb41cb050fe49766b39ef834c8bf473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 35/58] fix: page ranges without an end reach the last page

---
 pdfme/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 3d26879..f862b21 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -413,7 +414,8 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
                 range_parts[2] = int(range_parts[2].strip())
             multi_range.add(*range_parts)
-- 
2.43.0


From 5267d9dc72d62d2f05ec67ebfa45625524782d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 36/58] fix: a JPEG stream can be used again after a failure

---
 pdfme/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..3f828fd 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -91,6 +91,7 @@ class PDFImage:
             bytes_ (BufferedIOBase): A file-like object containing the
                 image.
         """
+        bytes_.seek(0)
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
-- 
2.43.0


From de1bf186a7e2602d5b35170425d9cc16f864a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 37/58] fix: a truncated JPEG is an error

---
 pdfme/image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index 3f828fd..3f58f62 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -128,10 +128,15 @@ class PDFImage:
             traceback.print_exc()
             raise ValueError("Couldn't process image: {}".format(self.image_name))
 
+        header_size = bytes_.tell()
         bytes_.seek(0)
         image_data = bytes_.read()
         bytes_.seek(0)
 
+        # without the end of image marker the file was truncated
+        if image_data.find(b"\xff\xd9", header_size) == -1:
+            raise ValueError("Image is truncated: {}".format(self.image_name))
+
         self.width = int(w)
         self.height = int(h)
 
-- 
2.43.0


From 7ca643fdeffef1b0f592449309cd620c8a6bad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 38/58] fix: the order of the fonts in the file doesn't depend
 on the hash seed

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index c6bee07..edb6049 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -595,7 +595,7 @@ class PDF:
         stream = get_paragraph_stream(x, y, text_stream, graphics_stream)
         self.page.add(stream)
 
-        for font in used_fonts:
+        for font in sorted(used_fonts):
             self._used_font(*font)
 
         for id_, rects in ids.items():
-- 
2.43.0


From 3bbf1310d177b44e80e2e6c047c78f077202a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 39/58] fix: CMYK pictures of Adobe applications were shown
 inverted

---
 pdfme/image.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index 3f58f62..5c97b6d 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -92,6 +92,7 @@ class PDFImage:
                 image.
         """
         bytes_.seek(0)
+        adobe = False
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
@@ -108,6 +109,8 @@ class PDFImage:
                 else:
                     (data_size,) = struct.unpack(">H", bytes_.read(2))
                     data = bytes_.read(data_size - 2) if data_size > 2 else b""
+                    if markerLow == 0xEE and data.startswith(b"Adobe"):
+                        adobe = True
                     if (
                         (markerLow >= 0xC0 and markerLow <= 0xC3)
                         or (markerLow >= 0xC5 and markerLow <= 0xC7)
@@ -151,6 +154,9 @@ class PDFImage:
             "__skip_filter__": True,
             "__stream__": image_data,
         }
+        # Adobe applications save CMYK images with their values inverted
+        if adobe and colspace == b"/DeviceCMYK":
+            self.pdf_obj["Decode"] = [1, 0, 1, 0, 1, 0, 1, 0]
 
     def parse_png(self, bytes_: BinaryIO) -> None:
         """Method to convert a PNG image to a JPEG image and later parse it as
-- 
2.43.0


From 988d890135e5085d964a249947dc7b03e11c47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 40/58] fix: PNG images of 16 bits were shown white

---
 pdfme/image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/image.py b/pdfme/image.py
index 5c97b6d..090dba6 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -172,7 +172,11 @@ class PDFImage:
         """
         from PIL import Image  # type: ignore
 
-        im = Image.open(bytes_).convert("RGB")
+        im = Image.open(bytes_)
+        if im.mode.startswith("I"):
+            # convert clips the values of 16 bits, instead of scaling them
+            im = im.convert("I").point(lambda v: v * (1 / 256)).convert("L")
+        im = im.convert("RGB")
         bytes_io = BytesIO()
         im.save(bytes_io, "JPEG")
         bytes_io.seek(0)
-- 
2.43.0


From dbc4649a8f73e477f543035cc945c24bbdac93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 41/58] fix: an interrupted addition of an object doesn't break
 the numbers of the next ones

---
 pdfme/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/base.py b/pdfme/base.py
index 714b372..4a97b57 100644
--- a/pdfme/base.py
+++ b/pdfme/base.py
@@ -85,9 +85,9 @@ class PDFBase:
         )
         if not isinstance(py_obj, allowed_types):
             raise TypeError('object type not allowed')
-        obj = PDFObject(PDFRef(self.count), py_obj)
+        obj = PDFObject(PDFRef(len(self.content) + 1), py_obj)
         self.content.append(obj)
-        self.count += 1
+        self.count = len(self.content) + 1
         return obj
 
     def __getitem__(self, i: int) -> 'PDFObject':
@@ -140,6 +140,7 @@ class PDFBase:
             buffer (file_like): A file-like object to write the PDF file into.
         """
         header = subs('%PDF-{}\n%%\x129\x129\x129\n', self.version)
+        self.count = len(self.content) + 1
         count = len(header)
         self._write(buffer, header)
 
-- 
2.43.0


From 9ec1a2ace00db02b7099240930c3965b6b8b93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 42/58] fix: a document can be saved after its saving was
 interrupted

---
 pdfme/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index edb6049..ddc566e 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1011,7 +1011,8 @@ class PDF:
             if i % k == 0:
                 count += 1
                 obj = self.base.add({})
-                obj['Limits'] = [key if first_level else val[0], None]
+                first = key if first_level else val[0]
+                obj['Limits'] = [first, first]
                 if first_level: obj['Names'] = []
                 else: obj['Kids'] = []
 
-- 
2.43.0


From 67481f2ab4181f3754695baa4e9a1a026fe3c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 43/58] fix: an interrupted text doesn't leave a page with
 unknown fonts

---
 pdfme/pdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index ddc566e..49045e7 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -592,12 +592,13 @@ class PDF:
         For information about the arguments of this method see
         :meth:`pdfme.text.PDFTextBase.result`
         """
-        stream = get_paragraph_stream(x, y, text_stream, graphics_stream)
-        self.page.add(stream)
-
+        # the fonts must be known to the page when the text that uses them is
         for font in sorted(used_fonts):
             self._used_font(*font)
 
+        stream = get_paragraph_stream(x, y, text_stream, graphics_stream)
+        self.page.add(stream)
+
         for id_, rects in ids.items():
             if len(rects) == 0:
                 continue
-- 
2.43.0


From e79285097df319c0865a73c32d32e429383f78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 44/58] fix: an interrupted font doesn't share its name with
 the next one

---
 pdfme/fonts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 42dcea8..addff46 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -459,12 +459,14 @@ class PDFFonts:
             mode (str, optional): the mode of the font you want to get.
                 ``n``, ``b``, ``i`` or ``bi``.
         """
-        font = PDFTrueTypeFont('F'+str(self.index), path)
+        # no other font can have this name, even if this one is interrupted
+        ref = 'F'+str(self.index)
+        self.index += 1
+        font = PDFTrueTypeFont(ref, path)
         if not font_family in self.fonts:
             self.fonts[font_family] = {'n': font}
         self.fonts[font_family][mode] = font
         self.loaded_fonts.add((font_family, mode))
-        self.index += 1
 
 from .parser import PDFObject
 from .base import PDFBase
-- 
2.43.0


From a2c54e845f3c5e469ee4ef813f0474d5dd4829fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 45/58] fix: set_state restores finished and not yet started
 boxes and tables

---
 pdfme/content.py | 9 +++++++++
 pdfme/table.py   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 2f868d2..0beefbe 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -186,6 +186,9 @@ class PDFContent:
         self.content = content
         self.finished = False
         self.pdf_content_part = None
+        self.fills = []
+        self.lines = []
+        self.parts = []
         self.setup(x, y, width, height)
         self.fonts = fonts
         self.current_height = 0
@@ -291,6 +294,12 @@ class PDFContent:
                 a content box, this list says what the indexes of the nested
                 content boxes inside this content box are.
         """
+        if self.pdf_content_part is None:
+            self.pdf_content_part = PDFContentPart(
+                self.content, self, self.x, self.width, self.min_y, self.max_y,
+                last=True
+            )
+        self.finished = False
         self.pdf_content_part.set_state(
             section_element_index, section_delayed, children_memory
         )
diff --git a/pdfme/table.py b/pdfme/table.py
index 79dbd29..6194680 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -255,6 +255,7 @@ class PDFTable:
             self.delayed = copy(delayed)
         if first_row is not None:
             self.first_row = first_row
+        self.finished = False
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 629f23efedf1b836397949fc4ff206f36a3435ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 46/58] fix: a spanning cell over a cell from a row above
 doesn't stop the table

A cell cut at the end of the page was not continued when the finished
cell beside it, which is kept until its row ends, has a colspan reaching
over it.
---
 pdfme/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 6194680..42e5662 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -689,6 +689,9 @@ class PDFTable:
         rowspan_memory = self.rowspan.get(col, None)
         can_continue = False
         if rowspan_memory is None:
+            if self.colspan > 0 and is_delayed and col in self.delayed:
+                # a spanning cell over a cell that comes from a row above
+                self.colspan = 0
             if self.colspan > 0:
                 self.colspan -= 1
                 border_left['width'] = 0
-- 
2.43.0


From eb6df0dc136e56b462147b36cfb667ced508c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 47/58] fix: a picture without any room is not lost or drawn
 mirrored

When the margins of a cell or box leave no room, the picture got a
negative width and height: it was drawn upside down outside of its place,
or not at all in a nested table. Now it is one that doesn't fit.
---
 pdfme/content.py | 4 ++--
 pdfme/table.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 0beefbe..2e64421 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -951,9 +951,9 @@ class PDFContentPart:
         min_height = style.get('min_height', float('inf'))
 
         can_add = False
-        if height < self.max_height:
+        if 0 < height < self.max_height:
             can_add = True
-        elif min_height <= self.max_height:
+        elif height > 0 and min_height <= self.max_height:
             can_add = True
             height = min_height if style.get('shrink', 0) else self.max_height
             new_width = height * pdf_image.width / pdf_image.height
diff --git a/pdfme/table.py b/pdfme/table.py
index 42e5662..c9494f8 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -954,7 +954,7 @@ class PDFTable:
 
         real_height = 0
         finished = False
-        if img_height < height:
+        if 0 < img_height < height:
             real_height = img_height
             self.parts.append({
                 'type': 'image', 'pdf_image': pdf_image,
-- 
2.43.0


From 4f2c7785036d55ab22f9ea69d73d1bea150e59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 48/58] fix: a font added again for a family and mode can be
 used

the pages knew the name of the first font only, and the text was drawn with
a font that wasn't in the resources of its page
---
 pdfme/pdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 49045e7..9a357b7 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -341,9 +341,10 @@ class PDF:
             PDF object that represents the font.
         """
         f = (font_family, mode)
-        if f in self.used_fonts:
-            return self.used_fonts[f]
         font = self.fonts.get_font(*f)
+        # another font can be added with the same family and mode
+        if f in self.used_fonts and self.used_fonts[f][0] == font.ref:
+            return self.used_fonts[f]
         font_obj = font.add_font(self.base)
         self.used_fonts[(font_family, mode)] = (font.ref, font_obj.id)
         return font.ref, font_obj.id
-- 
2.43.0


From 80e769e49bef500dc9596bc3dfb4f331872a91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 49/58] fix: the name of an embedded font is its PostScript
 name

it was the seventh record of its table of names, whatever it is: fonts with
less records couldn't be used, and other texts, with spaces, made a broken file
---
 pdfme/fonts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index addff46..787dc78 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -1,4 +1,5 @@
 import abc
+import re
 from io import BytesIO
 from pathlib import Path
 
@@ -275,7 +276,10 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        names = self.font['name']
+        name = names.getDebugName(6) or names.getDebugName(4) or ''
+        # names can't have spaces, delimiters and other special characters
+        self._base_font = re.sub(r'[^!-~]|[][()<>{}/%#]', '', name) or self.ref
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
-- 
2.43.0


From b8e5ef9cd2ee111540de866a5b8523178d176cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 50/58] fix: fonts without OS/2 table can be used

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 787dc78..d1e09c8 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -312,7 +312,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From ec4ca96341cf2fa5195f2351a3d1b43c337bf453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 51/58] fix: characters outside the basic plane are mapped
 right in embedded fonts

---
 pdfme/fonts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d1e09c8..f5b655c 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -45,10 +45,14 @@ def get_tounicode_cmap(cmap_mappings):
             hex_str = hex_str.zfill(4)
         return f'<{hex_str.upper()}>'
 
+    def unicode_hex_format(cid: int) -> str:
+        code = chr(cid).encode('UTF-16-BE', 'surrogatepass')
+        return f'<{code.hex().upper()}>'
+
     mappings = []
     for (cid, gid) in cmap_mappings.items():
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            f'{cmap_hex_format(hex(int(gid)))} {unicode_hex_format(int(cid))}')
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
-- 
2.43.0


From 9c1bc0d170ee816834e6d0bae741958155c39600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 52/58] fix: an asterisk in an embedded font isn't shown as an
 apostrophe

glyphs with a carriage return in their code were read as others
---
 pdfme/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index f862b21..f453849 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -442,7 +442,9 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    text = text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    # readers take an end of line inside a string for a line feed
+    return text.replace('\r', '\\r')
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From ae6bb2ad06dd27bcaee443e41afa7ddba7b9516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 53/58] fix: Symbol and ZapfDingbats keep their own encoding

they have no glyphs of the Windows encoding
---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index f5b655c..3db6f3e 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -187,8 +187,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From 4b5fff251d7dae6bc0a48d421f3371644ef4df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 54/58] fix: the width of a missing character's glyph is given
 in embedded fonts

Words after characters that are not in the font were shown out of place. Glyphs
of several characters made the widths of other glyphs wrong.
---
 pdfme/fonts.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 3db6f3e..7eda1ed 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -389,28 +389,21 @@ class PDFTrueTypeFont(PDFFont):
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
-        cmap = self.cmap
         font = self.font
         scale = self.scale
 
-        widths = []
-        current_width_group = []
+        # glyph 0 is shown for characters that are not in the font
+        glyphs = {0: font.getGlyphName(0)}
+        for name in self.cmap.values():
+            glyphs[font.getGlyphID(name)] = name
 
+        widths = []
         prev_glyph_id = None
-        for c in cmap:
-            current_glyph_id = font.getGlyphID(cmap[c])
-            if not widths:
-                widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
-            elif (current_glyph_id - prev_glyph_id) != 1:
-                widths.append(current_width_group)
-                widths.append(current_glyph_id)
-                current_width_group = []
-                prev_glyph_id = current_glyph_id
-
-            current_width_group.append(glyph_set[cmap[c]].width * scale)
-
-        widths.append(current_width_group)
+        for glyph_id in sorted(glyphs):
+            if prev_glyph_id is None or glyph_id != prev_glyph_id + 1:
+                widths.extend([glyph_id, []])
+            widths[-1].append(glyph_set[glyphs[glyph_id]].width * scale)
+            prev_glyph_id = glyph_id
 
         return widths
 
-- 
2.43.0


From ffa94807821e73033ab9f36f88fe3c65fe0f3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 55/58] fix: any glyph of a font with more than 55296 glyphs
 can be shown

---
 pdfme/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index f453849..cfc66e8 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -431,7 +431,10 @@ def as_hex(text: str) -> str:
     Returns:
         str: The transformed text.
     """
-    return escape_string(text.encode('UTF-16-BE').decode('latin'))
+    # the numbers of the glyphs of a big font may be those of surrogates
+    return escape_string(
+        text.encode('UTF-16-BE', 'surrogatepass').decode('latin')
+    )
 
 def escape_string(text):
     '''Takes in a text and returns all special characters escaped.
-- 
2.43.0


From 92760c3058bd8efdbfb92e73f3c682007bdae9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 56/58] fix: the parts of a table or content box do not move
 the cursor of the page

_table and _content place their texts and images with the methods that move
the cursor of the page, and then move it by the height of the whole element
once more: what follows a table began one height of its texts too far below,
and an image in it moved the cursor to the right edge of its column.
---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 9a357b7..ded3290 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -945,6 +945,8 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        # the cursor is moved by the element the parts belong to
+        x, y = self.page.x, self.page._y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -952,6 +954,7 @@ class PDF:
                 self._add_text(**part)
             elif type_ == 'image':
                 self.add_image(**part)
+        self.page.x, self.page._y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From 28ad444a95fd010809047c11912761dc0299cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:12 +0000
Subject: [PATCH 57/58] fix: lowered text of a line that ends with a line break
 is not drawn over

---
 pdfme/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 69c767f..9ab3315 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -663,11 +663,13 @@ class PDFTextBase:
                 if part['type'] == 'br':
                     self.last_part_added = part_index + 1
                     self.last_word_added = 0
+                    line = self.current_line
                     continue_ = self.add_current_line(True)
+                    # lowered text of this line takes room from the next one
                     self.current_line = PDFTextLine(
                         self.fonts, self.width - (
                             self.list_indent if self.list_text else 0
-                        ), self.text_align, self.line_height
+                        ), self.text_align, self.line_height + line.bottom
                     )
                     if not continue_:
                         return self.result
-- 
2.43.0


From 674cbe622634001e7c093881b45d969c7ac1ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 58/58] fix: title of an outline without a text is the text of
 its part

---
 pdfme/text.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 9ab3315..7ff52ca 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -1229,6 +1229,27 @@ class PDFText(PDFTextBase):
         self.content.append(text_part)
         return text_part
 
+    def _get_text(self, content: ContentType) -> str:
+        """Function to get the text of a content part, without its styles.
+
+        Args:
+            content (str, list, tuple, dict): the content part.
+
+        Returns:
+            str: the text in ``content`` and in the parts inside it, footnotes
+            excluded.
+        """
+        if isinstance(content, dict):
+            if 'footnote' in content:
+                return ''
+            if 'var' in content:
+                return '0' if self.pdf is None else \
+                    str(self.pdf.context.get(content['var'], ''))
+            content = [v for k, v in content.items() if k.startswith('.')][:1]
+        if isinstance(content, (list, tuple)):
+            return ''.join(self._get_text(element) for element in content)
+        return str(content)
+
     def _recursive_content_parse(
         self, content: ContentType, parent_style: dict, ids: list
     ) -> None:
@@ -1297,7 +1318,7 @@ class PDFText(PDFTextBase):
             text_part['ids'].append('$uri:' + uri)
         outline = content.get('outline')
         if isinstance(outline, dict):
-            text = outline.get('text', ''.join(str(e) for e in elements))
+            text = outline.get('text', self._get_text(content))
             level = outline.get('level', 1)
             if label is None:
                 outline_label = str(uuid4())
-- 
2.43.0

