From d065e4dd7f71d7492a8e16a7ac27d9b49ea060b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/29] fix: reading from a pipe or another non-seekable file
 given by name failed

Position of the stream was requested unconditionally for a debug message,
which raises UnsupportedOperation on FIFOs and process substitutions.
---
 kolombos/byteio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d6367cf..1d2ad6c 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -42,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
         try:
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
-                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin else "n/a")}', offset=self._offset)
+                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
                 if max_lines:
                     for line_break in re.finditer(b'\x0a', raw_input):
-- 
2.43.0


From a90f3fa3d3f98d9ce259198e720ea5979335f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/29] fix: valid UTF-8 sequence right after a stray byte was
 shown as binary data

Binary data run is greedy and consumed leading bytes of valid sequences
which follow it, e.g. '\xff\xd0\x99' was displayed as 3 binary bytes.
---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..fe5128a 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -37,7 +37,7 @@ class Parser:
                 b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
                 b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
                 +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'([\x80-\xc1\xf5-\xff]+|[\xc2-\xf4])|'  # [1] BINARY DATA (leading UTF-8 bytes one at a time)      |
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From 3f540c37ed00aa43d116e4cfb91c7bee4063b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 03/29] fix: sequences split by a read buffer boundary were
 misclassified

Multibyte UTF-8 characters and escape sequences which happen to cross the
boundary of a chunk were shown as binary data/standalone bytes. Unfinished
sequence at the end of a chunk is now kept in the parser buffer until the
rest of it arrives or the input ends.
---
 kolombos/byteio/parser/buffer.py |  2 +-
 kolombos/byteio/parser/parser.py | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..4f5b0ab 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,7 +35,7 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
+        offset_delta = self._raw_buffer.rfind(new_buffer)
         if offset_delta == -1:
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index fe5128a..c0e89a0 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -59,6 +59,19 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # unfinished sequence at the very end of the input, which can be completed by the next chunk
+        self.INCOMPLETE_SEQ_REGEX = re.compile(
+            b'(?:'
+            b'[\xc2-\xf4]|'                             # UTF-8 sequences, see F_SEPARATOR[0]
+            b'\xe0[\xa0-\xbf]|'
+            b'[\xe1-\xec\xee\xef][\x80-\xbf]|'
+            b'\xed[\x80-\x9f]|'
+            b'\xf0[\x90-\xbf][\x80-\xbf]?|'
+            b'[\xf1-\xf3][\x80-\xbf]{1,2}|'
+            b'\xf4[\x80-\x8f][\x80-\xbf]?|'
+            b'\x1b(?:\\x5b[\x30-\x3f]*)?[\x20-\x2f]*'  # escape sequences
+            b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -82,11 +95,19 @@ class Parser:
         }
 
         self._offset = 0
+        self._postponed_len = 0
         self._debug_buffer = ConsoleDebugBuffer('parser', Seqs.CYAN)
 
     def parse(self, offset: int):
         raw = self._parser_buffer.get_raw()
-        self._offset = offset
+        postponed = b''
+        if not self._parser_buffer.closed:
+            if (incomplete := self.INCOMPLETE_SEQ_REGEX.search(raw)) is not None:
+                postponed = raw[incomplete.start():]
+                raw = raw[:incomplete.start()]
+
+        self._offset = offset - self._postponed_len
+        self._postponed_len = len(postponed)
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
         unmatched = apply_filters(raw, self.F_SEPARATOR)
@@ -95,7 +116,7 @@ class Parser:
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(unmatched + postponed)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
-- 
2.43.0


From 457fc2df3460b2f7b47973632d2b73397f917355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 04/29] fix: private control sequences ending with 'm' crashed
 the application

E.g. '\e[>4;1m' and '\e[?4m' (xterm key modifier options) are not SGRs:
an attempt to read their parameters as SGR codes raised ValueError and
the rest of the input was not shown. They are displayed as CSIs now.
---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index c0e89a0..c0d94b0 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -146,7 +146,7 @@ class Parser:
         raise TypeError(f'Match must resolve to template or resolver, got {tpl!r}')
 
     def _resolve_escape_seq_csi(self, m: Match) -> Template:  # @FIXME transform resolver to regexp composite
-        is_sgr = (m.group(8) == b'm')
+        is_sgr = (m.group(8) == b'm' and not re.search(b'[<=>?]', m.group(6)))  # private params -> not a SGR
         if is_sgr:
             sgr_params = m.group(6)                             # ↕ overload substitute() for EscapeSequenceSGRTemplate
             if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
-- 
2.43.0


From b9b3981b7162ff52d0e56fedb847e65a0ae56b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 05/29] fix: unusual SGR parameters crashed the application

Parameter with an empty first subparameter ('\e[:3m') or with more digits
than int() accepts raised ValueError and the rest of the input was lost.
---
 kolombos/byteio/template/template_escape_sgr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..c6f3b54 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -14,6 +14,7 @@ from ...settings import SettingsManager
 # noinspection PyMethodMayBeStatic
 class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
     M1_SEPARATOR = '･'
+    MAX_PCODE_LEN = 4000  # python refuses to convert strings longer than 4300 digits
 
     ALLOWED_SGRS_FOR_MARKER_FORMAT = [  # INVERSED, BOLD, UNDERLINED are reserved for markers themself
         IntCodes.DIM, IntCodes.ITALIC,
@@ -36,7 +37,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = [int(p.split(":")[0].lstrip('0')[:self.MAX_PCODE_LEN] or 0) for p in params if p]
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
-- 
2.43.0


From 409ba70de0bbd8faffa4b33c0429afdaf2c7ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/29] fix: binary mode showed nothing or looped forever in a
 narrow terminal

Computed amount of columns was zero if terminal is less than 48 chars wide,
and negative (=> infinite loop) if it is less than 29 chars wide.
---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..af38cf1 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -104,7 +104,7 @@ class BinaryFormatter(AbstractFormatter):
         chunk_len = (3 * self.BYTE_CHUNK_LEN) + \
                     (self.BYTE_CHUNK_LEN - 1) + \
                     len(self.PADDING_HEX_CHUNK)
-        chunk_fit = floor(available_total / chunk_len)
+        chunk_fit = max(1, floor(available_total / chunk_len))
 
         result = chunk_fit * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
-- 
2.43.0


From c9830908bd6c2b1bea9e23efc605a7d9ee67af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 07/29] fix: zero or negative '--columns' value showed nothing
 or looped forever

Documented default value (0) means auto detection, but it was implemented
for unset value only; negative values are treated the same way.
---
 kolombos/byteio/formatter/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index af38cf1..9f98e33 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if not cur_cols or cur_cols < 0:  # auto
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
-- 
2.43.0


From 82b7852c652e08ed651ce87f872099e2b7af291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 08/29] fix: offsets of 1,000,000 and above were truncated

Prefix was cropped to 8 characters, while '0x' + zero-padded hex offset of
a million and more takes 10, so the last two digits were not displayed.
---
 kolombos/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From ad5fa325e66ff8cce024956de6c4c5a84c4b099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 09/29] fix: details of the very last marker were lost without
 trailing newline

Detaching of the last line stopped as soon as all the data bytes were
taken, leaving zero-length segments (right separator, marker details)
in the buffer, e.g. for inputs '\e[1m' or '\x01' with '-m1'.
---
 kolombos/byteio/segment/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..3b35049 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -4,6 +4,7 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import sys
 from typing import Deque, List, Tuple
 
 from pytermor import Span, Spans, SequenceSGR
@@ -75,7 +76,8 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            # no newline means that it's the end; take everything, including trailing zero-length segments
+            detached = self._detach(avail_bytes if has_newline else sys.maxsize)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
-- 
2.43.0


From a0562edc6ee360d905c9b7b2cc83390fd4a255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 10/29] fix: wrong raw contents of control char segments

bytes(n) makes n null bytes instead of one byte with value n, which
resulted in invalid offsets and hex dump of the following debug output.
---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From 4c9cd59cda1adbe12ca29b6c2f7f352bbe45bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 11/29] fix: output was repeated by the error handler after a
 write failure

Console buffers were cleared only after a successful print, so the handler
of the failure printed the same data again: it either resulted in another
exception instead of the error message or (if the failure was temporary)
in duplicated output lines.
---
 kolombos/console.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 15a0b0b..42aabeb 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -63,8 +63,8 @@ class ConsoleOutputBuffer(AbstractConsoleBuffer):
         if not self._buf:
             return
 
-        Console.print(self._buf, end='')
-        self._buf = ''
+        buf, self._buf = self._buf, ''  # should not be printed once more if the output fails
+        Console.print(buf, end='')
 
 
 class ConsoleDebugBuffer(AbstractConsoleBuffer):
@@ -95,8 +95,8 @@ class ConsoleDebugBuffer(AbstractConsoleBuffer):
         if not self._buf:
             return
 
-        Console.debug(self._buf, end='')
-        self._buf = ''
+        buf, self._buf = self._buf, ''  # should not be printed once more if the output fails
+        Console.debug(buf, end='')
 
 
 class Console:
-- 
2.43.0


From 0bdbd5a8506ed135a4667ca94a25c72b3a0a31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 12/29] fix: UTF-8 encoded C1 control characters were sent to
 the terminal as is

U+0080-U+009F are control characters (e.g. U+009B is an 8-bit CSI), so an
input file was able to control the terminal it is being inspected in.
---
 kolombos/byteio/template/template_utf8.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kolombos/byteio/template/template_utf8.py b/kolombos/byteio/template/template_utf8.py
index d5ba2fc..a6c8389 100644
--- a/kolombos/byteio/template/template_utf8.py
+++ b/kolombos/byteio/template/template_utf8.py
@@ -4,6 +4,8 @@
 # -----------------------------------------------------------------------------
 from __future__ import annotations
 
+import re
+
 from pytermor import SequenceSGR
 
 from . import Template
@@ -12,6 +14,7 @@ from .. import CharClass, OpeningSeqPOV, LabelPOV
 
 class Utf8SequenceTemplate(Template):
     DECODED_LEFT_FILL_CHAR = '_'
+    C1_CONTROL_CHAR = '▯'
 
     def __init__(self, opening_seq: SequenceSGR | OpeningSeqPOV, label: str | LabelPOV = ''):
         super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)
@@ -24,6 +27,7 @@ class Utf8SequenceTemplate(Template):
 
         if self._read_mode.is_text or self._decode:
             decoded = raw.decode('utf8', errors='replace')
+            decoded = re.sub('[\x80-\x9f]', self.C1_CONTROL_CHAR, decoded)  # never pass control chars to the terminal
             if self._read_mode.is_binary:
                 if len(decoded) < len(raw):
                     decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
-- 
2.43.0


From eab4cec768a29d0a8bf393fe96590536c451d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 13/29] fix: interruption while the input file is being opened
 caused a traceback

Opening of a named pipe blocks until there is a writer; Ctrl+C at this
moment should stop the application the same way as it does later.
---
 kolombos/byteio/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index 1d2ad6c..d7a9115 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -32,14 +32,14 @@ class Reader(metaclass=abc.ABCMeta):
         return not self._filename or self._filename == '-'
 
     def read(self):
-        self._open()
-        self._debug_buffer.write(2, f'Read buffer: size {Spans.BOLD(self._chunk_size)}')
-
         max_bytes: int|None = SettingsManager.app_settings.max_bytes
         max_lines: int|None = SettingsManager.app_settings.max_lines
         lines = 0
         chunks = 0
         try:
+            self._open()  # can also be interrupted, e.g. while waiting for a writer of the named pipe
+            self._debug_buffer.write(2, f'Read buffer: size {Spans.BOLD(self._chunk_size)}')
+
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
                 self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
-- 
2.43.0


From 60c7781166c75719babfc85cb9bcefdf79342add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 14/29] fix: wait_key() left the terminal in raw mode if
 interrupted too early

Attributes were changed before the beginning of the guarded block, i.e. an
exception raised right after that (KeyboardInterrupt) skipped the restore.
---
 pytermor/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/common.py b/pytermor/common.py
index 8bfe6a2..18bc142 100644
--- a/pytermor/common.py
+++ b/pytermor/common.py
@@ -57,10 +57,10 @@ def wait_key() -> AnyStr|None:
     oldterm = termios.tcgetattr(fd)
     newattr = termios.tcgetattr(fd)
     newattr[3] = newattr[3] & ~termios.ICANON & ~termios.ECHO
-    termios.tcsetattr(fd, termios.TCSANOW, newattr)
 
     result = None
     try:
+        termios.tcsetattr(fd, termios.TCSANOW, newattr)
         result = sys.stdin.read(1)
     except IOError:
         pass
-- 
2.43.0


From 1f1d465d66de8e8027602947f42c7f67a75a3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 15/29] fix: formatting a Text instance changed the instance
 itself

f'{text:>10s}' replaced the contents of the text run with the padded string,
thus all the following renderings of the same instance were different.
---
 pytermor/render.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..6843fcd 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -179,8 +179,7 @@ class Text(Renderable):
             return len(self._string)
 
         def __format__(self, *args, **kwargs) -> str:
-            self._string = self._string.__format__(*args, **kwargs)
-            return self.render()
+            return self.__class__(self._string.__format__(*args, **kwargs), self._style).render()
 
 
 @dataclass
-- 
2.43.0


From 69c544e285b24dcccf6502bad4440884c4ec8cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 16/29] fix: leftovers of interrupted run were printed by the
 next one

---
 kolombos/app.py     | 1 +
 kolombos/console.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/kolombos/app.py b/kolombos/app.py
index 8b40860..9376957 100644
--- a/kolombos/app.py
+++ b/kolombos/app.py
@@ -23,6 +23,7 @@ class App:
 
     def _parse_args(self):
         SettingsManager.init()
+        Console.init()
         AppArgumentParser().parse_args(namespace=SettingsManager.app_settings)
         Console.debug_settings()
 
diff --git a/kolombos/console.py b/kolombos/console.py
index 42aabeb..9389207 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -109,6 +109,10 @@ class Console:
     buffers: List[AbstractConsoleBuffer] = list()
     settings_prefix_len: int = 0
 
+    @staticmethod
+    def init():
+        Console.buffers.clear()  # could contain leftovers of interrupted run
+
     @staticmethod
     def register_buffer(buffer: AbstractConsoleBuffer):
         Console.buffers.append(buffer)
-- 
2.43.0


From 9ec2d39dc0d2792fcbfbdb37db6780a1aa8d86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 17/29] fix: end of input was assumed when non-blocking input
 had no data yet

---
 kolombos/byteio/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d7a9115..e79fe32 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -5,6 +5,8 @@
 from __future__ import annotations
 
 import abc
+import errno
+import os
 import re
 import sys
 from typing import Callable, IO
@@ -40,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
             self._open()  # can also be interrupted, e.g. while waiting for a writer of the named pipe
             self._debug_buffer.write(2, f'Read buffer: size {Spans.BOLD(self._chunk_size)}')
 
-            while raw_input := self._io.read(self._chunk_size):
+            while raw_input := self._read_chunk():
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
                 self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
@@ -83,6 +85,12 @@ class Reader(metaclass=abc.ABCMeta):
             self._io = open(self._filename, 'rb')
             self._debug_buffer.write(1, f'Opened file: {Spans.BOLD(self._filename)}')
 
+    def _read_chunk(self) -> bytes:
+        raw_input = self._io.read(self._chunk_size)
+        if raw_input is None:  # non-blocking input without data (yet), which is not the end of it
+            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
+        return raw_input
+
     def _get_chunk_size(self) -> int:
         if SettingsManager.app_settings.buffer:
             return int(SettingsManager.app_settings.buffer)
-- 
2.43.0


From 19f99376cea5d812675941961c7a0aa5bf88df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 18/29] fix: Span.init_explicit() discards both sequences, as
 they are always falsy (zero length)

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..84a1d20 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 70f1bac7ed4f2de649374cf2bb771a3d5a8a6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 19/29] fix: TmuxRenderer leaves double underline open after
 the text

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index 6843fcd..ecdf8f3 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -549,7 +549,7 @@ class TmuxRenderer(SgrRenderer):
 
         Seqs.BOLD_DIM_OFF:   'nobold nodim',
         Seqs.ITALIC_OFF:     'noitalics',
-        Seqs.UNDERLINED_OFF: 'nounderscore',
+        Seqs.UNDERLINED_OFF: 'nounderscore nodouble-underscore',
         Seqs.BLINK_OFF:      'noblink',
         Seqs.INVERSED_OFF:   'noreverse',
         Seqs.HIDDEN_OFF:     'nohidden',
-- 
2.43.0


From e8010d42d4a495fda404d01724a70a9e928a500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:54 +0000
Subject: [PATCH 20/29] fix: TimeDeltaFormatter.max_len was less than the
 length of its longest output

Only the greatest values of each unit were measured, so a formatter which shows
two units at once ("23h 59m") could report a length its output does not fit in,
and format_time_delta() returned strings longer than requested.
---
 pytermor/util/time_delta.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pytermor/util/time_delta.py b/pytermor/util/time_delta.py
index 85f2986..156d0f2 100644
--- a/pytermor/util/time_delta.py
+++ b/pytermor/util/time_delta.py
@@ -179,19 +179,23 @@ class TimeDeltaFormatter:
         coef = 1.00
 
         for unit in self._units:
-            test_val = unit.in_next
-            if not test_val:
-                test_val = unit.overflow_afer
-            if not test_val:
+            if unit.in_next:
+                test_vals = [coef * (unit.in_next - 1)]
+            elif unit.overflow_afer:
+                test_vals = [coef * unit.overflow_afer]
+            else:
                 continue
-            test_val_seconds = coef * (test_val - 1) * (-1 if self._allow_negative else 1)
+            if unit.collapsible_after:  # two units at once can be longer
+                test_vals.append(coef * unit.collapsible_after - 1)
 
-            try:
-                max_len_unit = self.format_raw(test_val_seconds)
-            except RecursionError:
-                continue
+            for test_val in test_vals:
+                test_val_seconds = test_val * (-1 if self._allow_negative else 1)
+                try:
+                    max_len_unit = self.format_raw(test_val_seconds)
+                except RecursionError:
+                    continue
+                max_len = max(max_len, len(max_len_unit))
 
-            max_len = max(max_len, len(max_len_unit))
             coef *= unit.in_next or unit.overflow_afer
 
         return max_len
-- 
2.43.0


From db7c92b1af17ac55760afaa3a86263cf30a0d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 21/29] fix: exact exponent in format_auto_float
 (999.9999999999999 in 3 chars was shown as '0e3')

---
 pytermor/util/auto_float.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..5aacfa8 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -8,7 +8,8 @@
     from pytermor.util.auto_float import format_auto_float
 
 """
-from math import trunc, log10, floor
+from decimal import Decimal
+from math import trunc
 
 
 _OVERFLOW_CHAR = '!'
@@ -74,7 +75,7 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     if value == 0.0:
         return f'{sign}{0:{req_len}.0f}'
 
-    exponent = floor(log10(abs_value))
+    exponent = Decimal(str(abs_value)).adjusted()
     exp_threshold_left = -2
     exp_threshold_right = req_len - 1
 
-- 
2.43.0


From 65ea1e7adc3c2708756239fd3fd7927ec3d88fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 22/29] fix: format_auto_float result never gets longer than
 required because of rounding (9.9996 in 5 chars)

---
 pytermor/util/auto_float.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 5aacfa8..b513be0 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -156,4 +156,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    decimal_str = f'{abs_value:{req_len}{dot_str}f}'
+    if len(decimal_str) > req_len:
+        # rounding added one more integer digit (e.g. 9.9996 => 10.000)
+        decimal_str = f'{abs_value:{req_len}.{decimals_len - 1}f}'
+
+    return f'{sign}{decimal_str}'
-- 
2.43.0


From ae3381e22af9f57074beeada19d26b08507fd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 23/29] fix: format_auto_float of a negative value with zero
 length (ValueError: Format specifier missing precision)

---
 pytermor/util/auto_float.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index b513be0..9de7855 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -64,8 +64,8 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         sign = '-'
         req_len -= 1
 
-    if req_len == 0:
-        return _OVERFLOW_CHAR * (len(sign))
+    if req_len <= 0:
+        return _OVERFLOW_CHAR * (len(sign) + req_len)
 
     abs_value = abs(value)
     if abs_value < 1 and req_len == 1:
-- 
2.43.0


From d3473754a0cf08a47c37cd4330e253638d558e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 24/29] =?UTF-8?q?fix:=20values=20below=201=20get=20a=20sma?=
 =?UTF-8?q?ller=20prefix=20as=20documented=20(0.331=20g=20was=20shown=20as?=
 =?UTF-8?q?=20'0.33=20g',=201.26e-9=20as=20'0.00=20=CE=BC')?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pytermor/util/prefixed_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..8a1e785 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -112,13 +112,13 @@ class PrefixedUnitFormatter:
         :return:       Formatted value
         """
         unit_idx = self._prefix_zero_idx
+        min_value = 1 / self._mcoef if self._truncate_frac else 1
 
         while 0 <= unit_idx < len(self._prefixes):
-            if 0.0 < abs(value) <= 1 / self._mcoef:
+            if 0.0 < abs(value) < min_value:
                 value *= self._mcoef
                 unit_idx -= 1
-                if abs(value) <= 1:
-                    continue
+                continue
             elif abs(value) >= self._mcoef:
                 value /= self._mcoef
                 unit_idx += 1
-- 
2.43.0


From 0295ec1be7978c91f551390eaff9fc1f531f9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 25/29] fix: requested unit is shown even when there are no
 more prefixes

---
 pytermor/util/prefixed_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 8a1e785..b3c45e0 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -140,7 +140,7 @@ class PrefixedUnitFormatter:
         num_str = format_auto_float(value,
                                     self._max_value_len,
                                     allow_exponent_notation=False)
-        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + self._unit
+        unit_full = ('?' * max([len(p) for p in self._prefixes if p])) + (unit or self._unit)
         return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'
 
 
-- 
2.43.0


From a3ba9eca02eb7a40b5d92d4d94a505d78c43a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 26/29] fix: the minus sign of a padded number stays next to
 its digits ('- 50')

---
 pytermor/util/auto_float.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 9de7855..d848d99 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -131,9 +131,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
             significand_str = format_auto_float(significand, max_significand_len, allow_exponent_notation=False)
 
         except ValueError:
-            return f'{sign}e{exponent}'.rjust(req_len)
+            return f'{sign}e{exponent}'.rjust(len(sign) + req_len)
 
-        return f'{sign}{significand_str}e{exponent}'
+        return f'{sign}{significand_str.strip()}e{exponent}'.rjust(len(sign) + req_len)
 
     integer_len = max(1, exponent + 1)
     if integer_len == req_len:
@@ -161,4 +161,4 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
         # rounding added one more integer digit (e.g. 9.9996 => 10.000)
         decimal_str = f'{abs_value:{req_len}.{decimals_len - 1}f}'
 
-    return f'{sign}{decimal_str}'
+    return f'{sign}{decimal_str.strip()}'.rjust(len(sign) + req_len)
-- 
2.43.0


From 926193c8328accc78efd38c1f13b5675e7f665d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:52 +0000
Subject: [PATCH 27/29] fix: texts made of zero, False and other falsy values
 were rendered as an empty string

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index ecdf8f3..8e16c58 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = str(string) if string is not None else ''
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
-- 
2.43.0


From c38eac98ab222a5ab91459754e8249cae1090320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:52 +0000
Subject: [PATCH 28/29] fix: distribute_padded() modified the list of values it
 was given

---
 pytermor/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index 8e16c58..43acacc 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -754,6 +754,7 @@ class Styles(Registry[Style]):
 
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
+    values = list(values)  # the argument belongs to the caller
     if pad_before:
         values.insert(0, '')
     if pad_after:
-- 
2.43.0


From adc985ee1225ec0875b943b4a176e903640f205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:12 +0000
Subject: [PATCH 29/29] fix: legend generator reported success before the file
 was written, and characters as bytes

---
 dev/generate_legend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dev/generate_legend.py b/dev/generate_legend.py
index 47d6829..174aff2 100644
--- a/dev/generate_legend.py
+++ b/dev/generate_legend.py
@@ -348,5 +348,6 @@ def format_thousand_sep(value: int | float, separator=" "):
 
 
 with open(OUTPUT_PATH, "wt", encoding="utf8") as f:
-    length = f.write(out)
-    Console.info(f"Wrote {Spans.BOLD(format_thousand_sep(length))} bytes to {Spans.BLUE(OUTPUT_PATH)}")
+    f.write(out)
+length = len(out.encode("utf8"))
+Console.info(f"Wrote {Spans.BOLD(format_thousand_sep(length))} bytes to {Spans.BLUE(OUTPUT_PATH)}")
-- 
2.43.0

