From 2ee5a1e70f2b412c64fe21c1ce6f154c2d5deae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 01/57] fix: tell the EOF marker apart from a one-byte chunk of
 user data

A chunk equal to b'\x04' was the same (interned) object as the marker, so the
text reader silently ended its value and the binary reader crashed. The marker
can now also be unread, so a flush after '-' or '{' reports an IonException.
---
 amazon/ion/reader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..170135e 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,12 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(bytes):
+    """Type of the EOF marker. A plain ``bytes`` literal of length one is interned by the interpreter, so it could not be
+    distinguished by reference from a one-byte chunk of user data with the same content.
+    """
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
@@ -228,6 +233,12 @@ class BufferQueue(object):
         """
         if self.position < 1:
             raise IndexError('Cannot unread an empty buffer queue.')
+        if BufferQueue.is_eof(c):
+            # The EOF marker always occupies its own segment, so the next segment (if any) has not been started.
+            self.__segments.appendleft(c)
+            self.__size += 1
+            self.position -= 1
+            return
         if isinstance(c, six.text_type):
             if not self.is_unicode:
                 BufferQueue._incompatible_types(self.is_unicode, c)
-- 
2.43.0


From 08d07eb97ff7bd2cf327298e12772c6ddbd57abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/57] fix: never flush a text value at EOF inside a container
 or after a lone '-', '+', '{' or '/'

The fallback of the immediate flush table was a (truthy) function, and the depth
was not considered, so a stream that ended inside a container emitted the pending
value followed by STREAM_END, and load() leaked StopIteration.
---
 amazon/ion/reader_text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..641d861 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1910,10 +1910,10 @@ _VALUE_START_TABLE = _defaultdict(
 _IMMEDIATE_FLUSH_TABLE = _defaultdict(
     _merge_mappings(
         (_DIGITS, True),
-        (_LETTERS, True),
+        (_IDENTIFIER_STARTS, True),
         {_DOLLAR_SIGN: True},
     ),
-    fallback=lambda: False
+    fallback=False
 )
 
 
@@ -2047,7 +2047,7 @@ def _container_handler(c, ctx):
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
                     handler = _VALUE_START_TABLE[c](c, child_context)  # Initialize the new handler
-                    can_flush = _IMMEDIATE_FLUSH_TABLE[c]
+                    can_flush = ctx.depth == 0 and _IMMEDIATE_FLUSH_TABLE[c]
             container_start = c == _OPEN_BRACKET or \
                               c == _OPEN_PAREN  # _OPEN_BRACE might start a lob; that is handled elsewhere.
             quoted_start = c == _DOUBLE_QUOTE or c == _SINGLE_QUOTE
-- 
2.43.0


From 8c2f6ed50e4eb2947e613b0cc6050513654bfd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 03/57] fix: make SKIP in the text reader stop at the end of
 the enclosing container

After a child container had ended, its depth was mistaken for the depth of the
innermost open container, so SKIP stopped at the end of the next sibling.
---
 amazon/ion/reader_text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 641d861..8b8aff6 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2159,9 +2159,12 @@ def _skip_trampoline(handler):
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
-                depth = event.depth
+            if event is not None:
+                # Track the depth of the innermost container that is still open.
+                if event.event_type is IonEventType.CONTAINER_START:
+                    depth = event.depth
+                elif event.event_type is IonEventType.CONTAINER_END:
+                    depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From c452f6a2ccca4192cb1b2708e36ad2a426c0f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 04/57] fix: detect binary Ion in load() when the file-like
 object returns short reads

A read() that returned fewer than four bytes made load() parse binary data as
text. load() also rewound the input to offset 0 instead of to where it was.
---
 amazon/ion/simpleion.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index 6aab1ca..dcf34c7 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -355,8 +355,15 @@ def load(fp, catalog=None, single_value=True, encoding='utf-8', cls=None, object
     if isinstance(fp, _TEXT_TYPES):
         raw_reader = text_reader(is_unicode=True)
     else:
-        maybe_ivm = fp.read(4)
-        fp.seek(0)
+        start = fp.tell()
+        maybe_ivm = fp.read(len(_IVM))
+        while 0 < len(maybe_ivm) < len(_IVM):
+            # The file-like object may return fewer bytes than requested even if there is more data.
+            more = fp.read(len(_IVM) - len(maybe_ivm))
+            if not more:
+                break
+            maybe_ivm += more
+        fp.seek(start)
         if maybe_ivm == _IVM:
             raw_reader = binary_reader()
         else:
-- 
2.43.0


From 7084fdc2565ae88953bfff0ba5280ec0daf514fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 05/57] fix: keep decimals and fractional seconds exact
 whatever the decimal context

Scaling with Decimal arithmetic rounds to the precision of the calling thread's
decimal context: more than 28 fractional digits were rounded (or overflowed to
1 and raised ValueError), fewer under a smaller precision, and decimals with
large exponents raised InvalidOperation.
---
 amazon/ion/core.py              | 12 ++++++++----
 amazon/ion/reader_binary.py     | 11 +++--------
 amazon/ion/reader_text.py       |  3 ++-
 amazon/ion/writer_binary_raw.py | 16 +++++++++-------
 4 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..a9d7a2c 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -496,8 +496,11 @@ class Timestamp(datetime):
                 fractional_seconds_exponent = 0
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
-            # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            # Scale to microseconds and truncate to an integer. Construction from a tuple is exact, whereas multiplication
+            # is subject to the current decimal context.
+            args = replace_microsecond(int(Decimal((
+                0, fractional_seconds.as_tuple().digits, fractional_seconds_exponent + MICROSECOND_PRECISION
+            ))))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
@@ -506,8 +509,9 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             else:
                 try:
-                    fractional_seconds = Decimal(datetime_microseconds).scaleb(-MICROSECOND_PRECISION)\
-                        .quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
+                    fractional_seconds = Decimal((
+                        0, tuple(int(digit) for digit in str(datetime_microseconds)), -MICROSECOND_PRECISION
+                    )).quantize(PRECISION_LIMIT_LOOKUP[fractional_precision], context=Context(traps=[Inexact]))
                 except Inexact:
                     raise ValueError('microsecond value %d cannot be expressed exactly in %d digits.'
                                      % (datetime_microseconds, fractional_precision))
diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..fd43ff9 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,7 +186,6 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
@@ -194,12 +193,8 @@ def _parse_decimal(buf):
         # Handle the zero cases--especially negative zero
         value = Decimal((sign_bit, (0,), exponent))
     else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
+        # Construction from a tuple is exact, i.e. not subject to the current decimal context.
+        value = Decimal((sign_bit, tuple(int(digit) for digit in str(coefficient)), exponent))
 
     return value
 
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 8b8aff6..987ed48 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,8 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                # Construction from a tuple is exact, i.e. not subject to the current decimal context.
+                fraction = Decimal((0, tuple(int(digit) for digit in _decode(fraction)), -len(fraction)))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..4fa4699 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -170,9 +170,15 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
     return length
 
 
+def _decimal_coefficient(sign, digits):
+    # Calculated from the digits because arithmetic would be subject to the current decimal context.
+    coefficient = int(''.join(str(digit) for digit in digits))
+    return -coefficient if sign else coefficient
+
+
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
@@ -185,11 +191,7 @@ def _serialize_decimal(ion_event):
     value = ion_event.value
     validate_scalar_value(value, Decimal)
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = _decimal_coefficient(sign, digits)
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From d6d2e0161ea56550c4b65cd0093e9315b1ef4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 06/57] fix: return lob values as bytes no matter how the input
 was fragmented

A blob or clob that spanned two chunks of input came back as a (mutable,
unhashable) bytearray instead of bytes.
---
 amazon/ion/reader_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index fd43ff9..0d9642a 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -732,8 +732,8 @@ def _string_factory(data):
 
 
 def _lob_factory(data):
-    # Lobs are a trivial return of the byte data.
-    return data
+    # Lobs are a trivial return of the byte data, which is a bytearray if it spanned buffered segments.
+    return bytes(data)
 
 
 #
-- 
2.43.0


From dc64b229c37c6466cd7079d80bd2f21c358eefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/57] fix: quote text symbols that look like symbol IDs or
 version markers

The text writer wrote the symbol whose text is '$10' without quotes, so it was
read back as symbol ID 10, and '$ion_2_0' as an (illegal) version marker.
---
 amazon/ion/writer_text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..961fd3a 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -249,8 +249,12 @@ _DOUBLE_QUOTE = b'"'
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
 
+# Unquoted, these denote a symbol ID or a version marker rather than text.
+_SYMBOL_IDENTIFIER_OR_IVM_REGEX = re.compile(r'\A\$([0-9]+|ion_[0-9]+_[0-9]+)\Z')
+
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _SYMBOL_IDENTIFIER_OR_IVM_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From 0e05694cf9d2d547fa850a97f6ce3eb95faa44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 08/57] fix: write timestamps without a declared precision in
 text, as in binary

A Timestamp constructed without a precision raised AttributeError in the text
writer; the binary writer treats it as having second precision.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 961fd3a..ef3bfd0 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -143,6 +143,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From e20d997276932209a39d5eb618ed707f9a6b50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 09/57] fix: intern empty field names in the binary writer

A struct with an empty-text field name raised AttributeError because the field
name was tested for truth rather than for presence.
---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From 1a3afdf6a53b63b404162badd95d3514adaa0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 10/57] fix: make registering a table safe while another thread
 uses the catalog

register() published an empty version mapping before it added the table, so a
concurrent resolve() raised IndexError, and the first registrations of two
versions of a table by two threads could lose one of them.
---
 amazon/ion/symbols.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 252852d..5e4ab10 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -509,10 +509,8 @@ class SymbolTableCatalog(object):
         if table.is_substitute:
             raise ValueError('Cannot add substitute table to catalog')
 
-        versions = self.__tables.get(table.name)
-        if versions is None:
-            versions = {}
-            self.__tables[table.name] = versions
+        # Never publish an empty mapping nor replace one that another thread has just published.
+        versions = self.__tables.setdefault(table.name, {table.version: table})
         versions[table.version] = table
 
     def resolve(self, name, version, max_id):
-- 
2.43.0


From fd2406c22f56553b66acfc992b71bdb670e75da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 11/57] fix: write all data to outputs that accept only part of
 it

blocking_writer ignored the number of bytes accepted by write(), so data was lost
without an error when the output was a raw (unbuffered) stream.
---
 amazon/ion/writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer.py b/amazon/ion/writer.py
index d290dec..e304b5d 100644
--- a/amazon/ion/writer.py
+++ b/amazon/ion/writer.py
@@ -148,5 +148,13 @@ def blocking_writer(writer, output):
     while True:
         ion_event = (yield result_type)
         for result_event in _drain(writer, ion_event):
-            output.write(result_event.data)
+            data = result_event.data
+            while data:
+                written = output.write(data)
+                if written is None or written >= len(data):
+                    break
+                if written <= 0:
+                    raise IOError('The output accepted none of the %d bytes written.' % (len(data),))
+                # A raw (unbuffered) output may accept only part of the data.
+                data = data[written:]
         result_type = result_event.type
-- 
2.43.0


From 995079eec6170d6fa5e41b46da62d5b2c76e9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 12/57] fix: follow the specification for malformed local
 symbol table declarations

A non-string element of the symbols list did not allocate a symbol ID (so later
IDs meant the wrong text), imports of '$ion' were not ignored, null or
non-positive versions and max_ids and a null imports symbol raised errors.
---
 amazon/ion/reader_managed.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..e03e239 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -141,6 +141,9 @@ def _symbols_handler(symbols, whence):
         if ion_type is IonType.STRING:
             # Add the potentially null text.
             symbols.append(ion_event.value)
+        else:
+            # Any other value allocates a symbol ID with undefined text.
+            symbols.append(None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
@@ -167,7 +170,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # Imports of the system table and imports without a (non-empty) name are ignored.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
@@ -181,9 +185,12 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                # A missing, null, or non-positive version is treated as 1.
+                desc.version = max(ion_event.value or 1, 1)
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
-                desc.max_id = ion_event.value
+                # A null or negative max_id is treated as undefined.
+                if ion_event.value is not None and ion_event.value >= 0:
+                    desc.max_id = ion_event.value
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
@@ -242,6 +249,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From 67c27a15ee347acc91d776dfff8fafeb6459ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 13/57] fix: decode quoted text as UTF-8 when the text reader
 is given bytes

Non-ASCII text in strings and quoted symbols was decoded one byte at a time (as
Latin-1) unless the input was unicode.
---
 amazon/ion/reader_text.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 987ed48..ff33c0e 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -18,6 +18,7 @@ from __future__ import division
 from __future__ import print_function
 
 import base64
+import codecs
 from decimal import Decimal
 from collections import defaultdict
 from functools import partial
@@ -2169,6 +2170,7 @@ def _skip_trampoline(handler):
         data_event, _ = yield Transition(event, self)
 
 
+_utf8_decoder_factory = codecs.getincrementaldecoder(_ENCODING)
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
@@ -2240,6 +2242,19 @@ def _next_code_point_handler(whence, ctx):
                 yield Transition(None, whence)
         elif low_surrogate_required:
             _illegal_character(code_point, ctx, 'Unpaired high surrogate escape sequence %s.' % (escape_sequence,))
+        if not queue.is_unicode and code_point > _MAX_CLOB_CHAR:
+            # This starts a multi-byte UTF-8 sequence.
+            utf8_decoder = _utf8_decoder_factory()
+            try:
+                char = utf8_decoder.decode(six.int2byte(code_point))
+                while not char:
+                    if len(queue) == 0:
+                        yield ctx.read_data_event(self)
+                    char = utf8_decoder.decode(six.int2byte(queue.read_byte()))
+            except UnicodeDecodeError:
+                _illegal_character(code_point, ctx, 'Invalid UTF-8 sequence.')
+            code_point_generator = _next_code_point_iter(char, iter(char), to_int=ord)
+            code_point = next(code_point_generator)
         if code_point == _CARRIAGE_RETURN:
             # Normalize all newlines (\r, \n, and \r\n) to \n .
             if len(queue) == 0:
-- 
2.43.0


From 446df657d51d85026de283e70b3018bdbf699a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 14/57] fix: read a token that follows a comment inside an
 annotated value or field

A comment between an annotation or field name and the next unquoted token left the token
marked as self-delimiting, so the character following the token was lost.
---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index ff33c0e..97e1f55 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2045,6 +2045,9 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # A comment may have preceded this token; that does not make the token itself self-delimiting.
+                    child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From d5a3c1e9670b65cbca5be7a061804ff231bb0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 15/57] fix: let a vertical tab or form feed end numbers and
 keywords in text

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 97e1f55..1c26e6d 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -97,7 +97,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From 1cd5032fd620265a3f7e598a055ee018e47ced32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 16/57] fix: keep the empty symbol that follows a long string
 in text

---
 amazon/ion/reader_text.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 1c26e6d..a0f30f2 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1157,7 +1157,8 @@ def _long_string_handler(c, ctx, is_field_name=False):
                                 partial(_quoted_symbol_handler, c, is_field_name=False),
                             )
                         else:  # quotes == 2
-                            trans = _CompositeTransition(trans, ctx, None, ctx.set_empty_symbol())
+                            trans = _CompositeTransition(trans, ctx, None,
+                                                         ctx.derive_child_context(ctx.whence).set_empty_symbol())
                 elif c not in _WHITESPACE:
                     if is_clob:
                         trans = ctx.immediate_transition(_clob_end_handler(c, ctx))
@@ -2107,6 +2108,10 @@ def _container_handler(c, ctx):
                         c = queue.read_byte()
                     delimiter_required = ctx.container.is_delimited
                     if next_transition is None:
+                        if has_pending_symbol():
+                            # An empty quoted symbol followed a long string; it has not been emitted yet.
+                            complete = False
+                            can_flush = ctx.depth == 0
                         break
                     else:
                         trans = next_transition
-- 
2.43.0


From a1defda3f151aa39d0dd792ee80e4afbad32497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 17/57] fix: let an annotated symbol that is followed by a line
 comment end at the end of the text

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a0f30f2..5d75fab 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1963,7 +1963,7 @@ def _container_handler(c, ctx):
                    ) or
                    (
                        child_context.line_comment and
-                       not is_value_decorated()
+                       (has_pending_symbol() or not is_value_decorated())
                    )
                )
 
-- 
2.43.0


From 0423baec40d08879887bf08b474f1b223a2b2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 18/57] fix: end comments at the end of the text, or raise an
 error, instead of looping forever

---
 amazon/ion/reader_text.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 5d75fab..188d0b8 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1033,6 +1033,8 @@ def _comment_handler(c, ctx, whence):
             # This happens when a block comment immediately follows a line comment.
             ctx.set_line_comment(False)
         block_comment = True
+    elif BufferQueue.is_eof(c):
+        _illegal_character(c, ctx, 'Unexpected EOF.')
     else:
         _illegal_character(c, ctx, 'Illegal character sequence "/%s".' % (_chr(c),))
     done = False
@@ -1041,12 +1043,17 @@ def _comment_handler(c, ctx, whence):
     while not done:
         c, _ = yield trans
         if block_comment:
+            if BufferQueue.is_eof(c):
+                _illegal_character(c, ctx, 'Unexpected EOF.')
             if prev == _ASTERISK and c == _SLASH:
                 done = True
             prev = c
         else:
             if c in _NEWLINES or BufferQueue.is_eof(c):
                 done = True
+                if BufferQueue.is_eof(c) and whence is not ctx.whence:
+                    # The comment was within a token, which must be told about the end of the data, too.
+                    ctx.queue.unread(c)
     yield ctx.set_self_delimiting(True).immediate_transition(whence)
 
 
-- 
2.43.0


From 67480f4f869ef9d3598513551e61757789d84913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 19/57] fix: end the quoted text of an empty symbol, so that
 what follows is not read as quoted text

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 188d0b8..a23b2fd 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1637,7 +1637,8 @@ _two_single_quotes_handler = _single_quote_handler_factory(
         _long_string_handler(c, ctx, is_field_name)
     ),
     lambda c, ctx, is_field_name:
-        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().immediate_transition(ctx.whence)  # Empty symbol.
+        # Empty symbol. Its quoted text has ended; what follows is not part of it.
+        ctx.set_ion_type(IonType.SYMBOL).set_pending_symbol().set_quoted_text(False).immediate_transition(ctx.whence)
 )
 _long_string_or_symbol_handler = _single_quote_handler_factory(
     lambda c, ctx, is_field_name:
-- 
2.43.0


From dd48d23bc835e3dcc690a0029eb23e0fe75cc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 20/57] fix: let a SKIP that directly follows another SKIP
 leave the next enclosing container

---
 amazon/ion/reader_text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a23b2fd..e55ff68 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2172,6 +2172,7 @@ def _skip_trampoline(handler):
                 trans, delegate, event = pass_through()
                 if event is not None:
                     if event.event_type is IonEventType.CONTAINER_END and event.depth <= depth:
+                        depth = event.depth - 1
                         break
                 if event is None or event.event_type is IonEventType.INCOMPLETE:
                     data_event, _ = yield Transition(event, self)
-- 
2.43.0


From 4a8087359b86b942c3d031099950ae37aa37dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 21/57] fix: reject one or two single quotes at the start of a
 blob

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index e55ff68..a280afa 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1696,6 +1696,8 @@ def _lob_start_handler(c, ctx):
             if quotes == 3:
                 yield ctx.immediate_transition(_long_string_handler(c, ctx))
         else:
+            if quotes > 0:
+                _illegal_character(c, ctx)
             yield ctx.immediate_transition(_blob_end_handler(c, ctx))
         c, _ = yield trans
 
-- 
2.43.0


From 5dc8a85361685236218e1ab01f715f495966b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 22/57] fix: report an illegal character after a field name as
 IonException

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index a280afa..0a828f8 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2046,7 +2046,7 @@ def _container_handler(c, ctx):
                 else:
                     if is_field_name:
                         _illegal_character(c, child_context, 'Illegal character after field name %s.'
-                                           % child_context.pending_symbol)
+                                           % (child_context.pending_symbol,))
                     # It's a symbol value delimited by something other than a comma (i.e. whitespace or comment)
                     yield symbol_value_event()
                     child_context = None
-- 
2.43.0


From 0cc96a54758fde225aa8c9e6480c1644f790197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 23/57] fix: report an unterminated variable-length integer as
 IonException

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 0d9642a..21e3f82 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -135,7 +135,7 @@ def _parse_var_int_components(buf, signed):
     sign = 1
     while True:
         ch = buf.read(1)
-        if ch == '':
+        if not ch:
             raise IonException('Variable integer under-run')
         octet = ord(ch)
         if signed:
-- 
2.43.0


From 9b6078ccb8975cd1c72c471ebd0537e9bff415d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 24/57] fix: report NOP padding after a field name as
 IonException

---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 21e3f82..8edf4b3 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -436,7 +436,7 @@ def _nop_pad_handler(ion_type, length, ctx):
 
     if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
         raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
+            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name.sid)
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From bf93510ad858d66325174d219e385e0d5c0922c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 25/57] fix: accept NOP padding after any field name and reject
 annotated NOP padding

---
 amazon/ion/reader_binary.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 8edf4b3..7c7ff3e 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -434,9 +434,8 @@ def _ivm_handler(ctx):
 def _nop_pad_handler(ion_type, length, ctx):
     yield
 
-    if ctx.field_name is not None and ctx.field_name != SYMBOL_ZERO_TOKEN:
-        raise IonException(
-            'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name.sid)
+    if ctx.annotations is not None:
+        raise IonException('Cannot have NOP pad with annotations')
 
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
-- 
2.43.0


From a11224aed3c81d341c878b04721b70358d5c5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 26/57] fix: reject negative int zero in binary

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 7c7ff3e..4f908b1 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -637,6 +637,8 @@ def _int_factory(sign, data):
         if length == 1:
             value <<= 8
             value |= six.indexbytes(data, -length)
+        if sign < 0 and value == 0:
+            raise IonException('Negative int with zero magnitude')
         return sign * value
     return parse_int
 
-- 
2.43.0


From 2d63f9a0fa1f5bdb440195b3e3d827992ca86178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 27/57] fix: read $ion__0 as a symbol, not as a malformed
 version marker

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 0a828f8..85f6df6 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1480,7 +1480,7 @@ def _symbol_identifier_or_unquoted_symbol_handler(c, ctx, is_field_name=False):
                     if c in _DIGITS:
                         if ivm_post_underscore:
                             complete_ivm = True
-                    elif c == _UNDERSCORE and not ivm_post_underscore:
+                    elif c == _UNDERSCORE and not ivm_post_underscore and prev in _DIGITS:
                         ivm_post_underscore = True
                     else:
                         maybe_ivm = False
-- 
2.43.0


From 8e78c013e06b557b28d5b57fbe8e8cbcf922fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 28/57] fix: reject a one-letter or keyword-like field name
 without a value

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 85f6df6..3d90cf6 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1294,6 +1294,8 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 # This might be an annotation or a field name
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
+            elif is_field_name and _ends_value(c):
+                _illegal_character(c, ctx, 'Illegal character after field name %s.' % (val,))
             elif _ends_value(c) or (in_sexp and c in _OPERATORS):
                 trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, val.as_symbol())
             else:
-- 
2.43.0


From 86861b7af04bd1a8f727081642e7edabd6b2bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 29/57] fix: reject blobs with digits after padding or with
 three pad characters

---
 amazon/ion/reader_text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3d90cf6..044b343 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1757,7 +1757,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
@@ -1771,7 +1771,7 @@ def _blob_end_handler_factory():
 
     def validate(c, ctx, res):
         num_digits, num_pads = expand_res(res)
-        if num_pads > 3 or (num_digits + num_pads) % 4 != 0:
+        if num_pads > 2 or (num_digits + num_pads) % 4 != 0:
             _illegal_character(c, ctx, 'Incorrect number of pad characters (%d) for a blob of %d base-64 digits.'
                                % (num_pads, num_digits))
 
-- 
2.43.0


From 554c587c3041b11f1c6873c2a523b744866910e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 30/57] fix: read a decimal with an explicit length of zero as
 zero

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 4f908b1..590a421 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -653,6 +653,9 @@ def _float_factory(data):
 
 def _decimal_factory(data):
     def parse_decimal():
+        if not data:
+            # Zero may also be encoded with an explicit length.
+            return Decimal()
         return _parse_decimal(BytesIO(data))
 
     return parse_decimal
-- 
2.43.0


From 3cb8135fdf2c38018dda1b7a5076f0529786f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 31/57] fix: reject a version marker inside an annotation
 wrapper

---
 amazon/ion/reader_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 590a421..6fc7f42 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -422,6 +422,8 @@ def _ivm_handler(ctx):
 
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
+    if ctx.annotations is not None:
+        raise IonException('IVM encountered in an annotation wrapper')
 
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
-- 
2.43.0


From 943a1dc2834099733a01c75333a032b910d975bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 32/57] fix: read the symbols i and in after the operators -
 and + in s-expressions

---
 amazon/ion/reader_text.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 044b343..5515069 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1344,10 +1344,6 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
                 match_index += 1
             else:
                 ctx.set_unicode()
-                if match_index > 0:
-                    next_ctx = ctx.derive_child_context(ctx.whence)
-                    for ch in _INF_SUFFIX[0:match_index]:
-                        next_ctx.value.append(ch)
                 break
             c, self = yield trans
         if ctx.container is not _C_SEXP:
@@ -1357,11 +1353,14 @@ def _inf_or_operator_handler_factory(c_start, is_delegate=True):
             if c in _OPERATORS:
                 yield ctx.immediate_transition(_operator_symbol_handler(c, ctx))
             yield ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol())
+        # The sign is an operator, and what follows is a symbol which starts like `inf`.
+        ctx.queue.unread(c)
+        for ch in reversed(_INF_SUFFIX[1:match_index]):
+            ctx.queue.unread(ch)
         yield _CompositeTransition(
             ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, ctx.value.as_symbol()),
             ctx,
-            partial(_unquoted_symbol_handler, c),
-            next_ctx
+            partial(_unquoted_symbol_handler, _INF_SUFFIX[0])
         )
     return inf_or_operator_handler
 
-- 
2.43.0


From 24816f30977bbf38b6c872252123b56f614b0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 33/57] fix: reject an escaped single quote in the opening
 quotes of a long clob

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 5515069..53d2ace 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1691,6 +1691,8 @@ def _lob_start_handler(c, ctx):
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
         elif c == _SINGLE_QUOTE:
+            if _is_escaped(c):
+                _illegal_character(c, ctx)
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
-- 
2.43.0


From 999fbf81ae8ae83a8c9f37b7f69ee7b1c083717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 34/57] fix: reject digits after the T of a timestamp of year
 or month precision

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 53d2ace..d979570 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -955,7 +955,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -976,7 +976,10 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    # Only a complete date may be followed by a time.
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From c2ffcdeb11b0bc2e1d25bb228e467a05da250f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 35/57] fix: reject skipping the rest of a container which a
 nested value has overrun

---
 amazon/ion/reader_binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 6fc7f42..48fb265 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -345,7 +345,8 @@ def _read_data_handler(length, whence, ctx, skip=False, stream_event=ION_STREAM_
     trans = None
     queue = ctx.queue
 
-    if length > ctx.remaining:
+    if length > ctx.remaining or length < 0:
+        # The length is negative when the rest of a container is skipped which a nested value has already overrun.
         raise IonException('Length overrun: %d bytes, %d remaining' % (length, ctx.remaining))
 
     # Make sure to check the queue first.
-- 
2.43.0


From ed8c0bc054cc971a13593a76fcf36f2e9129d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 36/57] fix: write the numeric value of subclasses of int,
 float and Decimal in text

---
 amazon/ion/writer_text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ef3bfd0..16882f7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -87,7 +87,8 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
 
 
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    str_func=lambda val: '%d' % val  # Not str(), which subclasses may override.
 )
 
 
@@ -103,7 +104,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)  # Not repr(), which subclasses may override.
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -116,7 +117,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
-    text = str(val)
+    text = Decimal.__str__(val)  # Not str(), which subclasses may override.
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From efdf6af1428eac3cbe69e143aeede5a6a486e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 37/57] fix: reject decimals which are not finite in text

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 16882f7..4e0012a 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -117,6 +117,8 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
+    if not val.is_finite():
+        raise ValueError('Ion decimals cannot represent %s' % (val,))
     text = Decimal.__str__(val)  # Not str(), which subclasses may override.
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
-- 
2.43.0


From 37cb7555b8999ef5d943680c4c65be2ebaf86ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 38/57] fix: write the UTC offset of the actual year of
 timestamps before 1900 in text

---
 amazon/ion/writer_text.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 4e0012a..9b37854 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -138,9 +138,9 @@ def _bytes_utc_offset(dt):
         return '-00:00'
     elif offset == _ZERO_DELTA:
         return 'Z'
-    offset_str = dt.strftime('%z')
-    offset_str = offset_str[:3] + ':' + offset_str[3:]
-    return offset_str
+    # Not strftime, which does not support all years in some Python interpreter versions.
+    minutes = abs(offset.days * 24 * 60 + offset.seconds // 60)
+    return '%s%02d:%02d' % ('-' if offset < _ZERO_DELTA else '+', minutes // 60, minutes % 60)
 
 
 def _bytes_datetime(dt):
@@ -176,7 +176,7 @@ def _bytes_datetime(dt):
     if precision.includes_second:
         tz_string += dt.strftime(':%S')
     else:
-        return tz_string + _bytes_utc_offset(dt)
+        return tz_string + _bytes_utc_offset(original_dt)
 
     if isinstance(original_dt, Timestamp):
         fractional_seconds = getattr(original_dt, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, None)
@@ -191,7 +191,7 @@ def _bytes_datetime(dt):
     else:
         # This must be a normal datetime, which always has a range-validated microsecond value.
         tz_string += '.' + dt.strftime('%f')
-    return tz_string + _bytes_utc_offset(dt)
+    return tz_string + _bytes_utc_offset(original_dt)
 
 
 _serialize_timestamp = _serialize_scalar_from_string_representation_factory(
-- 
2.43.0


From a6d1b797000da22adf7afc453b67350097fbfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 39/57] fix: reject timestamps whose UTC offset has seconds
 instead of writing another offset

---
 amazon/ion/writer.py            | 8 ++++++++
 amazon/ion/writer_binary_raw.py | 6 +++---
 amazon/ion/writer_text.py       | 4 ++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/amazon/ion/writer.py b/amazon/ion/writer.py
index e304b5d..7e203d6 100644
--- a/amazon/ion/writer.py
+++ b/amazon/ion/writer.py
@@ -62,6 +62,14 @@ def illegal_state_null(ion_event):
     validate_scalar_value(ion_event.value, type(None))
 
 
+def utc_offset_minutes(offset):
+    """Returns the number of minutes of the given UTC offset (a ``timedelta``), the unit which Ion has for it."""
+    seconds = offset.days * 24 * 3600 + offset.seconds
+    if offset.microseconds or seconds % 60:
+        raise ValueError('Ion timestamps cannot represent the UTC offset %s' % (offset,))
+    return seconds // 60
+
+
 def _serialize_null(ion_event, null_table):
     return null_table[ion_event.ion_type]
 
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 4fa4699..d20cac3 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -31,10 +31,10 @@ from amazon.ion.equivalence import _is_float_negative_zero
 from amazon.ion.symbols import SymbolToken
 from .core import IonEventType, IonType, DataEvent, Transition, TimestampPrecision, TIMESTAMP_FRACTION_PRECISION_FIELD, \
     MICROSECOND_PRECISION, TIMESTAMP_PRECISION_FIELD, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, Timestamp
-from .util import coroutine, total_seconds, Enum
+from .util import coroutine, Enum
 from .writer import NOOP_WRITER_EVENT, WriteEventType, \
                     writer_trampoline, partial_transition, serialize_scalar, \
-                    validate_scalar_value, illegal_state_null
+                    validate_scalar_value, illegal_state_null, utc_offset_minutes
 from .writer_binary_raw_fields import _write_varuint, _write_uint, _write_varint, _write_int
 
 
@@ -255,7 +255,7 @@ def _serialize_timestamp(ion_event):
         # Normalize to UTC and write the offset field.
         offset = dt.utcoffset()
         dt -= offset
-        length = _write_varint(value_buf, int(total_seconds(offset) // 60))
+        length = _write_varint(value_buf, utc_offset_minutes(offset))
     length += _write_varuint(value_buf, dt.year)
     if precision.includes_month:
         length += _write_varuint(value_buf, dt.month)
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 9b37854..bdd11ca 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -38,7 +38,7 @@ from .core import DataEvent, Transition, IonEventType, IonType, TIMESTAMP_PRECIS
     _ZERO_DELTA, TIMESTAMP_FRACTION_PRECISION_FIELD, MICROSECOND_PRECISION, TIMESTAMP_FRACTIONAL_SECONDS_FIELD, \
     Timestamp, DECIMAL_ZERO
 from .writer import partial_transition, writer_trampoline, serialize_scalar, validate_scalar_value, \
-    illegal_state_null, NOOP_WRITER_EVENT
+    illegal_state_null, utc_offset_minutes, NOOP_WRITER_EVENT
 from .writer import WriteEventType
 
 _IVM_WRITER_EVENT = DataEvent(WriteEventType.COMPLETE, symbols.TEXT_ION_1_0.encode())
@@ -139,7 +139,7 @@ def _bytes_utc_offset(dt):
     elif offset == _ZERO_DELTA:
         return 'Z'
     # Not strftime, which does not support all years in some Python interpreter versions.
-    minutes = abs(offset.days * 24 * 60 + offset.seconds // 60)
+    minutes = abs(utc_offset_minutes(offset))
     return '%s%02d:%02d' % ('-' if offset < _ZERO_DELTA else '+', minutes // 60, minutes % 60)
 
 
-- 
2.43.0


From b53fb625d26dc0aacdd0c3bb6280c0937bcaffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 40/57] fix: reject symbols with neither text nor a valid ID in
 text

---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index bdd11ca..3d672c7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -266,6 +266,8 @@ def _serialize_symbol_value(value, suffix=b''):
     try:
         text = value.text
         if text is None:
+            if value.sid is None or value.sid < 0:
+                raise ValueError('Not a symbol: %r' % (value,))
             return (u'$%d' % value.sid).encode() + suffix
     except AttributeError:
         text = value
-- 
2.43.0


From 8c5ccd311f7065f1bc1dcbaccf1600c76a5e4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 41/57] fix: accept only Ion whitespace as indentation

---
 amazon/ion/writer_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 3d672c7..cb8639e 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -455,7 +455,7 @@ def raw_writer(indent=None):
         ``HAS_PENDING`` :class:`WriteEventType` events.
     """
 
-    is_whitespace_str = isinstance(indent, str) and re.search(r'\A\s*\Z', indent, re.M) is not None
+    is_whitespace_str = isinstance(indent, str) and re.search(r'\A[ \t\n\r\f\v]*\Z', indent) is not None
     if not (indent is None or is_whitespace_str):
         raise ValueError('The indent parameter must either be None or a string containing only whitespace')
 
-- 
2.43.0


From 8848c59eb29276850a286c92f96a2adb70d5d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 42/57] fix: never write a symbol of a shared table by an ID
 which denotes something else there

---
 amazon/ion/writer_binary.py | 5 +++++
 amazon/ion/writer_text.py   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 0e8a450..a154bb8 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -110,6 +110,11 @@ def _symbol_table_coroutine(writer_buffer, imports):
             symbol_text = symbol.text
             if symbol_text is not None:
                 key = symbol_text
+            elif symbol.location is not None:
+                # A symbol ID has a meaning only where it was imported; this writer may have assigned it to another symbol.
+                key = next((t.sid for t in local_symbols if t.location == symbol.location), None)
+                if key is None:
+                    raise IonException('Unable to write a symbol without text whose import is not declared: %r' % (symbol,))
         except AttributeError:
             assert isinstance(symbol, six.text_type)
             key = symbol
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index cb8639e..f66bd7b 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -32,6 +32,7 @@ from io import BytesIO
 
 from amazon.ion.symbols import SymbolToken
 from . import symbols
+from .exceptions import IonException
 
 from .util import coroutine, unicode_iter
 from .core import DataEvent, Transition, IonEventType, IonType, TIMESTAMP_PRECISION_FIELD, TimestampPrecision, \
@@ -266,6 +267,8 @@ def _serialize_symbol_value(value, suffix=b''):
     try:
         text = value.text
         if text is None:
+            if value.location is not None and value.location.name != symbols.TEXT_ION:
+                raise IonException('Unable to write a symbol without text of a shared symbol table: %r' % (value,))
             if value.sid is None or value.sid < 0:
                 raise ValueError('Not a symbol: %r' % (value,))
             return (u'$%d' % value.sid).encode() + suffix
-- 
2.43.0


From 0a22d562fe5a39f2f505d3309f16dce1e8a3db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 43/57] fix: reject symbols in binary whose text is not text
 instead of looking it up as an ID

---
 amazon/ion/writer_binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index a154bb8..1ac4d9e 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -116,9 +116,10 @@ def _symbol_table_coroutine(writer_buffer, imports):
                 if key is None:
                     raise IonException('Unable to write a symbol without text whose import is not declared: %r' % (symbol,))
         except AttributeError:
-            assert isinstance(symbol, six.text_type)
             key = symbol
             symbol_text = symbol
+        if symbol_text is not None and not isinstance(symbol_text, six.text_type):
+            raise TypeError('The text of a symbol must be Unicode: %r' % (symbol,))
         token = local_symbols.get(key)
         if token is None:
             assert symbol_text is not None
-- 
2.43.0


From 5ae0cf9f06342517e3147500f22cde258775d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 44/57] fix: decide a catalog look-up on one state of the
 catalog

resolve() looked for the version asked for, for the latest version and for its
table in three steps; a registration in between made it adapt a version which
was neither exact nor the latest at any instant.
---
 amazon/ion/symbols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 5e4ab10..1ada8e9 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -544,6 +544,8 @@ class SymbolTableCatalog(object):
                 )
             return placeholder_symbol_table(name, version, max_id)
 
+        # Decide on one state of the catalog: other threads may register tables between two look-ups.
+        versions = versions.copy()
         table = versions.get(version)
         if table is None:
             # TODO Replace the keys map with a search tree based dictionary.
-- 
2.43.0


From 342b25f2cea438766c2a713db9bfeaefe9afdfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 45/57] fix: an interrupted intern must not corrupt the symbol
 table

SymbolTable took a new symbol ID before the token was in the table, so an
exception which arrived in between (a signal handler, a timeout, no memory)
left every later symbol with a wrong ID. The token now becomes part of the
table in one step, from which the rest is derived.
---
 amazon/ion/symbols.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/amazon/ion/symbols.py b/amazon/ion/symbols.py
index 1ada8e9..0198f30 100644
--- a/amazon/ion/symbols.py
+++ b/amazon/ion/symbols.py
@@ -169,14 +169,12 @@ class SymbolTable(object):
         self.version = version
         self.imports = imports
         self.is_substitute = is_substitute
-        self.max_id = 0
         self.__symbols = []
         self.__mapping = {}
 
         if table_type.is_local or table_type.is_system:
             for token in _SYSTEM_SYMBOL_TOKENS:
                 self.__add(token)
-            self.max_id = len(_SYSTEM_SYMBOL_TOKENS)
 
         if imports is not None:
             for table in imports:
@@ -205,17 +203,33 @@ class SymbolTable(object):
         return ImportLocation(self.name, sid)
 
     def __new_sid(self):
-        """Allocates a new local SID."""
-        self.max_id += 1
-        sid = self.max_id
-        return sid
+        """Returns the next local SID."""
+        return len(self.__symbols) + 1
 
     def __add(self, token):
-        """Unconditionally adds a token to the table."""
-        self.__symbols.append(token)
+        """Unconditionally adds a token to the table.
+
+        Note:
+            It is the last step which makes the token part of the table, such that an exception which arrives in
+            between (e.g. from a signal handler) leaves the table as it was.
+        """
         text = token.text
-        if text is not None and text not in self.__mapping:
+        if text is not None and self.__get_by_text(text) is None:
             self.__mapping[text] = token
+        self.__symbols.append(token)
+
+    def __get_by_text(self, text):
+        """Returns the first token with the given text, or None."""
+        token = self.__mapping.get(text, None)
+        # An interrupted addition may have left a mapping to a token which never became part of the table.
+        if token is None or token.sid > len(self.__symbols) or self.__symbols[token.sid - 1] is not token:
+            return None
+        return token
+
+    @property
+    def max_id(self):
+        """int: The largest SID of this table."""
+        return len(self.__symbols)
 
     def __add_shared(self, original_token):
         """Adds a token, normalizing the SID and import reference to this table."""
@@ -282,7 +296,7 @@ class SymbolTable(object):
             SymbolToken: The token associated with the key or the default if it doesn't exist.
         """
         if isinstance(key, six.text_type):
-            return self.__mapping.get(key, None)
+            return self.__get_by_text(key)
         if not isinstance(key, int):
             raise TypeError('Key must be int or Unicode sequence.')
 
-- 
2.43.0


From 13b2f0a1c3d9c6a3a0398b03fbb88d854ad04ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 46/57] fix: keep repeated fields when a Multimap is
 constructed from another one

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index a9d7a2c..7e09406 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -616,7 +616,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From addd0f56fab957145bcc9fa6bda2513dbdc8c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 47/57] fix: write a symbol as a symbol when sequence_as_stream
 is given

---
 amazon/ion/simpleion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/simpleion.py b/amazon/ion/simpleion.py
index dcf34c7..b5793d9 100644
--- a/amazon/ion/simpleion.py
+++ b/amazon/ion/simpleion.py
@@ -149,7 +149,7 @@ def dump(obj, fp, imports=None, binary=True, sequence_as_stream=False, skipkeys=
     from_type = _FROM_TYPE_TUPLE_AS_SEXP if tuple_as_sexp else _FROM_TYPE
     if binary or not omit_version_marker:
         writer.send(ION_VERSION_MARKER_EVENT)  # The IVM is emitted automatically in binary; it's optional in text.
-    if sequence_as_stream and isinstance(obj, (list, tuple)):
+    if sequence_as_stream and isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
         # Treat this top-level sequence as a stream; serialize its elements as top-level values, but don't serialize the
         # sequence itself.
         for top_level in obj:
-- 
2.43.0


From 04b6c76bae5ac768d39b2b50b5470325482283ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 48/57] fix: copies and pickles of enumeration members resolve
 to the member

---
 amazon/ion/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amazon/ion/util.py b/amazon/ion/util.py
index 475a5d7..601ba59 100644
--- a/amazon/ion/util.py
+++ b/amazon/ion/util.py
@@ -19,6 +19,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import operator
 import six
 import sys
 
@@ -94,6 +95,10 @@ class Enum(int):
     def __getnewargs__(self):
         return (self.name, self.value)
 
+    def __reduce__(self):
+        # Members are singletons compared by identity, so copies and pickles have to resolve to the member itself.
+        return operator.getitem, (type(self), self.value)
+
     def __str__(self):
         return '<%s.%s: %s>' % (type(self).__name__, self.name, self.value)
     __repr__ = __str__
-- 
2.43.0


From c85f6139158ce92bd347ce5479818f0840e9fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 49/57] fix: keep the fields, type and annotations of copied
 and pickled decimals and timestamps

---
 amazon/ion/core.py         | 15 +++++++++++++++
 amazon/ion/simple_types.py | 19 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 7e09406..2a5ece1 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -391,6 +391,10 @@ PRECISION_LIMIT_LOOKUP = (
 DATETIME_CONSTRUCTOR_MICROSECOND_ARGUMENT_INDEX = 6
 
 
+def _new_timestamp(cls, args, kwargs):
+    return cls(*args, **kwargs)
+
+
 class Timestamp(datetime):
     """Sub-class of :class:`datetime` that supports a precision field; a ``fractional_precision``
         field that specifies the  precision of the``microseconds`` field in :class:`datetime`;
@@ -529,6 +533,17 @@ class Timestamp(datetime):
 
         return instance
 
+    def __reduce_ex__(self, protocol):
+        # The state of a datetime does not include the additional fields.
+        args = (self.year, self.month, self.day, self.hour, self.minute, self.second, None, self.tzinfo)
+        kwargs = {
+            TIMESTAMP_PRECISION_FIELD: getattr(self, TIMESTAMP_PRECISION_FIELD),
+            TIMESTAMP_FRACTIONAL_SECONDS_FIELD: getattr(self, TIMESTAMP_FRACTIONAL_SECONDS_FIELD),
+        }
+        if getattr(self, 'fold', 0):
+            kwargs['fold'] = self.fold
+        return _new_timestamp, (type(self), args, kwargs), getattr(self, '__dict__', None)
+
     def __repr__(self):
         return 'Timestamp(%04d-%02d-%02dT%02d:%02d:%02d.%06d, %r, %r, %s=%s)' % \
                (self.year, self.month, self.day,
diff --git a/amazon/ion/simple_types.py b/amazon/ion/simple_types.py
index 9db902d..2d7b635 100644
--- a/amazon/ion/simple_types.py
+++ b/amazon/ion/simple_types.py
@@ -23,6 +23,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+from copy import deepcopy
 from decimal import Decimal
 from collections import MutableMapping
 
@@ -143,6 +144,22 @@ def _ion_type_for(name, base_cls):
     return IonPyValueType
 
 
+class _AttributedDecimal(Decimal):
+    """A ``Decimal`` whose copies and pickles include the attributes of the instance."""
+    def __copy__(self):
+        value = self.__class__(self)
+        value.__dict__.update(self.__dict__)
+        return value
+
+    def __deepcopy__(self, memo):
+        value = self.__class__(self)
+        value.__dict__.update(deepcopy(self.__dict__, memo))
+        return value
+
+    def __reduce__(self):
+        return self.__class__, (str(self),), self.__dict__
+
+
 if six.PY2:
     IonPyInt = _ion_type_for('IonPyInt', long)
 else:
@@ -151,7 +168,7 @@ else:
 
 IonPyBool = IonPyInt
 IonPyFloat = _ion_type_for('IonPyFloat', float)
-IonPyDecimal = _ion_type_for('IonPyDecimal', Decimal)
+IonPyDecimal = _ion_type_for('IonPyDecimal', _AttributedDecimal)
 IonPyText = _ion_type_for('IonPyText', six.text_type)
 IonPyBytes = _ion_type_for('IonPyBytes', six.binary_type)
 
-- 
2.43.0


From 819e19d25d52fbd971c99168b0b141dcdb9dd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 50/57] fix: a shallow copy of a Multimap must not share its
 store

---
 amazon/ion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 2a5ece1..fc06931 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -633,6 +633,13 @@ class Multimap(MutableMapping):
             for key, value in six.iteritems(args[0]):
                 self.add_item(key, value)
 
+    def __copy__(self):
+        # A copy must not share the store with the original.
+        value = self.__class__.__new__(self.__class__)
+        value.__dict__.update(self.__dict__)
+        value.__store = OrderedDict((key, MultimapValue(*values)) for key, values in six.iteritems(self.__store))
+        return value
+
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
 
-- 
2.43.0


From de27f2011175124eb6d37e98bd2cd66b572294a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 51/57] fix: the pieces handed out by binary writers must not
 be shared mutable state

---
 amazon/ion/writer_binary_raw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index d20cac3..6c81803 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -80,8 +80,10 @@ _LENGTH_FIELD_INDICATOR = 0x0E
 _NULL_INDICATOR = 0x0F
 
 
+# The following encodings are handed out to the users of every writer, so they must be immutable.
+
 def _null(tid):
-    return bytearray([tid | _NULL_INDICATOR])
+    return bytes(bytearray([tid | _NULL_INDICATOR]))
 
 
 _NULLS = [
@@ -100,8 +102,8 @@ _NULLS = [
     _null(_TypeIds.STRUCT)
 ]
 
-_BOOL_TRUE = bytearray([_TypeIds.BOOL_TRUE])
-_BOOL_FALSE = bytearray([_TypeIds.BOOL_FALSE])
+_BOOL_TRUE = bytes(bytearray([_TypeIds.BOOL_TRUE]))
+_BOOL_FALSE = bytes(bytearray([_TypeIds.BOOL_FALSE]))
 
 
 def _serialize_bool(ion_event):
-- 
2.43.0


From 6638fc3c802a205e1167e03e9c4bdeb169c3957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:15 +0000
Subject: [PATCH 52/57] fix: do not lose the character after a slash operator
 that follows a comment in an s-expression

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index d979570..de9604f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1073,6 +1073,8 @@ def _sexp_slash_handler(c, ctx, whence=None, pending_event=None):
     if c == _ASTERISK or c == _SLASH:
         yield ctx.immediate_transition(_comment_handler(_SLASH, ctx, whence))
     else:
+        # A comment may have preceded this operator; that does not make the operator itself self-delimiting.
+        ctx.set_self_delimiting(False)
         if pending_event is not None:
             # Since this is the start of a new value and not a comment, the pending event must be emitted.
             assert pending_event.event is not None
-- 
2.43.0


From 8041fc1f00a47b7848fb33a1954df7ab01797afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:17 +0000
Subject: [PATCH 53/57] fix: a symbol table which extends the previous one no
 longer keeps all of its predecessors in memory

---
 amazon/ion/reader_managed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index e03e239..78d63af 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -262,6 +262,9 @@ def _local_symbol_table_handler(ctx):
 
     # Construct the resulting context and terminate the processing.
     symbol_table = SymbolTable(LOCAL_TABLE_TYPE, symbols, imports=imports)
+    if imports and imports[0] is ctx.symbol_table:
+        # A table which extends the previous one has its imports; it must not keep all of its predecessors alive.
+        symbol_table.imports = ctx.symbol_table.imports
     yield Transition(_ManagedContext(ctx.catalog, symbol_table), None)
 
 
-- 
2.43.0


From be20d36d95757acdd3f93675747d56213587e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:48 +0000
Subject: [PATCH 54/57] fix: reading a long text value no longer takes time
 quadratic in its length

---
 amazon/ion/reader.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 170135e..358c495 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -68,33 +68,41 @@ safe_unichr = six.unichr if (six.PY3 or _WIDE_BUILD) else _narrow_unichr
 class CodePointArray:
     """A mutable sequence of code points. Used in place of bytearray() for text values."""
     def __init__(self, initial_bytes=None):
-        self.__text = u''
+        # Pieces are joined on demand: adding every code point to a string takes time quadratic in the length of the text.
+        self.__pieces = []
+        self.__length = 0
         if initial_bytes is not None:
             for b in initial_bytes:
                 self.append(b)
 
     def append(self, value):
-        self.__text += safe_unichr(value)
+        self.__add(safe_unichr(value))
 
     def extend(self, values):
         if isinstance(values, six.text_type):
-            self.__text += values
+            self.__add(values)
         else:
             assert isinstance(values, six.binary_type)
             for b in six.iterbytes(values):
                 self.append(b)
 
+    def __add(self, text):
+        self.__pieces.append(text)
+        self.__length += len(text)
+
     def as_symbol(self):
-        return SymbolToken(self.__text, sid=None, location=None)
+        return SymbolToken(self.as_text(), sid=None, location=None)
 
     def as_text(self):
-        return self.__text
+        if len(self.__pieces) != 1:
+            self.__pieces = [u''.join(self.__pieces)]
+        return self.__pieces[0]
 
     def __len__(self):
-        return len(self.__text)
+        return self.__length
 
     def __repr__(self):
-        return 'CodePointArray(text=%s)' % (self.__text,)
+        return 'CodePointArray(text=%s)' % (self.as_text(),)
 
     __str__ = __repr__
 
@@ -105,7 +113,7 @@ class CodePointArray:
         raise ValueError('Attempted to set code point in middle of sequence.')
 
     def __getitem__(self, index):
-        return self.__text[index]
+        return self.as_text()[index]
 
     def __delitem__(self, index):
         raise ValueError('Attempted to delete from code point sequence.')
-- 
2.43.0


From 40985bfb446fffe33482b4904d2c36efdee2f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:52 +0000
Subject: [PATCH 55/57] fix: the binary writer could not write containers
 nested a thousand deep, and took time quadratic in the depth

---
 amazon/ion/writer_buffer.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/amazon/ion/writer_buffer.py b/amazon/ion/writer_buffer.py
index 69de29c..2a1218a 100644
--- a/amazon/ion/writer_buffer.py
+++ b/amazon/ion/writer_buffer.py
@@ -32,15 +32,6 @@ class _Node:
         node.parent = self
         self.children.append(node)
 
-    def add_leaf(self, node):
-        if not self.children:
-            self.add_child(node)
-            return
-        leftmost_child = self.children[0]
-        while leftmost_child.children:
-            leftmost_child = leftmost_child.children[0]
-        leftmost_child.add_child(node)
-
 
 class BufferTree:
     """A tree of buffers that can be depth-first traversed to produce a
@@ -82,11 +73,13 @@ class BufferTree:
         self.current_container_length = 0
 
     def __depth_traverse(self, node):
-        if node.children:
-            for child in node.children:
-                for val in self.__depth_traverse(child):
-                    yield val
-        yield node.value
+        # Containers may be nested deeper than the interpreter's recursion limit.
+        stack = [node]
+        while stack:
+            node = stack.pop()
+            yield node.value
+            if node.children:
+                stack.extend(reversed(node.children))
 
     def start_container(self):
         """Add a node to the tree that represents the start of a container.
@@ -102,18 +95,18 @@ class BufferTree:
         self.__container_node = new_container_node
 
     def end_container(self, header_buf):
-        """Add a node containing the container's header to the current subtree.
+        """Set the container's header as the value of the current subtree's root.
 
-        This node will be added as the leftmost leaf of the subtree that was
-        started by the matching call to start_container.
+        It is the first value yielded of the subtree that was started by the
+        matching call to start_container.
 
         Args:
             header_buf (bytearray): bytearray containing the container header.
         """
         if not self.__container_nodes:
             raise ValueError("Attempted to end container with none active.")
-        # Header needs to be the first node visited on this subtree.
-        self.__container_node.add_leaf(_Node(header_buf))
+        # A subtree's root is the first node visited on it.
+        self.__container_node.value = header_buf
         self.__container_node = self.__container_nodes.pop()
         parent_container_length = self.__container_lengths.pop()
         self.current_container_length = \
-- 
2.43.0


From 6b1d9d3fbd1c0434401e85fd13a45c42ecdf0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:52 +0000
Subject: [PATCH 56/57] fix: reading and writing a long int in binary took time
 quadratic in its length

---
 amazon/ion/reader_binary.py            | 31 +++-----------------------
 amazon/ion/writer_binary_raw_fields.py |  8 +++++++
 2 files changed, 11 insertions(+), 28 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 48fb265..fdaee58 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import six
 
+from binascii import hexlify
 from datetime import timedelta
 from decimal import Decimal
 from functools import partial
@@ -610,36 +611,10 @@ def _container_handler(ion_type, ctx):
 #
 
 
-def _rslice(data, rem, size):
-    start = -rem
-    end = start + size
-    if end >= 0:
-        end = None
-    return data[slice(start, end)]
-
-
 def _int_factory(sign, data):
     def parse_int():
-        value = 0
-        length = len(data)
-        while length >= 8:
-            segment = _rslice(data, length, 8)
-            value <<= 64
-            value |= unpack('>Q', segment)[0]
-            length -= 8
-        if length >= 4:
-            segment = _rslice(data, length, 4)
-            value <<= 32
-            value |= unpack('>I', segment)[0]
-            length -= 4
-        if length >= 2:
-            segment = _rslice(data, length, 2)
-            value <<= 16
-            value |= unpack('>H', segment)[0]
-            length -= 2
-        if length == 1:
-            value <<= 8
-            value |= six.indexbytes(data, -length)
+        # Takes time linear in the length, which shifting in the pieces of a long int does not.
+        value = int(hexlify(data), 16) if data else 0
         if sign < 0 and value == 0:
             raise IonException('Negative int with zero magnitude')
         return sign * value
diff --git a/amazon/ion/writer_binary_raw_fields.py b/amazon/ion/writer_binary_raw_fields.py
index cf24ebf..c21832d 100644
--- a/amazon/ion/writer_binary_raw_fields.py
+++ b/amazon/ion/writer_binary_raw_fields.py
@@ -32,6 +32,8 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+from binascii import unhexlify
+
 from .util import bit_length
 
 _VARIABLE_END_BIT_MASK = 0b10000000  # Both VarInt and VarUInt
@@ -172,6 +174,12 @@ def _write_base(buf, value, bits_per_octet, end_bit=0, sign_bit=0, is_signed=Fal
     else:
         # This ensures that unsigned values that fit exactly are not shifted too far.
         remainder = bits_per_octet
+    if bits_per_octet == _FIXED_BITS_PER_OCTET:
+        # The octets are those of the value. Takes time linear in their number, which shifting the value for each does not.
+        octets = bytearray(unhexlify('%0*x' % (num_octets * 2, value)))
+        octets[0] |= sign_bit
+        buf.extend(octets)
+        return num_octets
     for i in range(num_octets):
         octet = 0
         if i == 0:
-- 
2.43.0


From 6d5b8ff06016eb8d0e9f119dd07ec688531db9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:46 +0000
Subject: [PATCH 57/57] fix: the binary writer could write no small numbers
 when assertions are disabled (python -O)

---
 amazon/ion/writer_binary_raw_fields.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amazon/ion/writer_binary_raw_fields.py b/amazon/ion/writer_binary_raw_fields.py
index c21832d..c51c6f3 100644
--- a/amazon/ion/writer_binary_raw_fields.py
+++ b/amazon/ion/writer_binary_raw_fields.py
@@ -254,10 +254,15 @@ class _FieldCache:
         # but for simplicity, 64 is used for all.
         for cached_value in range(self.SIZE):
             signed_value = _FieldCache._signed_value(cached_value)
-            assert _write_int_uncached(self._cached_ints, signed_value) == 1
-            assert _write_varint_uncached(self._cached_varints, signed_value) == 1
-            assert _write_uint_uncached(self._cached_uints, cached_value) == 1
-            assert _write_varuint_uncached(self._cached_varuints, cached_value) == 1
+            # The caches must also be filled where assertions are disabled.
+            length = _write_int_uncached(self._cached_ints, signed_value)
+            assert length == 1
+            length = _write_varint_uncached(self._cached_varints, signed_value)
+            assert length == 1
+            length = _write_uint_uncached(self._cached_uints, cached_value)
+            assert length == 1
+            length = _write_varuint_uncached(self._cached_varuints, cached_value)
+            assert length == 1
 
     def get_int(self, value):
         return self._cached_ints[_FieldCache._signed_index(value)]
-- 
2.43.0

