From 72eba62d777b8673a6e6729cd2b783a16dc2c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 01/34] fix: do not drop a dimension that has no asterisk after
 it

"var int32", "... int32" and "A... int32" were parsed as "int32".
---
 datashape/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..17a4a1b 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -166,7 +166,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
-        # Try dtype
+        # Try dtype, from the token where the dim attempt started
+        self.pos = saved_pos
         dtype = self.parse_dtype()
         if dtype:
             return coretypes.DataShape(dtype)
-- 
2.43.0


From 9066ff7fcc1e60667e606ccabe4dfd1fb8731364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 02/34] fix: require a datashape after a question mark

"(int32, ?)" and "string[?'A']" were accepted without the question mark.
---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 17a4a1b..126ca84 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -143,6 +143,8 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            else:
+                self.raise_error('Expected a datashape after the "?"')
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From b1f17ae8b0adaa36a9902bfc273be83153ca1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 03/34] fix: a name that begins with True or False is a name

"Truex" was lexed as the boolean True followed by the name "x".
---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 34b70db6778c7d30f8c4db0a61183d5cdf21a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 04/34] fix: a raw NUL or lone surrogate in a string is an
 invalid token

The value of such a string token cannot be computed, which raised a plain
SyntaxError or a UnicodeEncodeError without a position.
---
 datashape/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..68a24e9 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -39,8 +39,8 @@ _tokens = [
     ('RARROW',     r'->'),
     ('QUESTIONMARK', r'\?'),
     ('INTEGER',    r'0(?![0-9])|-?[1-9][0-9]*', int),
-    ('STRING', (r"""(?:"(?:[^"\n\r\\]|(?:\\u[0-9a-fA-F]{4})|(?:\\["bfnrt]))*")|""" +
-                r"""(?:'(?:[^'\n\r\\]|(?:\\u[0-9a-fA-F]{4})|(?:\\['bfnrt]))*')"""),
+    ('STRING', (r"""(?:"(?:[^"\n\r\\\x00\ud800-\udfff]|(?:\\u[0-9a-fA-F]{4})|(?:\\["bfnrt]))*")|""" +
+                r"""(?:'(?:[^'\n\r\\\x00\ud800-\udfff]|(?:\\u[0-9a-fA-F]{4})|(?:\\['bfnrt]))*')"""),
                 _str_val),
 ]
 
-- 
2.43.0


From 712908e213d9f9d395f24374ec95af6a9aedb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 05/34] fix: print strings with the escapes that the lexer
 accepts

Field names, units, time zones and categories were printed with repr(),
whose backslash, \x and \U escapes cannot be parsed back.
---
 datashape/coretypes.py      | 20 +++++++++++++-------
 datashape/internal_utils.py | 28 ++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..3ee5e7d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quote_string
 
 
 # Classes of unit types.
@@ -238,7 +238,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(str(self.tz)))
 
 
 class DateTime(Unit):
@@ -259,7 +259,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quote_string(str(self.tz)))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -338,9 +338,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quote_string(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quote_string(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1093,9 +1093,15 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
 R = Record  # Alias for record literals
 
 
+def _format_category(cat):
+    if isinstance(cat, _strtypes):
+        return quote_string(cat)
+    return str(cat) if isinstance(cat, Mono) else repr(cat)
+
+
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(map(_format_category, cats[:n])),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1421,7 +1427,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quote_string(name),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..955f451 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -118,6 +118,34 @@ def groupby(func, seq):
     return d
 
 
+def quote_string(s):
+    """ Quote a string for a datashape, like repr does, but using only the
+    escapes which the lexer accepts
+
+    >>> print(quote_string('a b'))
+    'a b'
+    >>> print(quote_string("it's"))
+    "it's"
+    >>> print(quote_string('\\x00'))
+    '\\u0000'
+    """
+    quote = '"' if "'" in s and '"' not in s else "'"
+    return quote + ''.join(_quote_char(c, quote) for c in s) + quote
+
+
+def _quote_char(c, quote):
+    if c == quote:
+        return '\\' + c
+    if c in _short_escapes:
+        return _short_escapes[c]
+    if c == '\\' or ord(c) < 0x10000 and '\\' in repr(c):
+        return '\\u%04x' % ord(c)
+    return c
+
+
+_short_escapes = {'\n': '\\n', '\r': '\\r', '\t': '\\t'}
+
+
 def isidentifier(s):
     return (keyword.iskeyword(s) or
             re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
-- 
2.43.0


From 4d9148e6bddd872fbd7779cdcd96cd3f2887d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/34] fix: quote field names that the parser would not read
 as a name

The names True and False, and names ending in a newline, were printed
without quotes and could not be parsed back.
---
 datashape/coretypes.py      | 3 ++-
 datashape/internal_utils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3ee5e7d..c76db3b 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1426,7 +1426,8 @@ def pprint(ds, width=80):
         ds = ds[-1]
 
     if isinstance(ds, Record):
-        pairs = ['%s: %s' % (name if isidentifier(name) else
+        pairs = ['%s: %s' % (name if isidentifier(name) and
+                             name not in ('True', 'False') else
                              quote_string(name),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 955f451..f8a437d 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -148,4 +148,4 @@ _short_escapes = {'\n': '\\n', '\r': '\\r', '\t': '\\t'}
 
 def isidentifier(s):
     return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
-- 
2.43.0


From e6fb1ad47545986d4ad6eaf39ffd439e57e64238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/34] fix: parse the documented types bytes and char

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..4244138 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -71,7 +71,9 @@ no_constructor_types = [
     ('complex128', ct.complex128),
     ('real', ct.float64),
     ('complex', ct.complex_float64),
+    ('char', ct.char),
     ('string', ct.string),
+    ('bytes', ct.bytes_),
     ('json', ct.json),
     ('date', ct.date_),
     ('time', ct.time_),
-- 
2.43.0


From 5708fc5ea85f8a2ad7ef40e6f1aef5425261118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 08/34] fix: validate the datashapes nested in records, tuples
 and units

"{a: ... * ... * int32}" was accepted although it has two ellipses.
---
 datashape/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..70e998e 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,8 +21,12 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, T.Mono) and (not isinstance(t, T.Unit) or
+                                  isinstance(t, T.Units)):
         return f(t, [traverse(f, p) for p in t.parameters])
+    if isinstance(t, (tuple, list)):
+        # The fields of a record, the items of a tuple, ...
+        return [traverse(f, p) for p in t]
     return t
 
 
-- 
2.43.0


From 7576740322a0af0c4a95b44a8f74192b5e07c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/34] fix: reject an unknown time unit with ValueError
 whatever its letters

The units "" and "sss" raised IndexError, "mss" meant minutes.
---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c76db3b..d79ccd3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -299,8 +299,8 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
-        return normalize_time_unit(s.rstrip('s'))
+    if s.endswith('s') and s[:-1] in _unit_aliases:
+        return _unit_aliases[s[:-1]]
 
     raise ValueError("Do not understand time unit %s" % s)
 
-- 
2.43.0


From 4a5190a67ca54f1fbdffcbb46c550bb714fbd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/34] fix: discover a string whose number of time units is
 too large

discover("1e30 days") raised OverflowError.
---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..4184155 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From f64a63440789c33f57d0b7d079dbd4bf8f2f3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/34] fix: subshape of a slice counts the elements that the
 slice selects

On "10 * int32" the slices [0:0], [0:100], [5:2], [::-1] and [-20:]
gave 10, 100, an error, an error and 20.
---
 datashape/coretypes.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d79ccd3..8f684fa 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -11,8 +11,6 @@ import sys
 import ctypes
 import operator
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -673,28 +671,16 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+                count = len(range(int(self[0]))[index])
             else:
                 start = index.start or 0
                 stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
+                step = 1 if index.step is None else index.step
+                if stop is not None and stop >= 0 and start >= 0 and step > 0:
+                    count = len(range(start, stop, step))
                 else:
                     count = var
 
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
-
             return count * self.subarray(1)
         if isinstance(index, tuple):
             if not index:
-- 
2.43.0


From ea97a335e663701a8e0f5d64a16019fa77210bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 12/34] fix: a fixed dimension hashes like the integer it
 equals

---
 datashape/coretypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8f684fa..d26c3a0 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -835,7 +835,9 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        # Equal to an int, so it needs the hash of that int
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From 1f603b9fc7ce8994e8e65d83c9b629ec4d58ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 13/34] fix: equality of type sets is symmetric

DataShape(ts) == ts was True but ts == DataShape(ts) was False; the
inherited equality compares the same fields.
---
 datashape/typesets.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..ec3129f 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -35,13 +35,6 @@ class TypeSet(Unit):
     def types(self):
         return self._order
 
-    def __eq__(self, other):
-        return (isinstance(other, type(self)) and
-                self.name == other.name and self.types == other.types)
-
-    def __hash__(self):
-        return hash((self.name, self.types))
-
     def __contains__(self, val):
         return val in self._set
 
-- 
2.43.0


From b5e071a70ee4275d5d0c8a5ab7a31f9a4465e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 14/34] fix: assert_dshape_equal compares all dimensions, units
 and string lengths

Surplus dimensions of either side were ignored, units raised
AttributeError, and a missing string length raised TypeError.
---
 datashape/util/testing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..9282121 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -88,6 +88,10 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
                         _fmt_path(path),
                     ),
                 )
+        assert len(ashape) == len(bshape), \
+            'numbers of dimensions do not match: %d != %d\n%s' % (
+                len(ashape), len(bshape), _fmt_path(path + ('.shape',)),
+            )
 
     path += '.measure',
     assert_dshape_equal(
@@ -150,12 +154,11 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
 
-    assert a.unit == b.unit, '%s units do not match: %r != %s\n%s' % (
+    assert a.unit == b.unit, '%s units do not match: %r != %r\n%s' % (
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    assert_dshape_equal(a.tp, b.tp, path=path + ('.tp',), **kwargs)
 
 
 @dispatch(String, String)
@@ -175,7 +178,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %r != %r\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 5e7464d3255ad8669f7c41d83be29ed332803282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 15/34] fix: collect returns an empty sequence for a leaf that
 does not match

It returned None, on which the enclosing call failed with TypeError.
---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..ba7dc9f 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return ()
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 87043a7be384ddc66c9a9b0bfd823892a70e9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 16/34] fix: ishomogeneous does not look inside an ellipsis
 dimension

The type variable in "A... * int32" was counted as a scalar component.
---
 datashape/predicates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..3b86b1a 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -76,7 +76,8 @@ def ishomogeneous(ds):
     False
     """
     ds = dshape(ds)
-    return len(set(remove(isdimension, collect(isscalar, ds)))) == 1
+    terms = collect(lambda term: isdimension(term) or isscalar(term), ds)
+    return len(set(remove(isdimension, terms))) == 1
 
 
 def _dimensions(ds):
-- 
2.43.0


From b70a5d06932fbe80ed59ee6e3444fa5cbd8cb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 17/34] fix: isfixed sees an ellipsis and the members of tuples
 and options

---
 datashape/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 3b86b1a..5a8c341 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -101,10 +101,14 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if isinstance(ds[0], (Var, Ellipsis)):
         return False
+    if isinstance(ds[0], Option):
+        return isfixed(ds[0].ty)
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
+    if isinstance(ds[0], Tuple):
+        return all(map(isfixed, ds[0].dshapes))
     if len(ds) > 1:
         return isfixed(ds.subarray(1))
     return True
-- 
2.43.0


From 79a1faf178e744ec9b63f630e7b2e15afa598704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 18/34] fix: iscollection of a bare record

iscollection(Record(...)) raised KeyError.
---
 datashape/predicates.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 5a8c341..509a4dd 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -138,8 +138,7 @@ def iscollection(ds):
     >>> iscollection('int32')
     False
     """
-    if isinstance(ds, str):
-        ds = dshape(ds)
+    ds = dshape(ds)
     return isdimension(ds[0])
 
 
-- 
2.43.0


From 3de650ece35c5b82b9df3dc4f4290695f8921632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 19/34] fix: keep nested shapes and zero lengths when
 converting to NumPy

The dimensions of a record field or tuple member were dropped, and a
string of length 0 became an object dtype.
---
 datashape/coretypes.py  | 6 +++---
 datashape/predicates.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index d26c3a0..9572c96 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -427,7 +427,7 @@ class String(Unit):
         >>> String(30, 'A').to_numpy_dtype()
         dtype('S30')
         """
-        if self.fixlen:
+        if self.fixlen is not None:
             if self.encoding == 'A':
                 return np.dtype('S%d' % self.fixlen)
             else:
@@ -1068,7 +1068,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
         """
         To Numpy record dtype.
         """
-        return np.dtype([(str(name), to_numpy_dtype(typ))
+        return np.dtype([(str(name), to_numpy_dtype(typ), to_numpy(typ)[0])
                          for name, typ in self.fields])
 
     def __getitem__(self, key):
@@ -1149,7 +1149,7 @@ class Tuple(CollectionPrinter, Mono):
         """
         To Numpy record dtype.
         """
-        return np.dtype([('f%d' % i, to_numpy_dtype(typ))
+        return np.dtype([('f%d' % i, to_numpy_dtype(typ), to_numpy(typ)[0])
                          for i, typ in enumerate(self.parameters[0])])
 
 
diff --git a/datashape/predicates.py b/datashape/predicates.py
index 509a4dd..78dcd3b 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -158,7 +158,7 @@ def isnumeric(ds):
 
     try:
         npdtype = to_numpy_dtype(ds)
-    except TypeError:
+    except (TypeError, ValueError):
         return False
     else:
         return isinstance(ds, Unit) and np.issubdtype(npdtype, np.number)
-- 
2.43.0


From 3e4db9c9f4e3b658cd0c445ca680d2b34074f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 20/34] fix: options, maps, functions, null, datashapes are
 measures, ellipses are not

DataShape(Option(int32), int32) and DataShape(Fixed(3), Ellipsis()) were
accepted.
---
 datashape/coretypes.py | 8 +++++++-
 datashape/typesets.py  | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 9572c96..8ffb24f 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -191,6 +191,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -206,7 +207,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    cls = MEASURE
 
 
 class Date(Unit):
@@ -535,6 +536,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -710,6 +712,7 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
@@ -871,6 +874,8 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -886,6 +891,7 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
diff --git a/datashape/typesets.py b/datashape/typesets.py
index ec3129f..0bea6e0 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -4,7 +4,7 @@ Traits constituting sets of types.
 
 from itertools import chain
 
-from .coretypes import (Unit, int8, int16, int32, int64, uint8, uint16, uint32,
+from .coretypes import (Unit, MEASURE, int8, int16, int32, int64, uint8, uint16, uint32,
                         uint64, float16, float32, float64, complex64,
                         complex128, bool_, Decimal, TimeDelta, Option)
 
@@ -19,6 +19,7 @@ class TypeSet(Unit):
     Create a new set of types. Keyword argument 'name' may create a registered
     typeset for use in datashape type strings.
     """
+    cls = MEASURE
     __slots__ = '_order', 'name'
 
     def __init__(self, *args, **kwds):
-- 
2.43.0


From 0da1c3dd144639cf70edd5fd15e16d1634829c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 21/34] fix: an option is a single measure, of a type that is
 not a dimension

option[3] and records with a dimension for a type were accepted and
printed as text that cannot be parsed, as was option[?int32]. Option of
an array also counted the dimensions both in its shape and its measure,
so it differed from the datashape wrapping it.
---
 datashape/coretypes.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8ffb24f..fa4bcfc 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -716,18 +716,16 @@ class Option(Mono):
     __slots__ = 'ty',
 
     def __init__(self, ds):
-        self.ty = _launder(ds)
-
-    @property
-    def shape(self):
-        return self.ty.shape
+        self.ty = _launder_measure(ds)
 
     @property
     def itemsize(self):
         return self.ty.itemsize
 
     def __str__(self):
-        return '?%s' % self.ty
+        # A question mark cannot stand in front of another one
+        return ('option[%s]' if isinstance(self.ty, Option) else
+                '?%s') % self.ty
 
     def to_numpy_dtype(self):
         if type(self.ty) in numpy_provides_missing:
@@ -932,6 +930,15 @@ def _launder(x):
     raise TypeError("Received unsupported type {}".format(x))
 
 
+def _launder_measure(x):
+    """ Like _launder, for what holds a type and not a dimension """
+    x = _launder(x)
+    if getattr(x, 'cls', MEASURE) != MEASURE:
+        raise TypeError('Expected a datashape or a measure, not the '
+                        'dimension %r' % x)
+    return x
+
+
 class CollectionPrinter(object):
 
     def __repr__(self):
@@ -1045,7 +1052,7 @@ class Record(with_metaclass(RecordMeta, CollectionPrinter, Mono)):
             str(name) if not isinstance(name, _strtypes) else name
             for name, _ in fields
         ])
-        types = [_launder(v) for _, v in fields]
+        types = [_launder_measure(v) for _, v in fields]
 
         if len(set(names)) != len(names):
             for name in set(names):
-- 
2.43.0


From dd792fc97b71035b49c2fceb08a2b99fe8880198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 22/34] fix: the parts of functions and maps must be datashapes
 and not dimensions

Function(3, "x") and funcproto[[3], 5] were accepted and printed as text
that cannot be parsed.
---
 datashape/coretypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index fa4bcfc..87a945b 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -874,6 +874,12 @@ class Function(Mono):
     """
     cls = MEASURE
 
+    def __init__(self, *params):
+        super(Function, self).__init__(*[
+            p if isinstance(p, DataShape) else _launder_measure(p)
+            for p in params
+        ])
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -893,8 +899,8 @@ class Map(Mono):
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-        self.key = _launder(key)
-        self.value = _launder(value)
+        self.key = _launder_measure(key)
+        self.value = _launder_measure(value)
 
     def __str__(self):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
-- 
2.43.0


From 356b4189bd52cbcc44113571477c4dad70c5efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 23/34] fix: a type variable is a name

typevar["A b"] and typevar[["A"]] were accepted and printed as text that
cannot be parsed, typevar[""] raised IndexError.
---
 datashape/coretypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 87a945b..8984a83 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -860,9 +860,13 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
-        if not symbol[0].isupper():
+        if not isinstance(symbol, _strtypes):
+            raise TypeError('TypeVar symbol must be a string')
+        if not symbol[:1].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
+        if not isidentifier(symbol) or symbol in ('True', 'False'):
+            raise ValueError('TypeVar symbol %r is not a name' % symbol)
         self.symbol = symbol
 
     def __str__(self):
-- 
2.43.0


From 4290d70633bf94235322dd4e7d3e4daf3f13080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 24/34] fix: check the kinds of the parameters of a string type

string[int32] raised UnboundLocalError, and string["x", "A"] was accepted
but could not be printed.
---
 datashape/coretypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8984a83..ecb98cf 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -389,6 +389,13 @@ class String(Unit):
                 fixlen, encoding = args[0], None
         if len(args) == 2:
             fixlen, encoding = args
+            if fixlen is not None:
+                fixlen = operator.index(fixlen)
+        if (len(args) > 2 or
+                len(args) == 1 and not isinstance(args[0],
+                                                  _strtypes + _inttypes)):
+            raise TypeError('A string takes a length and an encoding, not '
+                            '%r' % (args,))
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From 7323057a18610759b2c0197f776592f1260d1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 25/34] fix: decimals have integer parameters, categoricals are
 ordered or not

decimal["a"] and categorical[["x"], ordered="a"] were accepted and printed
as text that cannot be parsed.
---
 datashape/coretypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ecb98cf..b3ad3ed 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -474,8 +474,9 @@ class Decimal(Unit):
     __slots__ = 'precision', 'scale'
 
     def __init__(self, precision, scale=0):
-        self.precision = precision
-        self.scale = scale
+        # Use operator.index, so Python integers, numpy int scalars, etc work
+        self.precision = operator.index(precision)
+        self.scale = operator.index(scale)
 
     def __str__(self):
         return 'decimal[precision={precision}, scale={scale}]'.format(
@@ -1134,7 +1135,7 @@ class Categorical(Mono):
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
         self.type = (type or datashape.discover(self.categories)).measure
-        self.ordered = ordered
+        self.ordered = bool(ordered)
 
     def __str__(self):
         return '%s[%s, type=%s, ordered=%s]' % (
-- 
2.43.0


From 683cdd6e1b80179d7bf8ad1d39f657da591eb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 26/34] fix: struct[...] needs as many types as names

struct[["a", "b"], [int32]] silently dropped the second field.
---
 datashape/type_symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 4244138..a1f5999 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,9 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise ValueError('struct needs as many types as names, not %d and %d'
+                         % (len(dshapes), len(names)))
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From 8ca8f7e95875b4499fcb96669023970fb487fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 27/34] fix: a named datashape does not replace a registered
 type

DataShape(int64, name="int32") replaced the registered int32.
---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index b3ad3ed..1ea8674 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -571,7 +571,7 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            type(type(self)).register(self.name, self)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From feb8b788f41ce955d9e6705108bc49e47d9a85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 28/34] fix: unite_base rejects records with different fields

The condition was a generator, which is always true, so that the fields
which the first record does not have were dropped:
discover([[{"a": 1}], [{"a": 1, "b": 2}]]) lost b. discover also let the
error for types without a common dshape escape, instead of falling back to
a tuple.
---
 datashape/discovery.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 4184155..f7378c9 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -211,7 +211,7 @@ def discover(seq):
                      for column in columns]
             unite = do_one([unite_identical, unite_merge_dimensions, Tuple])
             return len(seq) * unite(types)
-        except AttributeError:  # no subshape available
+        except (AttributeError, ValueError):  # no common dshape
             pass
 
     # [{k: v, k: v}, {k: v, k: v}]
@@ -222,7 +222,7 @@ def discover(seq):
             types = [unite([discover(data) for data in column]).subshape[0]
                      for column in columns]
             return len(seq) * Record(list(zip(keys, types)))
-        except AttributeError:
+        except (AttributeError, ValueError):
             pass
 
     types = list(map(discover, seq))
@@ -296,16 +296,19 @@ def unite_base(dshapes):
         return len(dshapes) * null
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+    elif all(isinstance(ds, Record) and
+             set(ds.names) == set(good_dshapes[0].names)
+             for ds in good_dshapes):
         names = good_dshapes[0].names
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
                        for name in names])
-    if base:
-        if bynull.get(True):
-            base = Option(base)
-        return len(dshapes) * base
+    else:
+        raise ValueError("No common dshape of scalars and other types, or of "
+                         "records with different fields.")
+    if bynull.get(True):
+        base = Option(base)
+    return len(dshapes) * base
 
 
 def unite_identical(dshapes):
-- 
2.43.0


From d41ff66f445746c3282869d879a69e46ff6131c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 29/34] fix: float16 is a floating type

supertype(float16), maxtype(float16) were rejected and isreal("float16")
was False, although supertype_map has float16.
---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 0bea6e0..043daf6 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -106,7 +106,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From 2b6403b37de11d4dc16325a94a7a5463c3608069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 30/34] fix: matches_typeset compares whole signatures and type
 sets

Surplus arguments or parameters were ignored, and a type set matched
another one only position by position.
---
 datashape/typesets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index 043daf6..3ba25a1 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -67,6 +67,11 @@ def matches_typeset(types, signature):
     """
     if types in signature:
         return True
+    if isinstance(signature, TypeSet):
+        return (isinstance(types, TypeSet) and
+                all(t in signature for t in types))
+    if len(types) != len(signature):
+        return False
     match = True
     for a, b in zip(types, signature):
         check = isinstance(b, TypeSet)
-- 
2.43.0


From dff87d063e72d076986efca4c9d240a0d6140fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 31/34] fix: a sequence validates against a record only if it
 has all the fields

validate("{a: string, b: string}", ("x",)) was True.
---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..2eadca1 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return (len(schema.parameters[0]) == len(seq) and
+            all(validate(sch, item) for (k, sch), item
+                                    in zip(schema.parameters[0], seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 86795bb4fee5c8b0bdc5df6a99e07e3aede6a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 32/34] fix: assert_dshape_equal options apply inside maps and
 categoricals

---
 datashape/util/testing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 9282121..2be109b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -5,6 +5,7 @@ from ..coretypes import (
     DataShape,
     DateTime,
     Function,
+    Mono,
     Option,
     Record,
     String,
@@ -120,6 +121,15 @@ def _check_slots(a, b, path=None, **kwargs):
     if path is None:
         path = ()
     for slot in a.__slots__:
+        if (isinstance(getattr(a, slot), Mono) and
+                isinstance(getattr(b, slot), Mono)):
+            assert_dshape_equal(
+                getattr(a, slot),
+                getattr(b, slot),
+                path=path + ('.' + slot,),
+                **kwargs
+            )
+            continue
         assert getattr(a, slot) == getattr(b, slot), \
             "%s %ss do not match: %r != %r\n%s" % (
                 type(a).__name__.lower(),
-- 
2.43.0


From ef5f4286733b25a7c1d9c4897e9d44ed7781a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 33/34] fix: null can be restored from a pickle of any protocol

---
 datashape/coretypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1ea8674..3f682a2 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -208,6 +208,7 @@ class Null(Unit):
 
     """The null datashape."""
     cls = MEASURE
+    __slots__ = ()
 
 
 class Date(Unit):
-- 
2.43.0


From 4e602a0ec21273c13d2672db1270a97382c77758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 34/34] fix: discover a string of digits which dateutil cannot
 round

---
 datashape/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index f7378c9..27b96f4 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -189,7 +189,9 @@ def discover(s):
 
     try:
         d = dateparse(s)
-    except (ValueError, OverflowError):  # OverflowError for stuff like 'INF...'
+    except (ValueError, ArithmeticError):
+        # OverflowError for stuff like 'INF...', decimal.InvalidOperation for
+        # stuff like '0:0' followed by thirty digits and an 'm'
         pass
     else:
         return date_ if is_zero_time(d.time()) else datetime_
-- 
2.43.0

