From 44b7bfecbe82965c94130639ad6b358a784a1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/51] fix: accept well-formed quoted cells in strict mode

In strict mode every closing quote raised an error, even when it was
followed by the delimiter or the end of the line.
---
 src/cparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..bf49e3e 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,8 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != self->delimiter &&
+						v != '\r' && v != '\n' && v != '\0') {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From fdabc366a58e742cdace2a4b1125e07ee2a888dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/51] fix: don't drop the last record when it ends in a lone
 escape character

At the end of the input an unfinished record was discarded if its last
cell was still empty, losing the cells before it.
---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index bf49e3e..147827c 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -465,8 +465,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() && self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From 9888f6b7e641d88864bdb52c763e52aaaad8148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 03/51] fix: don't strip escaped or doubled quotes from cells

The quotes around a cell were recognised by comparing its first and last
characters after unescaping, so an escaped quote at both ends (\"a\")
was mistaken for quoting and removed.
---
 src/cparser.c | 56 ++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 147827c..d609ad0 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -80,6 +80,9 @@ typedef struct {
 	int strict;
 	int return_quoted;
 
+	int quote_first; // the first character of field is an opening quote
+	int quote_last; // the last character of field is an actual quote
+
 	ParserState state;
 } ParserObj;
 
@@ -166,27 +169,6 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 	return new;
 }
 
-static int _strstartswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, 0) == c;
-}
-
-static int _strendswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, len - 1) == c;
-}
-
-static int _quotecond(PyObject *field, Py_ssize_t field_len, Py_UCS4 q)
-{
-	if (q == '\0')
-		return 0;
-	if (field_len <= 1)
-		return 0;
-	return (_strstartswith(field, q) && _strendswith(field, q));
-}
-
 static int parse_save_field(ParserObj *self, int trailing)
 {
 	int is_quoted = 0;
@@ -197,17 +179,16 @@ static int parse_save_field(ParserObj *self, int trailing)
 		return -1;
 	}
 
-	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
+	// Escaped and doubled quotes are content, so only look at actual quotes
+	if (self->quote_first && self->quote_last && self->field_len > 1) {
+		// strip quotes if quoted string
 		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
 		}
 		is_quoted = 1;
-	}
-
-	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
+	} else if (trailing && self->quote_first) {
+		// strip partial quotes if trailing at end of file
 		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
@@ -216,6 +197,8 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	self->field_len = 0;
+	self->quote_first = 0;
+	self->quote_last = 0;
 	if (self->return_quoted > 0) {
 		PyObject *tuple = PyTuple_New(2);
 		if (tuple == NULL) {
@@ -274,6 +257,17 @@ static int parse_add_char(ParserObj *self, Py_UCS4 c)
 	if (self->field_len == self->field_size && !parse_grow_buff(self))
 		return -1;
 	self->field[self->field_len++] = c;
+	self->quote_last = 0;
+	return 0;
+}
+
+static int parse_add_quote(ParserObj *self, Py_UCS4 c)
+{
+	if (parse_add_char(self, c) < 0)
+		return -1;
+	if (self->field_len == 1)
+		self->quote_first = 1;
+	self->quote_last = 1;
 	return 0;
 }
 
@@ -295,7 +289,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 					return -1;
 				self->state = (u == '\0' ? START_RECORD : EAT_CRNL);
 			} else if (u == self->quotechar) {
-				if (parse_add_char(self, u) < 0)
+				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->escapechar) {
@@ -343,7 +337,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else if (u == self->escapechar) {
 				self->state = ESCAPED_CHAR;
 			} else if (u == self->quotechar) {
-				if (parse_add_char(self, u) < 0)
+				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->delimiter) {
@@ -372,7 +366,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 							self->quotechar);
 					return -1;
 				} else {
-					if (parse_add_char(self, u) < 0)
+					if (parse_add_quote(self, u) < 0)
 						return -1;
 					self->state = IN_FIELD;
 				}
@@ -441,6 +435,8 @@ static int parse_reset(ParserObj *self)
 	if (self->fields == NULL)
 		return -1;
 	self->field_len = 0;
+	self->quote_first = 0;
+	self->quote_last = 0;
 	self->state = START_RECORD;
 	return 0;
 }
-- 
2.43.0


From 1112bbfc585a4b6788447e4c7d98e2fe2fc94b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 04/51] fix: create canonical strings when stripping quotes

Stripping quote characters that need more storage than the rest of the
cell gave a string object that is not equal to the same text.
---
 src/cparser.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index d609ad0..c71fdf4 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -162,9 +162,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 05f9524d96854dcac60a5bc5ae9777adf4354312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 05/51] fix: end a record that has an escaped line break at its
 last line

After an escaped line break the parser kept waiting for another line, so
a last record without a final line break was rejected in strict mode and
lines without line breaks were joined.
---
 src/cparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cparser.c b/src/cparser.c
index c71fdf4..dfaebb9 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -346,6 +346,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else {
 				if (parse_add_char(self, u) < 0)
 					return -1;
+				self->state = IN_FIELD;
 			}
 			break;
 		case IN_QUOTED_FIELD:
-- 
2.43.0


From 6846be6629465a79e35d413bd2c5f329c11f6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 06/51] fix: count source lines in reader.line_num

---
 clevercsv/cparser.pyi | 1 +
 clevercsv/read.py     | 9 +++++++--
 src/cparser.c         | 5 +++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/clevercsv/cparser.pyi b/clevercsv/cparser.pyi
index 53e3a06..2a5b575 100644
--- a/clevercsv/cparser.pyi
+++ b/clevercsv/cparser.pyi
@@ -16,6 +16,7 @@ _T = TypeVar("_T")
 
 class Parser(Generic[_T]):
     _return_quoted: Final[bool]
+    line_num: Final[int]
 
     @overload
     def __init__(
diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..b196313 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -34,9 +34,15 @@ class reader:
         self.csvfile = csvfile
         self.original_dialect = dialect
         self._dialect = self._make_simple_dialect(dialect, **fmtparams)
-        self.line_num: int = 0
         self.parser_gen: Optional[Parser] = None
 
+    @property
+    def line_num(self) -> int:
+        """The number of lines read from the source so far."""
+        if self.parser_gen is None:
+            return 0
+        return self.parser_gen.line_num
+
     @property
     def dialect(self) -> csv.Dialect:
         return self._dialect.to_csv_dialect()
@@ -77,5 +83,4 @@ class reader:
             row = next(self.parser_gen)
         except ParserError as e:
             raise Error(str(e))
-        self.line_num += 1
         return row
diff --git a/src/cparser.c b/src/cparser.c
index dfaebb9..b2a9d7d 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -83,6 +83,8 @@ typedef struct {
 	int quote_first; // the first character of field is an opening quote
 	int quote_last; // the last character of field is an actual quote
 
+	unsigned long line_num; // number of lines read from the input
+
 	ParserState state;
 } ParserObj;
 
@@ -488,6 +490,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 			Py_DECREF(lineobj);
 			goto err;
 		}
+		++self->line_num;
 		kind = PyUnicode_KIND(lineobj);
 		data = PyUnicode_DATA(lineobj);
 		pos = 0;
@@ -567,6 +570,7 @@ static struct PyMethodDef Parser_methods[] = {
 
 static struct PyMemberDef Parser_memberlist[] = {
 	{ "doublequote", T_INT, P_OFF(doublequote), READONLY },
+	{ "line_num", T_ULONG, P_OFF(line_num), READONLY },
 	{ NULL }
 };
 
@@ -627,6 +631,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	self->field_size = 0;
 	self->doublequote = 0;
 	self->return_quoted = 0;
+	self->line_num = 0;
 
 	if (parse_reset(self) < 0) {
 		Py_DECREF(self);
-- 
2.43.0


From 7b11e2d30a3cd62f37118453b0e1f56eb2a13494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 07/51] fix: don't restart the parser when a reader is iterated
 again

---
 clevercsv/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index b196313..7c167dc 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -65,14 +65,15 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
-        self.parser_gen = Parser(
-            self.csvfile,
-            delimiter=self._dialect.delimiter,
-            quotechar=self._dialect.quotechar,
-            escapechar=self._dialect.escapechar,
-            field_limit=field_size_limit(),
-            strict=self._dialect.strict,
-        )
+        if self.parser_gen is None:
+            self.parser_gen = Parser(
+                self.csvfile,
+                delimiter=self._dialect.delimiter,
+                quotechar=self._dialect.quotechar,
+                escapechar=self._dialect.escapechar,
+                field_limit=field_size_limit(),
+                strict=self._dialect.strict,
+            )
         return self
 
     def __next__(self) -> List[str]:
-- 
2.43.0


From 866e8fedbf9bb040171597313d1e2b1f0761216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 08/51] fix: don't modify the dialect passed to reader

---
 clevercsv/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 7c167dc..f7dde59 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -8,6 +8,7 @@ Author: Gertjan van den Burg
 
 """
 
+import copy
 import csv
 
 from typing import Any
@@ -55,7 +56,7 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            sd = copy.copy(dialect)
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From b0ed7200e9f56acb400271769d4be2811dfe5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 09/51] fix: accept every csv dialect form and None parameters
 in reader

---
 clevercsv/dialect.py | 11 ++++++++---
 clevercsv/read.py    | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..8cab019 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -16,6 +16,7 @@ from typing import Any
 from typing import Dict
 from typing import Optional
 from typing import Tuple
+from typing import Type
 from typing import Union
 
 import _csv
@@ -95,12 +96,16 @@ class SimpleDialect:
     @classmethod
     def from_csv_dialect(
         cls: type["SimpleDialect"],
-        d: Union[_csv.Dialect, csv.Dialect],
+        d: Union[_csv.Dialect, csv.Dialect, Type[csv.Dialect]],
     ) -> "SimpleDialect":
         delimiter = "" if d.delimiter is None else d.delimiter
-        quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
+        quotechar = "" if d.quotechar is None else d.quotechar
+        if d.quoting == csv.QUOTE_NONE:
+            quotechar = ""
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # csv.Dialect and its subclasses don't have to define strict
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
diff --git a/clevercsv/read.py b/clevercsv/read.py
index f7dde59..79c7471 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -17,6 +17,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -53,15 +55,22 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             sd = copy.copy(dialect)
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-            if key in ["delimiter", "quotechar", "escapechar", "strict"]:
-                setattr(sd, key, value)
+            if key == "strict":
+                sd.strict = bool(value)
+            elif key in ["delimiter", "quotechar", "escapechar"]:
+                # None means the character is not used, as in the csv module
+                setattr(sd, key, "" if value is None else value)
+        if fmtparams.get("quoting") == csv.QUOTE_NONE:
+            sd.quotechar = ""
         sd.validate()
         return sd
 
-- 
2.43.0


From 0e4af529b7a34cddf6085294408b6aae498e3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 10/51] fix: keep strict and no quotechar when converting to a
 csv dialect

---
 clevercsv/dialect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 8cab019..c700719 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -111,13 +111,14 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
                 csv.QUOTE_NONE if self.quotechar == "" else csv.QUOTE_MINIMAL
             )
             skipinitialspace = False
+            strict = self.strict
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
-- 
2.43.0


From b79aa7e6c37dabde2be42d876d4963a7ac19c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 11/51] fix: accept every csv dialect form in writer

---
 clevercsv/write.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..37d5742 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -57,11 +57,11 @@ class writer:
         d: _DialectLike = ""
         if isinstance(dialect, str):
             d = _csv.get_dialect(dialect)
-        elif isinstance(dialect, _csv.Dialect):
+        elif isinstance(dialect, (_csv.Dialect, csv.Dialect)):
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From 0c973efd9b5860637e83c9b8dfb27f4f1759a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 12/51] fix: let quotechar=None disable quoting in writer, as
 in csv

---
 clevercsv/write.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clevercsv/write.py b/clevercsv/write.py
index 37d5742..12cb05e 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -71,6 +71,14 @@ class writer:
         for key, value in fmtparams.items():
             props[key] = value
 
+        # As in the csv module, quotechar=None on its own disables quoting
+        if (
+            "quotechar" in fmtparams
+            and fmtparams["quotechar"] is None
+            and "quoting" not in fmtparams
+        ):
+            props["quoting"] = csv.QUOTE_NONE
+
         # lineterminator must be set
         if "lineterminator" not in props or props["lineterminator"] is None:
             props["lineterminator"] = "\n"
-- 
2.43.0


From 4139cf5e0824137395cb48051ef676fbc8697b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 13/51] fix: accept an iterator of fieldnames in DictReader and
 DictWriter

---
 clevercsv/dict_read_write.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..0a9f856 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -54,6 +54,8 @@ class DictReader(
         *args: Any,
         **kwds: Any,
     ) -> None:
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self._fieldnames = fieldnames
         self.restkey = restkey
         self.restval = restval
@@ -125,6 +127,8 @@ class DictWriter(Generic[_T]):
         *args: Any,
         **kwds: Any,
     ):
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self.fieldnames = fieldnames
         self.restval = restval
         if extrasaction.lower() not in ("raise", "ignore"):
-- 
2.43.0


From 3ca83e39962867ca45e50d6a12ea421bbd78b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 14/51] fix: honour extrasaction in any letter case in
 DictWriter

---
 clevercsv/dict_read_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index 0a9f856..834b0c2 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -135,7 +135,7 @@ class DictWriter(Generic[_T]):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-        self.extrasaction = extrasaction
+        self.extrasaction = extrasaction.lower()
         self.writer = writer(f, dialect, *args, **kwds)
 
     def writeheader(self) -> Any:
-- 
2.43.0


From 001f3de3e8bd20ec0fa1a78dfd95f2fe89755855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 15/51] fix: don't touch the global field size limit during
 detection

---
 clevercsv/consistency.py   |  7 -------
 clevercsv/cparser_util.py  | 15 +++++++++++++--
 clevercsv/cparser_util.pyi |  4 ++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..9da5d4b 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -15,7 +15,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 
-from . import field_size_limit
 from .break_ties import tie_breaker
 from .cparser_util import parse_string
 from .detect_pattern import pattern_score
@@ -113,11 +112,6 @@ class ConsistencyDetector:
         # TODO: probably some optimization there too
         dialects = get_dialects(data, delimiters=delimiters)
 
-        # TODO: This is not thread-safe and this object can simply own a Parser
-        # for each dialect and set the limit directly there (we can also cache
-        # the best parsing result)
-        old_limit = field_size_limit(len(data) + 1)
-
         scores = self.compute_consistency_scores(data, dialects)
         best_dialects = ConsistencyDetector.get_best_dialects(scores)
         result: Optional[SimpleDialect] = None
@@ -126,7 +120,6 @@ class ConsistencyDetector:
         else:
             result = tie_breaker(data, best_dialects)
 
-        field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 484c257..b0b1483 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -53,13 +53,14 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     parser = Parser(
         data,
         delimiter=delimiter,
         quotechar=quotechar,
         escapechar=escapechar,
-        field_limit=field_size_limit(),
+        field_limit=field_size_limit() if field_limit is None else field_limit,
         strict=strict,
         return_quoted=return_quoted,
     )
@@ -78,6 +79,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Parse the data given a dialect using the C parser
 
@@ -110,6 +112,10 @@ def parse_data(
         For each cell, return a tuple "(field, is_quoted)" where the second
         element indicates whether the cell was a quoted cell or not.
 
+    field_limit : int
+        The maximum size of a field. If None, the current field size limit is
+        used, see :func:`field_size_limit`.
+
     Yields
     ------
     rows : list
@@ -136,6 +142,7 @@ def parse_data(
         escapechar_,
         strict_,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
 
 
@@ -144,9 +151,13 @@ def parse_string(
     dialect: SimpleDialect,
     return_quoted: bool = False,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
-    """Utility for when the CSV file is encoded as a single string"""
+    """Utility for when the CSV file is encoded as a single string
+
+    The field size limit doesn't apply here, as the data is already in memory.
+    """
     return parse_data(
         iter(io.StringIO(data, newline="")),
         dialect=dialect,
         return_quoted=return_quoted,
+        field_limit=len(data) + 1,
     )
diff --git a/clevercsv/cparser_util.pyi b/clevercsv/cparser_util.pyi
index e78c21c..aa428c2 100644
--- a/clevercsv/cparser_util.pyi
+++ b/clevercsv/cparser_util.pyi
@@ -21,6 +21,7 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: Literal[False] = ...,
+    field_limit: Optional[int] = None,
 ) -> Iterator[List[str]]: ...
 @overload
 def _parse_data(
@@ -30,6 +31,7 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: Literal[True],
+    field_limit: Optional[int] = None,
 ) -> Iterator[List[Tuple[str, bool]]]: ...
 @overload
 def _parse_data(
@@ -39,6 +41,7 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = ...,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]: ...
 def parse_data(
     data: Iterable[str],
@@ -48,6 +51,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]: ...
 @overload
 def parse_string(
-- 
2.43.0


From 24c9d3cb3e9b59b6588c09fd7dad6bfea02d4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 16/51] fix: use only normal form detection for method='normal'

---
 clevercsv/detect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..ec3ec1b 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -119,6 +119,9 @@ class Detector:
             if dialect is not None:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
+            if method == DetectionMethod.NORMAL:
+                self.method_ = DetectionMethod.NORMAL
+                return None
 
         self.method_ = DetectionMethod.CONSISTENCY
         consistency_detector = ConsistencyDetector(skip=skip, verbose=verbose)
-- 
2.43.0


From 236d1109acee49add4d386a36d94f97aff651f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 17/51] fix: handle empty samples and all line endings in
 has_header

---
 clevercsv/detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index ec3ec1b..1778fe4 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -150,9 +150,9 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
-        header = next(rdr)  # assume first row is header
+        header = next(rdr, [])  # assume first row is header
 
         columns = len(header)
         columnTypes: Dict[int, Optional[Union[int, type]]] = {}
-- 
2.43.0


From 0d6865386573a874cc40963c2a0e22fce3c52c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 18/51] fix: don't let tie breaking depend on set or argument
 order

---
 clevercsv/break_ties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..e0a9813 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -38,6 +38,8 @@ def tie_breaker(
 
 
     """
+    # The rules below depend on the order, so use a well-defined one
+    dialects = sorted(dialects)
     if len(dialects) == 2:
         return break_ties_two(data, dialects[0], dialects[1])
     elif len(dialects) == 3:
@@ -94,7 +96,7 @@ def reduce_pairwise(
         if d not in visited:
             new_dialects.add(d)
 
-    return list(new_dialects)
+    return [d for d in dialects if d in new_dialects]
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From fe2b8fce7723f5987306294a745fedc76ce1d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 19/51] fix: don't break ties between two escape characters

---
 clevercsv/break_ties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index e0a9813..bdd1452 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -176,6 +176,8 @@ def break_ties_two(
             else:
                 return A
     elif _dialects_only_differ_in_field(A, B, "escapechar"):
+        if A.escapechar != "" and B.escapechar != "":
+            return None
         Dnone, Descape = (A, B) if A.escapechar == "" else (B, A)
 
         X = list(parse_string(data, Dnone))
-- 
2.43.0


From 8016dd2833db7480a821ef96b8316388c0c062c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 20/51] fix: let an escape character mask one quote only in
 masked_by_quotechar

---
 clevercsv/potential_dialects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..faab796 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -282,8 +282,11 @@ def masked_by_quotechar(
     i = 0
     while i < len(data):
         s = data[i]
+        # an escape character only affects the character that follows it
+        escaped = escape_next
+        escape_next = False
         if s == quotechar:
-            if escape_next:
+            if escaped:
                 i += 1
                 continue
             if not in_quotes:
@@ -295,7 +298,7 @@ def masked_by_quotechar(
                     in_quotes = False
         elif s == test_char and not in_quotes:
             return False
-        elif s == escapechar:
+        elif s == escapechar and not escaped:
             escape_next = True
         i += 1
     return True
-- 
2.43.0


From c82e5181579b209c42de6b1bb0e9d49a34a39f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 21/51] fix: check the table before transposing or creating a
 file in write_table

---
 clevercsv/wrappers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..0cdbbf5 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -442,17 +442,16 @@ def write_table(
         When the length of the rows is not constant.
 
     """
-    if not table:
+    list_table = list(map(list, table))
+    if not list_table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
-
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 9fb5b6894cdf186a792ff005b8fcd8fba4373f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 22/51] fix: don't drop cells of ragged rows in standardize
 --transpose

---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..6093c39 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From a0a492070107f767d3f021af1a0da3732549a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 23/51] fix: don't fail on an empty file in view --transpose

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From ca0f97f6ddca3d087f1fcb9efdabb70de808ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 24/51] fix: replace the file atomically in standardize
 --in-place

---
 clevercsv/console/commands/standardize.py | 33 +++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 6093c39..3d47777 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -253,19 +253,30 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        # The temporary file is created next to the input file (and not next to
+        # a symbolic link to it), so that we can atomically replace the file.
+        path = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(path)
+        )
+        try:
+            with os.fdopen(
+                tmpfd, "w", newline="", encoding=target_encoding
+            ) as tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                return 0
 
-        shutil.move(tmpfname, path)
-        return 2
+            shutil.copymode(path, tmpfname)
+            os.replace(tmpfname, path)
+            return 2
+        finally:
+            # Only exists here if we didn't replace the input file
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
 
     def _to_stdout(
         self, path: StrPath, dialect: SimpleDialect, encoding: Optional[str]
-- 
2.43.0


From faf29c02b40659890d03d6e119c03dd1e3a350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 25/51] fix: don't strip a whitespace delimiter in detect
 --plain

---
 clevercsv/console/commands/detect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/detect.py b/clevercsv/console/commands/detect.py
index 58ccefb..f4ef2ba 100644
--- a/clevercsv/console/commands/detect.py
+++ b/clevercsv/console/commands/detect.py
@@ -122,9 +122,10 @@ class DetectCommand(Command):
             return 1
 
         if self.args.plain:
-            print(f"delimiter = {dialect.delimiter}".strip())
-            print(f"quotechar = {dialect.quotechar}".strip())
-            print(f"escapechar = {dialect.escapechar}".strip())
+            for key in ["delimiter", "quotechar", "escapechar"]:
+                # no stripping, the value can be a space or a tab
+                value = getattr(dialect, key)
+                print(f"{key} = {value}" if value else f"{key} =")
             if self.args.add_runtime:
                 print(f"runtime = {runtime}")
         elif self.args.json:
-- 
2.43.0


From 9b55e95c0ffe0df210fe0290744eccf1a765c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 26/51] fix: recognise ISO datetimes with an hour-only UTC
 offset

---
 clevercsv/_regexes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index b0d84c2..1bc961f 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -96,9 +96,7 @@ PATTERN_TIME_HHMM_2: Pattern[str] = regex.compile(
     r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
 )
 
-PATTERN_TIME_HH: Pattern[str] = regex.compile(
-    r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
-)
+PATTERN_TIME_HH: Pattern[str] = regex.compile(r"(0[0-9]|1[0-9]|2[0-3])")
 
 PATTERN_TIME_HMM: Pattern[str] = regex.compile(
     r"([0-9]|1[0-9]|2[0-3]):([0-5][0-9])"
-- 
2.43.0


From e27418e5e97323c67498b60d0796a68bf402139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 27/51] fix: export write_dicts, as documented in the README

---
 clevercsv/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clevercsv/__init__.py b/clevercsv/__init__.py
index 63aa4f6..c3a90d7 100644
--- a/clevercsv/__init__.py
+++ b/clevercsv/__init__.py
@@ -22,6 +22,7 @@ from .wrappers import read_dicts
 from .wrappers import read_table
 from .wrappers import stream_dicts
 from .wrappers import stream_table
+from .wrappers import write_dicts
 from .wrappers import write_table
 from .write import writer
 
@@ -47,6 +48,7 @@ __all__ = [
     "read_table",
     "stream_dicts",
     "stream_table",
+    "write_dicts",
     "write_table",
     "writer",
 ]
-- 
2.43.0


From 7c1061e057e9c09727191dbff8596d75ba746902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 28/51] fix: keep doubled quotes in unclosed quoted blocks in
 the abstraction

---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..4479ad4 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -225,6 +225,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 		}
 		if (i + 1 < len && t == 'Q') {
 			i++;
+			new_S[i] = (char)t;
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From 0dcad539f2bb008aa292b86def0a4433061b71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 29/51] fix: don't crash on arguments that aren't strings in
 cabstraction

---
 src/abstraction.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index 4479ad4..eb56e1a 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -72,6 +72,11 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 	if (_set_char("escapechar", &escapechar, escapechar_obj, 0) < 0)
 		return NULL;
 
+	if (!PyUnicode_Check(S)) {
+		PyErr_Format(PyExc_TypeError, "argument 1 must be str, not %.200s",
+				Py_TYPE(S)->tp_name);
+		return NULL;
+	}
 	if (PyUnicode_READY(S) == -1) {
 		return NULL;
 	}
@@ -158,6 +163,11 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 	}
 
 	// check that the string is ready
+	if (!PyUnicode_Check(S)) {
+		PyErr_Format(PyExc_TypeError, "argument 1 must be str, not %.200s",
+				Py_TYPE(S)->tp_name);
+		return NULL;
+	}
 	if (PyUnicode_READY(S) == -1) {
 		return NULL;
 	}
-- 
2.43.0


From 0f5819693edefa9438e372027826cf0a131711a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 30/51] fix: don't let an escape at the end of a line escape a
 later character

---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index eb56e1a..5adc54d 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -94,6 +94,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 	for (i=0; i<(size_t)PyUnicode_GET_LENGTH(S); i++) {
 		s = PyUnicode_READ(kind, data, i);
 		if (s == '\r' || s == '\n') {
+			escape_next = 0;
 			if (len == 0 || stack[len-1] != 'R')
 				stack[len++] = 'R';
 		} else if (s == delimiter) {
-- 
2.43.0


From 5f7826379583e59bfad86cffc8eea7cfd2218908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 31/51] fix: don't leak or hide errors for a source that can't
 be iterated

---
 src/cparser.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index b2a9d7d..cdcee0d 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -675,12 +675,8 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	ATTRSET(_set_bool, "return_quoted", &self->return_quoted, return_quoted, 0);
 
 	self->input_iter = PyObject_GetIter(iterator);
-	if (self->input_iter == NULL) {
-		PyErr_SetString(PyExc_TypeError,
-				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
-	}
+	if (self->input_iter == NULL)
+		goto err;
 
 	PyObject_GC_Track(self);
 	ret = (PyObject *)self;
-- 
2.43.0


From 2e4ff53dfc51f82152bf426942ec138c6a26642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 32/51] fix: strip any trailing line endings in normal form
 detection

---
 clevercsv/normal_form.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..9420452 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -156,11 +156,7 @@ def maybe_has_escapechar(
 
 
 def strip_trailing_crnl(data: str) -> str:
-    while data.endswith("\n"):
-        data = data.rstrip("\n")
-    while data.endswith("\r"):
-        data = data.rstrip("\r")
-    return data
+    return data.rstrip("\r\n")
 
 
 def every_row_has_delim(rows: List[str], dialect: SimpleDialect) -> bool:
-- 
2.43.0


From 9bdfff020a456f42482dbe475705b478dc2a751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 33/51] fix: don't fail on cells with JSON that can't be loaded

---
 clevercsv/detect_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..cd65411 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,7 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
             return False
         return True
 
-- 
2.43.0


From 9ade64ab85fb9d3e8a4b1ea178b9af77cd807125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 34/51] fix: quote file names and dialects properly in
 generated code

---
 clevercsv/console/commands/_utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..b83ee07 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -20,16 +20,25 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def quote_string(value: str) -> str:
+    """Format a string as a (double-quoted) Python string literal"""
+    escaped = "".join('\\"' if c == '"' else repr(c)[1:-1] for c in value)
+    return f'"{escaped}"'
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
 ) -> List[str]:
+    assert dialect.delimiter is not None
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    assert dialect.escapechar is not None
+    f = quote_string(filename)
+    d = quote_string(dialect.delimiter)
+    q = quote_string(dialect.quotechar)
+    e = quote_string(dialect.escapechar)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +49,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = "None" if encoding is None else quote_string(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From fc8bdb34f2f32872a4941554472e51c65d8c857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 35/51] fix: support files with a single column in
 read_dataframe

---
 clevercsv/wrappers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 0cdbbf5..5d0ad88 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -334,6 +334,16 @@ def read_dataframe(
     if dialect is None:
         raise NoDetectionResult
 
+    if dialect.delimiter == "":
+        # Pandas needs a delimiter, so take a character that doesn't occur
+        with open(filename, "r", newline="", encoding=enc) as fid:
+            used = set(fid.read())
+        candidates = map(chr, [*range(0x1F, 0x0D, -1), *range(1, 0x09)])
+        delimiter = next((c for c in candidates if c not in used), "\x1f")
+        dialect = SimpleDialect(
+            delimiter, dialect.quotechar, dialect.escapechar
+        )
+
     csv_dialect = dialect.to_csv_dialect()
 
     # This is used to catch pandas' warnings when a dialect is supplied.
-- 
2.43.0


From 0cb70e4695e00225f230d9aebaf543d482b9bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 36/51] fix: keep the encoding and num-chars options in
 generated Pandas code

---
 clevercsv/console/commands/_utils.py  | 10 +++++++++-
 clevercsv/console/commands/code.py    |  7 ++++++-
 clevercsv/console/commands/explore.py |  7 ++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index b83ee07..f1dd012 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -31,6 +31,8 @@ def generate_code(
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
+    given_encoding: Optional[str] = None,
+    given_num_chars: Optional[int] = None,
 ) -> List[str]:
     assert dialect.delimiter is not None
     assert dialect.quotechar is not None
@@ -46,11 +48,17 @@ def generate_code(
         "import clevercsv",
     ]
     if use_pandas:
+        # read_dataframe detects the dialect, so it needs the options for this
+        options = ""
+        if given_encoding is not None:
+            options += f", encoding={quote_string(given_encoding)}"
+        if given_num_chars is not None:
+            options += f", num_chars={given_num_chars}"
         return [
             *base,
             "",
             f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{options})",
             "",
         ]
 
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..13e1b65 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -72,7 +72,12 @@ class CodeCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            given_encoding=self.args.encoding,
+            given_num_chars=num_chars,
         )
         print("\n".join(code_lines))
         return 0
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..7049f53 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -77,7 +77,12 @@ class ExploreCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            encoding,
+            use_pandas=self.args.pandas,
+            given_encoding=self.args.encoding,
+            given_num_chars=num_chars,
         )
 
         console = code.InteractiveConsole()
-- 
2.43.0


From 7b6c54a327146bb3eec5f95efccbab5b93090a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 37/51] fix: accept an escaped quotechar when quoting is
 disabled in reader

---
 clevercsv/cparser.pyi |  3 +++
 clevercsv/read.py     | 39 +++++++++++++++++++++++++++------------
 src/cparser.c         | 15 +++++++++++----
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/clevercsv/cparser.pyi b/clevercsv/cparser.pyi
index 2a5b575..0fd9b5a 100644
--- a/clevercsv/cparser.pyi
+++ b/clevercsv/cparser.pyi
@@ -27,6 +27,7 @@ class Parser(Generic[_T]):
         field_limit: Optional[int] = 128 * 1024,
         strict: Optional[bool] = False,
         return_quoted: Literal[True] = ...,
+        quoting: bool = ...,
     ) -> None: ...
     @overload
     def __init__(
@@ -37,6 +38,7 @@ class Parser(Generic[_T]):
         field_limit: Optional[int] = 128 * 1024,
         strict: Optional[bool] = False,
         return_quoted: Literal[False] = ...,
+        quoting: bool = ...,
     ) -> None: ...
     @overload
     def __init__(
@@ -48,6 +50,7 @@ class Parser(Generic[_T]):
         field_limit: Optional[int] = 128 * 1024,
         strict: Optional[bool] = False,
         return_quoted: bool = ...,
+        quoting: bool = ...,
     ) -> None: ...
     def __iter__(self) -> "Parser": ...
     def __next__(self) -> _T: ...
diff --git a/clevercsv/read.py b/clevercsv/read.py
index 79c7471..b4477bf 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -53,24 +53,38 @@ class reader:
     def _make_simple_dialect(
         self, dialect: _DialectLike, **fmtparams: Any
     ) -> SimpleDialect:
-        if isinstance(dialect, str):
-            sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
-            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
-        ):
-            sd = SimpleDialect.from_csv_dialect(dialect)
-        elif isinstance(dialect, SimpleDialect):
+        quoting: Optional[int] = csv.QUOTE_MINIMAL
+        quotechar: Optional[str]
+        if isinstance(dialect, SimpleDialect):
             sd = copy.copy(dialect)
+            quotechar = sd.quotechar
         else:
-            raise ValueError("Unknown dialect type: %r" % dialect)
+            if isinstance(dialect, str):
+                dialect = csv.get_dialect(dialect)
+            elif not isinstance(dialect, (csv.Dialect, _csv.Dialect)) and not (
+                isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+            ):
+                raise ValueError("Unknown dialect type: %r" % dialect)
+            sd = SimpleDialect.from_csv_dialect(dialect)
+            quoting = dialect.quoting
+            quotechar = "" if dialect.quotechar is None else dialect.quotechar
+
         for key, value in fmtparams.items():
             if key == "strict":
                 sd.strict = bool(value)
+            elif key == "quoting":
+                quoting = value
             elif key in ["delimiter", "quotechar", "escapechar"]:
                 # None means the character is not used, as in the csv module
-                setattr(sd, key, "" if value is None else value)
-        if fmtparams.get("quoting") == csv.QUOTE_NONE:
-            sd.quotechar = ""
+                value = "" if value is None else value
+                if key == "quotechar":
+                    quotechar = value
+                setattr(sd, key, value)
+
+        # Without quoting the quotechar can still be preceded by an escapechar
+        self._quotechar = quotechar
+        self._quoting = quoting != csv.QUOTE_NONE
+        sd.quotechar = quotechar if self._quoting else ""
         sd.validate()
         return sd
 
@@ -79,10 +93,11 @@ class reader:
             self.parser_gen = Parser(
                 self.csvfile,
                 delimiter=self._dialect.delimiter,
-                quotechar=self._dialect.quotechar,
+                quotechar=self._quotechar,
                 escapechar=self._dialect.escapechar,
                 field_limit=field_size_limit(),
                 strict=self._dialect.strict,
+                quoting=self._quoting,
             )
         return self
 
diff --git a/src/cparser.c b/src/cparser.c
index cdcee0d..38f84d8 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -79,6 +79,7 @@ typedef struct {
 	int doublequote;
 	int strict;
 	int return_quoted;
+	int quoting; // if not set, the quotechar can be escaped but doesn't quote
 
 	int quote_first; // the first character of field is an opening quote
 	int quote_last; // the last character of field is an actual quote
@@ -289,7 +290,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (parse_save_field(self, 0) < 0)
 					return -1;
 				self->state = (u == '\0' ? START_RECORD : EAT_CRNL);
-			} else if (u == self->quotechar) {
+			} else if (u == self->quotechar && self->quoting) {
 				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
@@ -337,7 +338,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 					EAT_CRNL;
 			} else if (u == self->escapechar) {
 				self->state = ESCAPED_CHAR;
-			} else if (u == self->quotechar) {
+			} else if (u == self->quotechar && self->quoting) {
 				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
@@ -619,6 +620,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 		 *field_limit = NULL,
 		 *strict = NULL,
 		 *return_quoted = NULL,
+		 *quoting = NULL,
 		 *iterator = NULL;
 
 	if (!self)
@@ -631,6 +633,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	self->field_size = 0;
 	self->doublequote = 0;
 	self->return_quoted = 0;
+	self->quoting = 1;
 	self->line_num = 0;
 
 	if (parse_reset(self) < 0) {
@@ -646,12 +649,13 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	       	"field_limit",
 	       	"strict",
 		"return_quoted",
+		"quoting",
 	       	NULL
 	};
 
-	if (!PyArg_ParseTupleAndKeywords(args, keyword_args, "O|$OOOOOO", kwlist,
+	if (!PyArg_ParseTupleAndKeywords(args, keyword_args, "O|$OOOOOOO", kwlist,
 				&iterator, &delimiter, &quotechar, &escapechar, 
-				&field_limit, &strict, &return_quoted)) {
+				&field_limit, &strict, &return_quoted, &quoting)) {
 		Py_DECREF(self);
 		return NULL;
 	}
@@ -662,6 +666,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	Py_XINCREF(field_limit);
 	Py_XINCREF(strict);
 	Py_XINCREF(return_quoted);
+	Py_XINCREF(quoting);
 
 #define ATTRSET(meth, name, target, src, dflt) \
 	if (meth(name, target, src, dflt)) \
@@ -673,6 +678,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	ATTRSET(_set_long, "field_limit", &self->field_limit, field_limit, 128 * 1024);
 	ATTRSET(_set_bool, "strict", &self->strict, strict, 0);
 	ATTRSET(_set_bool, "return_quoted", &self->return_quoted, return_quoted, 0);
+	ATTRSET(_set_bool, "quoting", &self->quoting, quoting, 1);
 
 	self->input_iter = PyObject_GetIter(iterator);
 	if (self->input_iter == NULL)
@@ -690,6 +696,7 @@ err:
 	Py_XDECREF(field_limit);
 	Py_XDECREF(strict);
 	Py_XDECREF(return_quoted);
+	Py_XDECREF(quoting);
 
 	return ret;
 }
-- 
2.43.0


From 4222ee4a7eb4755a6a79c6440e9763a82c838811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 38/51] fix: raise an error when the iterator advances the
 parser it feeds

---
 src/cparser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 38f84d8..fafa892 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -462,6 +462,13 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
+		if (self->fields == NULL && !PyErr_Occurred()) {
+			/* The iterator (or another thread) used this parser */
+			Py_XDECREF(lineobj);
+			PyErr_SetString(_cparserstate_global->error_obj,
+					"iterator has already advanced the parser");
+			return NULL;
+		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && self->state != START_RECORD) {
-- 
2.43.0


From 83de482f333e98cd15b09161102787b95f892192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 39/51] fix: don't accept dialect components that aren't
 strings in validate

---
 clevercsv/dialect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index c700719..45c9081 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -64,17 +64,17 @@ class SimpleDialect:
         self.strict = strict
 
     def validate(self) -> None:
-        if self.delimiter is None or len(self.delimiter) > 1:
+        if not isinstance(self.delimiter, str) or len(self.delimiter) > 1:
             raise ValueError(
                 "Delimiter should be zero or one characters, got: %r"
                 % self.delimiter
             )
-        if self.quotechar is None or len(self.quotechar) > 1:
+        if not isinstance(self.quotechar, str) or len(self.quotechar) > 1:
             raise ValueError(
                 "Quotechar should be zero or one characters, got: %r"
                 % self.quotechar
             )
-        if self.escapechar is None or len(self.escapechar) > 1:
+        if not isinstance(self.escapechar, str) or len(self.escapechar) > 1:
             raise ValueError(
                 "Escapechar should be zero or one characters, got: %r"
                 % self.escapechar
-- 
2.43.0


From b7cdd39a53f329e2a4af48bc5f1a40f8d0cd6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 40/51] fix: don't return encodings that Python doesn't know

---
 clevercsv/encoding.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/clevercsv/encoding.py b/clevercsv/encoding.py
index 68bd259..cf93881 100644
--- a/clevercsv/encoding.py
+++ b/clevercsv/encoding.py
@@ -9,6 +9,8 @@ This file is part of CleverCSV.
 
 """
 
+import codecs
+
 from typing import Optional
 
 import chardet
@@ -36,8 +38,8 @@ def get_encoding(
 
     Returns
     -------
-    encoding: str
-        Encoding of the file.
+    encoding: Optional[str]
+        Encoding of the file, or None if it can't be determined.
     """
     if try_cchardet:
         cchardet = import_optional_dependency(
@@ -61,4 +63,10 @@ def get_encoding(
             detector.feed(chunk)
     detector.close()
     encoding = detector.result.get("encoding", None)
+    if encoding is not None:
+        try:
+            codecs.lookup(encoding)
+        except LookupError:
+            # Python can't decode this encoding
+            return None
     return encoding
-- 
2.43.0


From 09c3a60cd4c9d3808afd1dcc6ad56ca1c910f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 41/51] fix: don't fail on lone surrogates in dialect detection

---
 clevercsv/potential_dialects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index faab796..9be2d10 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -7,7 +7,6 @@ Author: Gertjan van den Burg
 
 """
 
-import codecs
 import itertools
 import unicodedata
 
@@ -121,8 +120,8 @@ def unicode_category(x: str, encoding: str) -> str:
         The Unicode category of the character.
 
     """
-    as_unicode = codecs.decode(bytes(x, encoding), encoding=encoding)
-    return unicodedata.category(as_unicode)
+    # The characters are decoded already, and needn't be encodable (surrogates)
+    return unicodedata.category(x)
 
 
 def filter_urls(data: str) -> str:
-- 
2.43.0


From cfec2d7387a1d6bb04196cae1ed13f400a1eacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 42/51] fix: don't let normal form detection depend on the
 order of delimiters

---
 clevercsv/normal_form.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 9420452..15db1f5 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -54,7 +54,11 @@ def detect_dialect_normal(
     """
     if delimiters is None:
         delimiters = DELIMS
-    delimiters = list(delimiters)
+    # The order of the delimiters should not matter (it can be that of a set)
+    delimiters = sorted(
+        set(delimiters),
+        key=lambda d: (DELIMS.index(d) if d in DELIMS else len(DELIMS), d),
+    )
     for delim, quotechar in itertools.product(delimiters, QUOTECHARS):
         if maybe_has_escapechar(data, encoding, delim, quotechar):
             if verbose:
-- 
2.43.0


From 08d13d17956c937391b2cf94535d943b5b68e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 43/51] fix: recognise exponents after a single digit behind a
 decimal comma

---
 clevercsv/_regexes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index 1bc961f..06ceb14 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -26,7 +26,7 @@ PATTERN_NUMBER_1: Pattern[str] = regex.compile(
     r"|"
     r"("
     r"(?P<comma>,)?"
-    r"(?(comma)(?P<yes_comma>\d+(\d+[eE][+-]?\d+)?)"
+    r"(?(comma)(?P<yes_comma>\d+([eE][+-]?\d+)?)"
     r"|"
     r"(?P<no_comma>((?<=\d)[eE][+-]?\d+)?)"
     r")"
-- 
2.43.0


From 80c9f99cd8b5f3fdbad52e22f2a1400cba42ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 44/51] fix: don't recognise a lone sign as a number

---
 clevercsv/_regexes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index 06ceb14..621626a 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -11,7 +11,7 @@ import regex
 ##########################################
 
 PATTERN_NUMBER_1: Pattern[str] = regex.compile(
-    r"^(?=[+-\.\d])"
+    r"^(?=[+-]?[.,]?\d)"
     r"[+-]?"
     r"(?:0|[1-9]\d*)?"
     r"("
-- 
2.43.0


From b4f035bcffcf83b0da4e0b719823a11b04ddc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 45/51] fix: don't recognise repeated percent signs as a
 percentage

---
 clevercsv/detect_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index cd65411..cd22c7b 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -121,7 +121,7 @@ class TypeDetector:
         return cell == ""
 
     def is_percentage(self, cell: str, is_quoted: bool = False) -> bool:
-        return cell.endswith("%") and self.is_number(cell.rstrip("%"))
+        return cell.endswith("%") and self.is_number(cell[:-1])
 
     def is_currency(self, cell: str, is_quoted: bool = False) -> bool:
         pat = self.patterns.get("currency", None)
-- 
2.43.0


From 21fff1d1385cbd1f33e99388d487e974324608d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 46/51] fix: don't ignore text after the UTC offset of a
 datetime

---
 clevercsv/detect_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index cd22c7b..10fcbe7 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -162,6 +162,8 @@ class TypeDetector:
             # [date]T[time][+-][time]
             if "+" in parts[1]:
                 subparts = parts[1].split("+")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
@@ -174,6 +176,8 @@ class TypeDetector:
                     return True
             elif "-" in parts[1]:
                 subparts = parts[1].split("-")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
-- 
2.43.0


From 11b1253a91e2dcaf83b56752d576125aa5e3c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 47/51] fix: standardize no longer destroys the file when the
 output is the input

Standardizing to an output file opened (and truncated) the output before
reading the input, so "clevercsv standardize -o f.csv f.csv" left an empty file
and exited with code 0.
---
 clevercsv/console/commands/standardize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 3d47777..e766c32 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -295,6 +295,11 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
+        # Read everything before opening the output file, as this truncates it
+        # and it may be the input file.
+        stream = io.StringIO(newline="")
+        self._write_to_stream(path, stream, dialect, encoding)
         with open(output, "w", newline="", encoding=target_encoding) as fp:
-            self._write_to_stream(path, fp, dialect, encoding)
+            fp.write(stream.getvalue())
+        stream.close()
         return 0
-- 
2.43.0


From 3f9beb0f0a68c1763e47b6737cec001e184819cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 48/51] fix: view no longer shows "None" for the missing cells
 of short rows

With --transpose short rows were padded with None, which the viewer shows as
the text "None", like a cell with this content.
---
 clevercsv/console/commands/view.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 9805819..7a24992 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -3,8 +3,6 @@
 import sys
 
 from typing import List
-from typing import Optional
-from typing import Sequence
 
 from wilderness import Command
 
@@ -82,14 +80,13 @@ class ViewCommand(Command):
 
         if self.args.transpose:
             max_row_length = max(map(len, rows), default=0)
-            fixed_rows: List[Sequence[Optional[str]]] = []
+            fixed_rows: List[List[str]] = []
             for row in rows:
                 if len(row) == max_row_length:
                     fixed_rows.append(row)
                 else:
-                    fixed_rows.append(
-                        row + [None] * (max_row_length - len(row))
-                    )
+                    # Tabview would show None as the text "None"
+                    fixed_rows.append(row + [""] * (max_row_length - len(row)))
             rows = list(map(list, zip(*fixed_rows)))
         self._tabview(rows)
         return 0
-- 
2.43.0


From 8565e95a5ac19fc7a139e4ac73a0b639335db750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 49/51] fix: don't consider the placeholder for URLs a
 candidate delimiter

---
 clevercsv/potential_dialects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index 9be2d10..129c537 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -66,8 +66,9 @@ def get_dialects(
         List of SimpleDialect objects that are considered potential dialects.
 
     """
-    # URLs are removed to reduce noise
-    no_url = filter_urls(data)
+    # URLs are removed to reduce noise. Nothing is put in their place, as that
+    # could be one of the given delimiters.
+    no_url = filter_urls(data, replacement="")
     delims = get_delimiters(no_url, encoding, delimiters=delimiters)
     quotechars = get_quotechars(no_url)
     escapechars = {}
@@ -124,9 +125,9 @@ def unicode_category(x: str, encoding: str) -> str:
     return unicodedata.category(x)
 
 
-def filter_urls(data: str) -> str:
+def filter_urls(data: str, replacement: str = "U") -> str:
     """Filter URLs from the data"""
-    return PATTERN_URL.sub("U", data)
+    return PATTERN_URL.sub(replacement, data)
 
 
 def get_delimiters(
-- 
2.43.0


From f8062b0c159a1945379235464dc08f6a65e3597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 50/51] fix: read files with a non-ASCII escape character in
 read_dataframe

---
 clevercsv/wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 5d0ad88..d603b53 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -345,6 +345,9 @@ def read_dataframe(
         )
 
     csv_dialect = dialect.to_csv_dialect()
+    if csv_dialect.escapechar and not csv_dialect.escapechar.isascii():
+        # The C engine of pandas only supports single-byte escape characters
+        kwargs.setdefault("engine", "python")
 
     # This is used to catch pandas' warnings when a dialect is supplied.
     with warnings.catch_warnings():
-- 
2.43.0


From 19c51f86d61687bc5efe8b02b3214ca69898a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:25 +0000
Subject: [PATCH 51/51] fix: accept field size limits that don't fit a C long

field_size_limit() takes any integer, but reading under a limit of 2**63 or
more raised OverflowError.
---
 src/cparser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index fafa892..acd245f 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -120,10 +120,14 @@ static int _set_long(const char *name, long *target, PyObject *src, int dflt)
 					"\"%s\" must be an integer", name);
 			return -1;
 		}
-		value = PyLong_AsLong(src);
+		int overflow;
+		value = PyLong_AsLongAndOverflow(src, &overflow);
 		if (value == -1 && PyErr_Occurred()) {
 			return -1;
 		}
+		// integers of any size are allowed as a limit
+		if (overflow)
+			value = overflow > 0 ? LONG_MAX : LONG_MIN;
 		*target = value;
 	}
 	return 0;
-- 
2.43.0

