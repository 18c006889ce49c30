From 5f1a804711ad608f37cdca011697a4b2b1917c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 01/11] fix: convert queries without parameters to numeric
 styles

Converting to a numeric out-style raised IndexError when the query used no
parameters, or only parameters which are empty tuples.
---
 sqlparams/_converting.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..ce6e920 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2400,6 +2394,24 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 				return out_format
 
 
+def _get_row_size(
+	param_conversions: List[Tuple[bool, Union[str, int], Union[int, List[int]]]],
+) -> int:
+	"""
+	Get the number of numeric out-parameters.
+
+	*param_conversions* (:class:`list`) contains each parameter conversion to
+	perform (:class:`tuple`). The out-indices are assigned consecutively starting
+	at ``0``, and each is contained exactly once.
+
+	Returns the number of out-parameters (:class:`int`).
+	"""
+	return sum(
+		len(out_index) if expand_tuple else 1
+		for expand_tuple, _in_key, out_index in param_conversions
+	)
+
+
 def _quote_oracle_param(param: str) -> str:
 	"""
 	Quote the Oracle parameter.
-- 
2.43.0


From 0ec5d4432471d4afefb81b7a46a59281a9ee088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 02/11] fix: check later rows against an empty tuple in the
 first row

formatmany() silently dropped the values of every later row for a parameter
which was an empty tuple in the first row. Rows are now checked to also have
an empty tuple, as for any other length.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index ce6e920..1a2e35e 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From 9de905ecb0ad0e152eb4597af2937fe84dfe244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 03/11] fix: do not wrap numeric parameters below the start
 around

With a sequence of parameters, ":0" (e.g., in the literal '12:00:00') was
silently bound to the last parameter because of negative indexing.
---
 sqlparams/_converting.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a2e35e..eb9b8ad 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -886,6 +886,27 @@ class NumericConverter(Converter):
 		the specified number.
 		"""
 
+	def _get_value(
+		self,
+		in_params: Union[Sequence[Any], Dict[int, Any]],
+		in_index: int,
+	) -> Any:
+		"""
+		Get the value of the in-parameter.
+
+		*in_params* (:class:`~collections.abc.Sequence` or :class:`~collections.abc.Mapping`)
+		is the in-parameters.
+
+		*in_index* (:class:`int`) is the in-index.
+
+		Returns the value.
+		"""
+		if in_index < 0 and is_sequence(in_params):
+			# Do not let numbers before the start wrap around to the end.
+			raise IndexError(f"numeric parameter {in_index + self._in_start} is less than {self._in_start}.")
+
+		return in_params[in_index]
+
 	def _mapping_as_sequence(
 		self,
 		in_params: Dict[Union[int, str], Any],
@@ -1021,7 +1042,7 @@ class NumericToNamedConverter(NumericConverter):
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != len(out_names):
@@ -1032,7 +1053,7 @@ class NumericToNamedConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_name] = in_params[in_index]
+					out_params[out_name] = self._get_value(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1110,7 +1131,7 @@ class NumericToNamedConverter(NumericConverter):
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1277,7 +1298,7 @@ class NumericToNumericConverter(NumericConverter):
 			for expand_tuple, in_index, out_index in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					out_indices = out_index
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
@@ -1289,7 +1310,7 @@ class NumericToNumericConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_index] = in_params[in_index]
+					out_params[out_index] = self._get_value(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1371,7 +1392,7 @@ class NumericToNumericConverter(NumericConverter):
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1537,7 +1558,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			for expand_tuple, in_index, out_count in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != out_count:
@@ -1548,7 +1569,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params.append(in_params[in_index])
+					out_params.append(self._get_value(in_params, in_index))
 
 			many_out_params.append(out_params)
 
@@ -1627,7 +1648,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
-- 
2.43.0


From 8ee66b88b7f44dde29b34fdb6b6e6a4f7588cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 04/11] fix: honor "%" as the escape character when converting
 to a percent style

The "%" of the escape sequence was doubled as a literal, and the escaped
parameter was converted.
---
 sqlparams/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..9f231b5 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -402,14 +402,14 @@ class SQLParams(object):
 		"""
 		regex_parts = []
 
-		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
-			regex_parts.append("(?P<out_percent>%)")
-
 		if escape_char:
 			# Escaping is enabled.
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
+		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
+			regex_parts.append("(?P<out_percent>%)")
+
 		regex_parts.append(in_obj.param_regex)
 
 		return re.compile("|".join(regex_parts))
-- 
2.43.0


From 518f8aa0c71b006957c1bd8f2b48377e397b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 05/11] fix: convert parameters directly after an escape
 sequence

With escape_char=True, the parameter in "%%%s" (or ":::name") was left in the
query as literal text.
---
 sqlparams/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 9f231b5..f59706b 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -410,7 +410,16 @@ class SQLParams(object):
 		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
 			regex_parts.append("(?P<out_percent>%)")
 
-		regex_parts.append(in_obj.param_regex)
+		param_regex = in_obj.param_regex
+		if escape_char == in_obj.escape_char:
+			# Repeated initial characters are consumed pairwise by the escape regex, so
+			# a parameter directly after an escape sequence must not be rejected because
+			# of the preceding character.
+			lookbehind = "(?<!{})".format(re.escape(escape_char))
+			if param_regex.startswith(lookbehind):
+				param_regex = param_regex[len(lookbehind):]
+
+		regex_parts.append(param_regex)
 
 		return re.compile("|".join(regex_parts))
 
-- 
2.43.0


From 650860f44f3e00225f86b654b71430972faee578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 06/11] fix: do not leak StopIteration from formatmany()

An empty iterable raised StopIteration, which silently ends an enclosing
iteration (e.g., map()) instead of being noticed as an error.
---
 sqlparams/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index f59706b..a231422 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -4,6 +4,7 @@ parameter styles.
 """
 from __future__ import annotations
 
+import itertools
 import re
 from typing import (
 	Any,
@@ -569,6 +570,15 @@ class SQLParams(object):
 		if not _util.is_iterable(many_params):
 			raise TypeError(f"{many_params=!r} is not iterable.")
 
+		# Make sure there is at least one set of parameters to sample.
+		iter_params = iter(many_params)
+		try:
+			first_params = next(iter_params)
+		except StopIteration:
+			raise ValueError(f"{many_params=!r} is empty.") from None
+
+		many_params = itertools.chain((first_params,), iter_params)
+
 		# Strip comments.
 		use_sql = self.__strip_comments_from_sql(use_sql)
 
-- 
2.43.0


From 96a95b9f9a8332780c76ae8b9fbb478fa7b074f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 07/11] fix: strip comments independently of the order of
 comment styles

When a single line style was listed before a multiline style, a single line
inside of a multiline comment was removed together with the end of the
multiline comment, and the query was then stripped up to the end of a later
comment.
---
 sqlparams/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index a231422..0224a93 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -440,6 +440,7 @@ class SQLParams(object):
 			return []
 
 		out_regexes = []
+		multiline_parts = []
 		for i, comment_style in enumerate(strip_comments):
 			if isinstance(comment_style, str):
 				# Compile regular expression to strip single line comment.
@@ -448,17 +449,24 @@ class SQLParams(object):
 				), re.M))
 
 			elif _util.is_sequence(comment_style):
-				# Compile regular expression to strip multiline comment.
+				# Create regular expression to strip multiline comment.
 				start_comment, end_comment = comment_style  # type: str
-				out_regexes.append(re.compile("^[ \t]*{start}.*?{end}(?:\n|\r\n)?".format(
+				multiline_parts.append("{start}.*?{end}".format(
 					start=re.escape(start_comment),
 					end=re.escape(end_comment),
-				), re.DOTALL | re.M))
-				pass
+				))
 
 			else:
 				raise TypeError(f"strip_comments[{i}]={comment_style!r} must be either a str or tuple.")
 
+		if multiline_parts:
+			# Compile regular expression to strip multiline comments. These must be
+			# stripped together and first because their text can contain the delimiters
+			# of the other comment styles.
+			out_regexes.insert(0, re.compile("^[ \t]*(?:{parts})(?:\n|\r\n)?".format(
+				parts="|".join(multiline_parts),
+			), re.DOTALL | re.M))
+
 		return out_regexes
 
 	@property
-- 
2.43.0


From e378a467ad9a82b9ff0eefcd6116b2e0775e3251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 08/11] fix: ignore digit keys which are not decimal numbers

A mapping with an unrelated key such as "\u00b2" raised ValueError.
---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index eb9b8ad..2e64710 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -922,7 +922,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
@@ -1685,7 +1685,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From 503e76e03bde40f508bbcde2f65b7c338930b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 09/11] fix: keep escaped percents escaped when converting
 between percent styles

With escape_char=True, "%%" was converted to "%" which is invalid in the
"format" and "pyformat" out-styles.
---
 sqlparams/_converting.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 2e64710..827a36c 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -123,6 +123,21 @@ class Converter(object):
 		"""
 		raise NotImplementedError(f"{self.__class__.__qualname__} must implement convert_many().")
 
+	def _unescape(self, escape: str) -> str:
+		"""
+		Get the literal of the escape sequence.
+
+		*escape* (:class:`str`) is the escape sequence.
+
+		Returns the literal (:class:`str`).
+		"""
+		literal = escape[self._escape_start:]
+		if literal == "%" and self._out_style.escape_char == "%":
+			# The out-style requires a literal percent to be escaped too.
+			return "%%"
+
+		return literal
+
 
 class NamedConverter(Converter):
 	"""
@@ -317,7 +332,7 @@ class NamedToNamedConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return named out-style parameter.
@@ -579,7 +594,7 @@ class NamedToNumericConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return numeric out-style parameter.
@@ -832,7 +847,7 @@ class NamedToOrdinalConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return numeric out-style parameter.
@@ -1124,7 +1139,7 @@ class NumericToNamedConverter(NumericConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Numeric parameter matched, return named out-style parameter.
@@ -1386,7 +1401,7 @@ class NumericToNumericConverter(NumericConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Numeric parameter matched, return numeric out-style parameter.
@@ -1642,7 +1657,7 @@ class NumericToOrdinalConverter(NumericConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Numeric parameter matched, return ordinal out-style parameter.
@@ -1894,7 +1909,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return named out-style parameter.
@@ -2157,7 +2172,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return numeric out-style parameter.
@@ -2401,7 +2416,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return ordinal out-style parameter.
-- 
2.43.0


From 47d13ae91668169dc1ee9f02a61bd4d191d856fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 10/11] fix: find Oracle parameters in each set of parameters

formatmany() raised KeyError when a later set of parameters spelled a key
differently than the first one (e.g., "NAME" instead of "name"), although
format() accepts both.
---
 sqlparams/_converting.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 827a36c..0f14a66 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -147,6 +147,26 @@ class NamedConverter(Converter):
 
 	_in_style: _styles.NamedStyle
 
+	def _get_value(self, in_params: Dict[str, Any], in_name: str) -> Any:
+		"""
+		Get the value of the in-parameter.
+
+		*in_params* (:class:`~collections.abc.Mapping`) is the in-parameters.
+
+		*in_name* (:class:`str`) is the in-name as contained by the first set of
+		in-parameters.
+
+		Returns the value.
+		"""
+		if self._in_style.param_quotes:
+			# Each set of in-parameters can spell the same name differently.
+			oracle_name = _unquote_oracle_param(in_name)
+			for in_name_param, in_value in in_params.items():
+				if _unquote_oracle_param(in_name_param) == oracle_name:
+					return in_value
+
+		return in_params[in_name]
+
 
 class NamedToNamedConverter(NamedConverter):
 	"""
@@ -215,8 +235,8 @@ class NamedToNamedConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Union[str, List[str]]]],
 	) -> List[Dict[str, Any]]:
@@ -248,7 +268,7 @@ class NamedToNamedConverter(NamedConverter):
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
-					values = in_params[in_name]
+					values = self._get_value(in_params, in_name)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != len(out_names):
@@ -259,7 +279,7 @@ class NamedToNamedConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_name] = in_params[in_name]
+					out_params[out_name] = self._get_value(in_params, in_name)
 
 			many_out_params.append(out_params)
 
@@ -468,8 +488,8 @@ class NamedToNumericConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Union[int, List[int]]]],
 	) -> List[List[Any]]:
@@ -506,7 +526,7 @@ class NamedToNumericConverter(NamedConverter):
 			for expand_tuple, in_name, out_index in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_name]
+					values = self._get_value(in_params, in_name)
 					out_indices = out_index
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
@@ -518,7 +538,7 @@ class NamedToNumericConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_index] = in_params[in_name]
+					out_params[out_index] = self._get_value(in_params, in_name)
 
 			many_out_params.append(out_params)
 
@@ -731,8 +751,8 @@ class NamedToOrdinalConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Optional[int]]],
 	) -> List[List[Any]]:
@@ -763,7 +783,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			for expand_tuple, in_name, out_count in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_name]
+					values = self._get_value(in_params, in_name)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != out_count:
@@ -774,7 +794,7 @@ class NamedToOrdinalConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params.append(in_params[in_name])
+					out_params.append(self._get_value(in_params, in_name))
 
 			many_out_params.append(out_params)
 
-- 
2.43.0


From 4c5f6f87a21148cef0aaeaac070d0604e97b95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 11/11] fix: expand tuples which are false but not empty

A tuple subclass (e.g., a named tuple) with its own truth value was
replaced by "(NULL)" and its elements were dropped.
---
 sqlparams/_converting.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 0f14a66..2f91957 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -371,7 +371,7 @@ class NamedToNamedConverter(NamedConverter):
 				value = in_params[in_name]
 
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
@@ -633,7 +633,7 @@ class NamedToNumericConverter(NamedConverter):
 				value = in_params[in_name]
 
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
@@ -886,7 +886,7 @@ class NamedToOrdinalConverter(NamedConverter):
 				value = in_params[in_name]
 
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
@@ -1168,7 +1168,7 @@ class NumericToNamedConverter(NumericConverter):
 
 			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, []))
 					return "(NULL)"
@@ -1429,7 +1429,7 @@ class NumericToNumericConverter(NumericConverter):
 
 			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, []))
 					return "(NULL)"
@@ -1685,7 +1685,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
@@ -1937,7 +1937,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, []))
 					return "(NULL)"
@@ -2200,7 +2200,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, []))
 					return "(NULL)"
@@ -2444,7 +2444,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-				if not value:
+				if not len(value):
 					# Safely expand an empty tuple.
 					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
-- 
2.43.0

