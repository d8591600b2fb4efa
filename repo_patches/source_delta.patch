From 2d514204969a538da87d2e9a08d2fab10ff5ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:28 +0000
Subject: [PATCH 01/41] fix: keep quotes inside of identifiers escaped

Name with doubled quotes was split in the middle, so rest of it got out of
the quotes: string value "a"""." OR 1=1 -- " was able to inject SQL.
---
 sqlpuzzle/_backends/sql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..03f0d3c 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,7 +39,13 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
+        # Even items are bare parts of the name, odd items are parts already in
+        # quotes (where quote inside of the name is doubled).
+        parts = re.split(
+            r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=cls.reference_quote),
+            value,
+        )
+        parts[::2] = (i.replace(cls.reference_quote, cls.reference_quote * 2) for i in parts[::2])
         parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
         return '.'.join(parts)
 
-- 
2.43.0


From 277206ad5b9ed3f149acf27c6da2b5de9ebc0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:41 +0000
Subject: [PATCH 02/41] fix: escape strings for SQLite and PostgreSQL by their
 rules

Backslash is not special in SQLite and in plain literals of PostgreSQL, so
backslashes and new lines were stored there doubled / as two characters.
---
 sqlpuzzle/_backends/postgresql.py | 1 +
 sqlpuzzle/_backends/sql.py        | 2 ++
 sqlpuzzle/_backends/sqlite.py     | 1 +
 sqlpuzzle/_common/sqlvalue.py     | 5 ++++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/postgresql.py b/sqlpuzzle/_backends/postgresql.py
index 1711ee3..8e41614 100644
--- a/sqlpuzzle/_backends/postgresql.py
+++ b/sqlpuzzle/_backends/postgresql.py
@@ -8,6 +8,7 @@ __all__ = ('PostgreSqlBackend',)
 class PostgreSqlBackend(SqlBackend):
     name = 'PostgreSQL'
 
+    backslash_prefix = 'E'
     supports_full_join = True
     supports_on_conflict_do_update = True
 
diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 03f0d3c..a2f836d 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -8,6 +8,8 @@ class SqlBackend:
     name = 'SQL'
 
     reference_quote = '"'
+    supports_backslash_escapes = True
+    backslash_prefix = ''
     supports_full_join = False
     supports_on_duplicate_key_update = False
     supports_on_conflict_do_update = False
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 0b25b1a..94f71a7 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -6,4 +6,5 @@ __all__ = ('SqliteBackend',)
 class SqliteBackend(SqlBackend):
     name = 'SQLite'
 
+    supports_backslash_escapes = False
     supports_replace_into = True
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..1410f67 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -17,6 +17,8 @@ def _escape_value(value):
         ("\n", "\\n"),
     )
     for old, new in replace_table:
+        if '\\' in new and not get_backend().supports_backslash_escapes:
+            continue
         value = value.replace(old, new)
     return value
 
@@ -85,7 +87,8 @@ class SqlValue(Object):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
             return self._reference()
-        return "'{}'".format(_escape_value(force_text(self.value)))
+        value = _escape_value(force_text(self.value))
+        return "{}'{}'".format(get_backend().backslash_prefix if '\\' in value else '', value)
 
     def _bytes(self):
         return get_backend().bytes(self.value)
-- 
2.43.0


From 3b0207f5be29a18e3523f45bc6c59876a2dbe894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:43 +0000
Subject: [PATCH 03/41] fix: ignore white space around reference passed as
 value

---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 1410f67..f236132 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -86,7 +86,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         value = _escape_value(force_text(self.value))
         return "{}'{}'".format(get_backend().backslash_prefix if '\\' in value else '', value)
 
-- 
2.43.0


From e806ef9e304101b7d4f17e4215bc6b76a26a347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:45 +0000
Subject: [PATCH 04/41] fix: render SQL value created of generator more than
 once

---
 sqlpuzzle/_common/sqlvalue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index f236132..3f254d7 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -61,6 +61,9 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
+        if isinstance(value, types.GeneratorType):
+            # Generators give value only once.
+            value = list(value)
         self.value = value
 
     def __str__(self):
-- 
2.43.0


From 6b98d77be207a67eaa6146dbed0d7f42fe40b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 05/41] fix: do not render NaN and infinity as bare words

---
 sqlpuzzle/_common/sqlvalue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 3f254d7..30112e7 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -100,6 +100,8 @@ class SqlValue(Object):
         return '{:d}'.format(self.value)
 
     def _float(self):
+        if not decimal.Decimal(self.value).is_finite():
+            raise InvalidArgumentException('Number {} is not allowed.'.format(self.value))
         return '{:.5f}'.format(self.value)
 
     def _boolean(self):
-- 
2.43.0


From a9f2f814133d10dbbc71c7c1f0c5ea71fc6ee318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:50 +0000
Subject: [PATCH 06/41] fix: do not ignore named arguments passed together with
 dictionary

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..78c8c2a 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -117,6 +117,8 @@ class Parser:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
             self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            if self.input_data.is_dictionary:
+                self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From 29dd647d8638b9d30dc67da3760aba761f0cad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:52 +0000
Subject: [PATCH 07/41] fix: allow column named options in named arguments

---
 sqlpuzzle/_common/argsparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 78c8c2a..5d97ade 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -3,8 +3,7 @@ from sqlpuzzle.exceptions import InvalidArgumentException
 __all__ = ('parse_args',)
 
 
-# pylint: disable=dangerous-default-value,keyword-arg-before-vararg
-def parse_args(options={}, *args, **kwds):
+def parse_args(*args, **kwds):
     """
     Parser of arguments.
 
@@ -34,6 +33,8 @@ def parse_args(options={}, *args, **kwds):
         {key1: val1, key2: val2} => ((key1, val1, None), (key2, val2, None))
         (arg1a, arg1b), arg2a, arg2b => FAIL
     """
+    # Options are not named argument because it can be also name of column.
+    options, args = args[0] if args else {}, args[1:]
     parser_options = ParserOptions(options)
     parser_input = ParserInput(args, kwds)
 
-- 
2.43.0


From ee2bb36185ecf723f4cb025ffb221595eb35fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:55 +0000
Subject: [PATCH 08/41] fix: keep order of OrderedDict as documentation says

---
 sqlpuzzle/_common/argsparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 5d97ade..892328e 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 from sqlpuzzle.exceptions import InvalidArgumentException
 
 __all__ = ('parse_args',)
@@ -122,7 +124,10 @@ class Parser:
                 self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        items = dictionary.items()
+        if not isinstance(dictionary, OrderedDict):
+            items = sorted(items)
+        for item in items:
             self._parse_item(item)
 
     def _parse_list(self, list_):
-- 
2.43.0


From 6c59895e1369e5845d2b189c334b47713fa5b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:58 +0000
Subject: [PATCH 09/41] fix: allow mix of numbers, names and expressions as
 keys of dictionary

---
 sqlpuzzle/_common/argsparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 892328e..a8b2144 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 
 from sqlpuzzle.exceptions import InvalidArgumentException
+from .utils import force_text
 
 __all__ = ('parse_args',)
 
@@ -126,10 +127,16 @@ class Parser:
     def _parse_dictionary(self, dictionary):
         items = dictionary.items()
         if not isinstance(dictionary, OrderedDict):
-            items = sorted(items)
+            items = sorted(items, key=self._get_sort_key)
         for item in items:
             self._parse_item(item)
 
+    @staticmethod
+    def _get_sort_key(item):
+        # Numbers and names can not be compared to each other, so numbers go first.
+        key = item[0]
+        return (0, key) if isinstance(key, int) else (1, force_text(key))
+
     def _parse_list(self, list_):
         for item in list_:
             if isinstance(item, (list, tuple)):
-- 
2.43.0


From f62d220d926d01cf2f571aae9dde3f066597496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:01 +0000
Subject: [PATCH 10/41] fix: refuse tuple with too few items

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index a8b2144..3752c59 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -153,6 +153,8 @@ class Parser:
     def _create_batch(self, values):
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         return self._append_nones(tuple(values))
 
     def _append_nones(self, tuple_with_values):
-- 
2.43.0


From 8dc48de87259ec8953b0f9f443dd6fc6b39ade9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:03 +0000
Subject: [PATCH 11/41] fix: do not ignore named arguments passed together with
 Q objects

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From 70acb6f643759e9ec3129c1fa5924b41780841f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:40 +0000
Subject: [PATCH 12/41] fix: do not empty dictionary passed to join

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..4f1ce47 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -123,7 +123,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*next(iter(arg.items())))
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 555f5ea0b2137f3874ba0f0189e63b439efbc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 13/41] fix: do not change joins of query by rendering it

---
 sqlpuzzle/_queryparts/tables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 4f1ce47..b44a54a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 27d53e87c29df6dd37f1ee4a0458a4a5b054d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:45 +0000
Subject: [PATCH 14/41] fix: keep union hashable as other queries

---
 sqlpuzzle/_queries/union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..0b503a5 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -45,6 +45,9 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    # Defined `__eq__` disables inherited hash.
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From 302a57de65f1c05ffa1db9d357c209c36ea659cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:47 +0000
Subject: [PATCH 15/41] fix: keep grouping of union used as right operand of
 union

---
 sqlpuzzle/_backends/sql.py    |  4 ++++
 sqlpuzzle/_backends/sqlite.py |  4 ++++
 sqlpuzzle/_queries/union.py   | 17 ++++++++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index a2f836d..4aaa4d2 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -54,3 +54,7 @@ class SqlBackend:
     @classmethod
     def bytes(cls, value):
         return "x'{}'".format(binascii.hexlify(value).decode('ascii'))
+
+    @classmethod
+    def nested_union(cls, query):
+        return '({})'.format(query)
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 94f71a7..75ed969 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -8,3 +8,7 @@ class SqliteBackend(SqlBackend):
 
     supports_backslash_escapes = False
     supports_replace_into = True
+
+    @classmethod
+    def nested_union(cls, query):
+        return 'SELECT * FROM ({})'.format(query)
diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 0b503a5..f7b4ce2 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -1,4 +1,5 @@
 from sqlpuzzle.exceptions import InvalidArgumentException
+from sqlpuzzle._backends import get_backend
 from sqlpuzzle._common import check_type_decorator
 from .query import Query
 
@@ -34,7 +35,21 @@ class Union(Query):
         return '{} {} {}'.format(
             self.query1,
             self.union_type,
-            self.query2,
+            self._str_query2(),
+        )
+
+    def _str_query2(self):
+        #  Databases evaluate unions from left to right, so union on the right
+        #+ side has to be separated, unless it is only chain of the same type.
+        if isinstance(self.query2, Union) and not self.query2._is_chain_of(self.union_type):
+            return get_backend().nested_union(self.query2)
+        return self.query2
+
+    def _is_chain_of(self, union_type):
+        return self.union_type == union_type and all(
+            query._is_chain_of(union_type)
+            for query in (self.query1, self.query2)
+            if isinstance(query, Union)
         )
 
     def __eq__(self, other):
-- 
2.43.0


From df3ded81b515cc31032e0f3ab3082aa4991bdd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:50 +0000
Subject: [PATCH 16/41] fix: allow empty separator of GROUP_CONCAT

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From dd5c923952baf37c772d33799cd5473350f6b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:52 +0000
Subject: [PATCH 17/41] fix: refuse CONCAT and GROUP_CONCAT without columns

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..aa06bd4 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -99,7 +99,7 @@ class Concat(Function):
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
         self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From 07f2eb7c227601d028f00eb1472635ffb78e04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 18/41] fix: do not drop repeated items of CONCAT and
 GROUP_CONCAT

---
 sqlpuzzle/_queryparts/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aa06bd4..d77b4d7 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -98,7 +98,11 @@ class Concat(Function):
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
+        self._columns = Columns()
+        for item in expr:
+            # One by one, because columns keep only unique items.
+            for column in Columns().columns(item)._parts:
+                self._columns.append_part(column)
         if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
-- 
2.43.0


From 6cd100893af78dcd3a7adbcb870afbb15f7b8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 19/41] fix: refuse number as type of order by right exception

---
 sqlpuzzle/_queryparts/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..0b7d10e 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -48,7 +48,7 @@ class Order(QueryPart):
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = force_text(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From 2a8dc1fafe30ef2825bfc37f8acfdc66384daa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:22 +0000
Subject: [PATCH 20/41] fix: do not interpret value passed to has as regular
 expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..9d0a493 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From 4cdb4c6f047e8918ab6188c3a63d8418d2d405d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:25 +0000
Subject: [PATCH 21/41] fix: refuse string in IN and NOT IN instead of
 splitting it into characters

---
 sqlpuzzle/relations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..e11f5f4 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -181,8 +181,9 @@ class IN(_RelationValue):
             value = []
         try:
             #  Make list copy of value (if it is possible) because generators
-            #+ give value only once.
-            value = list(value)
+            #+ give value only once. String is not list of its characters.
+            if not isinstance(value, (str, bytes)):
+                value = list(value)
         except TypeError:
             pass
         super().__init__(value)
-- 
2.43.0


From 2d869e9928f4fa8319d8f83bcc68cf1541ab8da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 22/41] fix: ignore empty Q object instead of rendering broken
 condition

Moreover update or delete with only empty Q object was rendered without
confirmation even if there is no condition.
---
 sqlpuzzle/_queryparts/conditions.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..49e1082 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -4,12 +4,17 @@ import types
 
 from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
 from sqlpuzzle import relations
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 __all__ = ('Condition', 'Conditions', 'Not')
 
 
+def _is_empty(conditions):
+    return isinstance(conditions, Conditions) and not conditions.is_set
+
+
 class BinaryOperationMixin:
     AND = 'AND'
     OR = 'OR'
@@ -17,12 +22,19 @@ class BinaryOperationMixin:
     def __and__(self, other):
         if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
             raise TypeError(other)
-        return ConditionsOfConditions(self, other, self.AND)
+        return self._combine(other, self.AND)
 
     def __or__(self, other):
         if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
             raise TypeError(other)
-        return ConditionsOfConditions(self, other, self.OR)
+        return self._combine(other, self.OR)
+
+    def _combine(self, other, type_):
+        if _is_empty(other):
+            return self
+        if _is_empty(self):
+            return other
+        return ConditionsOfConditions(self, other, type_)
 
 
 class Condition(BinaryOperationMixin, QueryPart):
@@ -115,6 +127,11 @@ class Conditions(BinaryOperationMixin, QueryParts):
 
         return self
 
+    def append_part(self, query_part):
+        # Empty Q object does not restrict anything.
+        if not _is_empty(query_part):
+            super().append_part(query_part)
+
 
 class ConditionsOfConditions(BinaryOperationMixin, Object):
     def __init__(self, left, right, type_):
@@ -140,4 +157,6 @@ class Not(Function):
 
     def __init__(self, *args, **kwds):
         expr = Conditions(*args, **kwds)
+        if not expr.is_set:
+            raise InvalidArgumentException('You must specify condition for NOT.')
         super().__init__(expr)
-- 
2.43.0


From aac0f1f84f95a8155eba695b1c5433c67d42c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 23/41] fix: do not take custom SQL and string of the same text
 as duplicate

Second of conditions a = x (column) and a = 'x' (value) was lost.
---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/utils.py          | 14 +++++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 7 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..c9d080b 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_sql_instance, is_same, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..91ce3fa 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'is_same', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,18 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same(value1, value2):
+    """
+    Are both values really the same? It is not enough to compare them, because
+    custom SQL is equal to the string (column vs. value), ``True`` to ``1``, ...
+    """
+    if type(value1) != type(value2):
+        return False
+    if isinstance(value1, (list, tuple)):
+        return len(value1) == len(value2) and all(is_same(v1, v2) for v1, v2 in zip(value1, value2))
+    return value1 == value2
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..961feae 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 49e1082..0498dfb 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle import relations
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .functions import Function
@@ -64,8 +64,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 0b7d10e..f746959 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, is_same, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index b44a54a..68306b7 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..7d12b43 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From f08bc6cad1e8dc7978e7fa0a470f12f316e2076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:55 +0000
Subject: [PATCH 24/41] fix: do not lose value set back after another value of
 the same column

---
 sqlpuzzle/_queryparts/values.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 7d12b43..42e1ad5 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -53,10 +53,20 @@ class Values(QueryParts):
             'allow_list': True,
         }
         for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(Value(column_name, value))
+            self._append_value(Value(column_name, value))
 
         return self
 
+    def _append_value(self, value):
+        #  The last value of column is the valid one, so it is duplicate only
+        #+ if there is not another value of the same column in the meantime.
+        for part in reversed(self._parts):
+            if isinstance(part, Value) and is_same(part.column_name, value.column_name):
+                if part == value:
+                    return
+                break
+        self.append_part(value)
+
     def columns(self):
         return ', '.join(str(SqlReference(value.column_name)) for value in self._parts)
 
-- 
2.43.0


From 81065c572453fcac0ef0a61564b9762773ebbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:14 +0000
Subject: [PATCH 25/41] fix: do not set limit when offset passed with it is
 refused

---
 sqlpuzzle/_queryparts/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..034fbc8 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -37,9 +37,9 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
             if offset is not None:
                 self.offset(offset)
+            self._limit = int(limit)
         return self
 
     @check_type_decorator((type(None), int))
-- 
2.43.0


From fb4678d0a21ca0c0d90e0acc992b738535ea669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:27 +0000
Subject: [PATCH 26/41] fix: do not take quoted name "*" as all columns

---
 sqlpuzzle/_backends/sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 4aaa4d2..cff15a5 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -48,8 +48,10 @@ class SqlBackend:
             value,
         )
         parts[::2] = (i.replace(cls.reference_quote, cls.reference_quote * 2) for i in parts[::2])
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
-        return '.'.join(parts)
+        return '.'.join(
+            '{quote}{part}{quote}'.format(quote=cls.reference_quote, part=part) if index % 2 or part != '*' else part
+            for index, part in enumerate(parts) if part
+        )
 
     @classmethod
     def bytes(cls, value):
-- 
2.43.0


From 4a1a0b7d214768d722103593eeca3070e0481e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:48 +0000
Subject: [PATCH 27/41] fix: refuse value of unknown type instead of rendering
 it

---
 sqlpuzzle/_common/sqlvalue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 30112e7..cf8421a 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -126,10 +126,7 @@ class SqlValue(Object):
         return 'NULL'
 
     def _undefined(self):
-        try:
-            return '<undefined value {}>'.format(self.value)
-        except Exception:  # pylint: disable=broad-except
-            return '<undefined value>'
+        raise InvalidArgumentException('Value of type {} is not allowed.'.format(type(self.value)))
 
     def _reference(self):
         return get_backend().reference(self.value)
-- 
2.43.0


From 0de862a9d2daefc3c9b80fedd32f4efb7efa3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:57 +0000
Subject: [PATCH 28/41] fix: custom SQL compared with another part or query is
 not equal only from one side

---
 sqlpuzzle/_queries/union.py         | 6 +++---
 sqlpuzzle/_queryparts/queryparts.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index f7b4ce2..9d95dbe 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -1,6 +1,6 @@
 from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import check_type_decorator
+from sqlpuzzle._common import check_type_decorator, is_same
 from .query import Query
 
 __all__ = ('UNION', 'UNION_ALL', 'Union')
@@ -55,8 +55,8 @@ class Union(Query):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.query1 == other.query1 and
-            self.query2 == other.query2 and
+            is_same(self.query1, other.query1) and
+            is_same(self.query2, other.query2) and
             self.union_type == other.union_type
         )
 
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 9d0a493..bc9631b 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -1,7 +1,7 @@
 from functools import wraps
 import re
 
-from sqlpuzzle._common import Object, force_text, is_sql_instance
+from sqlpuzzle._common import Object, force_text, is_same, is_sql_instance
 from sqlpuzzle.exceptions import SqlPuzzleException
 
 __all__ = ('QueryPart', 'QueryParts', 'append_custom_sql_decorator', 'has')
@@ -52,14 +52,14 @@ class QueryParts(Object):
 
     def __contains__(self, other_part):
         for part in self._parts:
-            if part == other_part:
+            if is_same(part, other_part):
                 return True
         return False
 
     def __eq__(self, other):
         if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
             return False
-        return all(sp == op for sp, op in zip(self._parts, other._parts))
+        return all(is_same(sp, op) for sp, op in zip(self._parts, other._parts))
 
     @property
     def count_of_parts(self):
-- 
2.43.0


From 529915e675680164c63e9f28276e884caea9fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:17 +0000
Subject: [PATCH 29/41] fix: inserts with different conflict column are not
 equal

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..8a3d6d2 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,9 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return type(self) == type(other) and super().__eq__(other) and str(self._on_conflict) == str(other._on_conflict)
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 41008a3a7cba586a645d2fba36213d509337871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 30/41] fix: refused upsert does not change the conflict column

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 8a3d6d2..bc823e4 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -18,11 +18,9 @@ class OnConflictDoUpdate(Values):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
 
     def set(self, *args, **kwds):
-        if args and isinstance(args[0], str):
-            self._on_conflict = SqlReference(args[0])
-            args = args[1:]
-        else:
+        if not args or not isinstance(args[0], str):
             raise InvalidQueryException(
                 'ON CONFLICT (column_name) DO UPDATE needs reference to column as first argument'
             )
-        super().set(*args, **kwds)
+        super().set(*args[1:], **kwds)
+        self._on_conflict = SqlReference(args[0])
-- 
2.43.0


From 683969536c61128b35c0fd87fc65a4d3e07d842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 31/41] fix: EXISTS does not take plain value for SQL

---
 sqlpuzzle/_queryparts/where.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/where.py b/sqlpuzzle/_queryparts/where.py
index 9b231b2..ea7c766 100644
--- a/sqlpuzzle/_queryparts/where.py
+++ b/sqlpuzzle/_queryparts/where.py
@@ -1,4 +1,5 @@
-from sqlpuzzle._common import Object
+from sqlpuzzle._common import Object, is_sql_instance
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .conditions import Conditions
 
 __all__ = ('Where', 'Exists')
@@ -11,6 +12,8 @@ class Where(Conditions):
 class Exists(Object):
     def __init__(self, subquery):
         super().__init__()
+        if not is_sql_instance(subquery):
+            raise InvalidArgumentException('Value of type {} is not allowed for EXISTS.'.format(type(subquery)))
         self._subquery = subquery
 
     def __str__(self):
-- 
2.43.0


From f769e420d3ea579e3c2edcc388546254fce27048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:54 +0000
Subject: [PATCH 32/41] fix: join Q objects passed together with other
 conditions by AND

---
 sqlpuzzle/_queryparts/conditions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 0498dfb..e63ffcf 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, is_sql_instance, check_type_decorator, parse_args
 from sqlpuzzle import relations
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .functions import Function
@@ -118,7 +118,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
+        if any(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
+            if not all(isinstance(item, (Conditions, ConditionsOfConditions)) or is_sql_instance(item) for item in args):
+                raise InvalidArgumentException('Q object can not be compared with a value.')
             for item in args:
                 self.append_unique_part(item)
             args = ()
-- 
2.43.0


From becd3181c7121aea85a5a384dd92ebb890ac32b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:53 +0000
Subject: [PATCH 33/41] fix: equal values which are written differently are not
 the same

---
 sqlpuzzle/_common/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 91ce3fa..4c63e71 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,3 +1,5 @@
+import datetime
+import decimal
 from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
@@ -24,6 +26,9 @@ def is_same(value1, value2):
         return False
     if isinstance(value1, (list, tuple)):
         return len(value1) == len(value2) and all(is_same(v1, v2) for v1, v2 in zip(value1, value2))
+    if isinstance(value1, (float, decimal.Decimal, datetime.datetime)):
+        # Equal values can be written differently (time zone, negative zero).
+        return value1 == value2 and str(value1) == str(value2)
     return value1 == value2
 
 
-- 
2.43.0


From 8b6f31653cd650f15adae6f69416b0b8f0f44000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 34/41] fix: do not lose value set back after another value of
 the column written differently

---
 sqlpuzzle/_queryparts/values.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 42e1ad5..efffa2d 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,8 @@
 import datetime
 import decimal
+import re
 
-from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, force_text, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -33,6 +34,11 @@ class Value(QueryPart):
     def column_name(self, column_name):
         self._column_name = column_name
 
+    def _can_be_same_column(self, other):
+        #  The same column can be written with or without quotes, table, ...
+        names = [re.sub('["`]', '', force_text(i.column_name)).split('.')[-1].lower() for i in (self, other)]
+        return names[0] == names[1]
+
     @property
     def value(self):
         return self._value
@@ -61,9 +67,9 @@ class Values(QueryParts):
         #  The last value of column is the valid one, so it is duplicate only
         #+ if there is not another value of the same column in the meantime.
         for part in reversed(self._parts):
-            if isinstance(part, Value) and is_same(part.column_name, value.column_name):
-                if part == value:
-                    return
+            if part == value:
+                return
+            if not isinstance(part, Value) or part._can_be_same_column(value):
                 break
         self.append_part(value)
 
-- 
2.43.0


From bfe5e33e498b11a994776a2c02b86ca33c8a45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:45 +0000
Subject: [PATCH 35/41] fix: list and tuple of derived types in conditions mean
 IN as well

---
 sqlpuzzle/_queryparts/conditions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index e63ffcf..efaf6ac 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -89,10 +89,15 @@ class Condition(BinaryOperationMixin, QueryPart):
     ))
     def value(self, value):
         if not isinstance(value, relations._RelationValue):
-            value_type = type(value.value if isinstance(value, SqlValue) else value)
-            value = self._default_relations.get(value_type, relations.EQ)(value)
+            value = self._get_default_relation(value.value if isinstance(value, SqlValue) else value)(value)
         self._value = value
 
+    def _get_default_relation(self, value):
+        for type_, relation in self._default_relations.items():
+            if isinstance(value, type_):
+                return relation
+        return relations.EQ
+
     @property
     def relation(self):
         return self._value.relation
-- 
2.43.0


From 91bb5f2492bc434b60b09b84586cf67a2c9d1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 36/41] fix: text of a type derived from str is its content,
 not its conversion to str

---
 sqlpuzzle/_common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 4c63e71..782f26f 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -10,6 +10,9 @@ __all__ = ('force_text', 'is_sql_instance', 'is_same', 'check_type_decorator')
 def force_text(value):
     if is_sql_instance(value):
         return value.tosql()
+    if isinstance(value, str):
+        # Derived type can be converted to something else (e.g. enum to its name).
+        return str.__str__(value)
     return str(value)
 
 
-- 
2.43.0


From 2ebf61510594fb2cf5188d4e1c7618d6d2b8f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:07 +0000
Subject: [PATCH 37/41] fix: number of a type derived from int, float or
 Decimal is rendered even if it has own format

---
 sqlpuzzle/_common/sqlvalue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index cf8421a..f6ede5b 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -97,12 +97,15 @@ class SqlValue(Object):
         return get_backend().bytes(self.value)
 
     def _integer(self):
-        return '{:d}'.format(self.value)
+        # Derived type (e.g. enum) can have another format.
+        return '{:d}'.format(int(self.value))
 
     def _float(self):
         if not decimal.Decimal(self.value).is_finite():
             raise InvalidArgumentException('Number {} is not allowed.'.format(self.value))
-        return '{:.5f}'.format(self.value)
+        # Derived type (e.g. enum) can have another format.
+        value = float(self.value) if isinstance(self.value, float) else decimal.Decimal(self.value)
+        return '{:.5f}'.format(value)
 
     def _boolean(self):
         return get_backend().boolean(self.value)
-- 
2.43.0


From 0d74e02706376610113bac7c87c9f480b2b88413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:07 +0000
Subject: [PATCH 38/41] fix: type of CONVERT given by a text of a type derived
 from str

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index d77b4d7..1c431ca 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -192,5 +192,5 @@ class Convert(Function):
             >>> sqlpuzzle.convert('col', 'unsigned')
             <Convert: CONVERT("col", UNSIGNED)>
         """
-        self._type = str(type_).upper()
+        self._type = force_text(type_).upper()
         return self
-- 
2.43.0


From fecd86dbb940c044d19fb3b82012f42d9e208d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:30 +0000
Subject: [PATCH 39/41] fix: star in COUNT given by a text of a type derived
 from str

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index 1c431ca..2008c78 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -77,7 +77,7 @@ class Count(FunctionWithDistinct):
 
     def _get_expr_as_string(self):
         if self.expr == '*':
-            return self.expr
+            return '*'
         return super()._get_expr_as_string()
 
 
-- 
2.43.0


From 1230e3cd4bb8761c6178fffbf091d1e63625dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:01 +0000
Subject: [PATCH 40/41] fix: keep values of generators nested in lists,
 rendering emptied them

---
 sqlpuzzle/_common/sqlvalue.py |  7 ++-----
 sqlpuzzle/_common/utils.py    | 16 +++++++++++++++-
 sqlpuzzle/relations.py        |  4 ++--
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index f6ede5b..3834875 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -5,7 +5,7 @@ import types
 from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._backends import get_backend
 from .object import Object
-from .utils import force_text, is_sql_instance
+from .utils import force_text, is_sql_instance, list_generators
 
 __all__ = ('SqlValue', 'SqlReference')
 
@@ -61,10 +61,7 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        if isinstance(value, types.GeneratorType):
-            # Generators give value only once.
-            value = list(value)
-        self.value = value
+        self.value = list_generators(value)
 
     def __str__(self):
         convert_method = self._get_convert_method()
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 782f26f..4bb158b 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,10 +1,11 @@
 import datetime
 import decimal
+import types
 from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'is_same', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'is_same', 'list_generators', 'check_type_decorator')
 
 
 def force_text(value):
@@ -35,6 +36,19 @@ def is_same(value1, value2):
     return value1 == value2
 
 
+def list_generators(value):
+    """
+    Make lists of generators (also of nested ones) because they give value only once.
+    """
+    if isinstance(value, types.GeneratorType):
+        value = list(value)
+    if isinstance(value, (list, tuple, set, frozenset)):
+        items = [list_generators(item) for item in value]
+        if any(new is not old for new, old in zip(items, value)):
+            return items
+    return value
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index e11f5f4..8e0f899 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -14,7 +14,7 @@ import decimal
 import types
 
 from sqlpuzzle._common.object import Object
-from sqlpuzzle._common.utils import force_text, is_sql_instance
+from sqlpuzzle._common.utils import force_text, is_sql_instance, list_generators
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
@@ -183,7 +183,7 @@ class IN(_RelationValue):
             #  Make list copy of value (if it is possible) because generators
             #+ give value only once. String is not list of its characters.
             if not isinstance(value, (str, bytes)):
-                value = list(value)
+                value = list_generators(list(value))
         except TypeError:
             pass
         super().__init__(value)
-- 
2.43.0


From c6f0ec6e13832aa280edc6765c52d753a743bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 41/41] fix: selects with custom SQL and string of the same
 text in outfile settings are not equal

---
 sqlpuzzle/_queryparts/intooutfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_queryparts/intooutfile.py b/sqlpuzzle/_queryparts/intooutfile.py
index 6e0c307..3cc7de4 100644
--- a/sqlpuzzle/_queryparts/intooutfile.py
+++ b/sqlpuzzle/_queryparts/intooutfile.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlValue, check_type_decorator
+from sqlpuzzle._common import SqlValue, check_type_decorator, is_same
 from .queryparts import QueryPart
 
 __all__ = ('IntoOutfile',)
@@ -30,10 +30,10 @@ class IntoOutfile(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self._into_outfile == other._into_outfile and
-            self._fields_terminated_by == other._fields_terminated_by and
-            self._lines_terminated_by == other._lines_terminated_by and
-            self._optionally_enclosed_by == other._optionally_enclosed_by
+            is_same(self._into_outfile, other._into_outfile) and
+            is_same(self._fields_terminated_by, other._fields_terminated_by) and
+            is_same(self._lines_terminated_by, other._lines_terminated_by) and
+            is_same(self._optionally_enclosed_by, other._optionally_enclosed_by)
         )
 
     @property
-- 
2.43.0

