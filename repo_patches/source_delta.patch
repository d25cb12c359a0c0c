From a7e7a2553c0ddf8cc4193f8d5364b597f4bcd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 01/36] fix: TypeDictionary.valid_data refuses list cells
 instead of raising

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..e764b3e 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -267,7 +267,7 @@ class TypeDictionary(namedtuple("TypeDictionary",
                     ("number_allowed", "inclusive_min", "inclusive_max", "min",
                       "max", "must_be_int", "strings_allowed", "nullable", "datetime"))):
     def valid_data(self, data):
-        if (pd and pd.isnull(data)) or (data is None):
+        if (data is None) or (pd and not containerish(data) and pd.isnull(data)):
             return bool(self.nullable)
         if self.datetime:
             # data is not None and dateutil_adjuster(data) is None will always be invalid, re:less of self.nullable
-- 
2.43.0


From d8ffe74d688b7fd216ef907c08c9e2a6b57053c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 02/36] fix: the primary key filter of find_data_type_failures
 excludes only nulls

---
 ticdat/pandatfactory.py |  4 +---
 ticdat/ticdatfactory.py |  4 +---
 ticdat/utils.py         | 17 ++++++++++++++++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..fa30687 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1130,9 +1130,7 @@ class PanDatFactory(object):
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
                 if pk not in self._data_types.get(t, ()):
-                    tmp_pdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                    tmp_pdf._data_types[t][pk] = utils.NonNullTypeDictionary.safe_creator()
         return tmp_pdf.data_types
     def find_data_type_failures(self, pan_dat, as_table=True, max_failures=float("inf")):
         """
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..9003295 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1877,9 +1877,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
                 if pk not in self._data_types.get(t, ()):
-                    tmp_tdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                    tmp_tdf._data_types[t][pk] = utils.NonNullTypeDictionary.safe_creator()
         number_failures = [0] if max_failures < float("inf") else None
         def populate_rtn():
             def inc_failures_trips_end():
diff --git a/ticdat/utils.py b/ticdat/utils.py
index e764b3e..c02da72 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -262,12 +262,15 @@ def all_fields(tpdf, tbl):
     assert tbl in tpdf.all_tables
     return tpdf.primary_key_fields.get(tbl, ()) + tpdf.data_fields.get(tbl, ())
 
+def _null_cell(data):
+    return (data is None) or bool(pd and not containerish(data) and pd.isnull(data))
+
 # can I get away with ordering this consistently with the function? hopefully I can!
 class TypeDictionary(namedtuple("TypeDictionary",
                     ("number_allowed", "inclusive_min", "inclusive_max", "min",
                       "max", "must_be_int", "strings_allowed", "nullable", "datetime"))):
     def valid_data(self, data):
-        if (data is None) or (pd and not containerish(data) and pd.isnull(data)):
+        if _null_cell(data):
             return bool(self.nullable)
         if self.datetime:
             # data is not None and dateutil_adjuster(data) is None will always be invalid, re:less of self.nullable
@@ -320,6 +323,18 @@ class TypeDictionary(namedtuple("TypeDictionary",
                               min=0, max=float("inf"), inclusive_min=True, inclusive_max=True, must_be_int=False,
                               datetime=False)
 
+class NonNullTypeDictionary(TypeDictionary):
+    """
+    The temporary filter for primary key fields with no explicit data type. Excludes Null and nothing else.
+    """
+    def valid_data(self, data):
+        return not _null_cell(data)
+    @staticmethod
+    def safe_creator():
+        return NonNullTypeDictionary(number_allowed=True, strings_allowed='*', nullable=False, min=-float("inf"),
+                                     max=float("inf"), inclusive_min=True, inclusive_max=True, must_be_int=False,
+                                     datetime=False)
+
 class ForeignKey(namedtuple("ForeignKey", ("native_table", "foreign_table", "mapping", "cardinality"))) :
     def nativefields(self):
         return (self.mapping.native_field,) if type(self.mapping) is ForeignKeyMapping \
-- 
2.43.0


From d6107caa19d21a8273bc74bd0232962d13c1c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 03/36] fix: foreign keys that map one field twice keep every
 field pair

---
 ticdat/pandatfactory.py |  8 ++++----
 ticdat/ticdatfactory.py | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index fa30687..b9aa5b1 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -899,12 +899,12 @@ class PanDatFactory(object):
             verify(all(len(_) == 2 for _ in mappings),
 """when making a compound foreign key, mappings should contain sublists of format
 [native field, foreign field]""")
-            _mappings = {k:v for k,v in mappings}
+            _mappings = {(k,v):True for k,v in mappings}
         else :
             verify(len(mappings) == 2,
 """when making a simple foreign key, mappings should be a list of the form [native field, foreign field]""")
-            _mappings = {mappings[0]:mappings[1]}
-        for k,v in _mappings.items() :
+            _mappings = {tuple(mappings):True}
+        for k,v in _mappings:
             verify(k in self._all_fields(native_table),
                    "%s does not refer to one of %s 's fields"%(k, native_table))
             verify(v in self._all_fields(foreign_table),
@@ -912,7 +912,7 @@ class PanDatFactory(object):
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings))
     def _trigger_has_been_used(self):
         self._has_been_used = True
     def __init__(self, **init_fields):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 9003295..e92cf5c 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -565,12 +565,12 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             verify(all(len(_) == 2 for _ in mappings),
 """when making a compound foreign key, mappings should contain sublists of format
 [native field, foreign field]""")
-            _mappings = {k:v for k,v in mappings}
+            _mappings = {(k,v):True for k,v in mappings}
         else :
             verify(len(mappings) == 2,
 """when making a simple foreign key, mappings should be a list of the form [native field, foreign field]""")
-            _mappings = {mappings[0]:mappings[1]}
-        for k,v in _mappings.items() :
+            _mappings = {tuple(mappings):True}
+        for k,v in _mappings:
             verify(k in self._allFields(native_table),
                    "%s does not refer to one of %s 's fields"%(k, native_table))
             verify(v in self._allFields(foreign_table),
@@ -578,7 +578,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings))
 
     def _simple_fk(self, ftbl, fk):
         assert ftbl in self.all_tables
@@ -586,7 +586,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         assert lupish(fk) and all(lupish(_) and len(_) == 2 for _ in fk)
         ffs = {_[1] for _ in fk}
         assert ffs.issubset(ftbl_pks.union(self.data_fields.get(ftbl,())))
-        return ftbl_pks == ffs
+        return ftbl_pks == ffs and len(fk) == len(ffs)
     def _complex_fks(self):
         return tuple((native, foreign, fk) for (native, foreign), fks in self._foreign_keys.items()
                     for fk in fks if not self._simple_fk(foreign, fk))
@@ -1756,6 +1756,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                      return getcell(native, native_pk, native_data_row, field_name)
                 for fk in fks:
                     foreign_to_native = fk.foreigntonativemapping()
+                    # native fields that share a foreign field with some other native field need to match it
+                    shared = () if type(fk.mapping) is ForeignKeyMapping else \
+                             [(_.native_field, foreign_to_native[_.foreign_field]) for _ in fk.mapping
+                              if foreign_to_native[_.foreign_field] != _.native_field]
                     for native_pk, native_data_row in (getattr(tic_dat, native).items()
                                 if dictish(getattr(tic_dat, native))
                                 else enumerate(getattr(tic_dat, native))):
@@ -1767,7 +1771,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         if ffs == self.primary_key_fields.get(fk.foreign_table) and len(ffs)==1:
                             foreign_look_up = foreign_look_up[0]
                         foreign_look_into = get_table_data(fk.foreign_table, ffs)
-                        if foreign_look_up not in foreign_look_into:
+                        if foreign_look_up not in foreign_look_into or \
+                           any(getcell_(native_pk, native_data_row, nf1) != getcell_(native_pk, native_data_row, nf2)
+                               for nf1, nf2 in shared):
                             rtn_pks[fk].add(native_pk)
                             if type(fk.mapping) is ForeignKeyMapping :
                                 rtn_values[fk].add(getcell_(native_pk, native_data_row,
-- 
2.43.0


From 3a74b9ac24054c672c3e277ceb540cae5f479ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 04/36] fix: frozen tables and linked tables refuse clear,
 popitem, setdefault and in place union

---
 ticdat/ticdatfactory.py |  2 +-
 ticdat/utils.py         | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index e92cf5c..8a6b050 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -757,7 +757,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
diff --git a/ticdat/utils.py b/ticdat/utils.py
index c02da72..a9b98f0 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1019,6 +1019,21 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, other) :
+        self.update(other)
+        return self
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 8d5087df0c4233630218f7e01b98fd2c40da9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 05/36] fix: rows given as dictionaries in a list take the
 declared default values

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 8a6b050..88cd8fc 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -817,7 +817,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                          def handle_row_dict(r):
                              if not utils.dictish(r):
                                  return r
-                             return [r.get(k, 0) for k in superself.primary_key_fields[t] +
+                             dflts = superself.default_values.get(t, {})
+                             return [r.get(k, dflts.get(k, 0)) for k in superself.primary_key_fields[t] +
                                       superself.data_fields.get(t,[])]
                          drf = datarowfactory(t) # lots of verification inside the datarowfactory
                          setattr(self, t, ticdattablefactory(self._all_data_dicts, t)(
-- 
2.43.0


From c8b909d0bc59e37960945a9ab61f42b53ca4957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 06/36] fix: schema clones handle generic, generator and linked
 tables and refuse an empty table list

---
 ticdat/ticdatfactory.py |  6 ++++--
 ticdat/utils.py         | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 88cd8fc..a4724ed 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1384,7 +1384,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
         if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
+            rtn.set_generator_tables([t for t in self.generator_tables
+                                      if table_restrictions is None or t in table_restrictions])
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
@@ -1392,7 +1393,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,
                                                    predicate_kwargs_maker=rpi.predicate_kwargs_maker,
                                                    predicate_failure_response=rpi.predicate_failure_response)
-        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None
+        if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
+            rtn.enable_foreign_key_links()
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
diff --git a/ticdat/utils.py b/ticdat/utils.py
index a9b98f0..6b37c2a 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -181,7 +181,8 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
         return schema
     verify(dictish(schema) and schema.get("tables_fields") and isinstance(schema["tables_fields"], dict),
            "schema has missing or invalid tables_fields entry")
-    table_restrictions = table_restrictions or set(schema["tables_fields"])
+    if table_restrictions is None:
+        table_restrictions = set(schema["tables_fields"])
     verify(containerish(table_restrictions) and table_restrictions and
            all(isinstance(_, str) for _ in table_restrictions), "table_restrictions needs to be a container of strings")
     def clean_up_set_of_str_pairs(x, name):
@@ -193,15 +194,18 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    all_fields = {(t, f) for t, v in schema["tables_fields"].items() if v != '*' for f in v[0] + v[1]}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
-                if t in table_restrictions:
+            for t, t_v in schema[k].items():
+                if t in table_restrictions and t_v == '*': # generic table
+                    rtn[k][t] = t_v
+                elif t in table_restrictions:
+                    pks, dfs = t_v
                     pks = [f for f in pks if (t, f) not in fields_to_remove]
                     dfs = [f for f in dfs if (t, f) not in fields_to_remove]
                     rtn[k][t] = [pks, dfs]
-- 
2.43.0


From 4b15ff5c2e02ca5f9b2c8aee30c9f63a338e2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 07/36] fix: a default value for a primary key field does not
 replace the index of a DataFrame

---
 ticdat/ticdatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index a4724ed..7b7c95e 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -786,10 +786,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                   if t not in superself.generic_tables:
                     badticdattable = []
                     if DataFrame and isinstance(v, DataFrame) and \
-                       set(superself.default_values.get(t, {})).difference(v.columns):
+                       set(superself.default_values.get(t, {})).difference(v.columns, v.index.names):
                         v = v.copy(deep=True)
                         for f, d in superself.default_values.get(t, {}).items():
-                            if f not in v.columns:
+                            if f not in v.columns and f not in v.index.names:
                                 v[f] = d
                     if not (goodticdattable(v, t, lambda x : badticdattable.append(x))) :
                         raise utils.TicDatError(t + " cannot be treated as a ticDat table : " +
-- 
2.43.0


From 25769c03a0e617efc0715eef5284ff4e693844a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 08/36] fix: SQL text escapes a quote at both ends of a string
 and writes nan as null

---
 ticdat/sqlitetd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..e134e08 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -22,7 +22,7 @@ def _fix_str(x):
     """
     rtn = []
     for i,c in enumerate(x):
-        preceeding = x[i-1] if x else ""
+        preceeding = x[i-1] if i > 0 else ""
         following = x[i+1] if i < len(x)-1 else ""
         if c != "'" or "'" in (preceeding, following):
             rtn.append(c)
@@ -36,7 +36,7 @@ def _insert_format(x) :
         return "'%s'"%_fix_str(x)
     if x in (float("inf"), -float("inf")) or isinstance(x, datetime.datetime):
         return "'%s'"%x
-    if x is None:
+    if x is None or x != x: # nan is a null as well, and its text isn't a SQL literal
         return "null"
     return str(x)
 
-- 
2.43.0


From d270537fe8b94462ecc26afcf6fb527a2a7cf6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 09/36] fix: SQLite table ordering terminates for circular
 foreign keys

---
 ticdat/sqlitetd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index e134e08..55c3829 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -240,8 +240,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _ordered_tables(self):
         rtn = []
         fks = self._fks()
+        already_seen = set() # needed to terminate for circular foreign keys
         def processTable(t) :
-            if t not in rtn:
+            if t not in already_seen:
+                already_seen.add(t)
                 for fk in fks.get(t, ()) :
                     processTable(fk.foreign_table)
                 rtn.append(t)
-- 
2.43.0


From b78bec7590fafe3feed65bd55d5c24ba38f7e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 10/36] fix: SQLite rows of tables without primary key are
 written like all the others

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 55c3829..722c9d6 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -301,7 +301,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn.append((str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
-                    k,v = zip(*sqldatarow.items())
+                    k,v = zip(*((f, self._write_data_cell(t, f, x)) for f,x in sqldatarow.items()))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From d95caabb4ac5ee9dca7c0eff648a61a9f6203d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 11/36] fix: default values are rendered as SQL literals in
 SQLite schemas

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 722c9d6..1e7f04c 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -266,7 +266,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         for t in [_ for _ in self._ordered_tables() if _ in tables]:
             str = "Create TABLE [%s] (\n"%t
             strl = _brackets(self.tic_dat_factory.primary_key_fields.get(t, ())) + \
-                   ["[%s] " % f + data_type(t,f) + " default [%s]"%default_(t,f)
+                   ["[%s] " % f + data_type(t,f) + " default %s"%_insert_format(self._write_data_cell(t, f, default_(t,f)))
                     for f in self.tic_dat_factory.data_fields.get(t, ())]
             for fk in fks.get(t, ()) :
                 nativefields, foreignfields = zip(*(fk.nativetoforeignmapping().items()))
-- 
2.43.0


From 995e6184404be38db58927fc8b22c12a04b594f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 12/36] fix: sheets whose first rows are empty keep their last
 rows

---
 ticdat/xls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..1f0ca25 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -64,13 +64,13 @@ class _OpenPyxlSheetWrapper(object):
         self._max_col = sheet.max_column # for performance reasons, need to capture the range on __init__
         self._max_row = sheet.max_row
         if prune_trailing_empty_rows:
-            i = self.nrows-1
+            i = self._max_row-1
             while i >= 0 and all(x is None for x in self.row_values(i)):
                 i -= 1
             self._max_row = i+1
     @property
     def nrows(self):
-        return self._sheet.max_row-self._sheet.min_row+1
+        return self._sheet.max_row # row_values and col_values count from the top of the sheet, empty or not
     def row_values(self, row_index): # openpyxl used 1 based indexing
         return tuple(x.value for x in next(iter(self._sheet.iter_rows(min_row=row_index+1, max_row=row_index+1,
                                                                       min_col=1, max_col=self._max_col))))
-- 
2.43.0


From a47f411bf8457f65b49dace7e01836e322f2cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 13/36] fix: json rows with too many values are refused

---
 ticdat/jsontd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8d58c23..6193a86 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -176,6 +176,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
                 if dictish(row):
                     rtn[t].append({f: tdf._general_read_cell(t, f, x) for f, x in row.items()})
                 else:
+                    verify(len(row) <= len(all_fields), "Too many values in a row for table %s"%t)
                     rtn[t].append([tdf._general_read_cell(t, f, x) for f, x in zip(all_fields, row)])
         return rtn
     def write_file(self, tic_dat, json_file_path, allow_overwrite=False, verbose=False, to_pandas=False):
-- 
2.43.0


From 1d9879d9738a6b29bc96914b6e39736667afc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 14/36] fix: duplicates are found in json tables whatever the
 case and spaces of their names

---
 ticdat/jsontd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 6193a86..c2f9401 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -130,6 +130,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             jdict = self._create_jdict(json_file_path)
             if self._looks_pandas(jdict):
                 return self.find_duplicates(json_file_path, from_pandas=True)
+            jdict = self._create_tic_dat_dict(jdict) # matches the table names the same way as create_tic_dat
         rtn = find_duplicates_from_dict_ticdat(self.tic_dat_factory, jdict)
         return rtn or {}
     def _create_jdict(self, path_or_buf):
-- 
2.43.0


From d64f40304155b11d06858d66ba929391095b1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 15/36] fix: csv overwrite check looks at the file names that
 will be written

---
 ticdat/csvtd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..ca696a5 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,20 +241,21 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
+        case_space_table_names = case_space_table_names and \
+                                 len(set(self.tic_dat_factory.all_tables)) == \
+                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         if not allow_overwrite:
             for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+                f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-        case_space_table_names = case_space_table_names and \
-                                 len(set(self.tic_dat_factory.all_tables)) == \
-                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
             f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
             with open(f, 'w', newline='') as csvfile:
-- 
2.43.0


From cd5474e122b73663bc63bf7c7d433b0f62dc0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 16/36] fix: csv files are read without translating the
 newlines inside their cells

---
 ticdat/csvtd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index ca696a5..fe1b308 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -148,7 +148,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
-            with open(self._get_file_path(dir_path, t), encoding=encoding) as csvfile:
+            with open(self._get_file_path(dir_path, t), encoding=encoding, newline='') as csvfile:
                 for r in self._get_data(csvfile, t, dialect, headers_present):
                     p_key = r[tdf.primary_key_fields[t][0]] \
                             if len(tdf.primary_key_fields[t])==1 else \
@@ -195,12 +195,12 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if table in tdf.generator_tables:
             def rtn() :
-                with open(file_path, encoding=encoding) as csvfile:
+                with open(file_path, encoding=encoding, newline='') as csvfile:
                     for r in self._get_data(csvfile, table, dialect, headers_present):
                         yield tuple(r[_] for _ in tdf.data_fields[table])
         else:
             rtn = {} if tdf.primary_key_fields.get(table) else []
-            with open(file_path, encoding=encoding) as csvfile:
+            with open(file_path, encoding=encoding, newline='') as csvfile:
                 for r in self._get_data(csvfile, table, dialect, headers_present) :
                     if tdf.primary_key_fields.get(table) :
                         p_key = r[tdf.primary_key_fields[table][0]] \
-- 
2.43.0


From bbbd2a2529f6eb7f95baa52fcba027c92d65a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 17/36] fix: trailing empty rows are pruned before empty cells
 are filled or adjusted

---
 ticdat/pandatio.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..e9c30d3 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -556,6 +556,9 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
             raise TicDatError("Unable to open %s as xls file : %s"%(xls_file_path, e))
         for t, s in self._get_sheet_names(xl).items():
             rtn[t] = pd.read_excel(xl, s, dtype=self.pan_dat_factory._dtypes_for_pandas_read(t))
+        if self.pan_dat_factory.xlsx_trailing_empty_rows == "prune": # before the cells are filled or adjusted
+            from ticdat.pandatfactory import remove_trailing_all_nan
+            rtn = {t: remove_trailing_all_nan(df) for t, df in rtn.items()}
         missing_tables = {t for t in self.pan_dat_factory.all_tables if t not in rtn}
         if missing_tables:
             print ("The following table names could not be found in the %s file.\n%s\n"%
@@ -570,12 +573,7 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
         xl.close()
         verify(not missing_fields,
                "The following are (table, field) pairs missing from the %s file.\n%s" % (xls_file_path, missing_fields))
-        rtn = _clean_pandat_creator(self.pan_dat_factory, rtn)
-        if self.pan_dat_factory.xlsx_trailing_empty_rows == "prune":
-            from ticdat.pandatfactory import remove_trailing_all_nan
-            for t in self.pan_dat_factory.all_tables:
-                setattr(rtn, t, remove_trailing_all_nan(getattr(rtn, t)))
-        return rtn
+        return _clean_pandat_creator(self.pan_dat_factory, rtn)
     def _verify_differentiable_sheet_names(self):
         rtn = defaultdict(set)
         for t in self.pan_dat_factory.all_tables:
-- 
2.43.0


From 2576f902acf04b04d5ce41a350f9b9ba02a04a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 18/36] fix: baseConverter yields integer digits

---
 ticdat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 6b37c2a..d5a9ce0 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -980,9 +980,9 @@ def baseConverter(number, base):
     while power * base <= number:
         power *= base
     while power >= base :
-        rtn.append(number / power)
-        number -= power * (number/power)
-        power /= base
+        rtn.append(number // power)
+        number -= power * (number//power)
+        power //= base
     rtn.append(number%base)
     return rtn
 
-- 
2.43.0


From 0defa0d1c9a6764f3c0b66322e8be1d642356a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 19/36] fix: obfusimplify renames references to primary keys
 only

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7b7c95e..15d4544 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2188,7 +2188,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             if fk.foreign_table in table_prepends:
                 foreign_keys = utils.dict_overlay(foreign_keys,
                                 {(nt,nf) : fk.foreign_table for nf, ff in
-                                  fk.nativetoforeignmapping().items()})
+                                  fk.nativetoforeignmapping().items()
+                                  if (ff,) == better_self.primary_key_fields[fk.foreign_table]})
         # remember -- we've used this factory so any cascading foreign keys are present
         rtn_dict  = clt.defaultdict(dict)
         for t in better_self.all_tables:
-- 
2.43.0


From b0a0dd93ec7c9fab5a4aa4f2a01e7135a92ce97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 20/36] fix: implied foreign keys always map at least one field

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 15d4544..8349f22 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -534,7 +534,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if newnativeft and newnativeft not in fkSet and \
+                       self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
-- 
2.43.0


From efc2f444ab658051e244793c65d9178bba8d1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 21/36] fix: default values that are refused leave the other
 tables as they were

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index b9aa5b1..7d3ecdb 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -831,6 +831,8 @@ class PanDatFactory(object):
             verify(dictish(v) and set(v).issubset(self.data_fields[k] + self.primary_key_fields[k]),
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
+            verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in table_defaults.items(): # only once all of them have been verified
             for f, dv in v.items():
                 self.set_default_value(k, f, dv)
 
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 8349f22..b02ee2d 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -439,6 +439,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
             verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in tableDefaults.items(): # only once all of them have been verified
             self._default_values[k] = dict(self._default_values[k], **v)
     def set_generator_tables(self, g):
         """
-- 
2.43.0


From 992f72ea1e0c007f452f5fd0cbc7d92aaed72355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 22/36] fix: a parameters table without declared parameters is
 read as it is written

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b02ee2d..92f1931 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1035,7 +1035,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return: x, adjusted as required
         '''
         assert t in self.all_tables
-        if t == "parameters": # infinity flagging doesn't apply to parameters table, see set_infinity_flag __doc__
+        if t == "parameters" and self._parameters: # see set_infinity_flag __doc__, and _infinity_flag_write_cell
             return x
         # SPEED IS IMPORTANT HERE!!!!
         dt = self._data_types.get(t, {}).get(f)
-- 
2.43.0


From da199d0430547538d248f845e6b44d04a8764a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 23/36] fix: tables whose truncated sheet names differ only by
 case are refused

---
 ticdat/pandatio.py | 2 +-
 ticdat/xls.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index e9c30d3..82e8a13 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -577,7 +577,7 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     def _verify_differentiable_sheet_names(self):
         rtn = defaultdict(set)
         for t in self.pan_dat_factory.all_tables:
-            rtn[t[:_longest_sheet]].add(t)
+            rtn[t[:_longest_sheet].lower()].add(t)
         rtn = [v for k,v in rtn.items() if len(v) > 1]
         verify(not rtn, "The following tables collide when names are truncated to %s characters.\n%s"%
                (_longest_sheet, sorted(map(sorted, rtn))))
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 1f0ca25..bac24c7 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -169,7 +169,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     def _verify_differentiable_sheet_names(self):
         rtn = defaultdict(set)
         for t in self.tic_dat_factory.all_tables:
-            rtn[t[:_longest_sheet]].add(t)
+            rtn[t[:_longest_sheet].lower()].add(t)
         rtn = [v for k,v in rtn.items() if len(v) > 1]
         verify(not rtn, "The following tables collide when names are truncated to %s characters.\n%s"%
                (_longest_sheet, sorted(map(sorted, rtn))))
-- 
2.43.0


From 329dcc5232c2d94ebb56e8a39a29cec3ba35555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 24/36] fix: flags, types and defaults apply when writing data
 with generic tables

---
 ticdat/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index d5a9ce0..b4d66d2 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -857,11 +857,15 @@ def create_generic_free(td, tdf):
     assert tdf.good_tic_dat_object(td)
     if not tdf.generic_tables:
         return td, tdf
-    sch = {k:v for k,v in tdf.schema().items() if k not in tdf.generic_tables}
-    for t in tdf.generic_tables:
-        if len(getattr(td, t)):
-            sch[t] = [[],list(getattr(td, t).columns)]
-    rtn_tdf = ticdat.TicDatFactory(**sch)
+    generic_fields = {t: list(getattr(td, t).columns) for t in tdf.generic_tables if len(getattr(td, t))}
+    other_tables = set(tdf.all_tables).difference(tdf.generic_tables)
+    if other_tables: # the flags, types and defaults of the other tables need to be applied when writing
+        rtn_tdf = tdf.clone(table_restrictions=other_tables)
+        for t, fields in generic_fields.items():
+            rtn_tdf = rtn_tdf.clone_add_a_table(t, [], fields)
+    else:
+        rtn_tdf = ticdat.TicDatFactory(**{t: [[], fields] for t, fields in generic_fields.items()})
+        rtn_tdf.set_infinity_io_flag(tdf.infinity_io_flag)
     return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
-- 
2.43.0


From 41fb31303333db91367cd651a38179045d12f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 25/36] fix: copies of data objects with generic tables are
 deep copies

---
 ticdat/ticdatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 92f1931..134cb15 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -783,7 +783,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-                        setattr(self, t, DataFrame(init_tables[t]))
+                        setattr(self, t, DataFrame(init_tables[t]).copy(deep=True))
                 for t,v in init_tables.items():
                   if t not in superself.generic_tables:
                     badticdattable = []
@@ -1659,7 +1659,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for tname in table_restrictions:
             tdtable = getattr(tic_dat, tname)
             if tname in self.generic_tables:
-                df = tname
+                df = tdtable.copy(deep=True)
             elif len(tdtable) == 0 :
                 df = DataFrame([], columns = self.primary_key_fields.get(tname,tuple()) +
                                                 self.data_fields.get(tname, tuple()))
-- 
2.43.0


From 06a55f88e735479332b225752f28bc7a901fa673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 26/36] fix: the full parameters dictionary takes entries whose
 names are not strings

---
 ticdat/pandatfactory.py | 2 +-
 ticdat/ticdatfactory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 7d3ecdb..153b3a7 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1510,7 +1510,7 @@ class PanDatFactory(object):
                     for k,v in self._parameters.items() for df in [v.default_value]
                     for dt in [utils.dateutil_adjuster(df)]}
         df = dat.parameters[list(self.primary_key_fields["parameters"]) + list(self.data_fields["parameters"])]
-        return dict(defaults, **{k: v for k,v in df.itertuples(index=False)})
+        return utils.dict_overlay(defaults, {k: v for k,v in df.itertuples(index=False)})
 
     def remove_foreign_key_failures(self, pan_dat):
         """
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 134cb15..d2cb451 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1811,7 +1811,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         defaults = {k: dt if dt is not None and v.type_dictionary and v.type_dictionary.datetime else df
                     for k,v in self._parameters.items() for df in [v.default_value]
                     for dt in [utils.dateutil_adjuster(df)]}
-        return dict(defaults, **{k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()})
+        return utils.dict_overlay(defaults, {k: v[self.data_fields["parameters"][0]] for k,v in dat.parameters.items()})
 
     def remove_foreign_key_failures(self, tic_dat, propagate=True):
         """
-- 
2.43.0


From 499b172d0a4eb79834867a399b37a6738c29eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 27/36] fix: a DataFrame parameters table without declared
 parameters follows the infinity flag

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 153b3a7..50bb49b 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -462,7 +462,7 @@ class PanDatFactory(object):
                 return x
             return float("inf") if x >= self.infinity_io_flag else \
                 (-float("inf") if x <= -self.infinity_io_flag else x)
-        for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
+        for t in set(self.all_tables).difference(["parameters"] if self.parameters else []): # see below for parameters
             df = getattr(dat, t)
             all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
             if utils.numericish(self.infinity_io_flag):
@@ -540,7 +540,7 @@ class PanDatFactory(object):
         if self.infinity_io_flag == "N/A":
             return rtn
         apply = utils.faster_df_apply
-        for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
+        for t in set(self.all_tables).difference(["parameters"] if self.parameters else []): # see above for parameters
             df = getattr(rtn, t)
             all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
             fields_w_issues = set()
-- 
2.43.0


From e71cfa13f84d7da05c6ca952ae525a821c6779ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 28/36] fix: integers too big for a float are read exactly and
 booleans are not read as numbers

---
 ticdat/csvtd.py         |  4 ++--
 ticdat/pandatfactory.py |  4 ++--
 ticdat/ticdatfactory.py |  4 ++--
 ticdat/utils.py         | 11 +++++++++++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index fe1b308..2e1f19a 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -4,7 +4,7 @@ PEP8
 """
 
 import os
-from ticdat.utils import DataFrame, create_generic_free, numericish, case_space_to_pretty
+from ticdat.utils import DataFrame, create_generic_free, numericish, case_space_to_pretty, read_number
 from ticdat.utils import freezable_factory, TicDatError, verify, containerish, dictish
 from collections import defaultdict
 from itertools import product
@@ -101,7 +101,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                                (table in self.tic_dat_factory.generic_tables)
             if should_try_float:
                 try:
-                    x = float(x)
+                    x = read_number(x)
                     if int(x) == x and dt and dt.must_be_int:
                         x = int(x)
                 except:
diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 50bb49b..42bc234 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -448,7 +448,7 @@ class PanDatFactory(object):
         '''
         assert push_parameters_to_be_valid or not json_read, "json_read should always push_parameters_to_be_valid"
         def _multitype_cell_adj(x):
-            _x = safe_apply(float)(x)
+            _x = safe_apply(utils.read_number)(x)
             return x if _x is None else _x
         def _datetime_cell_adj(x):
             _x = utils.dateutil_adjuster(x)
@@ -512,7 +512,7 @@ class PanDatFactory(object):
                        _can_parameter_have_data(key, str(value)):
                         return str(value) # this is a bit of extreme defensive programming, not covered by unittests
                     return value
-                number_v = safe_apply(float)(value)
+                number_v = safe_apply(utils.read_number)(value)
                 if number_v is not None and safe_apply(int)(number_v) == number_v:
                     number_v = int(number_v)
                 return value if number_v is None else number_v
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index d2cb451..bf48939 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1043,7 +1043,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             utils.dateutil_adjuster(x) is not None:
             return utils.dateutil_adjuster(x)
         if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and self.automunge_multitype_fields:
-            _x = safe_apply(float)(x)
+            _x = safe_apply(utils.read_number)(x)
             x = x if _x is None else _x
         if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
             if x >= self.infinity_io_flag:
@@ -1108,7 +1108,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 if td and not td.number_allowed:
                     number_allowed = False
                 if number_allowed:
-                    number_v = utils.safe_apply(float)(v[data_field])
+                    number_v = utils.safe_apply(utils.read_number)(v[data_field])
                     if number_v is not None and utils.safe_apply(int)(number_v) == number_v:
                         number_v = int(number_v)
                     dat.parameters[k] = number_v if number_v is not None else v[data_field]
diff --git a/ticdat/utils.py b/ticdat/utils.py
index b4d66d2..f5ba944 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -962,6 +962,17 @@ def safe_apply(f) :
             return None
     return _rtn
 
+def read_number(x):
+    '''
+    :param x: typically text read from a file
+    :return: the number x reads as. A float, except for integers that a float cannot hold exactly. Boolean values aren't
+             numbers. Will raise if x can't be read as a number.
+    '''
+    verify(not isinstance(x, bool), "booleans aren't numbers")
+    rtn = float(x)
+    exact = safe_apply(int)(x) if stringish(x) or isinstance(x, int) else None
+    return rtn if exact is None or exact == rtn else exact
+
 def dictish(x):
     '''
     !WATCH OUT! a pandas.DataFrame qualifies as dictish. Probably a dumb subroutine.
-- 
2.43.0


From cec59ccd2249173170213869c3511d81c781617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 29/36] fix: replacement values work for DataFrame primary key
 fields without default value

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 42bc234..9318208 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1228,8 +1228,8 @@ class PanDatFactory(object):
         for table, type_row in self._true_data_types().items():
             for field in type_row:
                 if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                    real_replacements[table, field] = replacement_values[table, field] \
+                        if (table, field) in replacement_values else self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From 8b292daa831171956468640ae3d1cc9932a77e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 30/36] fix: DataFrame foreign key check handles fields that
 share names across the two tables

---
 ticdat/pandatfactory.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 9318208..5c4338e 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1462,14 +1462,13 @@ class PanDatFactory(object):
                 _ += 1
             magic_field = "_%s_"%_
             if all(hasattr(mappings, _) for _ in ["native_field", "foreign_field"]):
-                parent = parent.drop_duplicates(mappings.foreign_field, inplace=False).copy(deep=True)
-                parent[mappings.native_field] = parent[mappings.foreign_field]
-                new_index = mappings.native_field
-            else:
-                parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False).copy(deep=True)
-                for _ in mappings:
-                    parent[_.native_field] = parent[_.foreign_field]
-                new_index = [_.native_field for _ in mappings]
+                mappings = (mappings,)
+            parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False)
+            # the index columns get their own names, since the native fields might also be foreign table fields
+            new_index = [magic_field*3 + str(i) for i, _ in enumerate(mappings)]
+            parent = DataFrame({i: parent[_.foreign_field] for i, _ in zip(new_index, mappings)})
+            for i, _ in zip(new_index, mappings):
+                child[i] = child[_.native_field]
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
             parent[magic_field] = True
             child.insert(0, magic_field*2, range(0, len(child)))
-- 
2.43.0


From ce02c28ec693926146ae413fa4ad39c06b93c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 31/36] fix: generic SQLite tables whose name has spaces are
 read with their columns

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 1e7f04c..3a00ee7 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -222,7 +222,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From dbbcac60584d7fbc69780da8d0a2afab2b510e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 32/36] fix: relative difference is symmetric when one of the
 numbers is infinite

---
 ticdat/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index f5ba944..0344d24 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1358,8 +1358,8 @@ def per_error(x1, x2) :
     x2 = float(x2) if numericish(x2) else x2
     if (x1 < 0) and (x2 < 0) :
         return per_error(-x1, -x2)
-    if x1 == float("inf") :
-        return 0 if (x2 == float("inf")) else x1
+    if float("inf") in (abs(x1), abs(x2)) :
+        return 0 if x1 == x2 else float("inf")
     SMALL_NOT_ZERO = 1e-10
     assert(EPSILON>SMALL_NOT_ZERO)
     abs1 = abs(x1)
-- 
2.43.0


From c3505d5a575cba76b7019b2bb1149a59c4fe14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 33/36] fix: progress accepts bounds that are both infinite

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 0344d24..b6922cd 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1285,7 +1285,7 @@ class Progress(object):
         verify(stringish(theme), "type_ needs to be string")
         verify(all(map(numericish, (lower_bound, upper_bound))),
                "lower_bound, upper_bound need to be numeric")
-        verify(lower_bound - abs(lower_bound) * .00001 <= upper_bound,
+        verify(lower_bound <= upper_bound or lower_bound - abs(lower_bound) * .00001 <= upper_bound,
                "lower_bound can't be bigger than upper_bound")
         if not self._quiet:
              print("%s:%s:%s"%(theme.ljust(30), "{:.5f}".format(lower_bound).ljust(20),
-- 
2.43.0


From 1165eacaf84e28741fe4154ce6757f706cfa66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 34/36] fix: dates that are pandas Timestamps can be written to
 SQLite databases

---
 ticdat/sqlitetd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 3a00ee7..c69de72 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -280,6 +280,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _write_data_cell(self, t, f, x):
         if x is True or x is False:
             return str(x)
+        if isinstance(x, datetime.datetime): # sqlite3 can't bind subclasses like pandas.Timestamp
+            return str(x) if x == x else None
         return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
     def _get_data(self, tic_dat, as_sql):
         rtn = []
-- 
2.43.0


From 0c365e442e11260036f38f783e47b9ab72485d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 35/36] fix: DataFrames can hold dates in mixed columns when
 written to SQLite

---
 ticdat/pandatio.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 82e8a13..300dd8f 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -26,6 +26,15 @@ def _sql_con(dbFile):
     con = sql.connect(dbFile)
     return con
 
+def _dates_as_text(df):
+    # sqlite3 can't bind the pandas.Timestamp values that a DataFrame holds in its mixed type columns
+    is_date = lambda x: isinstance(x, datetime.datetime) and not pd.isnull(x)
+    rtn = df.copy()
+    for f in df.columns:
+        if df[f].dtype == object and any(map(is_date, df[f])):
+            rtn[f] = pd.Series([str(x) if is_date(x) else x for x in df[f]], dtype=object, index=df.index)
+    return rtn
+
 class _DummyContextManager(object):
     def __init__(self, *args, **kwargs):
         pass
@@ -496,8 +505,8 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         with con_maker() as _:
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
-                getattr(pan_dat, t).to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
-                                           con=con_, if_exists=if_exists, index=False)
+                _dates_as_text(getattr(pan_dat, t)).to_sql(name=case_space_to_pretty(t) if case_space_table_names
+                                                           else t, con=con_, if_exists=if_exists, index=False)
 
 class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     """
-- 
2.43.0


From 92c9bd53af08d8ea348327b7bc4a29dbd9f0b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 36/36] fix: a generator table made from a list is not taken
 for lost duplicate rows

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index bf48939..54fc84d 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -853,7 +853,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 if init_tables :
                     self._try_make_foreign_links()
                 if superself.duplicates_ticdat_init != "ignore":
-                    dups = {k for k, v in lens.items() for l in [utils.safe_apply(len)(getattr(self, k))]
+                    dups = {k for k, v in lens.items() if k not in superself.generator_tables
+                            for l in [utils.safe_apply(len)(getattr(self, k))]
                             if v > (l or 0)}
                     assert superself.duplicates_ticdat_init == "warn" or not dups, \
                         f"Duplicate rows found in initialization of following tables: {dups}"
-- 
2.43.0

