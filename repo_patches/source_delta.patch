From 27edf852c9262c5fcaac005effedb344c60da462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 01/28] fix: set_default_values checks every table before it
 changes any default

---
 ticdat/pandatfactory.py | 4 +++-
 ticdat/ticdatfactory.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..1906741 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -831,8 +831,10 @@ class PanDatFactory(object):
             verify(dictish(v) and set(v).issubset(self.data_fields[k] + self.primary_key_fields[k]),
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
+            verify(all(utils.acceptable_default(dv) for dv in v.values()), "some default values are unacceptable")
+        for k,v in table_defaults.items():
             for f, dv in v.items():
-                self.set_default_value(k, f, dv)
+                self._default_values[k][f] = dv
 
     def clear_foreign_keys(self, native_table = None):
         """
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..a372660 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -439,6 +439,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
             verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in tableDefaults.items():
             self._default_values[k] = dict(self._default_values[k], **v)
     def set_generator_tables(self, g):
         """
-- 
2.43.0


From 838aa9dfcd392cffacd925e4422f315d8f8c25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 02/28] fix: freezing a data object freezes its foreign key
 link dictionaries

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index a372660..585815a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -758,7 +758,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
-- 
2.43.0


From 25d6de4d966eac99007dc96774c4ab01f03e3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 03/28] fix: clear, popitem, setdefault and |= respect a frozen
 dictionary

---
 ticdat/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..504d277 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1004,6 +1004,22 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, other) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).__ior__(other)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 15148d9162451451b6703cfee3d58496ed0941a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 04/28] fix: csv write_directory checks for overwrites the file
 names it actually writes

---
 ticdat/csvtd.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..5354c0b 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -246,18 +246,19 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
+        case_space_table_names = case_space_table_names and \
+                                 len(set(self.tic_dat_factory.all_tables)) == \
+                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
+        def file_path(t):
+            return os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
         if not allow_overwrite:
             for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+                f = file_path(t)
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-        case_space_table_names = case_space_table_names and \
-                                 len(set(self.tic_dat_factory.all_tables)) == \
-                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
-            f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
-            with open(f, 'w', newline='') as csvfile:
+            with open(file_path(t), 'w', newline='') as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
-- 
2.43.0


From 5516cf0f35d4c6d2afa3652247518cdaea62f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 05/28] fix: csv write_directory honours case_space_table_names
 when there are generic tables

---
 ticdat/csvtd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 5354c0b..b28cdd9 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,7 +241,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
-- 
2.43.0


From 47a5b9b48a75db3dd3834c0d9d9083ddd5abfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 06/28] fix: writing data with generic tables keeps the
 infinity flag, parameters and defaults of the schema

---
 ticdat/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 504d277..ea2475f 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -838,11 +838,15 @@ def create_generic_free(td, tdf):
     assert tdf.good_tic_dat_object(td)
     if not tdf.generic_tables:
         return td, tdf
-    sch = {k:v for k,v in tdf.schema().items() if k not in tdf.generic_tables}
+    sch = tdf.schema(include_ancillary_info=True)
+    tables_fields = {k:v for k,v in sch["tables_fields"].items() if k not in tdf.generic_tables}
     for t in tdf.generic_tables:
         if len(getattr(td, t)):
-            sch[t] = [[],list(getattr(td, t).columns)]
-    rtn_tdf = ticdat.TicDatFactory(**sch)
+            tables_fields[t] = [[],list(getattr(td, t).columns)]
+    sch["tables_fields"] = tables_fields
+    sch["tooltips"] = {t:tips for t,tips in sch["tooltips"].items() if t in tables_fields}
+    rtn_tdf = ticdat.TicDatFactory.create_from_full_schema(sch)
+    rtn_tdf.set_generator_tables(tdf.generator_tables)
     return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
-- 
2.43.0


From 4422c137f24f13b8ab803a4f723c3428c6a7d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 07/28] fix: SQLite writing adjusts the cells of tables without
 a primary key

---
 ticdat/sqlitetd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..7da7473 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -299,7 +299,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn.append((str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
-                    k,v = zip(*sqldatarow.items())
+                    k = tuple(sqldatarow.keys())
+                    v = tuple(self._write_data_cell(t, f, x) for f,x in sqldatarow.items())
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From 1413b56835441dd9a37028556ff03675d4a603aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 08/28] fix: SQLite reading looks up the columns of a generic
 table under its name in the file

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 7da7473..103bdaa 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -222,7 +222,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From a0a8d024bb1f9188bec30e5039b4caaad4a38510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 09/28] fix: write_sql_file refuses an object that does not
 match the schema

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 103bdaa..eab8776 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -375,6 +375,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                   is being applied). True/False are written as "True", "False"
         """
         verify(sql, "sqlite3 needs to be installed to use this subroutine")
+        msg = []
+        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
+            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         verify(allow_overwrite or not os.path.exists(sql_file_path),
                "The %s path exists and overwrite is not allowed"%sql_file_path)
         must_schema = set(self.tic_dat_factory.all_tables if include_schema else [])
-- 
2.43.0


From d3b104ab16a902a0246d8a51619975bfd57797df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 10/28] fix: Access writing adjusts the cells of keyed tables
 under their own field names

---
 ticdat/mdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 459dda8..a419d8f 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -318,12 +318,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
                     for pk_row, sql_data_row in _t.items() :
                         _items = tuple(sql_data_row.items())
-                        fields = _brackets(primary_keys + tuple(x[0] for x in _items))
+                        fields = primary_keys + tuple(x[0] for x in _items)
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
                         str = "INSERT INTO %s (%s) VALUES (%s)"%\
-                              (t, ",".join(fields), ",".join("?" for _ in fields))
+                              (t, ",".join(_brackets(fields)), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-- 
2.43.0


From 07b24d8cf6419251dbc4337ef6b8a2dc1c952623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 11/28] fix: Excel reading applies the infinity flag to generic
 tables, as Excel writing does

---
 ticdat/xls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..d356ffc 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -161,7 +161,8 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             pdf = PanDatFactory(**{t: '*' for t in self.tic_dat_factory.generic_tables})
             pandat = pdf.xls.create_pan_dat(xls_file_path)
             for t in self.tic_dat_factory.generic_tables:
-                rtn[t] = getattr(pandat, t)
+                df = getattr(pandat, t)
+                rtn[t] = utils.DataFrame({f: [tdf._general_read_cell(t, f, x) for x in df[f]] for f in df.columns})
         rtn = tdf._parameter_table_post_read_adjustment(tdf.TicDat(**rtn))
         if freeze_it:
             return self.tic_dat_factory.freeze_me(rtn)
-- 
2.43.0


From d6fb5aedc0a549a91350bb9984e47fd9267b2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 12/28] fix: the infinity flag covers the generic tables of a
 PanDatFactory

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 1906741..bf144a6 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -464,7 +464,7 @@ class PanDatFactory(object):
                 (-float("inf") if x <= -self.infinity_io_flag else x)
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(dat, t)
-            all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
+            all_fields = self._all_fields(t) or tuple(df.columns) # generic tables have whatever columns they have
             if utils.numericish(self.infinity_io_flag):
                 fields_w_issues = set()
                 def find_fields_w_issues(row):
@@ -542,7 +542,7 @@ class PanDatFactory(object):
         apply = utils.faster_df_apply
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(rtn, t)
-            all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
+            all_fields = self._all_fields(t) or tuple(df.columns) # generic tables have whatever columns they have
             fields_w_issues = set()
             if utils.numericish(self.infinity_io_flag):
                 def find_fields_w_issues(row):
-- 
2.43.0


From 89afba1a78d94d6708a85ed26c8f01298e58d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 13/28] fix: pan dat json write_file handles generic tables

---
 ticdat/pandatio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..fad7d0f 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -169,10 +169,13 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 return str(x)
             return x
 
-        for t, (pks, dfs) in self.pan_dat_factory.schema().items():
+        for t in self.pan_dat_factory.all_tables:
             jdict[t] = []
+            fields = all_fields(self.pan_dat_factory, t)
+            generic_fields = [] if fields else list(getattr(pan_dat, t).columns)
             def append_row_list(row):
-                jdict[t].append([fix_cell(row[f]) for f in pks + dfs])
+                jdict[t].append([fix_cell(row[f]) for f in fields] if fields else
+                                {f: fix_cell(row[f]) for f in generic_fields})
             faster_df_apply(getattr(pan_dat, t), append_row_list)
         if not json_file_path:
             return json.dumps(jdict, sort_keys=True, indent=2)
-- 
2.43.0


From c6e091155dde16e6e922aff588e6fe43c6bbcb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 14/28] fix: run sql scripts without splitting them on
 semicolons inside string values

---
 ticdat/sqlitetd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index eab8776..2562881 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -142,8 +142,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                                                 difference(tdf.generic_tables)):
                     con.execute(str)
             with open(sql_file_path, "r") as f:
-                for str in f.read().split(";"):
-                    con.execute(str)
+                con.executescript(f.read())
             return self._create_tic_dat_from_con(con,
                         {t:t for t in self.tic_dat_factory.all_tables})
     def _get_table_names(self, db_file_path, tables):
-- 
2.43.0


From faa4795d1bd6b6ea4037a56b5894149b636c3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 15/28] fix: write dates as quoted text and NaN as null into
 sql scripts

---
 ticdat/sqlitetd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 2562881..1820fa9 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -34,9 +34,9 @@ def _insert_format(x) :
     # note that [1==True, 0==False, 1 is not True, 0 is not False] is all part of Python
     if stringish(x):
         return "'%s'"%_fix_str(x)
-    if x in (float("inf"), -float("inf")) or isinstance(x, datetime.datetime):
+    if x in (float("inf"), -float("inf")) or isinstance(x, (datetime.date, datetime.timedelta)):
         return "'%s'"%x
-    if x is None:
+    if x is None or x != x:
         return "null"
     return str(x)
 
-- 
2.43.0


From 1ef9ea16f13c8c159c5552cf1462ace9e0df7dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 16/28] fix: table and field names containing a percent sign in
 sql scripts

---
 ticdat/sqlitetd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 1820fa9..5d6e1c1 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -291,9 +291,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                     assert len(datarow) == len(fields)
                     datarow = tuple(self._write_data_cell(t, f, x) for f,x in zip(fields, datarow))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%(t, ",".join(_brackets(fields)),
-                          ",".join("%s" if as_sql else "?" for _ in fields))
+                          ",".join(map(_insert_format, datarow) if as_sql else ("?" for _ in fields)))
                     if as_sql:
-                        rtn.append((str%tuple(map(_insert_format, datarow))) + ";")
+                        rtn.append(str + ";")
                     else:
                         rtn.append((str, datarow))
             else :
@@ -302,9 +302,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                     v = tuple(self._write_data_cell(t, f, x) for f,x in sqldatarow.items())
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
-                                ["%s" if as_sql else "?"]*len(sqldatarow)))
+                                map(_insert_format, v) if as_sql else ["?"]*len(sqldatarow)))
                     if as_sql:
-                        rtn.append((str%tuple(map(_insert_format, v))) + ";")
+                        rtn.append(str + ";")
                     else:
                         rtn.append((str,v))
         return tuple(rtn)
-- 
2.43.0


From 96efc1699a1ba594b1579e9d8c8611a2d1837ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 17/28] fix: raise the error for postgres fields that allow
 neither text nor numbers

---
 ticdat/pgtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index a29ee70..7aabac4 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -141,7 +141,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 else:
                     return 'float'
             else:
-                TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
+                raise TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
 
         def db_default(t, f):
             rtn = self.tdf.default_values[t][f]
-- 
2.43.0


From 3ea0f9df2ce01fa8996ef00821ac1c2a4705bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 18/28] fix: double the quotes of text defaults in the postgres
 schema sql

---
 ticdat/pgtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 7aabac4..b4ec548 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -152,7 +152,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
             if numericish(rtn) and abs(rtn) == float("inf") and numericish(self.tdf.infinity_io_flag):
                 return math.copysign(self.tdf.infinity_io_flag, rtn)
             if stringish(rtn) and rtn:
-                return f"'{rtn}'"
+                return "'%s'" % rtn.replace("'", "''")
             return rtn
 
         def nullable(t, f):
-- 
2.43.0


From 18e899a21084d3ae274ed932106975b8840c155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 19/28] fix: do not apply the infinity flag when writing an
 undeclared parameters table

---
 ticdat/ticdatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 585815a..64fca40 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1059,9 +1059,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :param x: cell value which might need to be adjusted
         :return: x, adjusted as required
         """
-        if t == "parameters" and self._parameters: # SPEED IS IMPORTANT
+        if t == "parameters": # infinity flagging doesn't apply to parameters table. SPEED IS IMPORTANT
             # I will assume a parameters table without parameters specification is just a naive developer
-            return None if x is None or (utils.pd and utils.pd.isnull(x)) else x
+            return None if self._parameters and (x is None or (utils.pd and utils.pd.isnull(x))) else x
         if self.infinity_io_flag is None and (self._none_as_infinity_bias(t, f) or float("nan"))*float("inf") == x:
             return None
         if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
-- 
2.43.0


From c5a9ae2a712b63bf4689ffb5e7d245b58fb451ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 20/28] fix: apply the infinity flag to numbers read as text in
 mixed-type PanDat fields

---
 ticdat/pandatfactory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index bf144a6..4dbbe9b 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -465,6 +465,11 @@ class PanDatFactory(object):
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(dat, t)
             all_fields = self._all_fields(t) or tuple(df.columns) # generic tables have whatever columns they have
+            for f in all_fields: # before the infinity flag, which applies to numbers
+                dt = self.data_types.get(t, {}).get(f, None)
+                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
+                    self.automunge_multitype_fields:
+                    df[f] = df[f].apply(_multitype_cell_adj)
             if utils.numericish(self.infinity_io_flag):
                 fields_w_issues = set()
                 def find_fields_w_issues(row):
@@ -476,9 +481,6 @@ class PanDatFactory(object):
                     df[f] = df[f].apply(_inf_cell_adj)
             for f in all_fields:
                 dt = self.data_types.get(t, {}).get(f, None)
-                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
-                    self.automunge_multitype_fields:
-                    df[f] = df[f].apply(_multitype_cell_adj)
                 if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)):
                     assert self.infinity_io_flag is None
                     df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")
-- 
2.43.0


From 8adba26ca88cde0b72b6551e104937c6cf6e1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 21/28] fix: primary key fields without a data type fail the
 data type scan only when null

---
 ticdat/pandatfactory.py |  4 +---
 ticdat/ticdatfactory.py |  4 +---
 ticdat/utils.py         | 10 ++++++++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 4dbbe9b..7a8c0ff 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1134,9 +1134,7 @@ class PanDatFactory(object):
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
                 if pk not in self._data_types.get(t, ()):
-                    tmp_pdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                    tmp_pdf._data_types[t][pk] = TypeDictionary.not_null()
         return tmp_pdf.data_types
     def find_data_type_failures(self, pan_dat, as_table=True, max_failures=float("inf")):
         """
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 64fca40..07c7461 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1878,9 +1878,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
                 if pk not in self._data_types.get(t, ()):
-                    tmp_tdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                    tmp_tdf._data_types[t][pk] = TypeDictionary.not_null()
         number_failures = [0] if max_failures < float("inf") else None
         def populate_rtn():
             def inc_failures_trips_end():
diff --git a/ticdat/utils.py b/ticdat/utils.py
index ea2475f..28496b7 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -296,6 +296,12 @@ class TypeDictionary(namedtuple("TypeDictionary",
             return data in self.strings_allowed
         return False
     @staticmethod
+    def not_null():
+        """the temporary filter for the primary key fields with no explicit data type : excludes only Null"""
+        return _NotNullTypeDictionary(number_allowed=True, inclusive_min=True, inclusive_max=True,
+            min=-float("inf"), max=float("inf"), must_be_int=False, strings_allowed='*', nullable=False,
+            datetime=False)
+    @staticmethod
     def safe_creator(number_allowed, inclusive_min, inclusive_max, min, max,
                       must_be_int, strings_allowed, nullable, datetime=False):
         verify(dateutil or pd or not datetime,
@@ -332,6 +338,10 @@ class ForeignKey(namedtuple("ForeignKey", ("native_table", "foreign_table", "map
     def nativetoforeignmapping(self):
         return {v:k for k,v in self.foreigntonativemapping().items()}
 
+class _NotNullTypeDictionary(TypeDictionary):
+    def valid_data(self, data):
+        return not ((pd and pd.isnull(data)) or (data is None))
+
 ForeignKeyMapping = namedtuple("FKMapping", ("native_field", "foreign_field"))
 
 # likely replace this with some sort of sys.platform call that makes a good guess
-- 
2.43.0


From 97ab845e712a283ffd56346a1b4bdcda0ea62532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 22/28] fix: PanDatFactory.replace_data_type_failures with a
 replacement but no default

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 7a8c0ff..96ed520 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1230,8 +1230,8 @@ class PanDatFactory(object):
         for table, type_row in self._true_data_types().items():
             for field in type_row:
                 if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                    real_replacements[table, field] = replacement_values[table, field] \
+                        if (table, field) in replacement_values else self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From c95b490aea3cf3311b8facfa3c8ed6276e7ca45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 23/28] fix: row predicates sharing a keyword argument maker
 shared its result across converted and unconverted data

---
 ticdat/pandatfactory.py | 7 ++++---
 ticdat/ticdatfactory.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 96ed520..1d39313 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1344,7 +1344,8 @@ class PanDatFactory(object):
                                 converted_dat.append(f"Exception<{e}>")
                         else:
                             converted_dat.append(self._convert_dat[0](pan_dat))
-                    if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                    maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))
+                    if maker_key not in predicate_kwargs_maker_results:
                         __pan_dat = converted_dat[0] if uses_convert else pan_dat
                         if uses_convert and isinstance(converted_dat[0], str):
                             _predicate_kwargs = converted_dat[0]
@@ -1355,8 +1356,8 @@ class PanDatFactory(object):
                                 _predicate_kwargs = f"Exception<{e}>"
                         else:
                             _predicate_kwargs = rpi.predicate_kwargs_maker(__pan_dat)
-                        predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                    predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                        predicate_kwargs_maker_results[maker_key] = _predicate_kwargs
+                    predicate_kwargs = predicate_kwargs_maker_results[maker_key]
                 if not isinstance(predicate_kwargs, dict):
                     rtn[TPN(tbl, pn)] = PKEM('*', predicate_kwargs
                                         if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 07c7461..15c845e 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2037,7 +2037,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     converted_dat.append(f"Exception<{e}>")
                             else:
                                 converted_dat.append(self._convert_dat[0](tic_dat))
-                        if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))
+                        if maker_key not in predicate_kwargs_maker_results:
                             __tic_dat = converted_dat[0] if uses_convert else tic_dat
                             if uses_convert and isinstance(converted_dat[0], str):
                                 _predicate_kwargs = converted_dat[0]
@@ -2048,8 +2049,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     _predicate_kwargs = f"Exception<{e}>"
                             else:
                                 _predicate_kwargs = rpi.predicate_kwargs_maker(__tic_dat)
-                            predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                        predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                            predicate_kwargs_maker_results[maker_key] = _predicate_kwargs
+                        predicate_kwargs = predicate_kwargs_maker_results[maker_key]
                     if not isinstance(predicate_kwargs, dict):
                         rtn[tbl, pn] = PKEM('*', predicate_kwargs
                                             if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
-- 
2.43.0


From a026618e78c3a26b2c1b7d2bfc3fb213c119f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 24/28] fix: clones of a schema with generic tables that
 restrict or edit it crashed

---
 ticdat/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 28496b7..290a5a4 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -193,18 +193,18 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    all_fields = {(t, f) for t, fields in schema["tables_fields"].items() if fields != '*'
+                  for f in fields[0] + fields[1]}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
+            for t, fields in schema[k].items():
                 if t in table_restrictions:
-                    pks = [f for f in pks if (t, f) not in fields_to_remove]
-                    dfs = [f for f in dfs if (t, f) not in fields_to_remove]
-                    rtn[k][t] = [pks, dfs]
+                    rtn[k][t] = '*' if fields == '*' else \
+                        [[f for f in flds if (t, f) not in fields_to_remove] for flds in fields]
         elif k in ["default_values", "data_types", "tooltips"]:
             rtn[k] = {_k:dict(_v) for _k, _v in v.items() if _k in table_restrictions}
             for t, f in fields_to_remove:
-- 
2.43.0


From b138a016ad7c3c26e5ef7437cb1005c38dc24b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 25/28] fix: clone crashed when a generator table is left out
 of it

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 15c845e..1556c2a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1384,7 +1384,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
         if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
+            rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
-- 
2.43.0


From b9d195493d31b293140d28a66e7fe493542e8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 26/28] fix: clone lost ampl_prepend

---
 ticdat/ticdatfactory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 1556c2a..b97a012 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1383,6 +1383,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         full_schema = utils.clone_a_anchillary_info_schema(self.schema(include_ancillary_info=True),
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
+        if hasattr(rtn, "ampl_prepend"):
+            rtn.ampl_prepend = self.ampl_prepend
         if hasattr(rtn, "set_generator_tables"):
             rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])
         for tbl, row_predicates in self._data_row_predicates.items():
-- 
2.43.0


From d6e2845cd90c856de93f89ddf45c2ae739d50e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 27/28] fix: csv and xls reads forget the defaults and data
 types of an earlier schema state

---
 ticdat/csvtd.py | 2 ++
 ticdat/xls.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index b28cdd9..552ae8e 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -75,6 +75,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                "headers need to be present to read generic tables")
         verify(DataFrame or not tdf.generic_tables,
                "Strange absence of pandas despite presence of generic tables")
+        self._dv_dt.clear() # the defaults and data types might have been changed since the last read
         rtn = self.tic_dat_factory.TicDat(**self._create_tic_dat(dir_path, dialect,
                                                                   headers_present, encoding))
         rtn = self.tic_dat_factory._parameter_table_post_read_adjustment(rtn)
@@ -145,6 +146,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(dialect in csv.list_dialects(), "Invalid dialect %s"%dialect)
         verify(os.path.isdir(dir_path), "Invalid directory path %s"%dir_path)
         tdf = self.tic_dat_factory
+        self._dv_dt.clear()
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
diff --git a/ticdat/xls.py b/ticdat/xls.py
index d356ffc..bd31e39 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -154,6 +154,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             verify(headers_present and treat_inf_as_infinity and not row_offsets,
                    "headers_present, treat_inf_as_infinity and row_offsets must all be at default values\n" +
                    "to use generic tables")
+        self._dv_dt.clear() # the defaults and data types might have been changed since the last read
         rtn = self._create_tic_dat_dict(xls_file_path, row_offsets or {}, headers_present, treat_inf_as_infinity)
         if self.tic_dat_factory.generic_tables:
             if xls_file_path.endswith(".xls"):
@@ -298,6 +299,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                "row_offsets needs to map from table names to non negative row offset")
         row_offsets = dict({t:0 for t in self.tic_dat_factory.all_tables}, **row_offsets)
         tdf = self.tic_dat_factory
+        self._dv_dt.clear()
         pk_tables = tuple(t for t,_ in tdf.primary_key_fields.items() if _)
         rtn = {t:defaultdict(int) for t in pk_tables}
         sheets, fieldIndicies  = self._get_sheets_and_fields(xls_file_path, pk_tables,
-- 
2.43.0


From 3c64a9e43ad719b1326cd34ce92d2f50fbeae66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:58 +0000
Subject: [PATCH 28/28] fix: a string value that begins and ends with a quote
 was written unescaped into SQL scripts

_fix_str looked at the last character as if it preceded the first.
---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5d6e1c1..45ad86f 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -22,7 +22,7 @@ def _fix_str(x):
     """
     rtn = []
     for i,c in enumerate(x):
-        preceeding = x[i-1] if x else ""
+        preceeding = x[i-1] if i else ""
         following = x[i+1] if i < len(x)-1 else ""
         if c != "'" or "'" in (preceeding, following):
             rtn.append(c)
-- 
2.43.0

