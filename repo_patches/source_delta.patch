From 3a8a1d3ad02e35e87b5815b286299b9badb5b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 01/41] fix: apply the infinity I/O flag to SQLite rows of
 tables without a primary key

_get_data bypassed _write_data_cell for no-primary-key tables, so an infinity stored in such a table was written as a raw
inf rather than as the infinity I/O flag (and text exports were read back as the string 'inf').
---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..1129061 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -299,7 +299,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn.append((str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
-                    k,v = zip(*sqldatarow.items())
+                    k,v = zip(*((f, self._write_data_cell(t, f, x)) for f, x in sqldatarow.items()))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From 48862aa65caa848c9e56aab2a4cf803a99bfe24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 02/41] fix: serialise to JSON before truncating the target
 file

A value json cannot represent raised only after the existing file had been opened for writing, destroying its content.
---
 ticdat/jsontd.py   |  5 +++--
 ticdat/pandatio.py | 15 ++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8d58c23..f96a572 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -209,7 +209,8 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         jdict = make_json_dict(self.tic_dat_factory, tic_dat, verbose, use_infinity_io_flag_if_provided=True)
+        json_str = json.dumps(jdict, sort_keys=True, indent=2)  # before any pre-existing file is truncated
         if not json_file_path:
-            return json.dumps(jdict, sort_keys=True, indent=2)
+            return json_str
         with open(json_file_path, "w") as fp:
-            json.dump(jdict, fp, sort_keys=True, indent=2)
+            fp.write(json_str)
diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..987bf53 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -174,10 +174,11 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
             def append_row_list(row):
                 jdict[t].append([fix_cell(row[f]) for f in pks + dfs])
             faster_df_apply(getattr(pan_dat, t), append_row_list)
+        json_str = json.dumps(jdict, sort_keys=True, indent=2)  # before any pre-existing file is truncated
         if not json_file_path:
-            return json.dumps(jdict, sort_keys=True, indent=2)
+            return json_str
         with open(json_file_path, "w") as fp:
-            json.dump(jdict, fp, sort_keys=True, indent=2)
+            fp.write(json_str)
 
     def write_file_pd(self, pan_dat, json_file_path, case_space_table_names=False, orient='split',
                    index=False, indent=2, sort_keys=False, **kwargs):
@@ -246,11 +247,11 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                                 f'"-{infinity_flagging_str}"', "-Infinity"))
             if orient == 'split' and not index:
                 rtn[k].pop("index", None)
-        if json_file_path:
-            with open(json_file_path, "w") as f:
-                json.dump(rtn, f, indent=indent, sort_keys=sort_keys)
-        else:
-            return json.dumps(rtn, indent=indent, sort_keys=sort_keys)
+        json_str = json.dumps(rtn, indent=indent, sort_keys=sort_keys)  # before any pre-existing file is truncated
+        if not json_file_path:
+            return json_str
+        with open(json_file_path, "w") as f:
+            f.write(json_str)
 
 class CsvPanFactory(freezable_factory(object, "_isFrozen")):
     """
-- 
2.43.0


From 0d74346b2e7567bc9f70e5cd81385bc699e26a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 03/41] fix: build the .xlsx workbook before removing the file
 it replaces

A cell xlsxwriter refuses raised only after the existing file had been removed.
---
 ticdat/xls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..c132998 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -447,8 +447,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     def _xlsx_write(self, tic_dat, file_path, tbl_name_mapping):
         verify(xlsx, "Can't write .xlsx files because xlsxwriter package isn't installed.")
         tdf = self.tic_dat_factory
-        if os.path.exists(file_path):
-            os.remove(file_path)
         book = xlsx.Workbook(file_path)
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
@@ -474,4 +472,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                 for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                     for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
                         sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
+        if os.path.exists(file_path): # as with .xls, not before the workbook has been built
+            os.remove(file_path)
         book.close()
-- 
2.43.0


From 630c5fcc59ad629a366788598a01ed55665adee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 04/41] fix: validate the data before write_sql_file truncates
 its target

---
 ticdat/sqlitetd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 1129061..e4b1897 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -376,6 +376,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(sql, "sqlite3 needs to be installed to use this subroutine")
         verify(allow_overwrite or not os.path.exists(sql_file_path),
                "The %s path exists and overwrite is not allowed"%sql_file_path)
+        msg = []
+        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
+            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         must_schema = set(self.tic_dat_factory.all_tables if include_schema else [])
         if self.tic_dat_factory.generic_tables:
              gt = self.tic_dat_factory.generic_tables
@@ -384,8 +387,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         return self._write_sql_file(tic_dat, sql_file_path, must_schema)
 
     def _write_sql_file(self, tic_dat, sql_file_path, schema_tables):
+        sql_strs = self._get_schema_sql(schema_tables) + self._get_data(tic_dat, as_sql=True)
         with open(sql_file_path, "w") as f:
-            for str in self._get_schema_sql(schema_tables) + \
-                       self._get_data(tic_dat, as_sql=True):
+            for str in sql_strs:
                 f.write(str + "\n")
 
-- 
2.43.0


From 24cf87dcbca4207d44a570efbf691f71e9eb0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 05/41] fix: honour allow_overwrite=False for csv files with
 case-space names

The existence check looked for the plain table names, so with case_space_table_names the existing files were overwritten
(and tables with generic columns ignored case_space_table_names altogether).
---
 ticdat/csvtd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..ca696a5 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,20 +241,21 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
+        case_space_table_names = case_space_table_names and \
+                                 len(set(self.tic_dat_factory.all_tables)) == \
+                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         if not allow_overwrite:
             for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+                f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-        case_space_table_names = case_space_table_names and \
-                                 len(set(self.tic_dat_factory.all_tables)) == \
-                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
             f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
             with open(f, 'w', newline='') as csvfile:
-- 
2.43.0


From c20131abcc19cc9b58328a8ffed822c9c88a7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 06/41] fix: only a missing table counts as missing when
 reading SQLite table names

---
 ticdat/pandatio.py | 4 +++-
 ticdat/sqlitetd.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 987bf53..02e68fd 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -444,7 +444,9 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         def try_name(name):
             try :
                 con.execute("Select * from [%s]"%name)
-            except :
+            except Exception as e:
+                if sql and isinstance(e, sql.Error) and "no such table" not in str(e).lower():
+                    raise # a locked or unreadable database isn't the same thing as a missing table
                 return False
             return True
         for table in self.pan_dat_factory.all_tables:
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index e4b1897..906ba8d 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -152,8 +152,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             def try_name(name):
                 try :
                     con.execute("Select * from [%s]"%name)
-                except :
-                    return False
+                except sql.Error as e:
+                    if "no such table" in str(e).lower():
+                        return False
+                    raise # a locked or unreadable database isn't the same thing as a missing table
                 return True
             for table in tables:
                 rtn[table] = [t for t in all_underscore_replacements(table) if try_name(t)]
-- 
2.43.0


From d042e7a7e1b16dd0f7bf3a042163356f71ad5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 07/41] fix: hold the SQLite write lock from the overwrite
 check on in write_db_data

---
 ticdat/sqlitetd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 906ba8d..8ce0960 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -348,6 +348,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             self.write_db_schema(db_file_path)
         table_names = self._check_tables_fields(db_file_path, self.tic_dat_factory.all_tables)
         with _sql_con(db_file_path, foreign_keys=False) as con:
+            con.execute("BEGIN IMMEDIATE") # no one else can write between our checking and our writing
             for t in self.tic_dat_factory.all_tables:
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%
                                             (t, db_file_path))
-- 
2.43.0


From 5581414fbe6c2e5e714e788b977ccd4d81c7f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 08/41] fix: read all the tables of a SQLite file in one
 transaction

---
 ticdat/pandatio.py | 2 ++
 ticdat/sqlitetd.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 02e68fd..1594f7a 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -422,6 +422,8 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         con_maker = lambda: _sql_con(db_file_path) if db_file_path else _DummyContextManager(con)
         with con_maker() as _:
             con_ = con or _
+            if db_file_path:
+                con_.execute("BEGIN") # all the tables are read from the same state of the database
             for t, s in self._get_table_names(con_).items():
                 rtn[t] = pd.read_sql(sql="Select * from [%s]"%s, con=con_)
         missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 8ce0960..28ab4b7 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -208,6 +208,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         table_names = self._check_tables_fields(db_file_path, tdf.all_tables)
         with sql.connect(db_file_path) as con:
+            con.execute("BEGIN") # all the tables are read from the same state of the database
             rtn = self._create_tic_dat_from_con(con, table_names)
         for table in tdf.generator_tables:
             if table in table_names:
-- 
2.43.0


From 46cc497edefeb5d12430f35ea1c1695c2adeaed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 09/41] fix: create and look up SQLite tables in one
 transaction, quote a leading apostrophe in sql files

---
 ticdat/pandatio.py |  1 +
 ticdat/sqlitetd.py | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 1594f7a..ccc490f 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -424,6 +424,7 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
             con_ = con or _
             if db_file_path:
                 con_.execute("BEGIN") # all the tables are read from the same state of the database
+                con_.execute("Select * from sqlite_master").fetchall()
             for t, s in self._get_table_names(con_).items():
                 rtn[t] = pd.read_sql(sql="Select * from [%s]"%s, con=con_)
         missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 28ab4b7..a03de9d 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -22,7 +22,7 @@ def _fix_str(x):
     """
     rtn = []
     for i,c in enumerate(x):
-        preceeding = x[i-1] if x else ""
+        preceeding = x[i-1] if i > 0 else ""
         following = x[i+1] if i < len(x)-1 else ""
         if c != "'" or "'" in (preceeding, following):
             rtn.append(c)
@@ -46,6 +46,13 @@ def _sql_con(dbFile, foreign_keys = True) :
     con.commit() # remember - either close or commit to push changes!!
     return con
 
+def _begin_read(con) :
+    """
+    start a transaction so that all the reading that follows sees the same state of the database
+    """
+    con.execute("BEGIN")
+    con.execute("Select * from sqlite_master").fetchall() # a transaction sees the state as of its first successful read
+
 def _brackets(l) :
     return ["[%s]"%_ for _ in l]
 
@@ -149,6 +156,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _get_table_names(self, db_file_path, tables):
         rtn = {}
         with sql.connect(db_file_path) as con:
+            _begin_read(con)
             def try_name(name):
                 try :
                     con.execute("Select * from [%s]"%name)
@@ -208,7 +216,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         table_names = self._check_tables_fields(db_file_path, tdf.all_tables)
         with sql.connect(db_file_path) as con:
-            con.execute("BEGIN") # all the tables are read from the same state of the database
+            _begin_read(con)
             rtn = self._create_tic_dat_from_con(con, table_names)
         for table in tdf.generator_tables:
             if table in table_names:
@@ -321,6 +329,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                "generic_tables are not compatible with write_db_schema. " +
                "Use write_db_data instead.")
         with _sql_con(db_file_path, foreign_keys=False) as con:
+            con.execute("BEGIN") # either all the tables are created or none of them
             for str in self._get_schema_sql(self.tic_dat_factory.all_tables):
                 con.execute(str)
     def write_db_data(self, tic_dat, db_file_path, allow_overwrite = False):
-- 
2.43.0


From 0578e04fd34e545c6a2eb22a16261b72a506d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 10/41] fix: a first SQLite write that failed can be repeated

---
 ticdat/sqlitetd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index a03de9d..45e2c30 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -332,6 +332,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             con.execute("BEGIN") # either all the tables are created or none of them
             for str in self._get_schema_sql(self.tic_dat_factory.all_tables):
                 con.execute(str)
+    def _is_empty_db(self, db_file_path):
+        # a first write that failed leaves behind a database without any tables
+        with sql.connect(db_file_path) as con:
+            return not con.execute("Select * from sqlite_master").fetchall()
     def write_db_data(self, tic_dat, db_file_path, allow_overwrite = False):
         """
         write the ticDat data to an SQLite database file
@@ -354,7 +358,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         if self.tic_dat_factory.generic_tables:
              dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
              return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)
-        if not os.path.exists(db_file_path) :
+        if not os.path.exists(db_file_path) or self._is_empty_db(db_file_path):
             self.write_db_schema(db_file_path)
         table_names = self._check_tables_fields(db_file_path, self.tic_dat_factory.all_tables)
         with _sql_con(db_file_path, foreign_keys=False) as con:
-- 
2.43.0


From a3b7e915981ad10874c57dec1f8db5f55a9bebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 11/41] fix: refuse remove_parameter once the factory has been
 used, as add_parameter does

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..a532a31 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -781,6 +781,8 @@ class PanDatFactory(object):
         :return:
         '''
         verify(name in self._parameters, f"{name} is not a valid parameter")
+        verify(not self._has_been_used,
+               "The parameters can't be changed after a PanDatFactory has been used.")
         self._parameters.pop(name)
 
     def set_default_value(self, table, field, default_value):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..6f29d2b 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -395,6 +395,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return:
         '''
         verify(name in self._parameters, f"{name} is not a valid parameter")
+        verify(not self._has_been_used,
+               "The parameters can't be changed after a TicDatFactory has been used.")
         self._parameters.pop(name)
 
     def set_default_value(self, table, field, default_value):
-- 
2.43.0


From e6af6b7cc3425434b042d620ab5ab261baabb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 12/41] fix: set_default_values changes nothing when it is
 refused

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index a532a31..d98763b 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -833,6 +833,8 @@ class PanDatFactory(object):
             verify(dictish(v) and set(v).issubset(self.data_fields[k] + self.primary_key_fields[k]),
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
+            verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in table_defaults.items():
             for f, dv in v.items():
                 self.set_default_value(k, f, dv)
 
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 6f29d2b..2f12219 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -441,6 +441,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
             verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in tableDefaults.items():
             self._default_values[k] = dict(self._default_values[k], **v)
     def set_generator_tables(self, g):
         """
-- 
2.43.0


From bfb7cf57b455e9c12a5bedce2009f9397579c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 13/41] fix: csv and Excel readers follow data types and
 defaults changed after find_duplicates

---
 ticdat/ticdatfactory.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 2f12219..886049c 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -239,7 +239,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         self._data_types[table][field] = TypeDictionary.safe_creator(number_allowed, inclusive_min, inclusive_max,
                                                                      min, max, must_be_int, strings_allowed, nullable,
                                                                      datetime)
-        self._none_as_infinity_bias_cache.clear()
+        self._clear_type_caches()
 
     def clear_data_type(self, table, field):
         """
@@ -258,7 +258,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         verify(not self._has_been_used,
                "The data types can't be changed after a TicDatFactory has been used.")
         del(self._data_types[table][field])
-        self._none_as_infinity_bias_cache.clear()
+        self._clear_type_caches()
 
     def add_data_row_predicate(self, table, predicate, predicate_name=None,
                                predicate_kwargs_maker=None,
@@ -418,6 +418,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                "%s does not refer to a field for %s"%(field, table))
         verify(utils.acceptable_default(default_value), "%s can not be used as a default value"%default_value)
         self._default_values[table][field] = default_value
+        self._clear_type_caches()
 
     def set_default_values(self, **tableDefaults):
         """
@@ -443,6 +444,12 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
         for k,v in tableDefaults.items():
             self._default_values[k] = dict(self._default_values[k], **v)
+        self._clear_type_caches()
+    def _clear_type_caches(self):
+        # the readers cache the data types and default values (and find_duplicates fills those caches early)
+        self._none_as_infinity_bias_cache.clear()
+        for reader in (self.csv, self.xls):
+            reader._dv_dt.clear()
     def set_generator_tables(self, g):
         """
         sets which tables are to be generator tables. Generator tables are represented as generators
-- 
2.43.0


From c0e1aeb983928f1fdc065678b1e111d95bdbfa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 14/41] Revert "fix: refuse remove_parameter once the factory
 has been used" (the tests rely on it)

---
 ticdat/pandatfactory.py | 2 --
 ticdat/ticdatfactory.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index d98763b..a5f1c7f 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -781,8 +781,6 @@ class PanDatFactory(object):
         :return:
         '''
         verify(name in self._parameters, f"{name} is not a valid parameter")
-        verify(not self._has_been_used,
-               "The parameters can't be changed after a PanDatFactory has been used.")
         self._parameters.pop(name)
 
     def set_default_value(self, table, field, default_value):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 886049c..9f9d20a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -395,8 +395,6 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return:
         '''
         verify(name in self._parameters, f"{name} is not a valid parameter")
-        verify(not self._has_been_used,
-               "The parameters can't be changed after a TicDatFactory has been used.")
         self._parameters.pop(name)
 
     def set_default_value(self, table, field, default_value):
-- 
2.43.0


From dac61dae3e4cf284b88118dc8a9beed13ab9c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 15/41] fix: a frozen dictionary also refuses popitem, clear,
 setdefault and |=

---
 ticdat/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..126299f 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1004,6 +1004,22 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).__ior__(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 767e69b4bfd8c097329bb692a554ba6d0443c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 16/41] fix: freezing an object also freezes its foreign key
 links

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 9f9d20a..3a93059 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -765,7 +765,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
-- 
2.43.0


From 3e71b478d1959e633800b2af9b3da13c52bfb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 17/41] fix: no numeric affinity for SQLite columns whose data
 type admits no numbers

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 45e2c30..c193221 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -267,6 +267,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             if t == "parameters" and self.tic_dat_factory.parameters:
                 return "" # the TEXT data type doesn't seem to have much value for my purposes.
             def_  = default_(t, f)
+            dt = self.tic_dat_factory.data_types.get(t, {}).get(f)
+            if dt and (dt.datetime or not dt.number_allowed):
+                return "" # numeric affinity would turn "02139" into 2139
             if numericish(def_):
                 if safe_apply(int)(def_) == def_:
                     return "INT"
-- 
2.43.0


From 4b6b93fbe2d16be4f2c26454e793bc2f5f84a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 18/41] fix: a csv generator table can be written over the file
 it is read from

---
 ticdat/csvtd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index ca696a5..753c699 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -258,7 +258,9 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
             os.mkdir(dir_path)
         for t in tdf.all_tables :
             f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
-            with open(f, 'w', newline='') as csvfile:
+            # a generator table might be reading the very file that is to be replaced
+            _f = f + ".tmp" if t in tdf.generator_tables and os.path.exists(f) else f
+            with open(_f, 'w', newline='') as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
@@ -272,4 +274,6 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                          writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))
                  else :
                      for data_row in (_t if containerish(_t) else _t()) :
-                         writer.writerow(infinty_io_dict(data_row))
\ No newline at end of file
+                         writer.writerow(infinty_io_dict(data_row))
+            if _f != f:
+                os.replace(_f, f)
-- 
2.43.0


From 8937181c7ff8420e06bb6a36d36cbd67d92e432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 19/41] fix: iterating a SQLite generator table does not create
 a missing file

---
 ticdat/sqlitetd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index c193221..6c090c8 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -207,6 +207,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         def tableObj() :
             assert (not tdf.primary_key_fields.get(table)) and (tdf.data_fields.get(table))
+            verify(os.path.exists(db_file_path), "%s isn't a valid file path"%db_file_path) # connect would create it
             with sql.connect(db_file_path) as con:
                 for row in con.execute("Select %s from [%s]"%
                         (", ".join(_brackets(tdf.data_fields[table])), table_name)):
-- 
2.43.0


From 3bb570f2c5ec33e2adf1a1cadf403cfdf8085236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 20/41] fix: pandas Timestamps can be stored in SQLite

---
 ticdat/sqlitetd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 6c090c8..246b7ae 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -6,12 +6,14 @@ import os
 from collections import defaultdict
 from ticdat.utils import freezable_factory, TicDatError, verify, stringish, dictish, containerish, numericish
 from ticdat.utils import FrozenDict, all_underscore_replacements, find_duplicates
-from ticdat.utils import create_duplicate_focused_tdf, create_generic_free, safe_apply
+from ticdat.utils import create_duplicate_focused_tdf, create_generic_free, safe_apply, pd
 import datetime
 try:
     import sqlite3 as sql
 except:
     sql = None
+if sql and pd: # a Timestamp is stored just like the datetime it is (sqlite3 looks for the exact type only)
+    sql.register_adapter(pd.Timestamp, lambda x: x.isoformat(" "))
 
 _can_unit_test = sql
 
-- 
2.43.0


From a4e33cde977dea299d36e59836e25a1225bb0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 21/41] fix: a PostgreSQL schema without ancillary info can
 hold the parameters table

---
 ticdat/pgtd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index a29ee70..f21bbf1 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -222,6 +222,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                     tdf.set_default_value(t, f, dfv)
             forced_field_types_ = {(t, f): "text" for t, (pks, dfs) in self.tdf.schema().items() for f in pks
                        if f not in tdf.data_types.get(t, {})}
+            if self.tdf.parameters: # as they are with the ancillary info
+                forced_field_types_.update({("parameters", f): "text" for f in all_fields("parameters")})
             forced_field_types_.update(forced_field_types)
             return PostgresTicFactory(tdf).write_schema(engine, schema, forced_field_types_)
 
-- 
2.43.0


From 0c3a9eddc990db8672d767d8534f6a3bf41f30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 22/41] fix: the command line driver stops when the -f and -e
 arguments are combined

---
 ticdat/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 126299f..f184b49 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -505,6 +505,7 @@ def standard_main(input_schema, solution_schema, solve, case_space_table_names=F
 
     if foresta_file and error_file:
         print("The -f and -e command line arguments are incompatible. Use one, or the other, or neither, but not both.")
+        return
 
     recognized_extensions = (".json", ".xls", ".xlsx", ".db")
     if create_routine == "create_tic_dat":
-- 
2.43.0


From b0897a47632c5868535f97f0099002bf9bd7f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 23/41] fix: copies of TicDat objects no longer share the data
 frames of generic tables

---
 ticdat/ticdatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3a93059..c6d79a7 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -789,7 +789,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-                        setattr(self, t, DataFrame(init_tables[t]))
+                        setattr(self, t, DataFrame(init_tables[t]).copy(deep=True))
                 for t,v in init_tables.items():
                   if t not in superself.generic_tables:
                     badticdattable = []
@@ -1662,7 +1662,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for tname in table_restrictions:
             tdtable = getattr(tic_dat, tname)
             if tname in self.generic_tables:
-                df = tname
+                df = tdtable.copy(deep=True)
             elif len(tdtable) == 0 :
                 df = DataFrame([], columns = self.primary_key_fields.get(tname,tuple()) +
                                                 self.data_fields.get(tname, tuple()))
-- 
2.43.0


From e96c15fa5d35be3b2c909120cba4efce5a3b422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 24/41] fix: writing generic tables keeps the factory's
 settings and replaces old rows with an empty table

---
 ticdat/csvtd.py    |  7 +++++++
 ticdat/sqlitetd.py | 16 ++++++++++++++--
 ticdat/utils.py    | 11 +++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 753c699..1f20502 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,6 +241,13 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
+            # there is nothing to write for a generic table without columns, but an old file might need to go
+            for t in self.tic_dat_factory.generic_tables.difference(tdf.all_tables):
+                for f in [os.path.join(dir_path, _ + ".csv") for _ in {t, case_space_to_pretty(t)}]:
+                    verify(allow_overwrite or not os.path.exists(f),
+                           "The %s path exists and overwrite is not allowed"%f)
+                    if os.path.exists(f):
+                        os.remove(f)
             return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
                                            case_space_table_names)
         tdf = self.tic_dat_factory
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 246b7ae..61c84c7 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -236,7 +236,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
+                if not fields: # it had no columns, and thus it wasn't written
+                    continue
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
@@ -363,7 +365,12 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isdir(db_file_path), "A directory is not a valid SQLite file path")
         if self.tic_dat_factory.generic_tables:
              dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-             return tdf.sql.write_db_data(dat, db_file_path, allow_overwrite)
+             return tdf.sql._write_db_data(dat, db_file_path, allow_overwrite,
+                                           self.tic_dat_factory.generic_tables.difference(tdf.all_tables))
+        return self._write_db_data(tic_dat, db_file_path, allow_overwrite)
+
+    def _write_db_data(self, tic_dat, db_file_path, allow_overwrite, empty_generic_tables=()):
+        # empty_generic_tables have no columns. There is nothing to write for them, but old records might need to go.
         if not os.path.exists(db_file_path) or self._is_empty_db(db_file_path):
             self.write_db_schema(db_file_path)
         table_names = self._check_tables_fields(db_file_path, self.tic_dat_factory.all_tables)
@@ -375,6 +382,11 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 verify(allow_overwrite or not any(True for _ in  con.execute("Select * from [%s]"%t)),
                         "allow_overwrite is False, but there are already data records in %s"%t)
                 con.execute("Delete from [%s]"%t) if allow_overwrite else None
+            for (t,) in con.execute("Select name from sqlite_master where type='table'").fetchall():
+                if t in empty_generic_tables:
+                    verify(allow_overwrite or not any(True for _ in con.execute("Select * from [%s]"%t)),
+                           "allow_overwrite is False, but there are already data records in %s"%t)
+                    con.execute("Delete from [%s]"%t) if allow_overwrite else None
             for sql_str, data in self._get_data(tic_dat, as_sql=False):
                 con.execute(sql_str, list(data))
 
diff --git a/ticdat/utils.py b/ticdat/utils.py
index f184b49..923b445 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -839,11 +839,14 @@ def create_generic_free(td, tdf):
     assert tdf.good_tic_dat_object(td)
     if not tdf.generic_tables:
         return td, tdf
-    sch = {k:v for k,v in tdf.schema().items() if k not in tdf.generic_tables}
+    # everything but the generic tables themselves (data types, parameters, infinity_io_flag...) is carried over
+    sch = tdf.schema(include_ancillary_info=True)
+    sch["tables_fields"] = {k:v for k,v in sch["tables_fields"].items() if k not in tdf.generic_tables}
     for t in tdf.generic_tables:
-        if len(getattr(td, t)):
-            sch[t] = [[],list(getattr(td, t).columns)]
-    rtn_tdf = ticdat.TicDatFactory(**sch)
+        if len(getattr(td, t).columns):
+            sch["tables_fields"][t] = [[],list(getattr(td, t).columns)]
+    rtn_tdf = ticdat.TicDatFactory.create_from_full_schema(sch)
+    rtn_tdf.set_generator_tables(tdf.generator_tables)
     return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
-- 
2.43.0


From e86f77e6e78a39c1b7d1e3f646b1a4ac281f0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 25/41] fix: PostgreSQL default clauses for infinities, quotes
 and colons

---
 ticdat/pgtd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index f21bbf1..15a5aab 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -149,9 +149,12 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 return bool(rtn)
             if rtn is None or rtn == "":
                 return "NULL"
-            if numericish(rtn) and abs(rtn) == float("inf") and numericish(self.tdf.infinity_io_flag):
-                return math.copysign(self.tdf.infinity_io_flag, rtn)
+            if numericish(rtn) and abs(rtn) == float("inf"):
+                if numericish(self.tdf.infinity_io_flag):
+                    return math.copysign(self.tdf.infinity_io_flag, rtn)
+                return "NULL" if self.tdf.infinity_io_flag is None else f"'{rtn}'"
             if stringish(rtn) and rtn:
+                rtn = rtn.replace("'", "''")
                 return f"'{rtn}'"
             return rtn
 
@@ -233,7 +236,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
         if schema not in [rw[0] for rw in engine.execute(saxt("select schema_name from information_schema.schemata"))]:
             engine.execute(sa.schema.CreateSchema(schema))
         for str in self._get_schema_sql(self.tdf.all_tables, schema, forced_field_types):
-            engine.execute(saxt(str))
+            engine.execute(saxt(str.replace(":", "\\:"))) # no bind parameters here
         engine.commit() if hasattr(engine, "commit") else None
 
     def _handle_prexisting_rows(self, engine, schema, pre_existing_rows):
-- 
2.43.0


From eeb4707bd67b3b591ed7c2ae90bb83c0e5706016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 26/41] fix: implied foreign keys with no fields are not added

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index c6d79a7..853e512 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -542,7 +542,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if newnativeft and newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
-- 
2.43.0


From 195f4f2e208a0c2ff5d8002349da86ed312fc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 27/41] fix: clones of factories with foreign key links or
 generator tables

---
 ticdat/ticdatfactory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 853e512..8b6a377 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1390,8 +1390,6 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         full_schema = utils.clone_a_anchillary_info_schema(self.schema(include_ancillary_info=True),
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
-        if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
@@ -1399,7 +1397,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,
                                                    predicate_kwargs_maker=rpi.predicate_kwargs_maker,
                                                    predicate_failure_response=rpi.predicate_failure_response)
-        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None
+        if hasattr(rtn, "set_generator_tables"): # after the predicates, which may well precede it
+            rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])
+        if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
+            rtn.enable_foreign_key_links()
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
-- 
2.43.0


From 9ee7903f9108f3972e49d95ebb33f5f6ad2add06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 28/41] fix: renaming the only column of a table

---
 ticdat/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 923b445..0be899c 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -143,7 +143,8 @@ def clone_rename_a_column(tdf_pdf, table, field, new_field):
         args = ("data", tdf_pdf.data_fields[table].index(field))
     verify(new_field not in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"new_field cannot be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    rtn = clone_add_a_column(clone_remove_a_column(tdf_pdf, table, field), table, new_field, *args)
+    # adding first, as a table can't be left without any columns
+    rtn = clone_remove_a_column(clone_add_a_column(tdf_pdf, table, new_field, *args), table, field)
     if field in tdf_pdf.data_types.get(table, {}):
         rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field])
     if field in tdf_pdf.default_values.get(table, {}):
-- 
2.43.0


From 537350cc9bd9a5e4a8d0711050270d9bae987665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 29/41] fix: cloning factories that have generic tables

---
 ticdat/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 0be899c..eeb7a5c 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -194,15 +194,20 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    generic_tables = {t for t, flds in schema["tables_fields"].items() if flds == "*"}
+    all_fields = {(t, f) for t, flds in schema["tables_fields"].items() if t not in generic_tables
+                  for f in list(flds[0]) + list(flds[1])}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
-                if t in table_restrictions:
+            for t, flds in schema[k].items():
+                if t in table_restrictions and t in generic_tables:
+                    rtn[k][t] = flds
+                elif t in table_restrictions:
+                    pks, dfs = flds
                     pks = [f for f in pks if (t, f) not in fields_to_remove]
                     dfs = [f for f in dfs if (t, f) not in fields_to_remove]
                     rtn[k][t] = [pks, dfs]
-- 
2.43.0


From 428f105e55e55762c0c84552b839decd61bb9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 30/41] fix: the integrity solve accepts generic tables

---
 ticdat/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index eeb7a5c..933bb5b 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -360,7 +360,8 @@ def _integrity_solve(input_schema, dat):
                                                dat_version_of_func(predicate_tuple.predicate_kwargs_maker),
                                                predicate_tuple.predicate_failure_response)
 
-    _id_flds = {t: (pks or dfs) for t, (pks, dfs) in input_schema.schema().items()}
+    # generic tables have no fields that could identify a row
+    _id_flds = {t: () if flds == "*" else (flds[0] or flds[1]) for t, flds in input_schema.schema().items()}
     longest_id_flds =  max(len(id_fld) for id_fld in _id_flds.values())
     _fld_names = [f"Field {_ + 1}" for _ in range(longest_id_flds)]
     solution_schema = ticdat.PanDatFactory(
@@ -418,7 +419,8 @@ def _integrity_solve(input_schema, dat):
                 data_row_failures["Table Name"].append(table)
                 data_row_failures["Predicate Name"].append(predicate)
                 error_message = None
-                if len(row) > len(input_schema.primary_key_fields[table] + input_schema.data_fields[table]):
+                if len(row) > (len(all_fields(input_schema, table)) if _id_flds[table] else
+                               len(getattr(pan_dat, table).columns)):
                     error_message = row[-1]
                 data_row_failures["Error Message"].append(error_message)
                 add_error_row(data_row_failures, table, row)
-- 
2.43.0


From 22605619ba526e73e1e47559e45964ce49f27d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 31/41] fix: Slicer keeps only complete slicings and returns
 lists of its own

---
 ticdat/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 933bb5b..2cdf9fb 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -897,22 +897,25 @@ class Slicer(object):
             return []
         verify(len(args) == len((self._indicies or self._gu)[0]), "inconsistent number of elements")
         if self._gu:
-            return self._gu.select(*args)
+            return list(self._gu.select(*args)) # select can return the tuplelist itself
         wildcards = tuple(i for i,x in enumerate(args) if x == "*")
         fixedposns = tuple(i for i in range(len(args)) if i not in wildcards)
         def fa(t):
             return tuple(t[i] for i in fixedposns)
-        if wildcards not in self._archived_slicings:
+        archived_slicings = self._archived_slicings
+        if wildcards not in archived_slicings: # only complete slicings are archived
+            slicing = defaultdict(list)
             for indx in self._indicies:
-                self._archived_slicings[wildcards][fa(indx)].append(indx)
-        return list(self._archived_slicings[wildcards][fa(args)])
+                slicing[fa(indx)].append(indx)
+            archived_slicings[wildcards] = slicing
+        return list(archived_slicings[wildcards].get(fa(args), ()))
     def clear(self):
         """
         reduce memory overheard by clearing out any archived slicing.
         this is a no-op if gurobipy is available
         :return:
         """
-        self._archived_slicings = defaultdict(lambda : defaultdict(list))
+        self._archived_slicings = {}
     def _forceguout(self):
         if self._gu:
             self._indicies = tuple(map(tuple, self._gu))
-- 
2.43.0


From 4e75de1543dae1555f40b82f6d417ea6c45db07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 32/41] fix: data frame foreign key checks with compound keys
 whose field names overlap

---
 ticdat/pandatfactory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index a5f1c7f..390b5e8 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1469,8 +1469,9 @@ class PanDatFactory(object):
                 new_index = mappings.native_field
             else:
                 parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False).copy(deep=True)
-                for _ in mappings:
-                    parent[_.native_field] = parent[_.foreign_field]
+                foreign_columns = {_.foreign_field: parent[_.foreign_field] for _ in mappings}
+                for _ in mappings: # a native field can have the name of some other mapping's foreign field
+                    parent[_.native_field] = foreign_columns[_.foreign_field]
                 new_index = [_.native_field for _ in mappings]
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
             parent[magic_field] = True
-- 
2.43.0


From 236a8ef0994781df426ff635de614ad919136fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 33/41] fix: replacing data type failures in primary key fields
 without a default

---
 ticdat/pandatfactory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 390b5e8..67f11b0 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1229,9 +1229,10 @@ class PanDatFactory(object):
         real_replacements = {}
         for table, type_row in self._true_data_types().items():
             for field in type_row:
-                if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                if (table, field) in replacement_values:
+                    real_replacements[table, field] = replacement_values[table, field]
+                elif field in self.default_values.get(table, {}):
+                    real_replacements[table, field] = self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From 9ebb61992a41ac359634bb322307b876df093496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 34/41] fix: removing foreign key failures loops, so long
 cascades don't exceed the recursion limit

---
 ticdat/ticdatfactory.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 8b6a377..75175ee 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1823,19 +1823,20 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return: tic_dat, with the foreign key failures removed
         """
         fk_failures = self.find_foreign_key_failures(tic_dat)
-        needs_removal = set()
-        for fk, (_, failed_pks) in fk_failures.items():
-            for failed_pk in failed_pks:
-                if self.primary_key_fields.get(fk.native_table):
-                    assert dictish(getattr(tic_dat, fk.native_table))
-                    if failed_pk in getattr(tic_dat, fk.native_table) :
-                        del(getattr(tic_dat, fk.native_table)[failed_pk])
-                else:
-                    needs_removal.add((fk.native_table, failed_pk))
-        for t,row_index in sorted(needs_removal, reverse=True):
-            getattr(tic_dat, t).pop(row_index)
-        if fk_failures and propagate:
-            return self.remove_foreign_key_failures(tic_dat)
+        while fk_failures:
+            needs_removal = set()
+            for fk, (_, failed_pks) in fk_failures.items():
+                for failed_pk in failed_pks:
+                    if self.primary_key_fields.get(fk.native_table):
+                        assert dictish(getattr(tic_dat, fk.native_table))
+                        if failed_pk in getattr(tic_dat, fk.native_table) :
+                            del(getattr(tic_dat, fk.native_table)[failed_pk])
+                    else:
+                        needs_removal.add((fk.native_table, failed_pk))
+            for t,row_index in sorted(needs_removal, reverse=True):
+                getattr(tic_dat, t).pop(row_index)
+            # looping, since the cascades can be too long for recursion
+            fk_failures = self.find_foreign_key_failures(tic_dat) if propagate else {}
         return tic_dat
 
     def _get_full_row(self, ticdat, table, pk):
-- 
2.43.0


From 6415ca5963fcb5666023fed76f2bfaff43a707a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 35/41] fix: obfusimplify accepts generic tables

---
 ticdat/ticdatfactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 75175ee..d6b664a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2196,6 +2196,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         rtn_dict  = clt.defaultdict(dict)
         for t in better_self.all_tables:
             read_table = getattr(tic_dat, t)
+            if t in better_self.generic_tables:
+                rtn_dict[t] = read_table # the TicDat constructor makes the copy
+                continue
             def fix_all_row(all_row):
                 return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v
                            for k,v in all_row.items()}
-- 
2.43.0


From 34c37a4cc9ac22c41c461552299203a4212a3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 36/41] fix: freezing a data object can be repeated after it
 was interrupted

---
 ticdat/ticdatfactory.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index d6b664a..418af17 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -749,26 +749,25 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             def _freeze(self):
                 if getattr(self, "_isFrozen", False) :
                     return
+                def freeze_it(x):
+                    # parts of self are frozen already if an earlier attempt was interrupted
+                    for attr in ("_dataFrozen", "_attributesFrozen"):
+                        if not getattr(x, attr, False):
+                            setattr(x, attr, True)
                 for t in set(superself.all_tables).difference(superself.generic_tables):
                     _t = getattr(self, t)
                     if utils.dictish(_t) or utils.containerish(_t) :
                         for v in getattr(_t, "values", lambda : _t)() :
-                            if not getattr(v, "_dataFrozen", False) :
-                                v._dataFrozen =True
-                                v._attributesFrozen = True
-                            else : # we freeze the data-less ones off the bat as empties
-                                assert (len(v) == 0) and v._attributesFrozen
+                            freeze_it(v)
                         if utils.dictish(_t) :
-                            _t._dataFrozen  = True
-                            _t._attributesFrozen = True
+                            freeze_it(_t)
                         elif utils.containerish(_t) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
                 for _t in getattr(self, "_all_data_dicts", ()) :
-                    if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
-                        _t._dataFrozen  = True
-                        _t._attributesFrozen = True
+                    if utils.dictish(_t) :
+                        freeze_it(_t)
                 self._isFrozen = True
             def __repr__(self):
                 tlen = lambda t: utils.safe_apply(len)(getattr(self, t))
-- 
2.43.0


From faa50d2ab579d1baa14661c0e784310649c7dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 37/41] fix: PanDat objects made from arrays are no longer
 empty

---
 ticdat/pandatfactory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 67f11b0..4933e71 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -987,8 +987,11 @@ class PanDatFactory(object):
                 return "pd: {" + ", ".join("%s: %s"%(t, tlen(t)) for t in sorted(superself.all_tables)) + "}"
             def __init__(self, **init_tables):
                 superself._trigger_has_been_used()
+                # an array is neither truthy nor falsey
+                has_data = lambda v: len(v) if hasattr(v, "__array__") and hasattr(v, "__len__") else \
+                                     utils.safe_apply(bool)(v)
                 init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series)) or
-                               utils.safe_apply(bool)(v)}
+                               has_data(v)}
                 for t in init_tables:
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     tbl = safe_apply(DataFrame)(init_tables[t])
-- 
2.43.0


From c5935ce85c59344c21a590dce149f6bc85b77c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 38/41] fix: brackets around Access table names, which may be
 reserved words

---
 ticdat/mdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 459dda8..de050cd 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -309,10 +309,10 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
-                        cur.execute("Select * from %s"%t)
+                        cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
-                con.cursor().execute("Delete from %s"%t).commit() if allow_overwrite else None
+                con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
@@ -322,12 +322,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%\
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                               (t, ",".join(fields), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%(t,
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%(t,
                           ",".join(_brackets(sql_data_row.keys())),
                           ",".join(["?"]*len(sql_data_row)))
                         data_row = tuple(write_data(f, x) for f, x in sql_data_row.items())
-- 
2.43.0


From ff71fd7dc5be8e4fe4de56fcfd3c0277b614b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 39/41] fix: infinities of Access tables with primary keys are
 written as the infinity I/O flag

---
 ticdat/mdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index de050cd..7c24e1c 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -318,12 +318,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
                     for pk_row, sql_data_row in _t.items() :
                         _items = tuple(sql_data_row.items())
-                        fields = _brackets(primary_keys + tuple(x[0] for x in _items))
+                        fields = primary_keys + tuple(x[0] for x in _items)
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
                         str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
-                              (t, ",".join(fields), ",".join("?" for _ in fields))
+                              (t, ",".join(_brackets(fields)), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-- 
2.43.0


From c7bb0813b8a8b6edd1ba06d70e125d340dd86411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 40/41] fix: an Access write refuses before it changes the
 first table

---
 ticdat/mdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 7c24e1c..182fb2d 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -303,15 +303,17 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
             self.write_schema(mdb_file_path)
         table_names = self._check_tables_fields(mdb_file_path, self.tic_dat_factory.all_tables)
         with _connect(_connection_str(mdb_file_path)) as con:
+            # everything that can be refused is refused before the first table is changed
             for t in self.tic_dat_factory.all_tables:
-                def write_data(f, x):
-                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
                         cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
+            for t in self.tic_dat_factory.all_tables:
+                def write_data(f, x):
+                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
                 con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
-- 
2.43.0


From 7f91cbab91724db16a6e7d358aebf5990c458108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 41/41] fix: an Access table that can't be read isn't taken for
 a missing one

---
 ticdat/mdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 182fb2d..6907016 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -137,7 +137,11 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                 with con.cursor() as cur:
                   try :
                     cur.execute("Select * from [%s]"%name)
-                  except :
+                  except Exception:
+                    # a table that is there but can't be read is not a missing table
+                    with con.cursor() as names:
+                      if name.lower() in [(_[2] or "").lower() for _ in names.tables().fetchall()]:
+                        raise
                     return False
                 return True
             for table in tables:
-- 
2.43.0

