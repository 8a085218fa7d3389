PROP="C28"
EDITS=[("sqlitetd",'''            rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
''','''            rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
            if len(tdf.primary_key_fields.get(table, ())) > 2: # ordered reads of big link tables
                con.execute("Create index if not exists [%s_pk] on [%s] (%s)"%(table, table_names[table],
                            ", ".join(_brackets(tdf.primary_key_fields[table]))))
''')]
NEEDS="a table with more than two primary key fields"
BREAKS="reading adds indexes to the caller's database"
DEMO='''
import os, sqlite3
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[["a", "b", "c"], ["v"]])
f = os.path.join(os.environ["DEMO_TMP"], "x.db")
tdf.sql.write_db_data(tdf.TicDat(t={(1, 2, 3): 4}), f)
q = "select name, sql from sqlite_master order by 1"
before = sqlite3.connect(f).execute(q).fetchall()
tdf.sql.create_tic_dat(f)
assert sqlite3.connect(f).execute(q).fetchall() == before
'''
