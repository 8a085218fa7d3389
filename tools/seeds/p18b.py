PROP="C18"
EDITS=[("sqlitetd",'''        return "'%s'"%_fix_str(x)''','''        return "'%s'"%(_fix_str(x) if len(x) <= 255 else x) # char by char is slow for big texts''')]
NEEDS="a long string with a quote in it"
BREAKS="quotes inside long strings are not escaped in SQL scripts"
DEMO='''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[["k"], ["v"]])
dat = tdf.TicDat(t={"a": "it's " * 80, "b": "it's"})
f = os.path.join(os.environ["DEMO_TMP"], "x.sql")
tdf.sql.write_sql_file(dat, f)
assert tdf._same_data(tdf.sql.create_tic_dat_from_sql(f), dat)
'''
