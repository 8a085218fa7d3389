PROP="C18"
EDITS=[("sqlitetd",'''    return ["[%s]"%_ for _ in l]''','''    return [_ if _.isidentifier() else "[%s]"%_ for _ in l]''')]
NEEDS="a field whose name is an SQL keyword"
BREAKS="field names that happen to be SQL keywords are put into statements unquoted, so writing fails"
DEMO='''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[["group"], ["order"]])
dat = tdf.TicDat(t={"a": 1, "b": 2})
f = os.path.join(os.environ["DEMO_TMP"], "x.db")
tdf.sql.write_db_data(dat, f)
assert tdf._same_data(tdf.sql.create_tic_dat(f), dat)
'''
