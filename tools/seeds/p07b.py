PROP = "C07"
EDITS = [("sqlitetd", '''                con.execute("Delete from [%s]"%t) if allow_overwrite else None
''', '''                if allow_overwrite or not getattr(tic_dat, t):
                    con.execute("Delete from [%s]"%t)
'''),
 ("sqlitetd", '''                verify(allow_overwrite or not any(True for _ in''', '''                verify(allow_overwrite or not getattr(tic_dat, t) or not any(True for _ in''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]], b=[["k"], ["v"]])
p = os.path.join(os.environ["DEMO_TMP"], "x.db")
tdf.sql.write_db_data(tdf.TicDat(b={1: 2}), p)
try:
    tdf.sql.write_db_data(tdf.TicDat(a={1: 2}), p)
except Exception:
    pass
assert tdf.sql.create_tic_dat(p).b[1]["v"] == 2, "rows were deleted without allow_overwrite"
'''
NEEDS = "a database with rows in a table that is empty in the data being written"
BREAKS = "tables with nothing to write are cleared even though overwriting is not allowed"
