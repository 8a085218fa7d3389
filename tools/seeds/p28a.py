PROP="C28"
EDITS=[("pandatio",'''            verify(os.path.exists(db_file_path) and not os.path.isdir(db_file_path),
                   "%s not a file path"%db_file_path)
        rtn = {}''','''            verify(not os.path.isdir(db_file_path),
                   "%s not a file path"%db_file_path)
        rtn = {}''')]
NEEDS="reading a path that does not exist"
BREAKS="reading a missing SQLite file creates an empty database there"
DEMO='''
import os
from ticdat import PanDatFactory
pdf = PanDatFactory(t=[["k"], ["v"]])
f = os.path.join(os.environ["DEMO_TMP"], "x.db")
try:
    pdf.sql.create_pan_dat(f)
except Exception:
    pass
assert not os.path.exists(f), "created by reading"
'''
