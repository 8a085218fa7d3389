PROP = "C08"
EDITS = [("pandatfactory", '''                          self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())
                          if f not in getattr(data_obj, t).columns}
        if missing_fields:
            bad_message_handler(''', '''                          self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())
                          if len(getattr(data_obj, t)) and f not in getattr(data_obj, t).columns}
        if missing_fields:
            bad_message_handler(''')]
DEMO = '''
import os
import pandas as pd
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v"]], b=[["k"], ["v"]])
d = os.path.join(os.environ["DEMO_TMP"], "x")
class Fake(object):
    a = pd.DataFrame({"k": [1], "v": [2]})
    b = pd.DataFrame({"k": []})
try:
    pdf.csv.write_directory(Fake(), d)
except Exception:
    pass
assert not os.path.exists(d), "an object that does not match the schema was written"
'''
NEEDS = "a table that has no rows and lacks a column"
BREAKS = "the columns of tables without rows are not checked before writing"
