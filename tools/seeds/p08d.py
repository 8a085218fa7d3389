PROP = "C08"
EDITS = [("ticdatfactory", '''        if row_checking == "strict":
            if containerishrows or singletonishrows:
                bad_message_handler("Non dict data rows")
                return False
            if not all(set(x.keys()) == set(self.data_fields.get(table_name, ())) for x in dictishrows):
''', '''        if row_checking == "strict" and (containerishrows or singletonishrows):
            bad_message_handler("Non dict data rows")
            return False
        if row_checking == "strict" and dictishrows:
            if not set().union(*dictishrows) == set(self.data_fields.get(table_name, ())):
''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v", "w"]])
d = os.path.join(os.environ["DEMO_TMP"], "x")
class Fake(object):
    a = {1: {"v": 2, "w": 3}, 2: {"v": 1}}
try:
    tdf.csv.write_directory(Fake(), d)
except Exception:
    pass
assert not os.path.exists(d), "an object that does not match the schema was written"
'''
NEEDS = "a row that lacks a field, in a table in which other rows have it"
BREAKS = "the rows of a table are compared to its fields all together, so that one row hides what another lacks"
