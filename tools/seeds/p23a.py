PROP = "C23"
EDITS = [("csvtd", '''        if (table, field) not in self._dv_dt:
            self._dv_dt[table, field] = (''', '''        if field not in self._dv_dt:
            self._dv_dt[field] = ('''),
 ("csvtd", '''        return self._dv_dt[table, field]''', '''        return self._dv_dt[field]''')]
DEMO = '''
import os, tempfile
from ticdat import TicDatFactory
with tempfile.TemporaryDirectory() as d:
    for t, v in (("a", "007"), ("b", "7")):
        with open(os.path.join(d, t + ".csv"), "w") as f:
            f.write("k,v\\nx,%s\\n" % v)
    tdf = TicDatFactory(a=[["k"], ["v"]], b=[["k"], ["v"]])
    tdf.set_data_type("a", "v", number_allowed=False, strings_allowed="*")
    dat = tdf.csv.create_tic_dat(d)
    assert dat.a["x"]["v"] == "007" and dat.b["x"]["v"] == 7 and not isinstance(dat.b["x"]["v"], str), (dat.a, dat.b)
'''
NEEDS = "two tables with a field of the same name but different data types, read from csv"
BREAKS = "what the first table remembered about its field decides how the other table's field is read"
