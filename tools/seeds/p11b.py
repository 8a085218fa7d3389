PROP = "C11"
EDITS = [("pandatfactory", '''                        if utils.numericish(row[f]) and abs(row[f]) >= self.infinity_io_flag:
                            fields_w_issues.add(f)
                apply(df, find_fields_w_issues)
''', '''                        if utils.numericish(row[f]) and row[f] >= self.infinity_io_flag:
                            fields_w_issues.add(f)
                apply(df, find_fields_w_issues)
''')]
DEMO = '''
import os
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v", "w"]])
pdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.db")
pdf.sql.write_file(pdf.PanDat(a=[[1, -float("inf"), float("inf")], [2, 5, 6]]), p)
raw = PanDatFactory(a=[["k"], ["v", "w"]]).sql.create_pan_dat(p).a
assert list(raw["v"]) == [-999, 5] and list(raw["w"]) == [999, 6], raw
'''
NEEDS = "a column that holds negative infinities and no positive ones"
BREAKS = "negative infinities are written as such instead of minus the flag"
