PROP = "C11"
EDITS = [("pandatfactory", '''                for f in fields_w_issues:
                    df[f] = df[f].apply(_inf_cell_adj)
''', '''                for f in fields_w_issues.intersection(self.data_types.get(t, all_fields)):
                    df[f] = df[f].apply(_inf_cell_adj)
''')]
DEMO = '''
import os
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v", "w"]])
pdf.set_data_type("a", "v")
pdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.db")
pdf.sql.write_file(pdf.PanDat(a=[[1, float("inf"), float("inf")], [2, 5, 6]]), p)
got = pdf.sql.create_pan_dat(p).a
assert list(got["v"]) == [float("inf"), 5] and list(got["w"]) == [float("inf"), 6], got
'''
NEEDS = "a table where some fields have data types and the flagged field has none"
BREAKS = "the flag is not read back as infinity for the fields without a data type"
