PROP = "C09"
EDITS = [("xls", '''                for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                    for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
        book.close()
''', '''                for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                    for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind-1], cell))
        book.close()
''')]
DEMO = '''
import os
from ticdat import TicDatFactory
import openpyxl
tdf = TicDatFactory(t=[[], ["f0", "f1"]])
tdf.set_data_type("t", "f0", number_allowed=True, strings_allowed="*", nullable=True)
tdf.set_data_type("t", "f1", inclusive_max=True)
tdf.set_infinity_io_flag(None)
dat = tdf.TicDat(t=[["a", float("inf")], ["b", 5]])
p = os.path.join(os.environ["DEMO_TMP"], "x.xlsx")
tdf.xls.write_file(dat, p)
sheet = openpyxl.load_workbook(p)["t"]
rows = [[c.value for c in r] for r in sheet.iter_rows(min_row=2)]
assert rows == [["a", None], ["b", 5]], rows
assert tdf.xls.create_tic_dat(p).t[0]["f1"] == float("inf")
'''
NEEDS = "a table without a primary key, written to xlsx with None as the infinity flag, where neighbouring fields differ in the infinity they allow"
BREAKS = "each cell of a keyless table is converted as if it belonged to the field before its own"
