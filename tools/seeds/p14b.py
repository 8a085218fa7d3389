PROP = "C14"
EDITS = [("xls", '''        rtn = tdf._parameter_table_post_read_adjustment(tdf.TicDat(**rtn))
''', '''        rtn = tdf.TicDat(**rtn)
        if treat_inf_as_infinity:
            rtn = tdf._parameter_table_post_read_adjustment(rtn)
''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(parameters=[["Name"], ["Value"]])
tdf.add_parameter("n", 5)
tdf.add_parameter("s", "a", strings_allowed="*", number_allowed=False)
p = os.path.join(os.environ["DEMO_TMP"], "x.xlsx")
tdf.xls.write_file(tdf.TicDat(parameters={"n": "7", "s": "b"}), p)
for b in [True, False]:
    got = tdf.xls.create_tic_dat(p, treat_inf_as_infinity=b)
    assert got.parameters["n"]["Value"] == 7, got.parameters
'''
NEEDS = "a parameters table read from Excel with treat_inf_as_infinity=False"
BREAKS = "the parameters table is left as text"
