PROP = "C11"
EDITS = [("ticdatfactory", '''            return max(min(x, self.infinity_io_flag), -self.infinity_io_flag)
''', '''            return max(-self.infinity_io_flag, min(self.infinity_io_flag, x))
''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]])
tdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.json")
tdf.json.write_file(tdf.TicDat(a=[[1, float("nan")], [2, float("inf")], [3, 5]]), p)
got = tdf.json.create_tic_dat(p)
assert got.a[1]["v"] is None or got.a[1]["v"] != got.a[1]["v"], got.a
assert got.a[2]["v"] == float("inf") and got.a[3]["v"] == 5
'''
NEEDS = "a NaN cell written while the infinity flag is a number: min and max keep their first argument when the comparison is false"
BREAKS = "a NaN is written as the infinity flag and comes back as infinity"
