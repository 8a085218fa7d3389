PROP = "C09"
EDITS = [("csvtd", '''                     for data_row in (_t if containerish(_t) else _t()) :
                         writer.writerow(infinty_io_dict(data_row))''', '''                     for data_row in (map(infinty_io_dict, _t) if containerish(_t) else map(dict, _t())) :
                         writer.writerow(data_row)''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[[], ["v"]])
tdf.set_generator_tables(["a"])
tdf.set_infinity_io_flag(999)
d = os.environ["DEMO_TMP"] + "/csv"
tdf.csv.write_directory(tdf.TicDat(a=lambda: iter([{"v": float("inf")}, {"v": 1}])), d)
got = open(d + "/a.csv").read().split()
assert got == ["v", "999", "1"], got
'''
NEEDS = "a generator table whose rows hold an infinity"
BREAKS = "rows produced by a generator table are written to csv without the infinity flag"
