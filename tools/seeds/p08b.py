PROP = "C08"
EDITS = [("xls", '''        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
            raise TicDatError("Not a valid ticDat object for this schema : " + " : ".join(msg))
        verify(not os.path.isdir(file_path)''', '''        if not allow_overwrite and \\
           not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
            raise TicDatError("Not a valid ticDat object for this schema : " + " : ".join(msg))
        verify(not os.path.isdir(file_path)''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]], b=[[], ["v"]])
p = os.path.join(os.environ["DEMO_TMP"], "x.xlsx")
class Fake(object):
    a = {1: {"v": 2}}
    b = [{"v": 2, "zzz": 3}]
try:
    tdf.xls.write_file(Fake(), p, allow_overwrite=True)
except Exception:
    pass
assert not os.path.exists(p), "an object that does not match the schema was written"
'''
NEEDS = "an invalid object written with allow_overwrite"
BREAKS = "the schema check is skipped when overwriting is allowed"
