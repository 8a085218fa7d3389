PROP = "C07"
EDITS = [("csvtd", '''            for t in tdf.all_tables :
                f = file_path(t)
                verify(not os.path.exists(f)''', '''            for t in set(tdf.all_tables).difference(tdf.generator_tables) :
                f = file_path(t)
                verify(not os.path.exists(f)''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]], log=[[], ["x", "y"]])
tdf.set_generator_tables(["log"])
d = os.path.join(os.environ["DEMO_TMP"], "out")
os.mkdir(d)
with open(os.path.join(d, "log.csv"), "w") as f:
    f.write("precious")
dat = tdf.TicDat(a={1: 2}, log=lambda: iter([[1, 2]]))
try:
    tdf.csv.write_directory(dat, d)
except Exception:
    pass
assert open(os.path.join(d, "log.csv")).read() == "precious", "a file was overwritten"
'''
NEEDS = "a directory that holds a file for a generator table only"
BREAKS = "the overwrite check skips generator tables, their files are replaced"
