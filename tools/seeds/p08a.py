PROP = "C08"
EDITS = [("pandatio", '''        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
        msg = []
        verify(self''', '''        verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
        if not os.path.isdir(dir_path) :
            os.mkdir(dir_path)
        msg = []
        verify(self''')]
DEMO = '''
import os
import pandas as pd
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v"]])
other = PanDatFactory(zzz=[["k"], ["v"]])
d = os.path.join(os.environ["DEMO_TMP"], "out")
try:
    pdf.csv.write_directory(other.PanDat(), d)
except Exception:
    pass
assert not os.path.exists(d), "a rejected object left something behind"
'''
NEEDS = "an object that does not match the schema, written to a directory that does not exist"
BREAKS = "the output directory is created before the object is checked"
