PROP = "C05"
EDITS = [("pandatfactory", '''                        df.reset_index(drop=False, inplace=True)
                    if list(df.columns) == list''', '''                        df.reset_index(drop=False, inplace=True)
                        init_tables[t].index.names = [None] * len(pks)
                    if list(df.columns) == list''')]
DEMO = '''
import pandas as pd
from ticdat import PanDatFactory
pdf = PanDatFactory(t=[["a"], ["b"]])
df = pd.DataFrame({"b": [1, 2]}, index=pd.Index([7, 8], name="a"))
dat = pdf.PanDat(t=df)
assert list(dat.t["a"]) == [7, 8]
assert list(df.index.names) == ["a"], "the constructor changed the caller's data frame"
'''
NEEDS = "a PanDat built from a frame whose index holds the primary key"
BREAKS = "the constructor strips the index names from the caller's frame"
