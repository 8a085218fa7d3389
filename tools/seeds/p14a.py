PROP = "C14"
EDITS = [("jsontd", '''            return self.create_tic_dat(json_file_path, freeze_it=freeze_it, from_pandas=True)
''', '''            return self.create_tic_dat(json_file_path, from_pandas=True)
''')]
DEMO = '''
import os
from ticdat import TicDatFactory, PanDatFactory
import pandas as pd
tdf = TicDatFactory(a=[["k"], ["v"]])
p = os.path.join(os.environ["DEMO_TMP"], "x.json")
pdf = PanDatFactory(a=[["k"], ["v"]])
pdf.json.write_file_pd(pdf.PanDat(a=pd.DataFrame({"k": [1], "v": [2]})), p)
got = tdf.json.create_tic_dat(p, freeze_it=True)
try:
    got.a[1]["v"] = 3
except Exception:
    pass
assert got.a[1]["v"] == 2
'''
NEEDS = "freeze_it with a json file whose pandas layout is detected automatically"
BREAKS = "the object read is not frozen"
