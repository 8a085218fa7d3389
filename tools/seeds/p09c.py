PROP = "C09"
EDITS = [("jsontd", '''            for data_row in tbl:
                appender([data_row[df] for df in tdf.data_fields[t]])
''', '''            fields = tdf.data_fields[t]
            jdict[t].extend({f: r[f] for f in fields} if verbose else [write_cell(t, f, r[f]) for f in fields]
                            for r in tbl)
''')]
DEMO = '''
import os, json
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[[], ["v"]])
tdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.json")
for verbose in [False, True]:
    tdf.json.write_file(tdf.TicDat(a=[[float("inf")]]), p, allow_overwrite=True, verbose=verbose)
    got = json.load(open(p))["a"]
    assert got in ([[999]], [{"v": 999}]), got
'''
NEEDS = "verbose json of a table without a primary key that holds an infinity"
BREAKS = "verbose json rows of keyless tables are written without the infinity flag"
