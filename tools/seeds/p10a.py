PROP = "C10"
EDITS = [("sqlitetd", '''                    yield [self._read_data_cell(table, f, x) for f, x in zip(tdf.data_fields[table], row)]
''', '''                    yield [self._read_data_cell(table, f, x) if stringish(x) else x
                           for f, x in zip(tdf.data_fields[table], row)]
''')]
DEMO = '''
import os
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[[], ["v"]])
tdf.set_infinity_io_flag(999)
p = os.path.join(os.environ["DEMO_TMP"], "x.db")
tdf.sql.write_db_data(tdf.TicDat(a=[[float("inf")], [1]]), p)
gen = TicDatFactory(a=[[], ["v"]])
gen.set_generator_tables(["a"])
gen.set_infinity_io_flag(999)
got = [r["v"] for r in gen.sql.create_tic_dat(p).a()]
assert got == [float("inf"), 1], got
'''
NEEDS = "a generator table read from SQLite whose cells hold the infinity flag"
BREAKS = "numbers streamed by a generator table keep the infinity flag instead of infinity"
