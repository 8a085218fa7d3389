PROP = "C21"
EDITS = [("pandatfactory", '''        remove_rows = self._find_foreign_key_failure_rows(pan_dat)
        while remove_rows:
            # just performing one bulk removal per iteration, since fks can intermingle in complicated ways
            fk = next(iter(remove_rows))
            native, foreign, mappings, card = fk
            rows = remove_rows[fk]
            setattr(pan_dat, native, getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True))
            remove_rows = self._find_foreign_key_failure_rows(pan_dat)
''', '''        done = set()
        remove_rows = self._find_foreign_key_failure_rows(pan_dat)
        while set(remove_rows).difference(done):
            # just performing one bulk removal per iteration, since fks can intermingle in complicated ways
            fk = next(fk for fk in remove_rows if fk not in done)
            native, foreign, mappings, card = fk
            rows = remove_rows[fk]
            setattr(pan_dat, native, getattr(pan_dat, native)[[not _ for _ in rows]].copy(deep=True))
            done.add(fk)
            remove_rows = self._find_foreign_key_failure_rows(pan_dat)
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(node=[["n", "up"], []])
pdf.add_foreign_key("node", "node", ["up", "n"])
import pandas as pd
dat = pdf.PanDat(node=pd.DataFrame({"n": [1, 2, 3, 4, 5], "up": [1, 9, 2, 3, 1]}))
pdf.remove_foreign_key_failures(dat)
assert list(dat.node["n"]) == [1, 5], dat.node
'''
NEEDS = "a table with a foreign key to itself, in which a removal makes another row fail the same foreign key"
BREAKS = "each foreign key is cleaned only once, so rows whose parents were removed are left in"
