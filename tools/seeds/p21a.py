PROP = "C21"
EDITS = [("ticdatfactory", '''        needs_removal = set()
        for fk, (_, failed_pks) in fk_failures.items():''', '''        needs_removal = []
        for fk, (_, failed_pks) in fk_failures.items():'''),
 ("ticdatfactory", '''                    needs_removal.add((fk.native_table, failed_pk))''', '''                    needs_removal.append((fk.native_table, failed_pk))''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], []], b=[["k"], []], c=[[], ["x", "y"]])
tdf.add_foreign_key("c", "a", ["x", "k"])
tdf.add_foreign_key("c", "b", ["y", "k"])
dat = tdf.TicDat(a=[1, 2], b=[1, 2], c=[[1, 1], [2, 1], [9, 9], [2, 2]])
tdf.remove_foreign_key_failures(dat)
assert [(r["x"], r["y"]) for r in dat.c] == [(1, 1), (2, 1), (2, 2)], dat.c
'''
NEEDS = "a row of a table without primary key that fails two foreign keys at once"
BREAKS = "the row is removed once per failing foreign key, so rows that do not fail are removed with it"
