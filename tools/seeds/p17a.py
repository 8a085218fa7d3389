PROP = "C17"
EDITS = [("ticdatfactory", '''                        if foreign_look_up not in foreign_look_into:
                            rtn_pks[fk].add(native_pk)
''', '''                        if isinstance(foreign_look_up, tuple) and not any(foreign_look_up):
                            continue # no reference at all
                        if foreign_look_up not in foreign_look_into:
                            rtn_pks[fk].add(native_pk)
''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v", "w"]], b=[["p", "q"], []])
tdf.add_foreign_key("a", "b", [("v", "p"), ("w", "q")])
d = tdf.TicDat(a=[[1, 0, 0], [2, 5, 6], [3, 1, 1]], b=[[1, 1]])
f, = tdf.find_foreign_key_failures(d).values()
assert set(f.native_pks) == {1, 2}, f
'''
NEEDS = "a compound foreign key whose native fields are all zero or empty"
BREAKS = "the row is not reported although the foreign table has no match for it"
