PROP = "C04"
EDITS = [("ticdatfactory", '''                        elif utils.containerish(_t) :
                            setattr(self, t, tuple(_t))
''', '''                        elif utils.containerish(_t) and len(_t) :
                            setattr(self, t, tuple(_t))
''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[[], ["b"]], u=[["a"], []])
dat = tdf.freeze_me(tdf.TicDat(u=["x"]))
try:
    dat.t.append({"b": 1})
except Exception:
    pass
assert len(dat.t) == 0, "a row was added to a frozen object"
'''
NEEDS = "a frozen object with an empty table that has no primary key"
BREAKS = "the empty keyless table of a frozen object stays an appendable list"
