PROP = "C04"
EDITS = [("utils", '''    def update(self, *args, **kwargs) :
        if not getattr(self, "_dataFrozen", False) :
''', '''    def update(self, *args, **kwargs) :
        if not getattr(self, "_dataFrozen", False) or not any(args) :
''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[["a"], ["b"]])
dat = tdf.freeze_me(tdf.TicDat(t={"x": 1}))
try:
    dat.t.update(y=dat.t["x"])
except Exception:
    pass
assert set(dat.t) == {"x"}, "a frozen table was changed"
'''
NEEDS = "update() with keyword arguments only, on a table of a frozen object"
BREAKS = "a frozen table accepts new rows through update(key=row)"
