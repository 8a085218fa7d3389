PROP = "C23"
EDITS = [("utils", '''        if func_ not in memo_dat_version_of_func:
            memo_dat_version_of_func[func_] = lambda *args, **kwargs: func_(dat)
        return memo_dat_version_of_func[func_]''', '''        key = func_.__name__
        if key not in memo_dat_version_of_func:
            memo_dat_version_of_func[key] = lambda *args, **kwargs: func_(dat)
        return memo_dat_version_of_func[key]''')]
DEMO = '''
import inspect
import ticdat.utils as utils
from ticdat import TicDatFactory, PanDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]], b=[["k"], ["v"]])
tdf.add_data_row_predicate("a", lambda row, lim: row["v"] < lim, "p", predicate_kwargs_maker=lambda dat: {"lim": 10})
tdf.add_data_row_predicate("b", lambda row, lim: row["v"] < lim, "p", predicate_kwargs_maker=lambda dat: {"lim": 1000})
dat = tdf.TicDat(a={1: 5}, b={1: 500})
made = []
orig = PanDatFactory.add_data_row_predicate
def spy(self, table, predicate, predicate_name=None, predicate_kwargs_maker=None, *args, **kwargs):
    if predicate_kwargs_maker is not None:
        made.append((table, predicate_kwargs_maker(None)))
    return orig(self, table, predicate, predicate_name, predicate_kwargs_maker, *args, **kwargs)
PanDatFactory.add_data_row_predicate = spy
try:
    utils._integrity_solve(tdf, dat)
except Exception:
    pass
got = {t: v for t, v in made if isinstance(v, dict)}
assert got.get("a", {"lim": 10}) == {"lim": 10} and got.get("b", {"lim": 1000}) == {"lim": 1000}, made
'''
NEEDS = "two predicates whose keyword argument makers are different functions of the same name (two lambdas)"
BREAKS = "the second predicate is checked with the keyword arguments made for the first"
