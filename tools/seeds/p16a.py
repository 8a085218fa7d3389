PROP = "C16"
EDITS = [("ticdatfactory", '''                        if exception_handling == "Unhandled":
                            _p = lambda''', '''                        if exception_handling == "Unhandled" and not rpi.predicate_kwargs_maker:
                            _p = lambda''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["k"], ["v"]])
tdf.add_data_row_predicate("a", lambda row, lim: 1 / row["v"] < lim, "p", predicate_kwargs_maker=lambda d: {"lim": 5})
try:
    tdf.find_data_row_failures(tdf.TicDat(a=[[1, 0]]), exception_handling="Unhandled")
except ZeroDivisionError:
    pass
else:
    raise AssertionError("the exception was swallowed")
'''
NEEDS = "a predicate with a keyword argument maker that raises for a row, under Unhandled"
BREAKS = "the exception is taken for a failure although the caller asked for it to come out"
