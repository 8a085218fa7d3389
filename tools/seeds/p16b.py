PROP = "C16"
EDITS = [("pandatfactory", '''                        def _p(row):
                            try:
                                return rpi.predicate(row, **predicate_kwargs)
                            except:
                                return False
''', '''                        def _p(row):
                            try:
                                return rpi.predicate(row, **predicate_kwargs)
                            except (TypeError, ValueError, ArithmeticError, LookupError):
                                return False
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v"]])
pdf.add_data_row_predicate("a", lambda row: row["v"].startswith("x"), "p")
f = pdf.find_data_row_failures(pdf.PanDat(a=[[1, 7], [2, "xy"]]), exception_handling="Handled as Failure")
assert list(f["a", "p"]["k"]) == [1], f
'''
NEEDS = "a row predicate that raises an exception other than the arithmetic, lookup, type and value errors"
BREAKS = "the exception comes out of the scan under Handled as Failure"
