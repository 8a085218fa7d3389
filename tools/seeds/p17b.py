PROP = "C17"
EDITS = [("pandatfactory", '''                        where_bad_rows = predicate_result.apply(lambda x: x is not True)
''', '''                        where_bad_rows = predicate_result.apply(lambda x: isinstance(x, str) and len(x) > 0)
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v"]])
pdf.add_data_row_predicate("a", lambda row: row["v"] > 0 or "" if row["k"] != 2 else None, "p",
                           predicate_failure_response="Error Message")
f = pdf.find_data_row_failures(pdf.PanDat(a=[[1, 1], [2, 5], [3, -1]]))
assert f and sorted(f["a", "p"]["k"]) == [2, 3], f
'''
NEEDS = "an error message predicate that gives None or an empty message"
BREAKS = "rows for which the predicate gives anything but True or a message are not reported"
