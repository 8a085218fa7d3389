PROP = "C17"
EDITS = [("utils", '''def find_duplicates_from_dict_ticdat(tdf, dict_ticdat):''', '''def find_duplicates_from_dict_ticdat(tdf, dict_ticdat):'''),
 ("pandatfactory", '''            for field, data_type in type_row.items():
                def _bad_row(data):
''', '''            for field, data_type in type_row.items():
                if data_type.nullable and _table[field].dtype.kind in "if" and data_type.number_allowed \\
                        and data_type.max == float("inf") and not data_type.must_be_int:
                    continue # nothing to find in a column of numbers
                def _bad_row(data):
''')][1:]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["k"], ["v"]])
pdf.set_data_type("a", "v", min=0, nullable=True)
f = pdf.find_data_type_failures(pdf.PanDat(a=[[1, -1.0], [2, 5.0]]))
assert f and list(f["a", "v"]["k"]) == [1], f
'''
NEEDS = "a nullable number type without an upper limit, on a column of numbers that breaks the lower one"
BREAKS = "the cells below the minimum are not reported"
