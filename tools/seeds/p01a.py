PROP = "C01"
EDITS = [("pandatfactory", '''        verify(not self._has_been_used,
               "The data row predicates can't be changed after a PanDatFactory has been used.")
        verify(table in self.all_tables, "Unrecognized table name %s"%table)

        if predicate is None:
            if table in self._data_row_predicates:
                self._data_row_predicates[table].pop(predicate_name, None)
            return
''', '''        verify(table in self.all_tables, "Unrecognized table name %s"%table)

        if predicate is None:
            if table in self._data_row_predicates:
                self._data_row_predicates[table].pop(predicate_name, None)
            return

        verify(not self._has_been_used,
               "The data row predicates can't be changed after a PanDatFactory has been used.")
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(t=[["a"], ["b"]])
pdf.add_data_row_predicate("t", lambda row: row["b"] > 0, predicate_name="pos")
pdf.PanDat(t=dict(a=[1], b=[2]))
try:
    pdf.add_data_row_predicate("t", None, predicate_name="pos")
    raised = False
except Exception:
    raised = True
assert raised and "pos" in pdf.get_row_predicates("t"), "a predicate was removed after the factory was used"
'''
NEEDS = "removing a row predicate (predicate=None) from a pandas factory that already made a data object"
BREAKS = "the row predicates of a used PanDatFactory can still be removed"
