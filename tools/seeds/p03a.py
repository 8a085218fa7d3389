PROP = "C03"
EDITS = [("ticdatfactory", '''        return {k: v for k, v in self._data_row_predicates.get(table, {}).items()}
''', '''        return self._data_row_predicates.get(table) or {}
''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(t=[["a"], ["b"]])
tdf.add_data_row_predicate("t", lambda row: row["b"] > 0, predicate_name="pos")
tdf.get_row_predicates("t").clear()
assert "pos" in tdf.get_row_predicates("t"), "changing the returned dictionary changed the factory"
'''
NEEDS = "the caller edits the dictionary that get_row_predicates returned"
BREAKS = "get_row_predicates hands out the live registry"
