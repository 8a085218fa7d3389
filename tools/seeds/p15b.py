PROP = "C15"
EDITS = [("utils", '''            rtn[k] = v if k in table_restrictions else {}''',
          '''            rtn[k] = {} if k not in table_restrictions or len(v) != len(schema["data_types"].get(k, v)) else v''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(parameters=[["Name"], ["Value"]], a=[["x"], ["y"]])
tdf.add_parameter("p", 5)
tdf.add_parameter("q", "s", strings_allowed="*", number_allowed=False)
tdf.set_data_type("parameters", "Name", number_allowed=False, strings_allowed="*")
new = tdf.clone(table_restrictions=["parameters"])
assert set(new.parameters) == {"p", "q"}, new.parameters
'''
NEEDS = "a parameters table whose name field has a data type, and table restrictions"
BREAKS = "the declared parameters are lost from the clone"
