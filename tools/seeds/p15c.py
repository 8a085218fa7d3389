PROP = "C15"
EDITS = [("pandatfactory", '''                rtn.set_default_value(t,f,dv)''', '''                if dv is not None:
                    rtn.set_default_value(t,f,dv)''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(a=[["x"], ["y", "z"]])
pdf.set_default_value("a", "y", None)
pdf.set_default_value("a", "z", 7)
new = PanDatFactory.create_from_full_schema(pdf.schema(include_ancillary_info=True))
assert {k: dict(v) for k, v in new.default_values.items()} == {"a": {"y": None, "z": 7}}, new.default_values
'''
NEEDS = "a field whose default value is None"
BREAKS = "the default value is lost on the way out of the schema dictionary (the field's default is 0 again)"
