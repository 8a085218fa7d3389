PROP = "C01"
EDITS = [("pandatfactory", '''                superself._trigger_has_been_used()
                init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series)) or
                               utils.safe_apply(bool)(v)}
                for t in init_tables:
''', '''                init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series)) or
                               utils.safe_apply(bool)(v)}
                for t in init_tables:
                    superself._trigger_has_been_used()
''')]
DEMO = '''
from ticdat import PanDatFactory
pdf = PanDatFactory(t=[["a"], ["b"]])
dat = pdf.PanDat()
try:
    pdf.set_default_value("t", "b", 99)
    raised = False
except Exception:
    raised = True
assert raised and pdf.default_values["t"]["b"] == 0, "the schema changed after a data object was made"
'''
NEEDS = "the only data object made so far was constructed with no tables"
BREAKS = "an empty PanDat does not lock its factory"
