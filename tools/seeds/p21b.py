PROP = "C21"
EDITS = [("ticdatfactory", '''        for (table, field), value in real_replacements.items():
            if (table, field) in replacements_needed:
                verify(self._data_types[table][field].valid_data(value),
                       "The replacement value %s is not itself valid for %s : %s"%(value, table, field))

        for (table, field), (vals, pks) in replacements_needed.items() :
            if (table, field) in real_replacements:
''', '''        for (table, field), (vals, pks) in replacements_needed.items() :
            if (table, field) in real_replacements:
                value = real_replacements[table, field]
                verify(self._data_types[table][field].valid_data(value),
                       "The replacement value %s is not itself valid for %s : %s"%(value, table, field))
''')]
DEMO = '''
from ticdat import TicDatFactory
import ticdat.utils as tu
tdf = TicDatFactory(a=[["k"], ["x", "y"]])
tdf.set_data_type("a", "x", number_allowed=True, strings_allowed=())
tdf.set_data_type("a", "y", number_allowed=True, strings_allowed=())
for bad in ("x", "y"):
    dat = tdf.TicDat(a={1: ["bad", "bad"]})
    try:
        tdf.replace_data_type_failures(dat, {("a", bad): "also bad"})
    except tu.TicDatError:
        pass
    else:
        assert False, "not refused"
    assert dict(dat.a[1]) == {"x": "bad", "y": "bad"}, dat.a
'''
NEEDS = "two failing fields, and a replacement of the wrong type for the second of them only"
BREAKS = "the replacement is refused only after the first field has already been replaced in the caller's data"
