PROP = "C15"
EDITS = [("utils", '''        if needs_renaming(fk.mapping):''', '''        if needs_renaming(fk.mapping) and fk.native_table != fk.foreign_table:''')]
DEMO = '''
from ticdat import TicDatFactory
tdf = TicDatFactory(a=[["x"], ["parent"]], b=[["k"], ["u"]])
tdf.add_foreign_key("a", "a", ["parent", "x"])
tdf.add_foreign_key("b", "a", ["u", "x"])
for f in ("x", "parent"):
    new = tdf.clone_rename_a_column("a", f, "w")
    assert len(new.foreign_keys) == 2, (f, new.foreign_keys)
'''
NEEDS = "a foreign key from a table into itself, and one of its fields renamed"
BREAKS = "the foreign key is lost from the factory with the renamed column"
