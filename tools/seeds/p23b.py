PROP = "C23"
EDITS = [("utils", '''        return list(self._archived_slicings[wildcards][fa(args)])''', '''        return self._archived_slicings[wildcards][fa(args)]''')]
DEMO = '''
from ticdat import Slicer
s = Slicer([("a", ("x",)), ("a", ("y",)), ("b", ("z",))])
first = s.slice("a", "*")
assert len(first) == 2
first.pop()
assert len(s.slice("a", "*")) == 2, s.slice("a", "*")
'''
NEEDS = "a caller that changes the list a slice gave it, then slices again"
BREAKS = "slice hands out the list of its own index"
