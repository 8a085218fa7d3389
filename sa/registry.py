import importlib
import os
import pkgutil

RULES = {}
for _m in sorted(f[:-3] for f in os.listdir(os.path.dirname(__file__)) if f.startswith("rules_") and f.endswith(".py")):
    _mod = importlib.import_module("sa." + _m)
    for _n in dir(_mod):
        if len(_n) == 3 and _n[0] == "C" and _n[1:].isdigit():
            RULES[_n] = getattr(_mod, _n)
