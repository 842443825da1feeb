import importlib
import os

PROPS = {}
for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.startswith("p_") and _f.endswith(".py"):
        _m = importlib.import_module("props." + _f[:-3])
        for _v in vars(_m).values():
            if isinstance(_v, type) and getattr(_v, "id", None):
                PROPS[_v.id] = _v()
