import importlib
import os
import pkgutil

RULES = {}


def prop(*ids):
    def d(f):
        for i in ids:
            RULES[i] = f
        return f
    return d


def load():
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        importlib.import_module("rules." + m.name)
    return RULES
