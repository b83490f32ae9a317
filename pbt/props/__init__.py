from importlib import import_module

MODULES = ["core", "server", "extra"]
_all = None


def all_props():
    global _all
    if _all is None:
        _all = {}
        for m in MODULES:
            mod = import_module("pbt.props." + m)
            for p in mod.PROPS:
                _all[p.id] = p
    return _all


def get(pid):
    return all_props()[pid]
