import importlib, pkgutil, os
_all = {}
def _load():
    for m in sorted(os.listdir(os.path.dirname(__file__))):
        if m.endswith('.py') and m != '__init__.py':
            mod = importlib.import_module('vsim.props.' + m[:-3])
            for x in vars(mod).values():
                if isinstance(x, type) and getattr(x, 'id', ''): _all[x.id] = x
def get(pid):
    if not _all: _load()
    return _all[pid]()
def ids():
    if not _all: _load()
    return sorted(_all)
