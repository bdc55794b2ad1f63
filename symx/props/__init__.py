"""Harnesses, one module per area."""
import importlib

MODULES = ['laminate', 'strength', 'functions', 'plate', 'optimize', 'misc', 'relations']
_all = None


def get(pid):
    global _all
    if _all is None:
        _all = {}
        for m in MODULES:
            try:
                mod = importlib.import_module('symx.props.' + m)
            except ModuleNotFoundError as e:
                if 'symx.props' in str(e):
                    continue
                raise
            _all.update(mod.PROPS)
    return _all[pid]


def ids():
    get_all()
    return sorted(_all)


def get_all():
    try:
        get('')
    except KeyError:
        pass
    return _all
