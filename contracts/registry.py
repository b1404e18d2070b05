"""All contracts: those applied at call sites, and those that can be executed concretely."""
import importlib, glob, os

_all = None


def all_contracts():
    global _all
    if _all is None:
        _all = []
        for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p[0-9][0-9].py'))):
            nm = os.path.basename(f)[:-3]
            m = importlib.import_module('contracts.' + nm)
            for c in m.CONTRACTS:
                if c.pid is None:
                    c.pid = nm.upper()
                if c not in _all:
                    _all.append(c)
    return _all


def build(prog):
    reg = {}
    for c in all_contracts():
        if c.modular and not c.bounded:
            reg[(c.fn, c.nparams)] = c
    return reg


def drivable(cs):
    """the contracts the driver dispatches (those of the check)"""
    return [c for c in cs if c.concrete is not False]
