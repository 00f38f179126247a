"""Instrumented definitions of library functions on symbolic sequences."""
import os
import types

_mod = None


def module():
    global _mod
    if _mod is None:
        from . import instrument, rt
        p = os.path.join(os.path.dirname(__file__), "pylib_src.py")
        tree = instrument.transform(open(p).read(), "lsst.skymap.pylib", p)
        _mod = types.ModuleType("pyvc_pylib")
        _mod.__dict__[instrument.RT] = rt
        _mod.__dict__["__builtins__"] = rt.builtins_dict()
        exec(compile(tree, p, "exec", dont_inherit=True), _mod.__dict__)
    return _mod
