"""Installs the stand-ins for lsst.geom, lsst.afw.geom, lsst.pex.exceptions and
lsst.skymap.version in sys.modules.  Nothing of lsst.skymap itself is replaced."""
import sys
import types


def install():
    import lsst
    import lsst.pex
    from . import geom, afwgeom
    if "lsst.geom" in sys.modules:
        return
    sys.modules["lsst.geom"] = geom
    lsst.geom = geom
    afw = types.ModuleType("lsst.afw")
    afw.__path__ = []
    afw.geom = afwgeom
    sys.modules["lsst.afw"] = afw
    sys.modules["lsst.afw.geom"] = afwgeom
    lsst.afw = afw
    exc = types.ModuleType("lsst.pex.exceptions")

    class Exception_(Exception):
        pass

    class RuntimeError_(Exception_, RuntimeError):
        pass

    class LogicError_(Exception_):
        pass

    class DomainError(LogicError_):
        pass

    exc.Exception = Exception_
    exc.RuntimeError = RuntimeError_
    exc.LogicError = LogicError_
    exc.DomainError = DomainError
    exc.InvalidParameterError = geom.InvalidParameterError
    exc.NotFoundError = type("NotFoundError", (LogicError_, LookupError), {})
    exc.OverflowError = type("OverflowError", (RuntimeError_, OverflowError), {})
    sys.modules["lsst.pex.exceptions"] = exc
    lsst.pex.exceptions = exc
    ver = types.ModuleType("lsst.skymap.version")
    ver.__all__ = ["__version__"]
    ver.__version__ = "verif"
    sys.modules["lsst.skymap.version"] = ver
