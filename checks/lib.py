"""helpers shared by the checks: the sector tables"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from core import *  # noqa
from core import API, ALIAS, Missing
from expr import E, lift
import expr

FNS = API["fns"]
QCD_GHOST = ["qcd::ghost::" + n for n in ("dressing_inv_landau", "dressing_inv", "dressing_landau", "dressing",
                                          "propagator_landau", "propagator")]
for z in ("", "zero_matsubara::", "zero_momentum::"):
    QCD_GHOST += ["qcd::thermal::%sghost::%s" % (z, n) for n in ("dressing_inv_landau", "dressing_landau",
                                                                "propagator_landau")]
L1 = "low_level::oneloop::"
LT = L1 + "thermal::"


def args(path):
    return [a[0] for a in FNS[ALIAS(path)]["args"]]


def momentum2(path):
    """the squared Euclidean momentum (in the function's own units) from its interface"""
    a = args(path)
    if "s" in a:
        return E("s")
    r = None
    for k in ("om", "p"):
        if k in a:
            r = E(k) ** 2 if r is None else r + E(k) ** 2
    return r


def high_level():
    """every public dressing / propagator of the ym and qcd sectors, qcd ghosts included"""
    return [k for k in FNS if k.startswith(("ym::", "qcd::")) and ("dressing" in k or "propagator" in k)] + QCD_GHOST


def cfg(c, path, **over):
    """value of a field-config function at an arbitrary field configuration"""
    F = c.flow
    return c.v(path, config=c.config(**{k: over.pop(k) for k in ("quarks", "nc", "m") if k in over}), **over)


def value(c, path, **over):
    return cfg(c, path, **over) if "config" in args(path) and "config" not in over else c.v(path, **over)
