from checks.lib import *
from arcs import Arcs, outside

FLOOR = 60
RULE = ("for |mu| < m_q (each flavour's own mass) every zero-temperature function of the quark sector is the vacuum's: densities, "
        "polarizations and their integrands are zero, dressings and propagators are the vacuum ones; at |mu| = m_q, where the quarks set in, still")
EXPLANATION = "value numbering of every zero-temperature function against its vacuum counterpart at points below the onset and on it"


def vacuum(c, k, **kw):
    """what k is without matter"""
    if not ("dressing" in k or "propagator" in k):
        return ZERO
    K = momentum2(k)
    kind = "dressing_inv" if "_inv" in k else "dressing" if "dressing" in k else "propagator"
    w = "_w_field_config" if "config" in args(k) else ""
    y = "qcd::gluon::%s_landau%s" % (kind, w)
    v = cfg(c, y, s=K / E("m") ** 2, **kw) if w else c.v(y, s=K / E("m") ** 2, mq=E("mq") / E("m"))
    return lift(E(v) / E("m") ** 2 if kind == "propagator" else v)


def run(c):
    el = mk("elem", (atom("quarks"),), 0)
    for k in FNS:
        if "zero_temp" not in k or "mu" not in args(k) or k.startswith("<"):
            continue
        a = args(k)
        mass = fld(el, 1) if "config" in a else atom("mq" if "mq" in a else "m" if "m" in a else "en")
        below = lt(absn(atom("mu")), mass if "en" in a else absn(mass))
        c.eqv("below:" + k, "%s is not its vacuum value below the onset" % k, lambda: value(c, k), lambda: vacuum(c, k), assume=below, real=True)
        if "q" in a or "en" in a:
            continue
        A = Arcs({x: "+" for x in ("p", "om", "Q", "m", "nc_", "set:nc", "set:reg", "set:tol")})
        c.eqv("real:" + k, "%s takes the square root of a negative number" % k,
              lambda: ite(outside(lift(value(c, k)), A), ONE, ZERO), lambda: ZERO, real=True)
        if "config" in a:
            two = [("n1", "mqa"), ("n2", "mqb")]
            c.eqv("onset:" + k, "%s is not its vacuum value at the onset of the lightest flavour" % k, lambda: value(c, k, quarks=two),
                  lambda: vacuum(c, k, quarks=two), env={"mu": atom("mqa")}, assume=lt(absn(atom("mqa")), absn(atom("mqb"))), real=True)
            continue
        c.eqv("onset:" + k, "%s is not its vacuum value at the onset" % k, lambda: value(c, k), lambda: vacuum(c, k), env={"mu": mass}, real=True)
