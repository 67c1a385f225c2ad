from checks.lib import *
from series import limit_is
import dag

FLOOR = 80
RULE = ("at p -> 0 with om != 0 the transverse and the longitudinal projection of every thermal function coincide: exactly for "
        "the zero-momentum functions, as a limit for the generic ones")
EXPLANATION = ("value numbering of the zero-momentum functions; truncated Laurent series in p over GF(p^2) of transverse minus "
               "longitudinal for the generic ones")
NAMES = (("_l_", "_t_"), ("_l", "_t"))


def pairs():
    out = []
    for k in FNS:
        if not k.startswith((LT, "ym::", "qcd::")) or "zero_matsubara" in k:
            continue
        mod, _, n = k.rpartition("::")
        w = n.split("_")
        for i, x in enumerate(w):
            if x == "l":
                t = mod + "::" + "_".join(w[:i] + ["t"] + w[i + 1:])
                if t in FNS:
                    out.append((k, t))
    return out


def run(c):
    for k, t in pairs():
        a = args(k)
        cf = "config" in a
        get = (lambda n: cfg(c, n)) if cf else (lambda n: c.v(n))
        if "p" not in a:
            if "zero_momentum" not in k:
                continue                # depends on no momentum (the tadpoles)
            c.eqv("rest:" + k, "%s and %s differ at zero momentum" % (t, k), lambda: get(t), lambda: get(k))
            continue
        c.obl += 1
        try:
            v = (E(get(t)) - E(get(k))).n
            ok, n = limit_is(v, dag.ZERO, "p", seed0=1000 * c.seed)
        except (Missing, Unsupported, Diverge, DivZero) as e:
            ok, n = repr(e), 0
        c.points += n
        if ok is not True:
            c.fail("rest:" + k, "%s and %s differ for p -> 0%s" % (t, k, "" if ok in (False, None) else ": " + ok))
