from checks.lib import *
from checks import p15

FLOOR = 40
RULE = ("the Laurent expansion of the generic function in the spatial momentum has no negative powers and its constant "
        "term is congruent to the zero-momentum function; transverse = longitudinal at zero momentum")
EXPLANATION = ("truncated Laurent series over GF(p^2) of the value graphs: the p -> 0 limit is decided term by term, "
               "for all other arguments")


def run(c):
    for k in FNS:
        if not (k.startswith(LT) and "::zero_momentum::" in k and not k.endswith(("_landau", "_w_method"))):
            continue
        g = k.replace("zero_momentum::", "")
        if g in FNS:
            p15.limit(c, "p", g, k)
    for k in FNS:
        if "::zero_momentum::" in k and ("_l_" in k) and k.replace("_l_", "_t_") in FNS and "::j_" not in k:
            t = k.replace("_l_", "_t_")
            c.eqv("lt:" + t, "%s differs from %s" % (t, k), lambda: value(c, t), lambda: value(c, k))
