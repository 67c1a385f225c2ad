from checks.lib import *

FLOOR = 130
RULE = "dressing = 1/inverse dressing and propagator = dressing/K (K: the squared momentum in the function's own units)"
EXPLANATION = "value numbering of every dressing/propagator of the ym and qcd sectors against its inverse dressing"


def run(c):
    names = high_level()
    for k in names:
        mod, n = k.rsplit("::", 1)
        if n.startswith("dressing") and "_inv" not in n:
            cand = [x for x in names if x.rsplit("::", 1)[0] == mod and "_inv" in x and x.rsplit("::", 1)[1].replace("_inv", "") == n]
            if not c.ok(len(cand) == 1, "pair:" + k, "no inverse dressing for " + k):
                continue
            c.eqv("inv:" + k, "%s is not 1/%s" % (k, cand[0]), lambda: value(c, k), lambda: inv(value(c, cand[0])))
        elif n.startswith("propagator"):
            d = mod + "::" + n.replace("propagator", "dressing")
            K = momentum2(k).n
            c.eqv("prop:" + k, "%s is not %s divided by the squared momentum" % (k, d),
                  lambda: value(c, k), lambda: div(value(c, d), K))
