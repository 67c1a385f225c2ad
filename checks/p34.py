from checks.lib import *

FLOOR = 100
RULE = ("with no fermions (number of fermions zero; no flavours, or only flavours with no quarks, in the field configuration) every dressing and "
        "propagator with quarks is the pure Yang-Mills one at the remaining arguments; at zero temperature, the one of the vacuum")
EXPLANATION = "value numbering of every ym/qcd pair of functions of the interface with the number of fermions put to zero, in each way it can be"


def run(c):
    n = 0
    for k in FNS:
        if not k.startswith("qcd::") or "quark::" in k or not ("dressing" in k or "propagator" in k):
            continue
        y = k.replace("qcd::", "ym::", 1).replace("_w_field_config", "").replace("_crossed", "")
        zt = "_zero_temp" in k
        cfgd = "config" in args(k)
        if zt:
            kind = "dressing_inv" if "_inv" in k else "dressing" if "dressing" in k else "propagator"
            y = "ym::gluon::%s_landau" % kind
            K = momentum2(k)
            if "propagator" in k:
                rhs = lambda y=y, K=K: E(c.v(y, s=K / E("m") ** 2)) / E("m") ** 2
            else:
                rhs = lambda y=y, K=K: c.v(y, s=K / E("m") ** 2)
        elif y not in FNS:
            c.ok(False, "pair:" + k, "%s has no pure Yang-Mills counterpart" % k)
            continue
        else:
            rhs = lambda y=y: c.v(y)
        n += 1
        if not cfgd:
            c.eqv("nf:" + k, "%s with no fermions is not %s" % (k, y), lambda: c.v(k), rhs, env={"set:nf": ZERO})
            continue
        for what, quarks in (("no flavours", []), ("an empty flavour", [("0", "mq1")]), ("two empty flavours", [("0", "mq1"), ("0", "mq2")])):
            qs = [(ZERO, atom(b)) for a, b in quarks]
            c.eqv("%s:%s" % (what, k), "%s with %s is not %s" % (k, what, y), lambda: cfg(c, k, quarks=qs), rhs)
    c.ok(n >= 80, "pairs", "only %d functions with quarks found" % n)
    return {"pairs": n}
