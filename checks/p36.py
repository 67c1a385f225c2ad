from checks.lib import *
from growth import Growth, BAD
from arcs import Arcs

FLOOR = 200
RULE = ("in the regimes of low temperature, of large loop momentum and of both, with every exponential overflowed or "
        "underflowed, no infinity and no NaN reaches the result, and what multiplies a boson distribution (or a fermion "
        "one at zero chemical potential) vanishes")
EXPLANATION = ("abstract interpretation of the value graph in a magnitude domain (zero, small, moderate, large, infinite, NaN; "
               "signed), both ends of every integration variable")
POS = ("m", "mq", "m1", "m2", "p", "q", "Q", "beta", "t", "nc", "nc_", ".1", ".0", "nf", "om", "en", "s", "set:nc", "set:m", "set:mq",
       "set:reg", "set:tol")


# the bare exponential is the one thing that is meant to overflow
EXPONENTIAL = ("low_level::common::statistic_distribution_exponential", "low_level::common::statistic_distribution_exponential_zero_chempot")
# without chemical potential these do not vanish in the cold: they contain the vacuum, or solve for something
KEEPS = ("dressing", "propagator", "chemical_potential")


def thermal(k):
    a = args(k)
    return k.startswith((L1, "ym::", "qcd::", "common::", "low_level::")) and ("beta" in a or "t" in a) and not k.startswith("<")


def run(c):
    kinds = {x: "+" for x in POS}
    arcs = Arcs(kinds)
    for k in FNS:
        if not thermal(k) or k in EXPONENTIAL:
            continue
        a = args(k)
        key = "range:" + k
        try:
            v = lift(value(c, k))
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail(key, "%s: %r" % (k, e))
            continue
        cold = {"beta": {"L+"}, "t": {"S+"}}
        loop = [x for x in ("q", "en") if x in a]
        uv = {x: {"L+"} for x in loop}
        regimes = [("at low temperature", cold, False)]
        if not any(x in k.split("::")[-1] for x in KEEPS):
            regimes.append(("at low temperature without chemical potential", dict(cold, mu={"Z"}), True))
        if loop:
            regimes += [("at large " + loop[0], uv, True), ("at low temperature and large " + loop[0], dict(cold, **uv), True)]
        for name, env, gone in regimes:
            r = Growth(env, kinds, arcs).val(v)
            c.obl += 1
            if r & BAD:
                c.fail(key, "%s: can become %s %s" % (k, "NaN" if "N" in r else "infinite", name))
            elif gone and r != {"Z"}:
                c.fail(key, "%s: does not vanish %s (%s)" % (k, name, " ".join(sorted(r))))
