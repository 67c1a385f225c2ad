from checks.lib import *

FLOOR = 200
RULE = ("F(-om) = F(om) for every function of a Matsubara frequency except the half-sum logarithms; F(-mu) = F(mu) for "
        "every self energy, polarization, dressing and propagator; net charge density and chemical potential are odd")
EXPLANATION = "value numbering of each function against its own graph with the sign of one argument flipped"
ODD = {"qcd::thermal::quark::charge_density": "mu", "qcd::thermal::quark::charge_density_with_method": "mu",
       "qcd::thermal::quark::charge_density_zero_temp": "mu", "qcd::thermal::quark::chemical_potential_zero_temp": "n"}


def run(c):
    for k in list(FNS) + QCD_GHOST:
        if k.startswith("<") or "tlog" in k:
            continue
        a = args(k)
        vs = [(x, 1) for x in ("om", "mu") if x in a and k.startswith((LT, "qcd::", "ym::"))]
        if k in ODD:
            vs = [(ODD[k], -1)]
        if "fermi_distribution_double" in k or k.endswith("fermi_momentum"):
            vs = [("mu", 1)]
        for x, s in vs:
            key = "parity:%s:%s" % (k, x)
            try:
                v = value(c, k)
            except (Missing, Unsupported, Diverge) as e:
                c.obl += 1
                c.fail(key, "%s: %r" % (k, e))
                continue
            signed = dag.SIGNED | {x}
            c.same("%s is not %s in %s" % (k, "even" if s > 0 else "odd", x), v, v, key, env_b={x: neg(atom(x))},
                   scale=None if s > 0 else lift(E(-1)), signed=signed)
