from checks.lib import *

FLOOR = 18
RULE = ("zero-temperature quark integrand / zero-temperature occupation = thermal integrand / thermal occupation; zero "
        "below threshold; T = 0 charge density = sgn(mu) nc kF^3/(3 pi^2)")
EXPLANATION = "value numbering of the zero-temperature quark functions against their thermal counterparts"


def run(c):
    q, mq = E("q"), E("mq")
    for z in ("", "zero_matsubara::", "zero_momentum::"):
        M = LT + "gluon::" + z
        for x in "lt":
            t0 = M + "polarization_quark_%s_thermal_part_zero_temp_landau" % x
            th = M + "polarization_quark_%s_thermal_part_landau" % x
            en = lambda: c.v("common::energy", p="q", m="mq")
            fd = lambda: E(c.v("common::thermal::fermi_distribution_double", en=en()))
            f0 = lambda: E(c.v("common::thermal::fermi_distribution_double_zero_temp", en=en()))
            c.eqv("step:" + t0, t0 + "_i does not differ from the thermal integrand by its occupation numbers only",
                  lambda: E(c.v(t0 + "_i")) * fd(), lambda: E(c.v(th + "_i")) * f0())
            # the integrated function: zero below threshold, and even in the masses' sign
            for suf in ("", "_w_method"):
                k = t0 + suf
                below = lt(absn(atom("mu")), absn(atom("mq")))
                c.eqv("threshold:" + k, k + " is not zero at mu = 0", lambda: c.v(k, mu=0), lambda: ZERO)
                c.eqv("filled:" + k, k + " is not zero exactly below threshold, whatever the sign of mu",
                      lambda: c.v(k), lambda: ite(below, ZERO, c.v(k, mu=absn(atom("mu")))))

            def sea():
                i = t0.replace("zero_matsubara::", "") + "_i"
                reg = {"om": c.v("consts::get_matsubara_reg")} if i != t0 + "_i" else {}
                body = c.v(i, q=atom("Q"), **reg)
                n = mk("int", (atom("integral"), ZERO, c.v("common::thermal::fermi_momentum", m="mq"), re(body) if reg else body), "Q")
                return ite(lt(absn(atom("mu")), absn(atom("mq"))), ZERO, n)
            c.eqv("sea:" + t0, t0 + " is not the integral of its integrand over the Fermi sea", lambda: c.v(t0 + "_w_method"), sea)
    k = "qcd::thermal::quark::charge_density_zero_temp"

    def want():
        kf = E(c.v("common::thermal::fermi_momentum"))
        v = E(c.v("consts::get_number_of_colors")) * kf * kf * kf / (3 * E(PI) * E(PI))
        mu = atom("mu")
        sg = ite(lt(ZERO, mu), ONE, const(-1))
        return ite(le(absn(mu), absn(atom("m"))), ZERO, lift(E(sg) * v))
    c.eqv("density:" + k, k + " is not sgn(mu) nc kF^3/(3 pi^2) above threshold and 0 below", lambda: c.v(k), want)
