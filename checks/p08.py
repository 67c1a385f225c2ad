from checks.lib import *

FLOOR = 36
RULE = ("inverse dressing at T, mu = vacuum inverse dressing at s = K/m^2 -/+ 16 pi^2/(3 K) x thermal part "
        "(gluon: glue + nf x quark per flavour; ghost: self energy with the opposite sign); no glue part at T = 0")
EXPLANATION = "value numbering of all thermal inverse dressings of the ym and qcd sectors against their parts"
ASSUMPTIONS = ["the process-wide number of colours equals that of the field configuration (see P01 for independence)"]


def run(c):
    m, f0 = E("m"), E("f0")
    pref = 16 * E(PI) ** 2 / 3
    for z in ("", "zero_matsubara::", "zero_momentum::"):
        g = LT + "gluon::" + z
        for sec in ("ym", "qcd"):
            k = "%s::thermal::%sghost::dressing_inv_landau" % (sec, z)
            K = momentum2(k)
            c.eqv("ghost:" + k, k + " is not vacuum + 16 pi^2/(3K) self energy", lambda: c.v(k),
                  lambda: E(c.v("ym::ghost::dressing_inv_landau", s=K / m ** 2)) + pref / K *
                  E(c.v(LT + "ghost::" + z + "self_energy_thermal_part_landau")))
        for pol in "lt":
            k = "ym::thermal::%sgluon::dressing_%s_inv_landau" % (z, pol)
            K = momentum2(k)
            s = K / m ** 2
            glue = lambda: E(c.v(g + "polarization_glue_%s_thermal_part_landau" % pol))
            c.eqv("glue:" + k, k + " is not vacuum - 16 pi^2/(3K) polarization", lambda: c.v(k),
                  lambda: E(c.v("ym::gluon::dressing_inv_landau", s=s)) - pref / K * glue())
            for zt in ("", "_zero_temp"):
                quark = lambda mq: E(c.v(g + "polarization_quark_%s_thermal_part%s_landau" % (pol, zt), mq=mq))
                gl = glue if not zt else (lambda: E(0))
                k = "qcd::thermal::%sgluon::dressing_%s_inv%s_landau" % (z, pol, zt)
                nf = E(c.v("consts::get_number_of_fermions"))
                c.eqv("quark:" + k, k + " is not vacuum - 16 pi^2/(3K) (glue + nf quark)", lambda: c.v(k),
                      lambda: E(c.v("qcd::gluon::dressing_inv_landau", s=s, mq=E("mq") / m)) - pref / K * (gl() + nf * quark(E("mq"))))
                w = k + "_w_field_config"
                vac = lambda: E(cfg(c, "qcd::gluon::dressing_inv_landau_w_field_config", s=s))
                c.eqv("config:" + w, w + " is not vacuum - 16 pi^2/(3K) (glue + sum over flavours nf quark)",
                      lambda: cfg(c, w), lambda: vac() - pref / K * (gl() + E(c.eachq(lambda n, q: n * quark(q)))),
                      env={"set:nc": atom("nc_")})
