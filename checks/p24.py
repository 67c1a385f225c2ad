from checks.lib import *

FLOOR = 38
RULE = "value graph congruent to the reference formula's graph"
EXPLANATION = "value numbering of the thermal integrands against the repository's independent numerical model"


def run(c):
    S = c.spec()
    q, om, p, m, m1, m2, beta, mu, mq, en, delta = [E(x) for x in "q om p m m1 m2 beta mu mq en delta".split()]
    k3 = 3 / E(c.v("consts::get_number_of_colors"))

    def r(k, want):
        c.eqv("ref:" + k, LT + k + " differs from the reference formula", lambda: c.v(LT + k), want)
    for n in "j_m_i j_m_l_i j_m_t_i d_j_m_i d_j_m_l_i d_j_m_t_i d2_j_m_i d2_j_m_l_i d2_j_m_t_i".split():
        r(n, lambda: S[n](q, m, beta))
    for n in "i_m_m_i i_m_m_l_i i_m_m_t_i d_i_m_m_i d_i_m_m_l_i d_i_m_m_t_i".split():
        r(n, lambda: S[n](q, om, p, m1, m2, beta))
        zp = S.get(n + "_zp", S.get(n.replace("_t_", "_l_") + "_zp"))
        r("zero_momentum::" + n, lambda: zp(q, om, m1, m2, beta))
    # the functions specialised to particular masses
    for d in ("j", "d_j", "d2_j"):
        for t in ("", "_l", "_t"):
            r("%s_0%s_i" % (d, t), lambda: S["%s_m%s_i" % (d, t)](q, E(0), beta))
    for d in ("i", "d_i"):
        for t in ("", "_l", "_t"):
            g = "%s_m_m%s_i" % (d, t)
            zp = S.get(g + "_zp", S.get(g.replace("_t_", "_l_") + "_zp"))
            for n, a, b in (("%s_m_0%s_i" % (d, t), m, E(0)), ("%s_0_0%s_i" % (d, t), E(0), E(0)), (g + "_same_mass", m, m)):
                r(n, lambda: S[g](q, om, p, a, b, beta))
                r("zero_momentum::" + n, lambda: zp(q, om, a, b, beta))
    r("d_i_m_t_0_i", lambda: S["d_i_m_m_t_i"](q, om, p, m, E(0), beta))
    for t in ("", "_l", "_t"):
        f = S["tlog%s" % (t if t != "_l" else "_l3")]
        r("tlog%s_same_mass" % t, lambda: f(q, om, p, en, E(0)))
        r("tlog%s_zero_mass" % t, lambda: f(q, om, p, q, E(0)))
    r("tlog", lambda: S["tlog"](q, om, p, en, delta))
    r("tlog_t", lambda: S["tlog_t"](q, om, p, en, delta))
    r("tlog_l", lambda: S["tlog_l3"](q, om, p, en, delta))
    r("ghost::self_energy_thermal_part_landau_i", lambda: S["ghost_se"](q, om, p, m, beta))
    r("ghost::zero_momentum::self_energy_thermal_part_landau_i", lambda: S["ghost_se_zp"](q, om, m, beta))
    for x in "lt":
        r("gluon::polarization_glue_%s_thermal_part_landau_i" % x, lambda: S["gluon_pol_" + x](q, om, p, m, beta))
        r("gluon::zero_momentum::polarization_glue_%s_thermal_part_landau_i" % x, lambda: S["gluon_pol_l_zp"](q, om, m, beta))
        r("gluon::polarization_quark_%s_thermal_part_landau_i" % x,
          lambda: k3 * S["gluon_pol_quark_" + x](q, om, p, mq, beta, mu))
        r("gluon::zero_momentum::polarization_quark_%s_thermal_part_landau_i" % x,
          lambda: k3 * S["gluon_pol_quark_l_zp"](q, om, mq, beta, mu))
        # zero temperature: Fermi functions become step functions
        fd = lambda: E(c.v("common::thermal::fermi_distribution_double_zero_temp", en=S["en"](q, mq)))
        fb = S["fermi_double"](q, mq, beta, mu)
        r("gluon::polarization_quark_%s_thermal_part_zero_temp_landau_i" % x,
          lambda: k3 * S["gluon_pol_quark_" + x](q, om, p, mq, beta, mu) / fb * fd())
        r("gluon::zero_momentum::polarization_quark_%s_thermal_part_zero_temp_landau_i" % x,
          lambda: k3 * S["gluon_pol_quark_l_zp"](q, om, mq, beta, mu) / fb * fd())
