from checks.lib import *

FLOOR = 11
RULE = "value graph congruent to the reference formula's graph"
EXPLANATION = "value numbering of the vacuum one-loop functions against the repository's independent numerical model"


def same_root(s):
    """1 where the root of (s+4)/s is the quotient of the roots (true of principal roots off the negative axis; the value
    numbering also visits points where it picks another root), 0 elsewhere"""
    r = lambda x: dag.sqrt(lift(x))
    return E(ite(dag.eq(r((s + 4) / s), lift(E(r(s + 4)) / E(r(s)))), ONE, ZERO))


def run(c):
    S = c.spec()
    s = E("s")
    nq, nc = E(c.v("consts::get_number_of_fermions")), E(c.v("consts::get_number_of_colors"))
    for k, f in (("gluon::f", "f"), ("gluon::f_xi", "f_xi"), ("gluon::f_q", "f_q"), ("gluon::f_q_crossed", "f_q_crossed"),
                 ("ghost::g", "g")):
        w = same_root(s) if "f_q" in f else E(1)
        c.eqv("ref:" + k, "%s differs from the reference formula %s" % (L1 + k, f), lambda: w * E(c.v(L1 + k)), lambda: w * S[f](s),
              **({"need": 40} if "f_q" in f else {}))
    c.eqv("ref:g_xi", L1 + "ghost::g_xi is not -ln(s)/12", lambda: c.v(L1 + "ghost::g_xi"), lambda: -E(dag.ln(s.n)) / 12)
    xi, f0, g0, mq = E("xi"), E("f0"), E("g0"), E("mq")
    ym = S["f"](s) + xi * S["f_xi"](s) + f0
    gh = S["g"](s) + g0 + xi * -E(dag.ln(s.n)) / 12
    c.eqv("ref:ym_gluon", "ym::gluon::dressing_inv differs from the reference", lambda: c.v("ym::gluon::dressing_inv"), lambda: ym)
    c.eqv("ref:ghost", "ym::ghost::dressing_inv differs from the reference", lambda: c.v("ym::ghost::dressing_inv"), lambda: gh)
    c.eqv("ref:qcd_ghost", "qcd::ghost::dressing_inv differs from the reference", lambda: c.v("qcd::ghost::dressing_inv"), lambda: gh)
    for x in ("", "_crossed"):
        k = "qcd::gluon::dressing%s_inv" % x
        w = same_root(s / mq ** 2)
        c.eqv("ref:" + k, k + " differs from the reference", lambda: w * E(c.v(k)),
              lambda: w * (ym + nq / nc * S["f_q" + x](s / mq ** 2)), need=40)
    # the four-dimensional propagators themselves
    for k, d in (("ym::gluon::propagator", ym), ("ym::ghost::propagator", gh), ("qcd::ghost::propagator", gh)):
        c.eqv("ref:" + k, k + " differs from the reference", lambda: c.v(k), lambda: 1 / (s * d))
