from checks.lib import *

FLOOR = 20
RULE = ("inverse dressing with quarks = pure-glue inverse dressing + sum over flavours of nf/nc f(s m^2/mq^2), "
        "for an arbitrary flavour list (sum binder) and for the empty and one-flavour lists")
EXPLANATION = "value numbering of the vacuum QCD gluon functions; the flavour loop is summarised as a sum over the list"


def run(c):
    s, m, nc, mq = E("s"), E("m"), E("nc_"), E("mq")
    for crossed in ("", "_crossed"):
        fq = lambda x: E(c.v(L1 + "gluon::f_q" + crossed, s=x))
        for landau in ("_landau", ""):
            ymk = "ym::gluon::dressing_inv" + landau
            k = "qcd::gluon::dressing%s_inv%s" % (crossed, landau)
            ym = lambda: E(c.v(ymk))
            c.eqv("one:" + k, k + " is not the pure-glue one plus nf/nc f_q(s/mq^2)", lambda: c.v(k),
                  lambda: ym() + fq(s / mq ** 2) * E(c.v("consts::get_number_of_fermions")) / E(c.v("consts::get_number_of_colors")))
            w = k + "_w_field_config"
            c.eqv("sum:" + w, w + " is not the pure-glue one plus the sum over flavours of nf/nc f_q(s m^2/mq^2)",
                  lambda: cfg(c, w), lambda: ym() + E(c.eachq(lambda nf, q: nf / nc * fq(s * m ** 2 / q ** 2))))
            c.eqv("empty:" + w, w + " with no quarks is not the pure-glue one", lambda: cfg(c, w, quarks=[]), ym)
            c.eqv("single:" + w, w + " with one flavour differs from " + k,
                  lambda: cfg(c, w, quarks=[("nf_", "mq")]), lambda: c.v(k, mq=mq / m),
                  env={"set:nf": E("nf_"), "set:nc": nc})
            c.eqv("split:" + w, w + ": two flavours of equal mass are not one flavour with the summed count",
                  lambda: cfg(c, w, quarks=[("n1", "mq"), ("n2", "mq")]),
                  lambda: cfg(c, w, quarks=[(E("n1") + E("n2"), "mq")]))
