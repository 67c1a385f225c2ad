from checks.lib import *

FLOOR = 22
RULE = ("every thermal function taking an integration method is int(method, domain, body) with body congruent to the "
        "public integrand at the same arguments; domain (0, inf), or (0, Fermi momentum) guarded by |mu| >= |mq| at "
        "zero temperature; the Matsubara-limit gluon polarizations use Re of the generic integrand at the regulator")
EXPLANATION = "value flow through the quadrature calls: closure bodies, variable changes and argument forwarding"
Q = atom("Q")


def run(c):
    for k in FNS:
        if not k.startswith(LT) or not k.endswith("_w_method"):
            continue
        base = k[:-len("_w_method")]
        ipath = base + "_i"
        zt = "zero_temp" in k
        hi = atom("INF")
        if zt:
            hi = c.v("common::thermal::fermi_momentum", m="mq", mu="mu")

        def want():
            if "::gluon::zero_matsubara::" in k:
                reg = c.v("consts::get_matsubara_reg")
                body = re(c.v(ipath.replace("zero_matsubara::", ""), q=Q, om=reg))
            else:
                body = c.v(ipath, q=Q)
            n = mk("int", (atom("integral"), ZERO, hi, body), "Q")
            if zt:
                n = ite(lt(absn(atom("mu")), absn(atom("mq"))), ZERO, n)
            return n
        c.eqv("int:" + k, "%s is not the integral of %s over its domain" % (k, ipath), lambda: c.v(k), want)
    # net charge density: n = int d^3q/(2 pi)^3 2 nc (f(mu) - f(-mu)) = nc/pi^2 int q^2 (f(mu) - f(-mu))
    k = "qcd::thermal::quark::charge_density_with_method"

    def want():
        en = c.v("common::energy", p=Q, m="m")
        f = c.v("common::thermal::fermi_distribution", en=en)
        g = c.v("common::thermal::fermi_distribution", en=en, mu=neg(atom("mu")))
        nc = c.v("consts::get_number_of_colors")
        body = div(mul(mul(nc, mul(Q, Q)), sub(f, g)), mul(PI, PI))
        return mk("int", (atom("integral"), ZERO, atom("INF"), body), "Q")
    c.eqv("int:" + k, k + " is not nc/pi^2 int q^2 [f(en-mu) - f(en+mu)]", lambda: c.v(k), want)
