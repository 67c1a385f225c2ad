from checks.lib import *

FLOOR = 60
RULE = ("*_landau = general-gauge function at xi = 0; inverse dressings are affine in xi; *_sep forms at "
        "(ln s, ln(1+s)) = the unseparated forms")
EXPLANATION = "value numbering of the vacuum functions under substitution of the gauge parameter and of the logarithms"


def run(c):
    lns = {"ln_s": dag.ln(atom("s")), "ln_s_pl_1": dag.ln(add(ONE, atom("s")))}
    names = [k for k in FNS if k.startswith(("ym::", "qcd::", L1)) and "thermal" not in k] + [k for k in QCD_GHOST if "thermal" not in k]
    for k in names:
        mod, n = k.rsplit("::", 1)
        a = args(k)
        if "xi" in a:
            land = [x for x in names if x.rsplit("::", 1)[0] == mod and "_landau" in x and x.rsplit("::", 1)[1].replace("_landau", "") == n]
            if c.ok(len(land) == 1, "landau?" + k, "no Landau-gauge form of " + k):
                c.eqv("landau:" + land[0], land[0] + " is not %s at xi = 0" % k, lambda: value(c, land[0]), lambda: value(c, k, xi=0))
            if "_inv" in n:
                f = lambda x: E(value(c, k, xi=x))
                x, y = E("xi"), E("eta")
                c.eqv("affine:" + k, k + " is not affine in the gauge parameter",
                      lambda: f(x) * 1, lambda: f(0) + x * (f(1) - f(0)))
        if n.endswith("_sep"):
            over = {x: lns[x] for x in a if x in lns}
            full = k[:-4]
            if full in FNS:
                c.eqv("sep:" + k, "%s at the logarithms of s differs from %s" % (k, full), lambda: c.v(k, **over), lambda: c.v(full))
            else:
                y = full.replace(L1 + "gluon::ym_", "ym::gluon::").replace(L1 + "ghost::", "ym::ghost::")
                c.eqv("sep:" + k, "%s at the logarithms of s differs from %s" % (k, y), lambda: c.v(k, **over), lambda: c.v(y))
    for sec, z, f, x in (("gluon", "f0", "f", "f_xi"), ("ghost", "g0", "g", "g_xi")):
        k = "ym::%s::dressing_inv" % sec
        c.eqv("parts:" + k, "%s is not %s + %s + xi %s" % (k, f, z, x), lambda: c.v(k),
              lambda: E(c.v(L1 + sec + "::" + f)) + E(z) + E("xi") * E(c.v(L1 + sec + "::" + x)))
