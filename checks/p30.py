from checks.lib import *

FLOOR = 6
RULE = ("chemical_potential(n) returns the root z of n - charge_density(z); at T = 0 the inverse of the charge density in "
        "closed form; 0 at zero density")
EXPLANATION = "value numbering of the density/chemical-potential round trip; root finding is summarised by its contract (P17)"
Q = "qcd::thermal::quark::"


def run(c):
    m, n, k = E("m"), E("n"), E("k")
    # T = 0: mu = sqrt(m^2 + k^2) with k > 0 round-trips, and so does -mu
    for s, nm in ((1, "+"), (-1, "-")):
        mu = lift(s * E(sqrt(lift(m * m + k * k))))

        def trip():
            # above threshold: the density is sgn(mu) nc k^3/(3 pi^2)
            rho = s * E(c.v("consts::get_number_of_colors")) * k * k * k / (3 * E(PI) * E(PI))
            return c.v(Q + "chemical_potential_zero_temp", n=rho)
        c.eqv("zt:" + nm, "T = 0 chemical potential is not the inverse of the T = 0 charge density", trip, mu,
              env={"set:nc": 3 * E("nc3")})
        c.eqv("zt-density:" + nm, "T = 0 charge density at mu = %ssqrt(m^2+k^2) is not %snc k^3/(3 pi^2)" % (nm, nm),
              lambda: c.v(Q + "charge_density_zero_temp", mu=mu),
              lambda: s * E(c.v("consts::get_number_of_colors")) * k * k * k / (3 * E(PI) * E(PI)))
    c.eqv("zt:0", "T = 0 chemical potential is not 0 at zero density", lambda: c.v(Q + "chemical_potential_zero_temp", n=0), ZERO)
    c.eqv("zero", "chemical potential is not 0 at zero density", lambda: c.v(Q + "chemical_potential_with_method", n=0), ZERO)
    # T > 0: the value returned is the root of the density equation, searched with the method's own tolerance
    v = c.v(Q + "chemical_potential_with_method")
    roots = [x for x in nodes_of(v) if x.op == "root"]
    if c.ok(len(roots) == 1, "root", "chemical_potential does not search a single root"):
        r = roots[0]
        c.same("chemical_potential searches the root of something other than n - charge density",
               r.args[0], lift(n - E(c.v(Q + "charge_density_with_method", mu="rootvar"))), "root-eq", scale=None)
        c.eqv("root-val", "chemical_potential does not return the root it found", lambda: v,
              lambda: ite(eq(lift(n), ZERO), ZERO, r))
    d = Q + "chemical_potential"
    c.eqv("default", d + " is not the _with_method form at the default method", lambda: c.v(d),
          lambda: c.v(d + "_with_method", integral=c.raw("consts::get_default_integration_method")))
    # searched to the tolerance of the method, from two different guesses, and with patience
    x = c.raw("consts::get_default_integration_method")
    if isinstance(x, Agg) and len(x.f) == 2:
        x = Agg(x.kind, [atom("tolx"), atom("iterx")], x.adt, x.var, x.vn, x.names)
        for r in [y for y in nodes_of(c.v(Q + "chemical_potential_with_method", integral=x)) if y.op == "root"]:
            c.same("chemical_potential does not search to the tolerance of the integration method", r.args[2], atom("tolx"), "root-tol")
            g = [y for y in [r.args[1]] if y.op == "tup" and len(y.args) == 2]
            if g:
                c.same("chemical_potential starts its search from equal guesses",
                       ite(b_and(eq(*g[0].args), b_not(eq(lift(n), ZERO))), ONE, ZERO), ZERO, "root-guesses", signed=SIGNED | {"n"})
            k = r.args[3]
            c.ok(k.op != "const" or k.data >= 1000, "root-iter", "chemical_potential gives up its search after %s iterations" % k.data)
