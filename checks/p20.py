from checks.lib import *

FLOOR = 18
RULE = "defining identities of the statistical distributions, energies and the Fermi momentum"
EXPLANATION = "value numbering of the distribution functions against their definitions and against one another"


def run(c):
    T, S = "common::thermal::", "low_level::common::"
    en, beta, mu, x = E("en"), E("beta"), E("mu"), E("x")
    ex = E(exp(lift(beta * (en - mu))))
    d = lambda f, **kw: E(c.v(T + f, **kw))

    def r(key, what, a, b, **kw):
        c.eqv(key, what, a, b, **kw)
    r("fermi", "Fermi distribution is not 1/(exp(beta(en-mu))+1)", lambda: d("fermi_distribution"), lambda: 1 / (ex + 1))
    r("bose", "Bose distribution is not 1/(exp(beta(en-mu))-1)", lambda: d("bose_distribution"), lambda: 1 / (ex - 1))
    r("exp", "statistical exponential is not exp(beta(en-mu))", lambda: c.v(S + "statistic_distribution_exponential"), ex)
    r("exp0", "statistical exponential at zero chemical potential", lambda: c.v(S + "statistic_distribution_exponential_zero_chempot"),
      lambda: c.v(S + "statistic_distribution_exponential", mu=0))
    for f in ("fermi", "bose"):
        r("zero:" + f, f + " distribution at zero chemical potential", lambda: d(f + "_distribution_zero_chempot"),
          lambda: d(f + "_distribution", mu=0))
    r("hole:fermi", "f(mu+x) + f(mu-x) is not 1", lambda: d("fermi_distribution", en=mu + x) + d("fermi_distribution", en=mu - x), lambda: E(1))
    r("hole:bose", "n(mu+x) + n(mu-x) is not -1", lambda: d("bose_distribution", en=mu + x) + d("bose_distribution", en=mu - x), lambda: E(-1))
    r("rel", "Bose and Fermi distributions: 1/n - 1/f is not -2", lambda: 1 / d("bose_distribution") - 1 / d("fermi_distribution"), lambda: E(-2))
    r("2beta", "f(beta) is not n(beta) - 2 n(2 beta)", lambda: d("fermi_distribution_zero_chempot"),
      lambda: d("bose_distribution_zero_chempot") - 2 / (E(exp(lift(beta * en))) ** 2 - 1))
    for z in ("", "_zero_temp"):
        r("double" + z, "double distribution is not f(mu) + f(-mu)", lambda: d("fermi_distribution_double" + z),
          lambda: d("fermi_distribution" + z) + d("fermi_distribution" + z, mu=-mu))
    r("step", "zero-temperature Fermi distribution is not the step function", lambda: d("fermi_distribution_zero_temp"),
      lambda: ite(lt(re(lift(mu)), re(lift(en))), ZERO, ONE))
    m, p = E("m"), E("p")
    r("energy2", "squared energy is not p^2 + m^2", lambda: c.v("common::energy_squared"), p * p + m * m)
    r("energy", "energy is not the square root of its square", lambda: E(c.v("common::energy")),
      lambda: sqrt(c.v("common::energy_squared")))
    r("kf", "kF^2 + m^2 is not mu^2", lambda: d("fermi_momentum") ** 2 + m * m, mu * mu)
    r("kf-root", "kF is not the non-negative root", lambda: d("fermi_momentum"), lambda: sqrt(lift(mu * mu - m * m)))
    r("fermi-energy", "energy at the Fermi momentum is not |mu|", lambda: c.v("common::energy", p=lift(d("fermi_momentum")), m="m"),
      lambda: absn(lift(mu)))
    r("kf-parity", "kF depends on the sign of mu", lambda: d("fermi_momentum"), lambda: d("fermi_momentum", mu=-mu))
