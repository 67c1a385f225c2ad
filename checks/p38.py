from checks.lib import *
from fractions import Fraction as Fr
from asymp import expand, expansion_is
import dag

FLOOR = 200
RULE = ("near s = infinity every vacuum inverse dressing is a ln s + b + O(1/s) with a the one-loop anomalous dimension and (up to the quarks) b known; near "
        "s = 0 the gluon inverse propagator is 5/8 + xi/4 and the ghost inverse dressing 5/24 + g0 - xi/12 ln s")
EXPLANATION = ("truncated Laurent series with a logarithm (ln t is a random constant over GF(p^2), its coefficient a difference "
               "quotient) of the value graphs, with s = t^2 and s = 1/t^2")


def run(c):
    s, xi, f0, g0, m, mq = (E(x) for x in ("s", "xi", "f0", "g0", "m", "mq"))
    nq, nc = E(c.v("consts::get_number_of_fermions")), E(c.v("consts::get_number_of_colors"))
    t2 = E("@t") * E("@t")
    uv, ir = {"s": (1 / t2).n}, {"s": t2.n}

    def law(key, k, make, env, log, const, need=3, special=10 ** 6):
        c.obl += 1
        where = "s -> infinity" if env is uv else "s -> 0" if env is ir else "%s -> infinity" % [x for x in env if x != "m"][0]
        try:
            v = lift(make())
            bad, n = expansion_is(v, env, lift(log), None if const is None else lift(const), seed0=1000 * c.seed, need=need, special=special)
        except (Missing, Unsupported, Diverge, DivZero) as e:
            bad, n = repr(e), 0
        c.points += n
        if bad:
            c.fail(key + ":" + k, "%s for %s: %s" % (k, where, bad))

    def parts(k, cf, S):
        """the inverse dressing and s-independent data of the function k"""
        v = (lambda: E(cfg(c, k))) if cf else (lambda: E(c.v(k)))
        if "propagator" in k:
            return lambda: 1 / (S * v())
        if "_inv" in k:
            return v
        return lambda: 1 / v()

    # the one-loop functions
    F = Fr
    for k, a, b, h in (("gluon::f", F(13, 18), F(5, 8), F(17, 18)), ("gluon::f_xi", F(-1, 6), F(1, 4), F(-1, 12)),
                       ("gluon::f_q", F(-2, 9), 0, F(10, 27)), ("gluon::f_q_crossed", F(-2, 9), 0, F(-2, 27)),
                       ("ghost::g", F(1, 4), None, F(1, 3)), ("ghost::g_xi", F(-1, 12), None, 0)):
        law("uv", L1 + k, lambda: E(c.v(L1 + k)), uv, E(a), E(h))
        if b is not None:
            law("ir", L1 + k, lambda: s * E(c.v(L1 + k)), ir, E(0), E(b))
            if "f_q" in k:
                law("zero", L1 + k, lambda: E(c.v(L1 + k)), ir, E(0), E(0))
        else:
            law("ir", L1 + k, lambda: E(c.v(L1 + k)), ir, E(F(-1, 12) if "xi" in k else 0), E(0 if "xi" in k else F(5, 24)))
    for k in FNS:
        if not k.startswith(("ym::", "qcd::")) or "thermal" in k or "::types::" in k:
            continue
        name = k.split("::")[-1]
        if not name.startswith(("dressing", "propagator")):
            continue
        x = E(0) if "landau" in name else xi
        cf = "field_config" in name
        d = parts(k, cf, s)
        if "ghost" in k:
            law("uv", k, d, uv, E(F(1, 4)) - x / 12, E(F(1, 3)) + g0)
            law("ir", k, d, ir, -x / 12, E(F(5, 24)) + g0)
        else:
            q = E(0)
            if k.startswith("qcd"):
                q = E(c.eachq(lambda nf, mq: nf / E("nc_"))) if cf else nq / nc
            law("uv", k, d, uv, E(F(13, 18)) - x / 6 - q * F(2, 9),
                None if k.startswith("qcd") else E(F(17, 18)) - x / 12 + f0)
            law("ir", k, lambda: s * d(), ir, E(0), E(F(5, 8)) + x / 4)

    # thermal effects leave the ultraviolet alone (m = 1 by dimensional analysis)
    for k in FNS:
        name, a = k.split("::")[-1], args(k)
        if k.startswith(LT) and name.startswith(("polarization", "self_energy")) and "w_method" not in name:
            kind = "part"
        elif k.startswith(("ym::thermal", "qcd::thermal")) and name.startswith(("dressing", "propagator")):
            kind = "dressing"
        else:
            continue
        for var in ("om", "p"):
            if var not in a:
                continue
            env = {var: (1 / E("@t")).n, "m": dag.ONE}
            cf = "config" in a
            if kind == "part":
                law("uvt", k, lambda: value(c, k), env, E(0), None, 2, 12)
                continue
            S = sum((E(x) ** 2 for x in ("om", "p") if x in a), E(0))
            log = E(F(1, 4)) if "ghost" in k else E(F(13, 18))
            if k.startswith("qcd") and "ghost" not in k:
                log = log - (E(c.eachq(lambda nf, mq: nf / E("nc_"))) if cf else nq / nc) * F(2, 9)
            law("uvt", k, parts(k, cf, S), env, log, None, 1, 4)
