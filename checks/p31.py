from checks.lib import *
from series import derivative, Lost

FLOOR = 15
RULE = ("d_j, d_i integrands = d/dm^2 of the j, i integrands up to the total q-derivative of (thermal part)/(2q); "
        "d2_j = d/dm^2 of d_j (up to the same total derivative for the transverse projection)")
EXPLANATION = ("first-order Taylor arithmetic over GF(p^2) on the value graphs: mass and momentum derivatives are exact, no "
               "differencing")


def run(c):
    for cx in ((), ("om", "m", "m1", "m2")):     # generic arguments may be complex
        decide(c, cx)


def decide(c, cx):
    def same(key, what, graphs, lhs, rhs, need=4):
        """lhs, rhs: functions (point) -> field element"""
        c.obl += 1
        ok = 0
        bad = what + (" at complex masses and frequencies" if cx else "")
        try:
            for s in range(1000 * c.seed, 1000 * c.seed + 400):
                try:
                    if lhs((s, None)) != rhs((s, None)):
                        c.points += 1
                        c.fail(key, bad)
                        return
                except Retry:
                    continue
                ok += 1
                if ok == need:
                    break
            c.points += ok
            if ok < need:
                c.fail(key, what + " (no usable point)")
                return
            for pt in dag.special_points([(g, None) for g in graphs()], cx, seed0=1000 * c.seed):
                try:
                    if lhs(pt) != rhs(pt):
                        c.fail(key, bad)
                        return
                    c.points += 1
                except (Retry, DivZero, Lost):
                    continue
        except (Missing, Unsupported, Diverge, DivZero, Lost) as e:
            c.fail(key, "%s: %r" % (what, e))

    def ev(n, pt):
        return GF(pt[0], None, cx, over=pt[1]).ev(n)

    def dm2(n, m, pt):
        return cmul(derivative(n, m, pt[0], complex_atoms=cx, over=pt[1]), cinv(ev(lift(2 * E(m)), pt)))

    def dq(n, pt):
        return derivative(div(n, lift(2 * E("q"))), "q", pt[0], complex_atoms=cx, over=pt[1])
    v = lambda n: c.v(LT + n)
    for x in ("", "_l", "_t"):
        j, d, d2 = "j_m%s_i" % x, "d_j_m%s_i" % x, "d2_j_m%s_i" % x
        same("d:" + d, "%s is not the squared-mass derivative of %s" % (d, j), lambda: [v(d), v(j)],
             lambda s: ev(v(d), s), lambda s: csub(dm2(v(j), "m", s), dq(v(j), s)))
        if x == "_t":
            same("d2:" + d2, "%s is not the squared-mass derivative of %s" % (d2, d), lambda: [v(d2), v(d)],
                 lambda s: ev(v(d2), s), lambda s: csub(dm2(v(d), "m", s), dq(v(d), s)))
        else:
            same("d2:" + d2, "%s is not the squared-mass derivative of %s" % (d2, d), lambda: [v(d2), v(d)],
                 lambda s: ev(v(d2), s), lambda s: dm2(v(d), "m", s))
    q, om, p = E("q"), E("om"), E("p")

    def part(x, m1, m2):
        """the part of the i integrand carried by the thermal particle of mass m1"""
        m1, m2 = E(m1), E(m2)
        en = E(c.v("common::energy", p="q", m=m1))
        b = E(c.v("common::thermal::bose_distribution_zero_chempot", en=en)) / en
        dl = m2 * m2 - m1 * m1
        t = [E(c.v(LT + "tlog" + x, om=o, en=en, delta=dl)) for o in (om, -om)]
        h = (t[0] + t[1]) / 2
        if x == "":
            return lift(b * h * q / (8 * p * E(PI) ** 2))
        r = b * (h - 4 * q * p * (om ** 2 + p ** 2 + dl)) * q / (p ** 3 * E(PI) ** 2)
        return lift(r * om ** 2 / (om ** 2 + p ** 2) / 32 if x == "_l" else -r / 64)
    for x in ("", "_l", "_t"):
        i, d = "i_m_m%s_i" % x, "d_i_m_m%s_i" % x
        c.eqv("parts:" + i, i + " is not the sum of its two thermal parts", lambda: v(i),
              lambda: add(part(x, "m1", "m2"), part(x, "m2", "m1")))
        same("d:" + d, "%s is not the squared-mass derivative of %s" % (d, i), lambda: [v(d), v(i)],
             lambda s: ev(v(d), s), lambda s: csub(dm2(v(i), "m1", s), dq(part(x, "m1", "m2"), s)))
    # the massless forms are the boundary values of the massive ones
    for x in ("", "_l", "_t"):
        for pre in ("j", "d_j", "d2_j"):
            k = "%s_0%s_i" % (pre, x)
            c.eqv("massless:" + k, k + " is not the massless limit", lambda: v(k), lambda: c.v(LT + k.replace("_0", "_m"), m=0))
