from checks.lib import *
from series import Ser, Lost, limit_is, coeffs
from fractions import Fraction as Fr
import dag

FLOOR = 24
RULE = ("scaling frequency, momentum and masses by t -> 0 at fixed loop momentum, every polarization integrand becomes the hard-thermal-loop "
        "one (up to a total derivative in the loop momentum for the glue), with the Debye mass of its colour factor; ghosts have none")
EXPLANATION = ("truncated Laurent series over GF(p^2) of the value graphs; the leading coefficient is resolved in q n, q^2 n', q^3 n'' by "
               "elimination at points differing in q and beta only, and integrated by parts")
Z = (0, 0)
SCALED = ("om", "p", "m", "mq")


def solve(rows, rhs):
    n = len(rhs)
    M = [list(r) + [y] for r, y in zip(rows, rhs)]
    for i in range(n):
        j = next((j for j in range(i, n) if M[j][i] != Z), None)
        if j is None:
            raise Retry()
        M[i], M[j] = M[j], M[i]
        iv = cinv(M[i][i])
        M[i] = [cmul(x, iv) for x in M[i]]
        for j in range(n):
            if j != i:
                f = M[j][i]
                M[j] = [csub(x, cmul(f, y)) for x, y in zip(M[j], M[i])]
    return [M[i][n] for i in range(n)]


def pos(*w):
    return pow(dag._h(*w) % dag.P, 18, dag.P)


def by_parts(v, n, want, env, seed, cplx, over):
    """v -> A q n + B q^2 n' + C q^3 n'' with A - 2 B + 6 C = want (a function of om and p), n a distribution of q"""
    rows, rhs = [], []
    for i in range(5):
        o = dict(over or {}, q=(pos(seed, "hq", i), 0), beta=(pos(seed, "hb", i), 0))
        a = Ser(seed, env, cplx, N=10, shift={"@t": "limit"}, over=o).ev(v)
        if a[0] < 0:
            return "it grows beyond the hard thermal loop"
        if a[0] + len(a[1]) <= 0:
            raise Lost()
        d = coeffs(n, 2, seed, {"q": "shift"}, N=6, over=o)
        q = o["q"]
        q2 = cmul(q, q)
        two = (2, 0)
        rows.append([cmul(q, d.get(0, Z)), cmul(q2, d.get(1, Z)), cmul(cmul(q2, q), cmul(two, d.get(2, Z)))])
        rhs.append(a[1][0] if a[0] == 0 and a[1] else Z)
    A, B, C = solve(rows[:3], rhs[:3])
    for r, y in zip(rows[3:], rhs[3:]):
        if cadd(cadd(cmul(A, r[0]), cmul(B, r[1])), cmul(C, r[2])) != y:
            return "its leading term is not made of q n, q^2 n' and q^3 n''"
    if cadd(csub(A, cadd(B, B)), cmul((6, 0), C)) != GF(seed, None, cplx, over=over).ev(want):
        return "its leading term does not integrate to the hard thermal loop"


def run(c):
    om, p, q, mu, t = (E(x) for x in ("om", "p", "q", "mu", "@t"))
    I, pi2 = E(dag.I), E(PI) ** 2
    nc = E(c.v("consts::get_number_of_colors"))
    log = E(dag.ln(((I * om + p) / (I * om - p)).n))
    X = (om ** 2 + p ** 2) / p ** 2 * (1 - I * om / (2 * p) * log)
    TH = "common::thermal::"
    n_f = E(c.v(TH + "fermi_distribution", en="q")) + E(c.v(TH + "fermi_distribution", en="q", mu=-mu))
    n_z = E(c.v(TH + "fermi_distribution_zero_temp", en="q")) + E(c.v(TH + "fermi_distribution_zero_temp", en="q", mu=-mu))
    n_b = E(c.v(TH + "bose_distribution_zero_chempot", en="q"))
    env = {x: (t * E(x)).n for x in SCALED}
    for k in FNS:
        name = k.split("::")[-1]
        if not k.startswith(LT) or not name.endswith("_i"):
            continue
        if name.startswith("self_energy"):
            shape, n, w = E(0), n_b, E(1)
        elif name.startswith("polarization_"):
            lt = "_l_" in name
            if "zero_matsubara" in k:
                shape = E(1 if lt else 0)
            elif "zero_momentum" in k:
                shape = E(Fr(1, 3))
            else:
                shape = X if lt else (1 - X) / 2
            glue = "_glue_" in name
            n = n_b if glue else n_z if "zero_temp" in name else n_f
            w = -2 / pi2 if glue else -1 / (nc * pi2)
        else:
            continue
        for cx in ((), ("om",)) if "om" in args(k) else ((),):
            c.obl += 1
            pts, bad = 0, None
            try:
                v = lift(c.v(k))
                if n is n_b and not name.startswith("self"):
                    s = 1000 * c.seed
                    for s, over in [(s + i, None) for i in range(60)] + [
                            (a, b) for a, b in dag.special_points([(v, None)], cx, seed0=s, skip=("q", "beta") + SCALED)]:
                        if pts >= 3 and over is None:
                            continue
                        try:
                            bad = by_parts(v, n.n, (w * shape).n, env, s, cx, over)
                        except Retry:
                            continue
                        pts += 1
                        if bad:
                            break
                    if pts < 3 and not bad:
                        bad = "no usable point"
                else:
                    ok, pts = limit_is(v, (w * shape * q * n).n, "@t", seed0=1000 * c.seed, env=env, complex_atoms=cx, N=10,
                                       skip=("q", "mu", "mq") if "zero_temp" in name else ())   # (the limit at a jump of the step is one-sided)
                    if ok is not True:
                        bad = "its leading term is not the hard thermal loop"
            except (Missing, Unsupported, Diverge, DivZero, Lost) as e:
                bad = repr(e)
            c.points += pts
            if bad:
                c.fail("htl:" + k, "%s: %s%s" % (k, bad, " (complex frequencies)" if cx else ""))
                break
