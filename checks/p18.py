from checks.lib import *

FLOOR = 8
RULE = ("the residue estimate is 2 eps/(1/f(z+eps) - 1/f(z-eps)), exact for a simple pole; the spectral function is "
        "i[f(z+i eps) - f(z-i eps)]/(2 pi), = -Im f(z+i eps)/pi on the real axis for f(z*) = f(z)*; default eps 1e-12")
EXPLANATION = "value graphs on an uninterpreted function and on functions with a known pole / discontinuity"


def run(c):
    z, eps, r, z0, a = E("z"), E("eps"), E("r"), E("z0"), E("a")
    fn = E(atom("fn"))
    f = lambda x: E(mk("app", (atom("fn"), lift(x))))
    i = E(mk("I"))
    d12 = E(1) / E(10 ** 12)
    for T in ("f64", "num::Complex<f64>"):
        ty = {"T": T, "F": "F"}
        cx = () if T == "f64" else ("z", "z0", "r")
        call = lambda n, *x: to_node(c.call(n, [lift(y) for y in x], tyenv=ty))
        c.eqv("residue:" + T, "compute_residue_with_eps is not 2 eps/(1/f(z+eps) - 1/f(z-eps))",
              lambda: call("utils::compute_residue_with_eps", fn, z, eps), lambda: 2 * eps / (1 / f(z + eps) - 1 / f(z - eps)), cplx=cx)
        c.eqv("residue-default:" + T, "compute_residue does not use an epsilon of 1e-12",
              lambda: call("utils::compute_residue", fn, z), lambda: call("utils::compute_residue_with_eps", fn, z, d12), cplx=cx)
    call = lambda n, *x: to_node(c.call(n, [lift(y) for y in x], tyenv={"T": "num::Complex<f64>", "F": "F"}))
    s = "utils::spectral_function"
    c.eqv("spectral", s + "_with_eps is not i[f(z+i eps)-f(z-i eps)]/2pi", lambda: call(s + "_with_eps", fn, z, eps),
          lambda: i * (f(z + i * eps) - f(z - i * eps)) / (2 * E(PI)), cplx=("z",))
    c.eqv("spectral-default", s + " does not use an epsilon of 1e-12", lambda: call(s, fn, z),
          lambda: call(s + "_with_eps", fn, z, d12), cplx=("z",))
    # replacing f by a function with a known pole
    from values import rebuild

    def at(v, g):
        v = lift(v)
        return rebuild(v, {x.id: lift(g(E(x.args[1]))) for x in nodes_of(v) if x.op == "app"})
    c.eqv("pole", "the residue of r/(z - z0) at z0 is not r",
          lambda: at(call("utils::compute_residue_with_eps", fn, z0, eps), lambda x: r / (x - z0)), r, cplx=("z0", "r"))
    c.eqv("lorentz", "the spectral function of 1/(z - z0) at real z is not eps/pi/((z-z0)^2+eps^2)",
          lambda: at(call(s + "_with_eps", fn, z, eps), lambda x: 1 / (x - z0)),
          lambda: eps / E(PI) / ((z - z0) ** 2 + eps ** 2))
    c.eqv("real-axis", "on the real axis the spectral function is not -Im f(z + i eps)/pi",
          lambda: at(call(s + "_with_eps", fn, z, eps), lambda x: E(conj_f(x, z, eps))),
          lambda: -E(im(lift(f(z + i * eps)))) / E(PI))
    c.eqv("regular", "a function without a discontinuity has a spectral function",
          lambda: at(call(s + "_with_eps", fn, z, eps), lambda x: (x - z) ** 2 + a), E(0))


def conj_f(x, z, eps):
    """f at x for an f with f(z*) = f(z)*: the value below the axis is the conjugate of that above"""
    up = lift(z + E(mk("I")) * eps)
    fu = mk("app", (atom("fn"), up))
    ok, _ = congruent(lift(x), up)
    return fu if ok else conj(fu)
