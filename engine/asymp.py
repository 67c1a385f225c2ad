"""Laurent series with a logarithm: a function of s near s = 0 or s = infinity.

With s = t^2 or s = 1/t^2 a value becomes a truncated Laurent series in t whose coefficients contain ln t; ln t is a
transcendental over the field of series, so it is replaced by a random constant L (Schwartz-Zippel), and the coefficient
of ln s is read off as the difference quotient in L."""
from series import *  # noqa
import dag


class Asy(Ser):
    L = Z

    def outer(self):
        o = Ser.outer(self)
        if not isinstance(o, Asy):
            o = self._outer = Asy(self.seed, None, self.cplx, self.signed, self.bits, self.over, self.N, self.shift)
            o.L = self.L
            o.lnabs = self.lnabs
        return o

    def sstep(self, x, a):
        if x.op == "ln":
            c0, v, u = self.unit(a[0])
            if v:
                b = (0, a[0][1])
                r = Ser.sstep(self, x, [b])
                return self.sadd(r, self.k(cmul(_sm(v), self.L)))
        return Ser.sstep(self, x, a)


def _sm(v):
    return ((v % dag.P), 0)


def expand(n, k, seed, env, L, N=24, **kw):
    """coefficients (in t) up to t^k of the value with the momentum replaced through env"""
    s = Asy(seed, N=N, shift={"@t": "limit"}, env=env, **kw)
    s.L = L
    a = s.ev(n)
    if a[0] >= 10 ** 6:
        return {}
    if a[0] + len(a[1]) <= k:
        raise Lost()
    return {a[0] + i: c for i, c in enumerate(a[1]) if c != Z and a[0] + i <= k}


def expansion_is(v, env, log, const, seed0=0, need=3, tries=4000, N=24, special=10 ** 6, **kw):
    """v = log * ln s + const + o(1) (const None: any constant) with s = env["s"](t), t -> 0"""
    ln_s = 2 if "s" in env and env["s"].op == "mul" else -2          # ln s = ln_s * ln t
    cplx = kw.get("complex_atoms", ())

    def at(seed, over):
        L1, L2 = (uhash(seed, "L", [Z])), (uhash(seed, "L'", [Z]))
        a = expand(v, 0, seed, env, L1, N=N, over=over, **kw)
        b = expand(v, 0, seed, env, L2, N=N, over=over, **kw)
        g = GF(seed, None, cplx, over=over)
        wl = g.ev(log)
        if any(i < 0 for i in list(a) + list(b)):
            return "it grows like a power (t^%d, s = t^%d)" % (min(list(a) + list(b)), ln_s)
        got = cmul(csub(a.get(0, Z), b.get(0, Z)), cinv(cmul(_sm(ln_s), csub(L1, L2))))
        if got != wl:
            return "the coefficient of ln s is not %s" % show(log, 6)
        if const is not None and csub(a.get(0, Z), cmul(cmul(_sm(ln_s), wl), L1)) != g.ev(const):
            return "the constant is not %s" % show(const, 6)

    ok = 0
    for seed in range(seed0, seed0 + tries):
        try:
            bad = at(seed, None)
        except Retry:
            continue
        except Lost:
            return "no expansion of the needed order exists in powers and a logarithm", ok
        ok += 1
        if bad:
            return bad, ok
        if ok >= need:
            break
    else:
        raise RuntimeError("no usable random point")
    pts = special_points([(v, env)], cplx, seed0=seed0, skip=("@t",))
    for seed, over in pts[::max(1, -(-len(pts) // special))]:
        try:
            bad = at(seed, over)
        except (Retry, DivZero, Lost):
            continue
        ok += 1
        if bad:
            return bad, ok
    return None, ok
