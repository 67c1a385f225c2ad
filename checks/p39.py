from checks.lib import *
from series import Ser, Lost
import dag

FLOOR = 14
RULE = ("at fixed momentum, crossed = (1 - mq d/dmq) plain, for the quark loop, and for every inverse dressing "
        "(whose glue part does not depend on the quark masses)")
EXPLANATION = ("first-order Taylor arithmetic over GF(p^2) on the value graphs: all quark masses are scaled by 1 + t and the "
               "coefficient of t is compared; no differencing")

Z = (0, 0)


class Scaled(Ser):
    """the mass of every flavour of a list is multiplied by 1 + t"""

    def sstep(self, x, a):
        r = Ser.sstep(self, x, a)
        if x.op == "fld" and x.data == "1":
            r = self.smul(r, (0, ((1, 0), (1, 0)) + (Z,) * (self.N - 2)))
        return r

    def outer(self):
        o = getattr(self, "_outer", None)
        if o is None:
            o = self._outer = Scaled(self.seed, None, self.cplx, self.signed, self.bits, self.over, self.N, self.shift)
        return o


def scaled(v, env, seed, cplx, over=None):
    """(value, derivative under the scaling)"""
    z = Scaled(seed, env, complex_atoms=cplx, N=4, shift={"@t": "limit"}, over=over)
    a = z.ev(v)
    if a[0] >= 10 ** 6:
        return Z, Z
    if a[0] < 0 or a[0] + len(a[1]) <= 1:
        raise Lost()
    c = {a[0] + i: x for i, x in enumerate(a[1])}
    return c.get(0, Z), c.get(1, Z)


def run(c):
    one = E(1) + E("@t")

    def same(key, what, crossed, plain, env):
        for cx in ((), ("s",)):
            c.obl += 1
            ok, err = 0, None
            try:
                x, v = lift(crossed()), lift(plain())

                def wrong(s, over=None):
                    p0, p1 = scaled(v, env, s, cx, over)
                    g = GF(s, None, cx, over=over)
                    return csub(p0, g.ev(v)) != Z or csub(g.ev(x), csub(p0, p1)) != Z
                for s in range(1000 * c.seed, 1000 * c.seed + 4000):
                    try:
                        if wrong(s):
                            err = what
                            break
                    except Retry:
                        continue
                    ok += 1
                    if ok == 12:
                        break
                else:
                    err = what + " (no usable point)"
                if not err:
                    for s, over in dag.special_points([(x, None), (v, None)], cx, seed0=1000 * c.seed, skip=("@t",)):
                        try:
                            if wrong(s, over):
                                err = what
                                break
                        except (Retry, DivZero, Lost):
                            continue
                        ok += 1
            except (Missing, Unsupported, Diverge, DivZero, Lost) as e:
                err = "%s: %r" % (what, e)
            c.points += ok
            if err:
                c.fail(key, err + (" at complex momentum" if cx else ""))
                return

    s = E("s")
    fq, fx = L1 + "gluon::f_q", L1 + "gluon::f_q_crossed"
    same("crossed:" + fx, "f_q_crossed is not (1 - mq d/dmq) f_q at fixed momentum", lambda: c.v(fx), lambda: c.v(fq),
         {"s": (s / one / one).n})
    for k in FNS:
        name = k.split("::")[-1]
        if not k.startswith("qcd::gluon::") or "crossed" not in name or "thermal" in k:
            continue
        cf = "field_config" in name
        get = (lambda n: E(cfg(c, n))) if cf else (lambda n: E(c.v(n)))
        form = (lambda v: v) if "_inv" in name else (lambda v: 1 / (s * v)) if "propagator" in name else (lambda v: 1 / v)
        env = {} if cf else {"mq": (E("mq") * one).n}
        same("crossed:" + k, "%s: the quark loop is not (1 - mq d/dmq) of the plain one" % k, lambda: form(get(k)),
             lambda: form(get(k.replace("_crossed", ""))), env)
