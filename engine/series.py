"""Truncated Laurent series over GF(p^2): the value numbering domain for statements about
limits (om -> 0, p -> 0) and derivatives of value graphs.

An element is (v, (c0, c1, ...)) for c0 t^v + c1 t^(v+1) + ... + O(t^(v+n)).  A limit is
decided by comparing the coefficients of t^0 after checking that no negative power is left;
a derivative is the coefficient of t^1 after substituting x -> x + t."""
from dag import *  # noqa
import dag

Z = (0, 0)


class Lost(Exception):
    """not enough precision / outside the domain"""


def norm(v, c):
    i = 0
    while i < len(c) and c[i] == Z:
        i += 1
    return (v + i, tuple(c[i:]))


def _small(n):
    return (n % dag.P, 0)


class Ser(GF):
    def __init__(self, seed, env=None, complex_atoms=(), signed=SIGNED, bits=None, over=None, N=14, shift=None):
        GF.__init__(self, seed, env, complex_atoms, signed, bits, over)
        self.N = N
        # shift: {atom: "limit" (x := t) or "shift" (x := x + t)}
        self.shift = shift or {}

    def outer(self):
        o = getattr(self, "_outer", None)
        if o is None:
            o = self._outer = Ser(self.seed, None, self.cplx, self.signed, self.bits, self.over, self.N, self.shift)
        return o

    def k(self, z):
        if z == Z:
            return (10 ** 6, ())
        return (0, (z,) + (Z,) * (self.N - 1))

    def atom(self, x):
        v = self.env.get(x.data)
        if v is not None:
            return self.outer().ev(v)
        s = self.shift.get(x.data)
        if s == "limit":
            return (1, ((1, 0),) + (Z,) * (self.N - 1))
        z = self.fresh(x.data)
        if s == "shift":
            return norm(0, (z, (1, 0)) + (Z,) * (self.N - 2))
        return self.k(z)

    # ring operations
    def sadd(self, a, b):
        if a[0] >= 10 ** 6:
            return b
        if b[0] >= 10 ** 6:
            return a
        v = min(a[0], b[0])
        e = min(a[0] + len(a[1]), b[0] + len(b[1]))
        out = []
        for i in range(v, e):
            x = a[1][i - a[0]] if a[0] <= i else Z
            y = b[1][i - b[0]] if b[0] <= i else Z
            out.append(cadd(x, y))
        r = norm(v, out)
        if not r[1] and e > v:
            # zero to this precision
            return (e, ())
        if e <= v:
            return (e, ())
        return r

    def sneg(self, a):
        return (a[0], tuple(cneg(x) for x in a[1]))

    def smul(self, a, b):
        if a[0] >= 10 ** 6 or b[0] >= 10 ** 6:
            return (10 ** 6, ())
        n = min(len(a[1]), len(b[1]))
        out = []
        for k in range(n):
            s = Z
            for i in range(k + 1):
                if a[1][i] != Z and b[1][k - i] != Z:
                    s = cadd(s, cmul(a[1][i], b[1][k - i]))
            out.append(s)
        return norm(a[0] + b[0], out)

    def sinv(self, a):
        if a[0] >= 10 ** 6:
            raise DivZero()
        if not a[1]:
            raise Lost()
        i0 = cinv(a[1][0])
        out = [i0]
        for k in range(1, len(a[1])):
            s = Z
            for i in range(1, k + 1):
                if a[1][i] != Z:
                    s = cadd(s, cmul(a[1][i], out[k - i]))
            out.append(cneg(cmul(s, i0)))
        return (-a[0], tuple(out))

    def unit(self, a):
        """a = c0 t^v (1 + u): returns c0, v, u"""
        if not a[1]:
            if a[0] >= 10 ** 6:
                raise DivZero()
            raise Lost()
        c0 = a[1][0]
        i = cinv(c0)
        return c0, a[0], (0, (Z,) + tuple(cmul(i, x) for x in a[1][1:]))

    def comp(self, coef, u, n):
        """sum_k coef(k) u^k for u = O(t)"""
        acc = (10 ** 6, ())
        pw = self.k((1, 0))
        un = norm(*u)
        for k in range(n):
            c = coef(k)
            if c[0] or c[1]:
                acc = self.sadd(acc, self.smul(self.k(c), pw))
            pw = self.smul(pw, un)
            if pw[0] >= n or not pw[1]:
                break
        # truncate to precision n
        if acc[0] >= 10 ** 6:
            return (n, ())
        keep = max(0, n - acc[0])
        return (acc[0], acc[1][:keep])

    def spow_half(self, a):
        c0, v, u = self.unit(a)
        if v % 2:
            raise Lost()
        r0 = csqrt(c0)
        half = self.frac(Fraction(1, 2))

        def coef(k):
            r = Fraction(1)
            for j in range(k):
                r = r * (Fraction(1, 2) - j) / (j + 1)
            return self.frac(r)
        s = self.comp(coef, u, len(a[1]))
        s = self.smul(self.k(r0), s)
        return (s[0] + v // 2, s[1])

    def const_of(self, a):
        if a[0] >= 10 ** 6:
            return Z
        if a[0] < 0:
            raise Lost()
        if a[0] == 0:
            if any(x != Z for x in a[1][1:]):
                raise Lost()
            return a[1][0]
        raise Lost()

    def lead(self, a):
        """(leading coefficient, valuation) or zero"""
        if not a[1]:
            return Z
        return a[1][0]

    def truth(self, a):
        return a[0] == 0 and a[1] and a[1][0] == (1, 0)

    def ev(self, n):
        m = self.memo
        r = m.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            op = x.op
            if op == "atom":
                m[x.id] = self.atom(x)
                st.pop()
                continue
            if op in ("ite", "and"):
                c = x.args[0]
                if c.id not in m:
                    st.append(c)
                    continue
                tr = bool(self.truth(m[c.id]))
                if op == "and" and not tr:
                    m[x.id] = m[c.id]
                    st.pop()
                    continue
                t = x.args[1] if tr else x.args[2]
                if t.id not in m:
                    st.append(t)
                    continue
                m[x.id] = m[t.id]
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in m]
            if todo:
                st.extend(todo)
                continue
            if op == "fld" and x.id in self.over:
                m[x.id] = self.k(self.over[x.id])
            else:
                m[x.id] = self.sstep(x, [m[a.id] for a in x.args])
            st.pop()
        return m[n.id]

    def sstep(self, x, a):
        op = x.op
        if op == "const":
            return self.k(self.frac(x.data))
        if op == "I":
            return self.k((0, 1))
        if op == "add":
            return self.sadd(a[0], a[1])
        if op == "mul":
            return self.smul(a[0], a[1])
        if op == "neg":
            return self.sneg(a[0])
        if op == "inv":
            return self.sinv(a[0])
        if op == "sqrt":
            return self.spow_half(a[0])
        if op == "abs":
            return self.spow_half(self.smul(a[0], self.sconj(a[0])))
        if op == "re":
            return norm(a[0][0], tuple((c[0], 0) for c in a[0][1])) if a[0][1] else a[0]
        if op == "im":
            return norm(a[0][0], tuple((c[1], 0) for c in a[0][1])) if a[0][1] else a[0]
        if op == "conj":
            return self.sconj(a[0])
        if op == "ln":
            c0, v, u = self.unit(a[0])
            if v:
                raise Lost()
            l0 = GF.step(self, x, [c0])

            def coef(k):
                return Z if k == 0 else self.frac(Fraction((-1) ** (k + 1), k))
            return self.sadd(self.k(l0), self.comp(coef, u, len(a[0][1])))
        if op == "exp":
            if a[0][0] < 0:
                raise Lost()
            if a[0][0] >= 10 ** 6:
                return self.k((1, 0))
            n = len(a[0][1]) + a[0][0]
            full = (Z,) * a[0][0] + a[0][1]
            full = full[:n]
            if not full:
                raise Lost()
            e0 = GF.step(self, x, [full[0]])

            def coef(k):
                f = 1
                for j in range(2, k + 1):
                    f *= j
                return self.frac(Fraction(1, f))
            return self.smul(self.k(e0), self.comp(coef, (0, (Z,) + full[1:]), n))
        if op == "bool":
            return self.k((1, 0)) if x.data else self.k(Z)
        if op == "not":
            return self.k(Z) if self.truth(a[0]) else self.k((1, 0))
        if op in ("lt", "eq"):
            b = self.bits.get(x.id)
            if b is not None:
                return self.k(b)
            l, r = x.args
            if op == "lt" and l.op == "abs" and r.op == "abs":
                d = self.sadd(self.smul(a[1], a[1]), self.sneg(self.smul(a[0], a[0])))
            else:
                d = self.sadd(a[1], self.sneg(a[0]))
            c = self.lead(d)
            if c != Z and op == "lt" and arith(x):
                sl, sr = self.shadow(l), self.shadow(r)
                if sl is not None and sr is not None and abs(sl - sr) > 1e-9 * (abs(sl) + abs(sr)):
                    return self.k((1, 0)) if sl < sr else self.k(Z)
            if op == "eq":
                if arith(x):
                    v = c == Z
                else:
                    v = self.sign(c) == 0
            else:
                v = self.sign(c) > 0
            return self.k((1, 0)) if v else self.k(Z)
        if op in ("sum",):
            return self.smul(self.k(uhash(self.seed, "sum", [self.const_of(a[0])])), a[1])
        if op == "int":
            h = uhash(self.seed, "int", [self.const_of(y) for y in a[:3]])
            return self.smul(self.k(h), a[3])
        return self.k(GF.step(self, x, [self.const_of(y) for y in a]))

    def small(self, name):
        return self.shift.get(name) == "limit"

    def sconj(self, a):
        return (a[0], tuple(cconj(x) for x in a[1]))


def coeffs(n, k, seed, shift, N=14, lnabs=False, **kw):
    """coefficients of t^lo .. t^k (lo <= 0) of the graph"""
    s = Ser(seed, N=N, shift=shift, **kw)
    s.lnabs = lnabs
    a = s.ev(n)
    if a[0] >= 10 ** 6:
        return {}
    if a[0] + len(a[1]) <= k:
        raise Lost()
    return {a[0] + i: c for i, c in enumerate(a[1]) if c != Z and a[0] + i <= k}


def limit_is(a, b, var, need=None, seed0=0, tries=4000, N=14, env=None, lnabs=False, skip=(), **kw):
    """decide lim_{var -> 0} a == b (b free of var) at `need` random points"""
    cs = conds_of(a) + conds_of(b)
    if need is None:
        k = sum(1 for c in cs if not (c.op == "eq" and arith(c)))
        need = 2 if k == 0 else min(24, 8 + 4 * k)
    cplx = kw.get("complex_atoms", ())

    def at(s, over):
        ca = coeffs(a, 0, s, {var: "limit"}, N=N, env=env, lnabs=lnabs, over=over, **kw)
        gb = GF(s, env, cplx, over=over)
        gb.lnabs = lnabs
        vb = gb.ev(b)
        return ca == ({} if vb == Z else {0: vb})

    ok = 0
    for s in range(seed0, seed0 + tries):
        try:
            if not at(s, None):
                return False, ok + 1
        except Retry:
            continue
        except Lost:
            return None, ok
        ok += 1
        if ok >= need:
            break
    else:
        raise RuntimeError("no usable random point")
    for s, over in special_points([(a, env), (b, env)], cplx, seed0=seed0, skip=(var,) + tuple(skip)):
        try:
            if not at(s, over):
                return False, ok + 1
            ok += 1
        except (Retry, DivZero, Lost):
            continue
    return True, ok


def derivative(n, var, seed, N=4, **kw):
    c = coeffs(n, 1, seed, {var: "shift"}, N=N, **kw)
    return c.get(1, Z)
