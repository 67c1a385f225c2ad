"""Half-plane domain: where in the complex plane a value can lie.

An abstract value is
  ("R", "+" | "-" | "0" | "?")   a real number of that sign
  ("A", lo, hi)                  a non-zero complex number whose argument lies in the open interval (lo, hi) (units of
                                 pi), or on the ray lo == hi
  None                           anything
Sums stay inside the hull of their terms (a convex cone) while the hull is at most a half-plane, products add
arguments, reciprocals negate them, square roots halve them, logarithms keep the sign of the imaginary part.
Quotients are first written N/D = a + b/D with a rational and b real when that is possible, which is what keeps the
dependence between N and D.  Signs of real values are read off a rational normal form over the positive atoms."""
from fractions import Fraction
from dag import *  # noqa
import dag

HALF = Fraction(1, 2)
LIMIT = 4000


class TooBig(Exception):
    pass


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            d = dict(m)
            for k, e in n:
                d[k] = d.get(k, 0) + e
            s = 1
            if "i" in d:
                e = d.pop("i") % 4
                s = -1 if e >= 2 else 1
                if e % 2:
                    d["i"] = 1
            k = tuple(sorted(((k, e) for k, e in d.items() if e), key=str))
            v = r.get(k, 0) + s * x * y
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def padd(a, b, f=1):
    r = dict(a)
    for m, x in b.items():
        v = r.get(m, 0) + f * x
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class Arcs:
    """kinds: atom name -> "+", "?", or ("A", lo, hi); everything else is an unknown real"""

    def __init__(self, kinds, default="?"):
        self.kinds, self.default = kinds, default
        self.memo, self.rats, self.shift, self.leaf = {}, {}, {}, {}

    # ---- rational normal form over leaves
    def rat(self, n):
        r = self.rats.get(n.id)
        if r is None:
            r = self.rats[n.id] = self._rat(n)
        return r

    def _rat(self, n):
        one = {(): Fraction(1)}
        if n.op == "const":
            return ({(): n.data} if n.data else {}), one
        if n.op == "I":
            return {(("i", 1),): Fraction(1)}, one
        if n.op == "neg":
            a, b = self.rat(n.args[0])
            return padd({}, a, -1), b
        if n.op == "add":
            (a, b), (c, d) = self.rat(n.args[0]), self.rat(n.args[1])
            if b == d:
                return padd(a, c), b
            return padd(pmul(a, d), pmul(c, b)), pmul(b, d)
        if n.op == "mul":
            (a, b), (c, d) = self.rat(n.args[0]), self.rat(n.args[1])
            if a == d:
                return c, b
            if c == b:
                return a, d
            return pmul(a, c), pmul(b, d)
        if n.op == "inv":
            a, b = self.rat(n.args[0])
            return b, a
        if n.op == "pow" and isinstance(n.data, int):
            a, b = self.rat(n.args[0])
            x, y = one, one
            for _ in range(abs(n.data)):
                x, y = pmul(x, a), pmul(y, b)
            return (x, y) if n.data >= 0 else (y, x)
        if n.op == "sqrt" and self.val(n) == ("R", "+"):
            x = n.args[0]
            if self.sign(dag.add(x, dag.const(-1))) == "+":      # sqrt(x) = 1 + something positive
                self.leaf["g%d" % n.id] = ("R", "+")
                return {(("g%d" % n.id, 1),): Fraction(1), (): Fraction(1)}, one
        self.leaf[n.id] = self.val(n)
        return {((n.id, 1),): Fraction(1)}, one

    def psign(self, p):
        """sign of a polynomial whose leaves have known signs"""
        if not p:
            return "0"
        s = None
        for m, x in p.items():
            t = 1 if x > 0 else -1
            for k, e in m:
                if k == "i":
                    return "?"
                v = self.leaf[k]
                if v is None or v[0] != "R":
                    return "?"
                if e % 2 == 0:
                    if v[1] == "?":
                        v = ("R", "+")        # non-zero: generic values of the parameters
                if v[1] == "?":
                    return "?"
                if v[1] == "-" and e % 2:
                    t = -t
            if s is None:
                s = t
            elif s != t:
                return "?"
        return "+" if s > 0 else "-"

    def real_poly(self, p):
        return all(k != "i" and self.leaf[k] is not None and self.leaf[k][0] == "R" for m in p for k, e in m)

    def sign(self, n):
        try:
            a, b = self.rat(n)
        except TooBig:
            return "?"
        if not a:
            return "0"
        s = self.psign(a), self.psign(b)
        if "?" in s:
            return "?"
        return "+" if s[0] == s[1] else "-"

    # ---- values
    def val(self, n):
        st = [n]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[x.id] = self.step(x)
            st.pop()
        return self.memo[n.id]

    @staticmethod
    def ray(v):
        if v is None or v[0] == "A":
            return v
        return {"+": ("A", Fraction(0), Fraction(0)), "-": ("A", Fraction(1), Fraction(1))}.get(v[1])

    @staticmethod
    def norm(lo, hi):
        if hi - lo >= 2:
            return None
        while lo >= 1 and not (lo == 1 == hi):
            lo, hi = lo - 2, hi - 2
        while hi <= -1 and not (lo == -1 == hi):
            lo, hi = lo + 2, hi + 2
        return ("A", lo, hi)

    def hull(self, a, b):
        best = None
        for k in (-2, 0, 2):
            lo, hi = min(a[1], b[1] + k), max(a[2], b[2] + k)
            if hi - lo <= 1 and not (hi - lo == 1 and a[1] == a[2] and b[1] == b[2]):
                if best is None or hi - lo < best[1] - best[0]:
                    best = (lo, hi)
        return self.norm(*best) if best else None

    def prod(self, a, b):
        if a is None or b is None:
            return None
        if a[0] == "R" and b[0] == "R":
            s = {a[1], b[1]}
            if "0" in s:
                return ("R", "0")
            if "?" in s:
                return ("R", "?")
            return ("R", "+" if len(s) == 1 else "-")
        a, b = self.ray(a), self.ray(b)
        if a is None or b is None:
            return None
        return self.norm(a[1] + b[1], a[2] + b[2])

    def sum(self, terms):
        """sum of complex terms and one real"""
        acc, line = None, False
        for v in terms:
            if v is None:
                return None
            if v == ("R", "0"):
                continue
            if v == ("R", "?"):
                line = True
                continue
            v = self.ray(v)
            acc = v if acc is None else self.hull(acc, v)
            if acc is None:
                return None
        if line:
            if acc is None:
                return ("R", "?")
            lo, hi = acc[1], acc[2]
            for k in (-2, 0, 2):
                if 0 <= lo + k and hi + k <= 1 and not (lo == hi and lo + k in (0, 1)):
                    return ("A", Fraction(0), Fraction(1))
                if -1 <= lo + k and hi + k <= 0 and not (lo == hi and lo + k in (-1, 0)):
                    return ("A", Fraction(-1), Fraction(0))
            return None
        return acc if acc is not None else ("R", "0")

    def inv(self, v):
        if v is None or v[0] == "R":
            return v
        return self.norm(-v[2], -v[1])

    def flat(self, n, sgn, out):
        if n.op == "add":
            self.flat(n.args[0], sgn, out)
            self.flat(n.args[1], sgn, out)
        elif n.op == "neg":
            self.flat(n.args[0], -sgn, out)
        else:
            out.append((sgn, n))

    def isreal(self, n):
        v = self.val(n)
        return v is not None and v[0] == "R"

    def factors(self, n, e, out):
        if n.op == "mul":
            self.factors(n.args[0], e, out)
            self.factors(n.args[1], e, out)
        elif n.op == "inv":
            self.factors(n.args[0], -e, out)
        elif n.op == "neg":
            self.factors(n.args[0], e, out)
            out.append((dag.const(-1), 1))
        elif n.op == "pow" and isinstance(n.data, int):
            self.factors(n.args[0], e * n.data, out)
        else:
            out.append((n, e))

    def mobius(self, N, D):
        """N/D = a + b/D"""
        try:
            (n, nd), (d, dd) = self.rat(N), self.rat(D)
            n, d = pmul(n, dd), pmul(d, nd)            # N/D = n/d
        except TooBig:
            return None
        pick = [m for m in n if m in d and any(k == "i" or self.leaf[k] is None or self.leaf[k][0] != "R" for k, e in m)]
        if not pick:
            return None
        lam = n[pick[0]] / d[pick[0]]
        rho = padd(n, d, -lam)
        if not self.real_poly(rho):
            return None
        s = self.psign(rho)
        q = self.psign(pmul(nd, dd)) if self.real_poly(nd) and self.real_poly(dd) else "?"
        # N/D = lam + (rho/(nd*dd)) / (D/... ) : rho/d with d = D * (dd*nd) up to the positive real nd*dd
        if q != "+" or s == "?":
            return None
        return self.sum([("R", "+" if lam > 0 else "-"), self.prod(("R", s), self.inv(self.memo[D.id]))])

    def step(self, n):
        op = n.op
        if op == "const":
            return ("R", "+" if n.data > 0 else "-" if n.data < 0 else "0")
        if op == "I":
            return ("A", HALF, HALF)
        if op == "atom":
            if n.data == "PI":
                return ("R", "+")
            k = self.kinds.get(n.data, self.default)
            return ("R", k) if isinstance(k, str) else k
        a = [self.memo[x.id] for x in n.args]
        if op in ("fld", "elem"):
            return ("R", self.kinds.get(".%s" % n.data, self.default))
        if op in ("add", "neg", "mul", "inv", "pow"):
            if all(v is not None and v[0] == "R" for v in a):
                self.memo[n.id] = ("R", "?")
                s = self.sign(n)
                del self.memo[n.id]
                return ("R", s)
        if op == "neg":
            return self.prod(("R", "-"), a[0])
        if op == "inv":
            return self.inv(a[0])
        if op in ("mul", "pow"):
            fs = []
            self.factors(n, 1, fs)
            v, rest = ("R", "+"), []
            real = dag.ONE
            net = {}
            for x, e in fs:
                net[x.id] = (x, net.get(x.id, (x, 0))[1] + e)
            num, den = [], []
            for x, e in net.values():
                if e == 0:
                    continue
                if self.isreal(x):
                    w = ("R", self.sign(x))
                    if e % 2 == 0:
                        w = ("R", "+") if w[1] != "0" else w
                    v = self.prod(v, w)
                else:
                    (num if e > 0 else den).extend([x] * abs(e))
            if len(num) == 1 and len(den) == 1:
                m = self.mobius(num[0], den[0])
                if m is not None:
                    return self.prod(v, m)
            for x in num:
                v = self.prod(v, self.memo[x.id])
            for x in den:
                v = self.prod(v, self.inv(self.memo[x.id]))
            return v
        if op == "add":
            ts = []
            self.flat(n, 1, ts)
            real, cx = dag.ZERO, []
            for s, t in ts:
                if self.isreal(t):
                    real = dag.add(real, t if s > 0 else dag.neg(t))
                else:
                    v = self.memo[t.id]
                    cx.append(v if s > 0 else self.prod(("R", "-"), v))
            if real is not dag.ZERO:
                self.val(real)
                cx.append(("R", self.sign(real)))
            r = self.sum(cx)
            if r is None:
                try:
                    p, d = self.rat(n)
                    if self.real_poly(p) and self.real_poly(d):
                        return ("R", self.sign(n))
                except TooBig:
                    pass
            return r
        if op == "sqrt":
            v = a[0]
            if v is None:
                return None
            if v[0] == "R":
                return ("R", "+") if v[1] == "+" else ("R", "0") if v[1] == "0" else None
            if v[1] < -1 or v[2] > 1:
                return None
            return ("A", v[1] / 2, v[2] / 2)
        if op == "ln":
            v = a[0]
            if v is None:
                return None
            if v[0] == "R":
                if v[1] != "+":
                    return None
                x = dag.add(n.args[0], dag.const(-1))
                self.val(x)
                s = self.sign(x)
                return ("R", s)
            if 0 <= v[1] and v[2] <= 1 and v[2] > 0:
                return ("A", Fraction(0), Fraction(1))
            if -1 <= v[1] and v[2] <= 0 and v[1] < 0:
                return ("A", Fraction(-1), Fraction(0))
            return None
        if op == "exp":
            return ("R", "+") if a[0] is not None and a[0][0] == "R" else None
        if op == "abs":
            return ("R", "+")
        if op in ("re", "im"):
            return ("R", "?")
        if op == "conj":
            v = a[0]
            return v if v is None or v[0] == "R" else self.norm(-v[2], -v[1])
        if op == "ite":
            x, y = a[1], a[2]
            return x if x == y else ("R", "?") if x and y and x[0] == y[0] == "R" else None
        if op == "uf":
            return ("R", "?") if all(v is not None and v[0] == "R" for v in a) else None
        return None

    def off_cut(self, n):
        """argument of a logarithm or square root: strictly off (-oo, 0]"""
        v = self.val(n)
        if v is None:
            return False
        if v[0] == "R":
            return v[1] == "+"
        lo, hi = v[1], v[2]
        return lo >= -1 and hi <= 1 and not (lo == hi and abs(lo) == 1)


def outside(v, A):
    """condition under which the evaluation of v takes a real square root of a negative number"""
    memo = {}
    st = [v]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        if x.op == "ite":
            c, a, b = x.args
            r = b_or(memo[c.id], ite(c, memo[a.id], memo[b.id]))
        else:
            r = FALSE
            for a in x.args:
                r = b_or(r, memo[a.id])
            if x.op == "sqrt":
                w = A.val(x.args[0])
                if w is not None and w[0] == "R" and w[1] != "+":
                    r = b_or(r, dag.lt(x.args[0], ZERO))
        memo[x.id] = r
    return memo[v.id]
