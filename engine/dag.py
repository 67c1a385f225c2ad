"""Value graph (hash-consed expression DAG) and the domains it is evaluated in.

The graph is what the dataflow pass over MIR (mirflow.py) produces: every scalar a
function can return is a node over its parameters.  Two nodes are congruent when they
have the same value number; value numbers are taken modulo the axioms of a commutative
field plus the listed axioms for sqrt/ln/exp/|.|, by Schwartz-Zippel fingerprints in
GF(p^2) (Gulwani & Necula, "Global value numbering using random interpretation",
POPL 2004): atoms get random field elements, branch joins are affine joins, uninterpreted
functions get hashes.  No program is run: no float is ever computed from the code.
"""
import hashlib
import math
import os
from fractions import Fraction

P = (1 << 61) - 1  # p = 3 mod 4, so GF(p^2) = GF(p)[i] and QR square roots are multiplicative


class Node:
    __slots__ = ("op", "args", "data", "id", "__weakref__")

    def __repr__(self):
        return show(self, 4)


_TAB = {}
_ALL = []


def mk(op, args=(), data=None):
    k = (op, tuple(a.id for a in args), data)
    n = _TAB.get(k)
    if n is None:
        n = Node()
        n.op, n.args, n.data, n.id = op, tuple(args), data, len(_ALL)
        _TAB[k] = n
        _ALL.append(n)
    return n


def const(x):
    return mk("const", (), Fraction(x))


ZERO, ONE = const(0), const(1)
I = mk("I")
PI = mk("atom", (), "PI")
TRUE, FALSE = mk("bool", (), True), mk("bool", (), False)


def atom(name):
    return mk("atom", (), name)


def is_const(n, v=None):
    return n.op == "const" and (v is None or n.data == v)


def add(a, b):
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    if a.op == "const" and b.op == "const":
        return const(a.data + b.data)
    return mk("add", (a, b))


def neg(a):
    if a.op == "const":
        return const(-a.data)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def sub(a, b):
    if a is b:
        return ZERO
    if a.op == "const" and b.op == "const":
        return const(a.data - b.data)
    return add(a, neg(b))


def mul(a, b):
    if is_const(a, 0) or is_const(b, 0):
        return ZERO
    if is_const(a, 1):
        return b
    if is_const(b, 1):
        return a
    if a.op == "const" and b.op == "const":
        return const(a.data * b.data)
    return mk("mul", (a, b))


def inv(a):
    if a.op == "const" and a.data != 0:
        return const(1 / a.data)
    if a.op == "inv":
        return a.args[0]
    return mk("inv", (a,))


def div(a, b):
    if a.op == "const" and b.op == "const" and b.data != 0:
        return const(a.data / b.data)
    return mul(a, inv(b))


def powi(a, k):
    if k < 0:
        return inv(powi(a, -k))
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def fn1(op, a):
    return mk(op, (a,))


def sqrt(a):
    if a.op == "const" and a.data in (0, 1):
        return a
    return mk("sqrt", (a,))


def _factors(n, e, acc):
    """multiplicative structure of n as {node id: (node, exponent)}"""
    if n.op == "mul":
        _factors(n.args[0], e, acc)
        _factors(n.args[1], e, acc)
    elif n.op == "inv":
        _factors(n.args[0], -e, acc)
    elif n.op == "neg":
        _factors(n.args[0], e, acc)
        acc["sign"] = acc.get("sign", 1) * (-1 if e % 2 else 1)
    elif n.op == "pow":
        _factors(n.args[0], e * n.data, acc)
    else:
        o = acc.get(n.id)
        acc[n.id] = (n, (o[1] if o else 0) + e)


def even_root(n):
    """r with n == r*r syntactically (even multiplicity of every factor), else None"""
    acc = {}
    _factors(n, 1, acc)
    s = acc.pop("sign", 1)
    if s != 1 or not acc:
        return None
    r = ONE
    for node, e in acc.values():
        if e % 2:
            if node.op == "const" and e % 2:
                v = node.data
                if v > 0:
                    from math import isqrt
                    a, b = isqrt(v.numerator), isqrt(v.denominator)
                    if a * a == v.numerator and b * b == v.denominator:
                        r = mul(r, powi(const(Fraction(a, b)), e))
                        continue
            return None
        r = mul(r, powi(node, e // 2))
    return r


def ln(a):
    """principal logarithm"""
    if is_const(a, 1):
        return ZERO
    if a.op == "mul":
        r = even_root(a)
        if r is not None and is_real(r):
            return mul(const(2), mk("ln", (absn(r),)))
    return mk("ln", (a,))


MAYBE_COMPLEX = {"om", "s", "z", "ln_s", "ln_s_pl_1", "self", "guess0", "guess1", "t"}


def is_real(n):
    return not any(x.op not in ("const", "atom", "add", "mul", "neg", "inv", "abs", "exp", "sqrt")
                   or (x.op == "atom" and x.data in MAYBE_COMPLEX) for x in nodes_of(n))


LNSPLIT = [False]   # products of positive quantities under a logarithm are split


def lnr(a):
    """logarithm of a positive real: ln x^2 = 2 ln |x|"""
    if is_const(a, 1):
        return ZERO
    if LNSPLIT[0] and a.op in ("mul", "inv"):
        if a.op == "inv":
            return neg(lnr(a.args[0]))
        return add(lnr(a.args[0]), lnr(a.args[1]))
    r = even_root(a)
    if r is not None:
        return mul(const(2), mk("ln", (absn(r),)))
    if a.op == "abs":
        return mk("ln", (a.args[0],))
    return mk("ln", (a,))


def exp(a):
    return mk("exp", (a,))


def absn(a):
    if a.op == "const":
        return const(abs(a.data))
    if a.op == "neg":
        a = a.args[0]
    if a.op == "abs":
        return a
    return mk("abs", (a,))


def re(a):
    if a.op == "const":
        return a
    if a.op in ("re", "im", "abs"):
        return a
    return mk("re", (a,))


def im(a):
    if a.op == "const" or a.op in ("re", "im", "abs"):
        return ZERO
    return mk("im", (a,))


def conj(a):
    if a.op == "const":
        return a
    return mk("conj", (a,))


# ---- booleans
def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,))


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", (a, b))


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def lt(a, b):
    if a.op == "const" and b.op == "const":
        return TRUE if a.data < b.data else FALSE
    if a is b:
        return FALSE
    return mk("lt", (a, b))


def le(a, b):
    return b_not(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.data == b.data else FALSE
    if a.op == "bool" or b.op == "bool":
        if a.op == "bool":
            a, b = b, a
        return a if b is TRUE else b_not(a)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "lt":       # |x| and sign-split spellings of it
        x = c.args[0] if is_const(c.args[1], 0) else c.args[1] if is_const(c.args[0], 0) else None
        if x is not None:
            n, y = (a, b) if x is c.args[0] else (b, a)     # value when negative / otherwise
            if y is x and n is neg(x):
                return absn(x)
            if y is neg(x) and n is x:
                return neg(absn(x))
    if c.op == "eq":       # the sum over an empty list is 0, the product 1
        x = c.args[0] if is_const(c.args[1], 0) else c.args[1] if is_const(c.args[0], 0) else None
        if x is not None and x.op == "len" and b.op in ("sum", "prod") and b.args[0] is x.args[0] and is_const(a, b.op == "prod"):
            return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return b_not(c)
    if a is FALSE or b is FALSE or a is TRUE or b is TRUE:
        if b is FALSE:
            return b_and(c, a)
        if a is FALSE:
            return b_and(b_not(c), b)
        if a is TRUE:
            return b_or(c, b)
        return b_or(b_not(c), a)
    return mk("ite", (c, a, b))


def uf(name, *args):
    return mk("uf", args, name)


def fld(a, name):
    return mk("fld", (a,), str(name))


def depends(n, ids, memo=None):
    """does n's graph contain any node id in ids"""
    if memo is None:
        memo = {}
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id in ids:
            return True
        st.extend(x.args)
    return False


def atoms_of(n):
    st, seen, out = [n], set(), {}
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "atom":
            out[x.data] = x
        st.extend(x.args)
    return out


def nodes_of(n):
    st, seen, out = [n], set(), []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.args)
    return out


def show(n, d=6):
    if n.op == "const":
        return str(n.data)
    if n.op == "atom":
        return str(n.data)
    if n.op == "bool":
        return str(n.data)
    if n.op == "I":
        return "i"
    if d <= 0:
        return "…"
    a = [show(x, d - 1) for x in n.args]
    if n.op == "add":
        return "(%s + %s)" % (a[0], a[1][1:] if False else a[1])
    if n.op == "mul":
        return "%s*%s" % (a[0], a[1])
    if n.op == "inv":
        return "1/(%s)" % a[0]
    if n.op == "neg":
        return "-%s" % a[0]
    if n.op in ("uf", "fld", "elem"):
        return "%s%s(%s)" % ("" if n.op == "uf" else n.op + ".", n.data, ", ".join(a))
    return "%s%s(%s)" % (n.op, "" if n.data is None else "[%s]" % (n.data,), ", ".join(a))


# ------------------------------------------------------------------ GF(p^2)
def _h(*xs):
    s = repr(xs).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=16).digest(), "big")


R9 = (P - 1) // 9      # order of the subgroup in which cube roots are unique (3 does not divide it)
assert R9 % 3 and (P - 1) % 9 == 0


class Retry(Exception):
    """this random point does not support a square root; take another"""


class DivZero(Exception):
    pass


def cadd(a, b):
    return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)


def csub(a, b):
    return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)


def cneg(a):
    return (-a[0] % P, -a[1] % P)


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0] % P, 0)
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cinv(a):
    if a[1] == 0:
        if a[0] == 0:
            raise DivZero()
        return (pow(a[0], P - 2, P), 0)
    n = (a[0] * a[0] + a[1] * a[1]) % P
    ni = pow(n, P - 2, P)
    return (a[0] * ni % P, -a[1] * ni % P)


def cconj(a):
    return (a[0], -a[1] % P)


def rsqrt(x):
    """multiplicative square root of a quadratic residue of GF(p)"""
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        raise Retry()
    return r


def csqrt(a):
    if a[1] == 0:
        return (rsqrt(a[0]), 0)
    n = (a[0] * a[0] + a[1] * a[1]) % P
    rn = rsqrt(n)  # norm must be a square
    half = pow(2, P - 2, P)
    for s in (rn, -rn % P):
        t = (a[0] + s) * half % P
        r = pow(t, (P + 1) // 4, P)
        if r * r % P == t and r:
            r2 = a[1] * pow(2 * r, P - 2, P) % P
            z = (r, r2)
            if cmul(z, z) == a:
                # canonical under conjugation: the real part decides the root
                return z if z[0] < P - z[0] else cneg(z)
    raise Retry()


def uhash(seed, name, args, parity=None):
    """conjugation-equivariant hash of field elements; real on real arguments"""
    real = all(a[1] == 0 for a in args)
    if real:
        return (_h(seed, name, tuple(a[0] for a in args)) % P, 0)
    c = tuple(cconj(a) for a in args)
    args = tuple(args)
    sw = c < args
    k = c if sw else args
    z = (_h(seed, name, k, 0) % P, _h(seed, name, k, 1) % P)
    return cconj(z) if sw else z


ZEROOK = {"iter", "nf"}     # unsigned quantities that may be 0
SIGNED = {"m", "mq", "gluon", "n", "om", "mu", "xi", "f0", "g0", "s", "z", "omega", "w", "eps", "delta", "m1", "m2", "z0", "r", "a",
          "ln_s", "ln_s_pl_1", "en", "p", "beta"}


class GF:
    """value numbering domain: GF(p^2) at the random point `seed`.

    Branch conditions are three-way signs / truth bits fixed by the canonical value of what
    they compare, so both sides of a comparison take the same branch at the same point."""

    # mscale: node by which the integration variables (and the measure) are rescaled
    mscale = None
    peer = None
    # logarithms of real numbers modulo i*pi (their real part)
    lnabs = False

    def __init__(self, seed, env=None, complex_atoms=(), signed=SIGNED, bits=None, over=None):
        self.over = over or {}
        self.seed = seed
        self.env = dict(env or {})
        self.cplx = set(complex_atoms)
        self.signed = signed
        self.memo = {}
        self.smemo = {}
        self.arms = set()
        self.bits = bits if bits is not None else {}

    def frac(self, f):
        return (f.numerator % P * pow(f.denominator % P, P - 2, P) % P, 0)

    def ev(self, n):
        m = self.memo
        r = m.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            op = x.op
            if op == "atom":
                m[x.id] = self.atom(x)
                st.pop()
                continue
            if op == "ite":
                c = x.args[0]
                if c.id not in m:
                    st.append(c)
                    continue
                t = x.args[1] if m[c.id] == (1, 0) else x.args[2]
                if t.id not in m:
                    st.append(t)
                    continue
                self.arms.add((x.id, m[c.id] == (1, 0)))
                m[x.id] = m[t.id]
                st.pop()
                continue
            if op == "and":
                a, b = x.args
                if a.id not in m:
                    st.append(a)
                    continue
                if m[a.id] == (0, 0):
                    m[x.id] = (0, 0)
                    st.pop()
                    continue
                if b.id not in m:
                    st.append(b)
                    continue
                m[x.id] = m[b.id]
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in m]
            if todo:
                st.extend(todo)
                continue
            if op == "fld" and x.id in self.over:
                m[x.id] = self.over[x.id]
            else:
                m[x.id] = self.step(x, [m[a.id] for a in x.args])
            st.pop()
        return m[n.id]

    def atom(self, x):
        v = self.env.get(x.data)
        if v is not None:
            if isinstance(v, Node):
                return self.outer().ev(v)   # evaluated at the same point, unsubstituted
            return v
        return self.fresh(x.data)

    def fresh(self, name):
        v = self.over.get(name)
        if v is not None:
            return v
        if name in self.cplx:
            return (_h(self.seed, "a", name, 0) % P, _h(self.seed, "a", name, 1) % P)
        v = _h(self.seed, "a", name) % P
        if name not in self.signed:
            v = pow(v, 18, P)  # "positive": sqrt(x^2) = x, cbrt(x^3) = x
        return (v, 0)

    def outer(self):
        o = getattr(self, "_outer", None)
        if o is None:
            o = self._outer = GF(self.seed, None, self.cplx, self.signed, self.bits, self.over)
        return o

    # ------------------------------------------------ order domain
    def shadow(self, n):
        """a real number ordering n among the other values at this point (None: not ordered).
        Used only to decide comparisons consistently with one another."""
        m = self.smemo
        st = [n]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            if x.op == "atom" or x.op == "fld" or x.op == "ite":
                if x.op == "ite":
                    c = self.ev(x.args[0])
                    t = x.args[1] if self.truth(c) else x.args[2]
                    if t.id not in m:
                        st.append(t)
                        continue
                    m[x.id] = m[t.id]
                else:
                    m[x.id] = self.sleaf(x)
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in m]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            a = [m[y.id] for y in x.args]
            m[x.id] = None if None in a else sstep(x, a)
        return m[n.id]

    def truth(self, v):
        return v == (1, 0)

    def const_of(self, v):
        return v

    def small(self, name):
        return False

    def sleaf(self, x):
        key = x.data if x.op == "atom" else x.id
        e = self.env.get(x.data) if x.op == "atom" else None
        if isinstance(e, Node):
            return self.outer().shadow(e)
        v = self.over.get(("s", key))
        if v is not None:
            return v
        if x.op == "atom":
            if e is not None or x.data in self.cplx:
                return None
            if self.small(x.data):
                return 1e-15
            if x.data == "PI":
                return math.pi
            if x.data == "INF":
                return 1e12
            name = ("a", x.data)
        else:
            name = ("f", x.data, x.args[0].op)
            name = name + (self.const_of(self.ev(x.args[0])),)
        h = _h(self.seed, "sh", name)
        v = math.exp((h >> 3) % 100003 / 100003.0 * 4 - 2)
        if x.op == "atom" and x.data in self.signed and h & 1:
            v = -v
        return v

    def sign(self, d):
        """three-way sign of a field element, odd under negation"""
        if d == (0, 0):
            return 0
        e = cneg(d)
        k, s = (d, 1) if d <= e else (e, -1)
        h = _h(self.seed, "sgn", k) % 5
        return 0 if h == 0 else (s if h < 3 else -s)

    def step(self, x, a):
        op = x.op
        if op == "const":
            return self.frac(x.data)
        if op == "I":
            return (0, 1)
        if op == "add":
            return cadd(a[0], a[1])
        if op == "mul":
            return cmul(a[0], a[1])
        if op == "neg":
            return cneg(a[0])
        if op == "inv":
            return cinv(a[0])
        if op == "sqrt":
            return csqrt(a[0])
        if op == "abs":
            z = a[0]
            return (rsqrt((z[0] * z[0] + z[1] * z[1]) % P), 0)
        if op == "re":
            return (a[0][0], 0)
        if op == "im":
            return (a[0][1], 0)
        if op == "conj":
            return cconj(a[0])
        if op == "ln":
            z = a[0]
            if z == (0, 0):
                raise DivZero()
            if self.lnabs and z[1] == 0 and z[0] > P // 2:
                z = cneg(z)
            if z == (1, 0):
                return (0, 0)
            w = cinv(z)
            if self.lnabs and w[1] == 0 and w[0] > P // 2:
                w = cneg(w)
            if z == cconj(w) and z[1]:      # on the unit circle: purely imaginary
                y = max(uhash(self.seed, "arc", [min(z, w)]))
                return (0, y) if z < w else (0, (P - y) % P)
            o = min((z, 0), (cconj(z), 0), (w, 1), (cconj(w), 1))
            if o[1]:
                return cneg(uhash(self.seed, "ln", [w]))
            return uhash(self.seed, "ln", [z])
        if op == "exp":
            z = a[0]
            if z == (0, 0):
                return (1, 0)
            w = cneg(z)
            if z == cconj(w) and z[1]:      # on the unit circle: purely imaginary
                y = max(uhash(self.seed, "arc", [min(z, w)]))
                return (0, y) if z < w else (0, (P - y) % P)
            o = min((z, 0), (cconj(z), 0), (w, 1), (cconj(w), 1))
            if o[1]:
                return cinv(uhash(self.seed, "exp", [w]))
            return uhash(self.seed, "exp", [z])
        if op == "bool":
            return (1, 0) if x.data else (0, 0)
        if op == "not":
            return csub((1, 0), a[0])
        if op in ("lt", "eq"):
            b = self.bits.get(x.id)
            if b is not None:
                return b
            l, r = x.args
            if op == "lt" and l.op == "abs" and r.op == "abs":   # |x|<|y| <=> x^2<y^2
                d = csub(cmul(a[1], a[1]), cmul(a[0], a[0]))
            else:
                d = csub(a[1], a[0])
            if d == (0, 0):
                return (1, 0) if op == "eq" else (0, 0)
            if op == "eq" and arith(x):
                return (0, 0)
            if op == "eq" and self.shadow(l) is not None and self.shadow(r) is not None:
                return (0, 0)
            if op == "lt":
                sl, sr = self.shadow(l), self.shadow(r)
                if sl is not None and sr is not None and abs(sl - sr) > 1e-9 * (abs(sl) + abs(sr)):
                    return (1, 0) if sl < sr else (0, 0)
                if self.over and sl is not None and sr is not None:
                    raise Retry()      # too extreme a point to order the two sides
            if self.peer is not None:
                # under a change of units both sides of a homogeneous comparison scale alike
                pa, pl = self.peer
                da = csub(pa.ev(r), pa.ev(l))
                lam = self.outer().ev(pl)
                il, up, dn = cinv(lam), da, da
                for k in range(9):
                    if csub(a[1], a[0]) in (up, dn):
                        return pa.ev(x)
                    up, dn = cmul(up, lam), cmul(dn, il)
            s = self.sign(d)
            v = (s > 0) if op == "lt" else (s == 0)
            return (1, 0) if v else (0, 0)
        if op == "fld":
            return uhash(self.seed, ("fld", x.data), a)
        if op == "sum":  # args: coll, body
            return cmul(uhash(self.seed, "sum", [a[0]]), a[1])
        if op == "len":
            return uhash(self.seed, "sum", [a[0]])
        if op == "int":  # args: method, lo, hi, body ; linear in the body
            if a[1] == a[2]:
                return (0, 0)
            if self.mscale is not None:
                lam = self.outer().ev(self.mscale)
                il = cinv(lam)
                return cmul(cmul(lam, uhash(self.seed, "int", [a[0], cmul(a[1], il), cmul(a[2], il)])), a[3])
            return cmul(uhash(self.seed, "int", a[:3]), a[3])
        if op == "uf" and x.data == "powf" and x.args[1].op == "const" and x.args[1].data.denominator == 3:
            z = a[0]
            if z[1] or pow(z[0], R9, P) != 1:
                raise Retry()
            r = pow(z[0], pow(3, -1, R9), P)
            k = x.args[1].data.numerator
            return (pow(r, k, P), 0) if k >= 0 else cinv((pow(r, -k, P), 0))
        if op == "uf":
            v = uhash(self.seed, ("uf", x.data), a)
            if x.data in BOOL_UF:
                return (v[0] & 1, 0)
            return v
        if op in ("elem", "idxof", "range", "prod", "fold", "root", "app", "tup"):
            return uhash(self.seed, (op, x.data), a)
        raise NotImplementedError(op)


BOOL_UF = {"is_nan", "is_finite", "none", "found", "signneg"}


def conds_of(n):
    return [x for x in nodes_of(n) if x.op in ("lt", "eq") or (x.op == "uf" and x.data in BOOL_UF)]


_ARITH = {"const", "atom", "I", "add", "mul", "neg", "inv", "sqrt", "abs", "re", "im", "conj", "ln", "exp",
          "fld", "elem", "powq", "len"}
_AR = {}


def arith(x):
    """a comparison of plain arithmetic (no enum discriminants, no opaque calls)"""
    r = _AR.get(x.id)
    if r is None:
        r = _AR[x.id] = all(n.op in _ARITH for a in x.args for n in nodes_of(a))
    return r


def sstep(x, a):
    op = x.op
    try:
        if op == "const":
            return float(x.data)
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "neg":
            return -a[0]
        if op == "inv":
            return 1 / a[0]
        if op == "sqrt":
            return math.sqrt(a[0])
        if op == "abs":
            return abs(a[0])
        if op == "re":
            return a[0]
        if op == "conj":
            return a[0]
        if op == "im":
            return 0.0
        if op == "ln":
            return math.log(a[0])
        if op == "exp":
            return math.exp(a[0])
        if op == "uf" and x.data == "powf":
            return math.pow(a[0], a[1])
    except (ValueError, ZeroDivisionError, OverflowError):
        pass
    return None


def solve_eq(x, env, cplx, signed, seed, only=None, base=None):
    """assignments {leaf: value} under which the two sides of the comparison x agree"""
    out = []
    l0, r0 = x.args
    alts = [(l0, r0)]
    for y in [y for y in nodes_of(l0) + nodes_of(r0) if y.op == "abs"]:   # both signs of every |y|
        alts = [(rebuild1(p, y, z), rebuild1(q, y, z)) for p, q in alts for z in (y.args[0], neg(y.args[0]))]
    for ai, (l, r) in enumerate(alts[:8]):
        if only and only[0] != ai:
            continue
        leaves = []
        for n in nodes_of(l) + nodes_of(r):
            if n.op == "atom" and n.data not in cplx and n.data != "PI":
                v = env.get(n.data) if env else None
                if v is None:
                    leaves.append(n.data)
                elif isinstance(v, Node):
                    leaves.extend(m.data for m in nodes_of(v) if m.op == "atom" and m.data != "PI")
            elif n.op == "fld":
                leaves.append(n.id)

        def d(leaf, v):
            g = GF(seed, env, cplx, signed, over={**(base or {}), leaf: (v, 0), ("s", leaf): float(v)})
            p, q = g.shadow(l), g.shadow(r)
            return csub(g.ev(l), g.ev(r)), None if p is None or q is None else p - q
        for leaf in dict.fromkeys(x for x in leaves if x != "LAM"):
            if only and only[1] != leaf:
                continue
            try:
                (a, sa), (b, sb), (c, sc) = d(leaf, 3), d(leaf, 4), d(leaf, 5)
            except (Retry, DivZero):
                continue
            k = csub(b, a)
            if k == (0, 0) or csub(c, b) != k:
                continue
            t = cmul(a, cinv(k))
            v = ((3 - t[0]) % P, -t[1] % P)
            if v[1] or (v == (0, 0) and isinstance(leaf, str) and leaf not in signed and leaf.split(":")[-1] not in ZEROOK):
                continue
            o = {leaf: v}
            if sa is not None and sb is not None and sb != sa:
                sv = 3 - sa / (sb - sa)
                if abs(sv) < 1e-3:            # a threshold close to zero needs the precision
                    try:
                        g = GF(seed, env, cplx, signed, over={**(base or {}), leaf: (0, 0), ("s", leaf): 0.0})
                        p, q = g.shadow(l), g.shadow(r)
                        if p is not None and q is not None:
                            sv = (q - p) / (sb - sa)
                    except (Retry, DivZero, ZeroDivisionError):
                        pass
                if sv < 0 and not (isinstance(leaf, str) and leaf in signed):
                    continue          # outside the domain of a positive quantity
                o["s", leaf] = sv
            if all(o != y for _, y in out):
                out.append(((ai, leaf), o))
    return out


DEBUG = os.environ.get('DAGDEBUG')
GRID = [10.0 ** k for k in (0, 1, -1, 2, -2, 3, -3, 4, -4, 6, -6, 8, -8, 10, -10, 12, -12, 15, -15)]


def sides_of(x, env, cplx, signed, seed):
    """shadow overrides putting the two sides of the comparison x in either order (a non-linear comparison, swept)"""
    l, r = x.args
    out = {}
    for leaf in leaves_of(x, env, cplx):
        for v in GRID:
            for t in ((v, -v) if isinstance(leaf, str) and leaf in signed else (v,)):
                o = {("s", leaf): t}
                g = GF(seed, env, cplx, signed, over=o)
                try:
                    p, q = g.shadow(l), g.shadow(r)
                except (Retry, DivZero):
                    continue
                if p is None or q is None or p == q:
                    continue
                out.setdefault((leaf, p < q), o)
    return list(out.values())


def rebuild1(n, old, new):
    from values import rebuild
    return rebuild(n, {old.id: new})


def paths_to_arms(root):
    """{(ite id, arm): [(condition, wanted)]}: the decisions on a shortest way from the root into every arm"""
    from collections import deque
    best, todo, out = {root.id: ()}, deque([root]), {}
    while todo:
        n = todo.popleft()
        way = best[n.id]
        if n.op == "ite":
            nxt = [(n.args[0], way)]
            for arm, x in ((True, n.args[1]), (False, n.args[2])):
                w = way + ((n.args[0], arm),)
                out[n.id, arm] = w
                nxt.append((x, w))
        else:
            nxt = [(x, way) for x in n.args]
        for x, w in nxt:
            o = best.get(x.id)
            if o is None or len(w) < len(o):
                best[x.id] = w
                (todo.append if len(w) > len(way) else todo.appendleft)(x)
    return out


def conjuncts(c, want, limit=4):
    """disjunctive normal form of c == want: lists of (comparison, truth)"""
    if c.op == "bool":
        return [[]] if bool(c.data) == want else []
    if c.op == "not":
        return conjuncts(c.args[0], not want, limit)
    if c.op == "and":
        x, y = (conjuncts(z, want, limit) for z in c.args)
        if not want:
            return (x + y)[:limit]
        return [p + q for p in x for q in y][:limit]
    if c.op == "ite":
        out = []
        for arm, z in ((True, c.args[1]), (False, c.args[2])):
            out += [p + q for p in conjuncts(c.args[0], arm, limit) for q in conjuncts(z, want, limit)]
        return out[:limit]
    return [[(c, want)]]


def joint_points(lits, env, cplx, signed, seed0, bits=None, tries=150, want=3):
    """points (seed, overrides) at which all comparisons of lits have the truth value given, jointly"""
    eqs = [c for c, w in lits if w and c.op == "eq" and (arith(c) or solve_eq(c, env, cplx, signed, seed0))]
    lts = [c for c, w in lits if c.op == "lt" and arith(c)]
    out = []
    if any(not w and c.op == "eq" and c.args[0] is c.args[1] for c, w in lits):
        return out
    for s in range(seed0, seed0 + tries):
        over = {}
        h = _h(s, "joint")
        if lts and (s - seed0) % 4:
            marks = {}
            for c in lts:
                for (_, leaf), o in solve_eq(c, env, cplx, signed, s):
                    v = o.get(("s", leaf))
                    if v is not None:
                        marks.setdefault(leaf, []).append(v)
                for leaf in leaves_of(c, env, cplx):
                    marks.setdefault(leaf, [])
            for i, (leaf, vs) in enumerate(sorted(marks.items(), key=str)):
                g = _h(s, "jl", i)
                if ("s", leaf) in over or g % 3 == 0:
                    continue
                vs = sorted(set(vs))
                cand = []
                if vs:
                    cand = [(x + y) / 2 for x, y in zip(vs, vs[1:])] + [vs[0] * 0.5, vs[-1] * 1.5, vs[0] * 1.5, vs[-1] * 0.5]
                v = cand[(g >> 4) % len(cand)] if cand and g % 3 == 1 else 10.0 ** ((g >> 20) % 2400 / 100.0 - 12)
                if isinstance(leaf, str) and leaf in signed:
                    v = v if g & 8 else -v
                elif v < 0:
                    continue
                over["s", leaf] = v
        done = set()
        for c in eqs:
            sols = [o for (_, leaf), o in solve_eq(c, env, cplx, signed, s, base=over) if leaf not in done]
            if not sols:
                over = None
                break
            o = sols[h % len(sols)]
            done.update(k for k in o if not isinstance(k, tuple))
            over.update(o)
        if over is None:
            if all(not solve_eq(c, env, cplx, signed, s) for c in eqs):
                break
            continue
        g = GF(s, env, cplx, signed, bits, over)
        try:
            if all(g.truth(g.ev(c)) == w for c, w in lits) and not any(
                    None not in p and abs(p[0] - p[1]) > 1e-9 * (abs(p[0]) + abs(p[1]))
                    for p in [[g.shadow(y) for y in c.args] for c in eqs]):
                out.append((s, over))
                if len(out) >= want:
                    break
        except (Retry, DivZero):
            continue
    return out


def leaves_of(x, env, cplx):
    out = []
    for n in nodes_of(x.args[0]) + nodes_of(x.args[1]):
        if n.op == "atom" and n.data not in cplx and n.data != "PI":
            v = env.get(n.data) if env else None
            if v is None:
                out.append(n.data)
            elif isinstance(v, Node):
                out.extend(m.data for m in nodes_of(v) if m.op == "atom" and m.data != "PI")
        elif n.op == "fld":
            out.append(n.id)
    return list(dict.fromkeys(out))


def special_points(roots, cplx=(), signed=SIGNED, seed0=0, bits=None, skip=()):
    """points (seed, overrides) besides the generic ones: the two sides of every comparison the graphs (root, env) make, the
    points where it is an equality, and a point in every arm; `skip`: leaves that are not free"""
    out = []
    for root, e in roots:
        cs = [c for c in conds_of(root) if c.op in ("eq", "lt") and arith(c)]
        for c in cs:
            found = False
            for s in (seed0 + 7919, seed0 + 7920, seed0 + 7921):
                for w, o in solve_eq(c, e, set(cplx), signed, s):
                    if w[1] in skip:
                        continue
                    found = True
                    k = ("s", w[1])
                    if c.op == "lt":
                        for f in (-0.5, 0.5):
                            sv = o.get(k)
                            if sv is None:
                                continue
                            sv = sv * (1 + f) if sv else f
                            if sv >= 0 or (isinstance(w[1], str) and w[1] in signed):
                                out.append((s, {k: sv}))
                    out.append((s, o))
            if not found and c.op == "lt":
                out += [(seed0 + 7919, o) for o in sides_of(c, e, set(cplx), signed, seed0 + 7919)
                        if not any(k[1] in skip for k in o)]
        if not conds_of(root):
            continue
        ways = paths_to_arms(root)
        for x in sorted(ways, key=lambda y: len(ways[y]))[:40]:
            alts = [[]]
            for c, w in ways[x]:
                alts = [p + q for p in alts for q in conjuncts(c, w)][:4]
            for lits in alts:
                out += [(s, o) for s, o in joint_points(lits, e, set(cplx), signed, seed0 + 104729, bits, 40, 2)
                        if not any((k[1] if isinstance(k, tuple) else k) in skip for k in o)]
    seen, res = set(), []
    for s, o in out:
        k = (s, tuple(sorted(o.items(), key=str)))
        if k not in seen:
            seen.add(k)
            res.append((s, o))
    return res


def congruent(a, b, env=None, cplx=(), tries=4000, need=None, seed0=0, env_b=None, scale=None, signed=SIGNED,
              bits=None, mscale=None, assume=None):
    """decide a == b modulo the axioms at `need` independent random points.

    env / env_b: substitutions {atom name: Node or field element} for the two sides.
    Arithmetic equality tests are false at a generic point; the points where one of them
    holds are visited separately.  Returns (bool, number of points)."""
    if a is b and env_b is None and scale is None:
        return True, 0
    ca, cb = conds_of(a), conds_of(b)
    eb = env if env_b is None else env_b
    if need is None:
        k = sum(1 for c in ca + cb if not (c.op == "eq" and arith(c)))
        need = 2 if k == 0 else min(64, 12 + 6 * k)

    seen = (set(), set())

    def points(need, tries, over_of):
        ok = zero = 0
        for s in range(seed0, seed0 + tries):
            try:
                over = over_of(s)
                if over is False:
                    continue
                ga = GF(s, env, cplx, signed, bits, over)
                gb = GF(s, eb, cplx, signed, bits, over)
                gb.mscale = mscale
                if mscale is not None:
                    gb.peer = (ga, mscale)
                if assume is not None and not ga.truth(ga.ev(assume)):
                    continue
                va, vb = ga.ev(a), gb.ev(b)
                if scale is not None:
                    vb = cmul(vb, ga.outer().ev(scale))
            except Retry:
                continue
            except DivZero:
                if over:
                    continue
                raise
            if va != vb:
                return False, ok + 1
            if va == (0, 0):
                zero += 1
                if zero % 4:            # a point where everything vanishes decides little
                    continue
            else:
                seen[0].update(ga.arms)
                seen[1].update(gb.arms)
            ok += 1
            if ok >= need:
                return True, ok
        return (True if zero else None), ok

    def at(s, over):
        nonlocal seed0
        keep, seed0 = seed0, s
        try:
            return points(1, 1, lambda _: over)
        finally:
            seed0 = keep

    ok, n = points(need, tries, lambda s: None)
    if ok is None:
        raise RuntimeError("no usable random point in %d tries (%s)" % (tries, ", ".join(sorted(
            {n.op for x in (a, b) for n in nodes_of(x)} & {"sqrt", "abs", "powf"}))))
    if not ok:
        return False, n
    for cs, e in ((ca, env), (cb, eb)):
        for c in cs:
            if c.op not in ("eq", "lt") or not arith(c):
                continue
            who = {}
            for s in range(seed0 + 7919, seed0 + 7925):
                for w, _ in solve_eq(c, e, set(cplx), signed, s):
                    who[w] = True
            if not who and c.op == "lt":
                for o in sides_of(c, e, set(cplx), signed, seed0 + 7919):
                    ok, m = points(2, 30, lambda s: o)
                    n += m
                    if ok is False:
                        return False, n
            for w in who:
                def over_of(s, w=w, c=c, e=e):
                    sols = solve_eq(c, e, set(cplx), signed, s, w)
                    return sols[0][1] if sols else False
                ok, m = points(3, 60, over_of)
                n += m
                if ok is False:
                    return False, n
                if c.op != "lt":
                    continue
                for f in (-0.5, 0.5):         # both sides of the threshold, however extreme it is
                    def side(s, w=w, c=c, e=e, f=f):
                        sols = solve_eq(c, e, set(cplx), signed, s, w)
                        k = ("s", w[1])
                        if not sols or k not in sols[0][1]:
                            return False
                        sv = sols[0][1][k]
                        sv = sv * (1 + f) if sv else f
                        if sv < 0 and not (isinstance(w[1], str) and w[1] in signed):
                            return False
                        return {k: sv}
                    ok, m = points(3, 30, side)
                    n += m
                    if ok is False:
                        return False, n
    # arms that no point reached (with a value other than zero): several comparisons have to cooperate
    for k, (root, e) in enumerate(((a, env), (b, eb))):
        ways = paths_to_arms(root)
        missing = [x for x in ways if x not in seen[k]]
        for x in sorted(missing, key=lambda y: len(ways[y]))[:40]:
            if x in seen[k]:
                continue
            alts = [[]]
            for c, w in ways[x]:
                alts = [p + q for p in alts for q in conjuncts(c, w)][:4]
            if assume is not None:
                alts = [p + q for p in alts for q in conjuncts(assume, True)[:2] or [[]]]
            for lits in alts:
                for s0, over in joint_points(lits, e, set(cplx), signed, seed0 + 104729, bits, 150 if assume is None else 40):
                    ok, m = at(s0, over)
                    if ok is False and DEBUG:
                        print('JOINT', [(show(c, 6), w) for c, w in lits], s0, over)
                    n += m
                    if ok is False:
                        return False, n
    return True, n
