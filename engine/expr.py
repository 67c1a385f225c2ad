"""Reference formulas as value graphs: ordinary Python expressions over E build dag nodes."""
from fractions import Fraction
from dag import *  # noqa
import dag


def lift(x):
    if isinstance(x, E):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, str):
        return atom(x)
    if isinstance(x, complex):
        return add(lift(x.real), mul(dag.I, lift(x.imag)))
    if isinstance(x, bool):
        raise TypeError(x)
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if abs(x) < 1e-15:
            return ZERO          # regulators of the reference implementation
        f = Fraction(x).limit_denominator(100000)
        if abs(float(f) - x) > 1e-15 * abs(x):
            f = Fraction(repr(x))
        return const(f)
    raise TypeError(x)


class E:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = lift(n)

    def __add__(self, o):
        return E(add(self.n, lift(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return E(sub(self.n, lift(o)))

    def __rsub__(self, o):
        return E(sub(lift(o), self.n))

    def __mul__(self, o):
        return E(mul(self.n, lift(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return E(div(self.n, lift(o)))

    def __rtruediv__(self, o):
        return E(div(lift(o), self.n))

    def __neg__(self):
        return E(neg(self.n))

    def __pow__(self, k):
        return E(powi(self.n, k))

    def __repr__(self):
        return repr(self.n)


class NP:
    pi = E(PI)
    sqrt = staticmethod(lambda x: E(dag.sqrt(lift(x))))
    log = staticmethod(lambda x: E(dag.ln(lift(x))))
    exp = staticmethod(lambda x: E(dag.exp(lift(x))))


def load(path):
    """execute a file of reference formulas with numpy replaced by graph construction"""
    ns = {"np": NP}
    src = open(path).read()
    exec(compile(src, path, "exec"), ns)
    return ns
