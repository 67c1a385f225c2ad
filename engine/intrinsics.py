"""Transfer functions of library routines (num traits, f64, Complex, Option, Vec,
iterators, quadrature).  Unknown routines become uninterpreted functions and are
reported as such in the evidence."""
import re as _re
from fractions import Fraction
from values import *  # noqa
from dag import *  # noqa
import dag

HALF = const(Fraction(1, 2))


def _sinh(x):
    return mul(HALF, sub(exp(x), exp(neg(x))))


def _cosh(x):
    return mul(HALF, add(exp(x), exp(neg(x))))


def as_const(x):
    """the whole number an arithmetic expression is identically equal to, if any"""
    if x.op not in ("add", "mul", "neg") or not all(n.op in ("const", "atom", "add", "mul", "neg", "inv") for n in nodes_of(x)):
        return x
    vs = []
    for s in (31337, 31338, 31339):
        try:
            vs.append(GF(s).ev(x))
        except (Retry, DivZero):
            return x
    v = vs[0]
    if v == vs[1] == vs[2] and v[1] == 0 and min(v[0], dag.P - v[0]) <= 4096:
        return const(v[0] if v[0] <= 4096 else v[0] - dag.P)
    return x


def rounded(how, x):
    """floor / ceil / trunc / round (half away from zero); constants are folded"""
    x = as_const(x)
    if x.op != "const" or not isinstance(x.data, Fraction):
        return uf(how, x)
    q = x.data
    fl = q.numerator // q.denominator
    if how == "floor":
        return const(fl)
    if how == "ceil":
        return const(-((-q.numerator) // q.denominator))
    if how == "trunc":
        return const(fl if q >= 0 else -((-q.numerator) // q.denominator))
    h = abs(q) + Fraction(1, 2)
    r = h.numerator // h.denominator
    return const(r if q >= 0 else -r)


ORD = [Agg("adt", [], "std::cmp::Ordering", k, n) for k, n in enumerate(("Less", "Equal", "Greater"))]


def ordering(x, y):
    return merge(lt(x, y), ORD[0], merge(eq(x, y), ORD[1], ORD[2]))


def cases(n):
    """an integer expression over choices between constants, as a choice between
    constants; None when it is not one"""
    seen, conds = {}, []

    def scan(x):
        if x.id in seen:
            return seen[x.id]
        if x.op == "const":
            r = True
        elif x.op == "ite":
            r = scan(x.args[1]) and scan(x.args[2])
            conds.append(x.args[0])
        elif x.op in ("add", "mul", "neg", "sub"):
            r = all(scan(y) for y in x.args)
        else:
            r = False
        seen[x.id] = r
        return r
    if n.op == "const":
        return n
    if not scan(n):
        return None
    if not conds:
        return n if n.op == "const" else None
    from values import rebuild
    c = conds[-1]
    yes, no = [cases(rebuild(n, {c.id: v})) for v in (TRUE, FALSE)]
    return ite(c, yes, no) if yes is not None and no is not None else None


class Intr:
    def __init__(self, flow):
        self.F = flow
        self.local = {}   # overrides for functions of the analysed crates
        self.unknown = {}
        self.nheap = 0
        self.ext = None   # further routines (programs.py)

    # ---------------------------------------------------------------- helpers
    def deref(self, v):
        if isinstance(v, MutRef):
            return self.F.project(self.F.base(v.fid, v.local), self.F.unfreeze(v.proj))
        return v

    def seq(self, v):
        """view a value as a sequence to iterate over"""
        v = self.deref(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, Agg) and v.adt and v.adt.startswith("std::ops::Range"):
            lo, hi = to_node(v.f[0]), to_node(v.f[1])
            if "Inclusive" in v.adt:
                hi = add(hi, ONE)
            if lo.op == "const" and hi.op == "const" and hi.data - lo.data <= 64:
                return Seq([const(k) for k in range(int(lo.data), int(hi.data))])
            if is_const(lo, 0) and hi.op == "len":
                key = hi.args[0]
                return Seq(None, key, mk("idxof", (key,), self.depth(key)))
            key = mk("range", (lo, hi))
            return Seq(None, key, mk("elem", (key,), self.depth(key)))
        if isinstance(v, Agg) and v.adt == OPTION:
            return Seq([v.f[0]] if v.var == 1 else [])
        if isinstance(v, Node):
            return Seq(None, v, mk("elem", (v,), 0))
        return None

    def depth(self, key):
        return sum(1 for k in self.F.active if k is key)

    def iter(self, v):
        """start an iteration: rename the generic element if the same collection is
        already being iterated"""
        s = self.seq(v)
        if s is None:
            raise self.unsup("iteration over %r" % (v,))
        if s.lit is None:
            d = self.depth(s.key)
            if d:
                e0, i0 = mk("elem", (s.key,), 0), mk("idxof", (s.key,), 0)
                e1, i1 = mk("elem", (s.key,), d), mk("idxof", (s.key,), d)
                from values import rebuild
                f = lambda n: rebuild(n, {e0.id: e1, i0.id: i1})
                s = Seq(None, s.key, map_nodes(s.elem, f), f(s.guard))
        return s

    def unsup(self, m):
        from mirflow import Unsupported
        return Unsupported(m)

    def length(self, v):
        v = self.deref(v)
        if isinstance(v, VIte):
            return ite(v.c, self.length(v.a), self.length(v.b))
        if isinstance(v, Seq):
            if v.lit is not None:
                return const(len(v.lit))
            if v.guard is TRUE:
                return mk("len", (v.key,))
            return mk("sum", (v.key, ite(v.guard, ONE, ZERO)), None)
        if isinstance(v, Node):
            return mk("len", (v,))
        return uf("len", to_node(v))

    def index(self, v, i):
        v = self.deref(v)
        if isinstance(v, VIte):
            return merge(v.c, self.index(v.a, i), self.index(v.b, i))
        if isinstance(v, Seq):
            if v.lit is not None and i.op != "const":
                j = cases(i)
                if j is not None:
                    i = j
                    if i.op == "ite":
                        return merge(i.args[0], self.index(v, i.args[1]), self.index(v, i.args[2]))
            if v.lit is not None and i.op == "const" and 0 <= i.data < len(v.lit):
                return v.lit[int(i.data)]
            if v.lit and i.op == "const":
                return map_nodes(v.lit[0], lambda n: atom("out of bounds"))    # has panicked
            if v.lit is None and i.op == "idxof" and i.args[0] is v.key and v.guard is TRUE:
                d = i.data
                if d:
                    e0 = mk("elem", (v.key,), 0)
                    from values import rebuild
                    return map_nodes(v.elem, lambda n: rebuild(n, {e0.id: mk("elem", (v.key,), d)}))
                return v.elem
            return uf("index", to_node(v), i)
        if isinstance(v, Node):
            if i.op == "idxof" and i.args[0] is v:
                return mk("elem", (v,), i.data)
            return uf("index", v, i)
        raise self.unsup("index of %r" % (v,))

    def fold_terms(self, s, init, step):
        """fold over a sequence; step(acc, elem) -> acc"""
        from mirflow import peel, peel_mul, sum_node
        if s.lit is not None:
            acc = init
            for x in s.lit:
                acc = step(acc, x)
            return acc
        if not isinstance(init, Node):
            return uf("fold", s.key, to_node(init))
        h = atom("acc:%d" % len(self.F.frames))
        self.F.active.append(s.key)
        try:
            v = step(h, s.elem)
        finally:
            self.F.active.pop()
        v = to_node(v)
        e = peel(v, h)
        if e is not None:
            return add(init, sum_node(s, e))
        p = peel_mul(v, h)
        if p is not None:
            return mul(init, mk("prod", (s.key, ite(s.guard, p, ONE)), 0))
        return mk("fold", (s.key, init, ite(s.guard, v, h)), "fold")

    # ---------------------------------------------------------------- dispatch
    def call(self, name, args, fr, argtys=None, term=None):
        short = name.rsplit("::", 1)[1]
        a = args
        if self.ext is not None:
            r = self.ext(name, a, fr, argtys, term)
            if r is not None:
                return r
        m = getattr(self, "c_" + self.mangle(name), None)
        if m is not None:
            return m(a, fr)
        owner = name.rsplit("::", 1)[0]
        r = self.by_method(owner, short, a, fr, argtys)
        if r is not None:
            return r
        return self.unk(name, a, fr)

    @staticmethod
    def mangle(n):
        return _re.sub(r"\W+", "_", n).strip("_")

    def unk(self, name, a, fr):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        self.F.event("unknown", name, None)
        nodes = [to_node(self.deref(x)) for x in a]
        r = uf("call:" + name, *nodes)
        for k, x in enumerate(a):
            if isinstance(x, MutRef):
                self.F.store_at(x.fid, x.local, x.proj, uf("mutby:%s:%d" % (name, k), *nodes))
        return r

    # ---------------------------------------------------------------- operators
    def by_method(self, owner, short, a, fr, argtys):
        F = self.F
        if owner.startswith("std::ops::"):
            tr = owner[len("std::ops::"):].split("<")[0]
            n = [to_node(self.deref(x)) for x in a] if tr in ("Add", "Sub", "Mul", "Div", "Neg", "Rem", "Not") else None
            if tr == "Add":
                return add(*n)
            if tr == "Sub":
                return sub(*n)
            if tr == "Mul":
                return mul(*n)
            if tr == "Div":
                return div(*n)
            if tr == "Neg":
                return neg(*n)
            if tr == "Not":
                return b_not(*n)
            if tr == "Rem":
                return uf("rem", *n)
            if tr in ("AddAssign", "SubAssign", "MulAssign", "DivAssign"):
                if not isinstance(a[0], MutRef):
                    return None
                x, y = to_node(self.deref(a[0])), to_node(self.deref(a[1]))
                v = {"AddAssign": add, "SubAssign": sub, "MulAssign": mul, "DivAssign": div}[tr](x, y)
                F.store_at(a[0].fid, a[0].local, a[0].proj, v)
                return UNIT
            if tr in ("Fn", "FnMut", "FnOnce"):
                tup = a[1]
                if isinstance(tup, Agg):
                    return F.apply(a[0], tup.f)
                return F.apply(a[0], [fld(to_node(tup), 0)])
            if tr in ("Deref", "DerefMut"):
                return a[0] if isinstance(a[0], MutRef) and tr == "DerefMut" else self.deref(a[0])
            if tr in ("Index", "IndexMut"):
                i = self.deref(a[1])
                if isinstance(i, Agg):
                    return self.slice(self.deref(a[0]), i)
                return self.index(self.deref(a[0]), to_node(i))
            if tr in ("RangeInclusive", "RangeInclusive::<Idx>") and short == "new":
                return Agg("adt", a, "std::ops::RangeInclusive", 0, None, ["start", "end"])
        if "RangeInclusive" in owner and short == "new":
            return Agg("adt", a, "std::ops::RangeInclusive", 0, None, ["start", "end"])
        if owner in ("std::cmp::PartialEq",):
            x, y = to_node(self.deref(a[0])), to_node(self.deref(a[1]))
            c = self.tupeq(x, y)
            return c if short == "eq" else b_not(c)
        if owner in ("std::cmp::PartialOrd", "std::cmp::Ord"):
            x, y = to_node(self.deref(a[0])), to_node(self.deref(a[1]))
            f = {"lt": lambda: lt(x, y), "le": lambda: le(x, y), "gt": lambda: lt(y, x), "ge": lambda: le(y, x),
                 "max": lambda: ite(lt(x, y), y, x), "min": lambda: ite(lt(x, y), x, y),
                 "partial_cmp": lambda: some(ordering(x, y)), "cmp": lambda: ordering(x, y)}.get(short)
            if f:
                return f()
            return None
        if owner in ("std::clone::Clone", "std::borrow::ToOwned", "std::borrow::Borrow", "std::convert::AsRef") and short in ("clone", "to_owned", "borrow", "as_ref"):
            return self.deref(a[0])
        if owner in ("std::convert::Into", "std::convert::From", "num::NumCast", "num::ToPrimitive") and short in ("into", "from"):
            return self.deref(a[0]) if not isinstance(a[0], MutRef) else a[0]
        if owner in ("num::Zero", "num::traits::Zero", "num::traits::ConstZero") and short == "zero":
            return ZERO
        if owner in ("num::One", "num::traits::One") and short == "one":
            return ONE
        if owner in ("num::Zero", "num::traits::Zero") and short == "is_zero":
            return eq(to_node(self.deref(a[0])), ZERO)
        if owner in ("num::One", "num::traits::One") and short == "is_one":
            return eq(to_node(self.deref(a[0])), ONE)
        if owner in ("num::traits::Inv", "num::Inv") and short == "inv":
            return inv(to_node(self.deref(a[0])))
        if owner in ("num::traits::MulAdd", "num::traits::MulAddAssign") and short == "mul_add":
            return self.fl("mul_add", a, fr)
        if owner.endswith("<impl f64>") or owner.endswith("<impl f32>"):
            return self.fl(short, a, fr, real=True)
        if owner.startswith("num::Complex") or owner.startswith("num::complex::Complex") or "Complex" in owner:
            return self.cx(short, a, fr)
        if owner.endswith("types::Num"):
            return self.numtrait(short, a, fr)
        if owner in ("num::Float", "num::traits::Float", "num::traits::real::Real", "num::traits::Pow", "num::traits::Signed"):
            return self.fl(short, a, fr)
        if "<impl u" in owner or "<impl i" in owner:
            n = [to_node(self.deref(x)) for x in a]
            if short in ("wrapping_add", "saturating_add"):
                return add(*n)
            if short in ("wrapping_mul",):
                return mul(*n)
            if short == "pow" and n[1].op == "const":
                return powi(n[0], int(n[1].data))
            if short in ("max",):
                return ite(lt(n[0], n[1]), n[1], n[0])
            if short in ("min",):
                return ite(lt(n[0], n[1]), n[0], n[1])
            return None
        if owner.startswith(OPTION):
            return self.opt(short, a, fr)
        if owner.startswith("std::iter::") or owner.startswith("std::slice::Iter") or owner.startswith("core::slice::iter"):
            return self.it(short, a, fr)
        if owner == "std::ops::Try" and short == "branch":      # `?` on an Option
            def flow(v):
                if isinstance(v, VIte):
                    x, y = flow(v.a), flow(v.b)
                    return VIte(v.c, x, y) if x is not None and y is not None else None
                if isinstance(v, Agg) and v.adt == OPTION:
                    return Agg("adt", [v.f[0] if v.var == 1 else NONE], "std::ops::ControlFlow", 1 - v.var,
                               "Continue" if v.var == 1 else "Break")
                return None
            return flow(self.deref(a[0]))
        if owner == "std::ops::FromResidual" and isinstance(a[0], Agg) and a[0].adt == OPTION and a[0].var == 0:
            return a[0]
        if "<impl bool>" in owner and short in ("then", "then_some") and not (
                isinstance(a[1], Clo) and any(isinstance(x, MutRef) for x in a[1].caps)):
            b = to_node(self.deref(a[0]))
            if b is FALSE:
                return NONE
            d = self.decided(b)
            if d is TRUE or d is FALSE:
                b = d
            x = some(a[1] if short == "then_some" else F.apply(a[1], []))
            return x if b is TRUE else NONE if b is FALSE else VIte(b, x, NONE)
        if short == "map" and "array" in owner:
            s = self.seq(a[0])
            if s is not None and s.lit is not None:
                return Seq([F.apply(a[1], [x]) for x in s.lit])
        if owner.startswith(("core::slice::<impl [T]>", "std::slice::", "std::vec::Vec", "alloc::slice::", "std::array", "core::array")):
            return self.vec(short, a, fr)
        if owner in ("std::hint",) and short == "black_box":
            return a[0]
        if owner in ("std::boxed::Box::<T>",) and short == "new":
            return a[0]
        if owner.startswith("std::boxed"):      # vec![...]
            if short == "new_uninit":
                self.nheap += 1
                cell = "heap:%d" % self.nheap
                F.state.st[cell] = Agg("adt", [None, Agg("adt", [None], "std::mem::ManuallyDrop")], "std::mem::MaybeUninit")
                return Agg("adt", [MutRef("static", cell, ())], "std::boxed::Box")
            if short == "box_assume_init_into_vec_unsafe" and isinstance(a[0], Agg) and a[0].f and isinstance(a[0].f[0], MutRef):
                return F.state.st.pop(a[0].f[0].local).f[1].f[0]
        if owner == "std::mem" or owner == "core::mem":
            if short == "swap" and isinstance(a[0], MutRef) and isinstance(a[1], MutRef):
                x, y = self.deref(a[0]), self.deref(a[1])
                F.store_at(a[0].fid, a[0].local, a[0].proj, y)
                F.store_at(a[1].fid, a[1].local, a[1].proj, x)
                return UNIT
            if short == "replace" and isinstance(a[0], MutRef):
                x = self.deref(a[0])
                F.store_at(a[0].fid, a[0].local, a[0].proj, a[1])
                return x
            if short in ("drop", "forget"):
                return UNIT
        if owner == "std::default::Default" and short == "default" and fr.get("args"):
            if fr["args"][0] in ("f64", "u32", "usize", "u64", "num::Complex<f64>"):
                return ZERO
        if owner == "std::ptr" or owner.startswith("core::ptr"):
            if short in ("addr_of", "addr_of_mut"):
                return a[0]
            if short in ("read", "read_volatile"):
                return self.deref(a[0])
            if short in ("write", "write_volatile") and isinstance(a[0], MutRef):
                F.store_at(a[0].fid, a[0].local, a[0].proj, a[1])
                return UNIT
        if "<impl *" in owner and short in ("read", "read_volatile"):
            return self.deref(a[0])
        if "<impl *" in owner and short in ("write", "write_volatile") and isinstance(a[0], MutRef):
            F.store_at(a[0].fid, a[0].local, a[0].proj, a[1])
            return UNIT
        if "<impl *mut" in owner and short in ("write", "write_volatile") and isinstance(a[0], MutRef):
            F.store_at(a[0].fid, a[0].local, a[0].proj, a[1])
            return UNIT
        return None

    def tupeq(self, x, y):
        for u, v in ((x, y), (y, x)):
            if u.op == "ite" and u.args[1].op in ("tup", "ite") and v.op in ("tup", "ite"):
                return ite(u.args[0], self.tupeq(u.args[1], v), self.tupeq(u.args[2], v))
        if x.op == "tup" and y.op == "tup" and len(x.args) == len(y.args):
            if x.data != y.data:
                return FALSE
            c = TRUE
            for p, q in zip(x.args, y.args):
                c = b_and(c, self.tupeq(p, q))
            return c
        return eq(x, y)

    def slice(self, v, rng):
        s = self.seq(v)
        if s is not None and s.lit is not None and rng.adt:
            for j, x in enumerate(rng.f):
                x = cases(to_node(x))
                if x is not None and x.op == "ite":
                    return merge(x.args[0], *[self.slice(v, Agg(rng.kind, rng.f[:j] + [y] + rng.f[j + 1:], rng.adt, rng.var, rng.vn, rng.names))
                                              for y in x.args[1:]])
        if s is not None and s.lit is not None and rng.adt:
            ns = [cases(to_node(x)) or to_node(x) for x in rng.f]
            if all(n.op == "const" for n in ns):
                k = [int(n.data) for n in ns]
                t = rng.adt.rsplit("::", 1)[1]
                if t == "Range":
                    return Seq(s.lit[k[0]:k[1]])
                if t == "RangeFrom":
                    return Seq(s.lit[k[0]:])
                if t == "RangeTo":
                    return Seq(s.lit[:k[0]])
                if t == "RangeInclusive":
                    return Seq(s.lit[k[0]:k[1] + 1])
                if t == "RangeToInclusive":
                    return Seq(s.lit[:k[0] + 1])
                if t == "RangeFull":
                    return s
        if rng.adt and rng.adt.endswith("RangeFull"):
            return v
        return uf("slice", to_node(v), to_node(rng))

    # ---------------------------------------------------------------- numbers
    def numtrait(self, short, a, fr):
        x = to_node(self.deref(a[0]))
        if short == "abs":
            return absn(x)
        if short == "exp":
            return exp(x)
        if short == "im":
            return im(x)
        if short == "re":
            return re(x)
        if short == "inv":
            return inv(x)
        if short == "ln":
            return ln(x)
        if short == "sqrt":
            return sqrt(x)
        return None

    def realfn(self, fn, x, cond=None):
        self.F.event("realfn", fn + "@" + self.F.frames[-1].name, x, self.F.pathcond())

    def fl(self, short, a, fr, real=False):
        n = [to_node(self.deref(x)) for x in a]
        x = n[0] if n else None
        if short in ("ln", "sqrt", "log10", "log2", "powf", "ln_1p") and real:
            self.realfn(short, n[0])
        t = {
            "abs": lambda: absn(x), "sqrt": lambda: sqrt(x), "ln": lambda: lnr(x), "exp": lambda: exp(x),
            "mul_add": lambda: add(mul(n[0], n[1]), n[2]), "recip": lambda: inv(x),
            "exp_m1": lambda: sub(exp(x), ONE), "ln_1p": lambda: lnr(add(ONE, x)),
            "hypot": lambda: sqrt(add(mul(x, x), mul(n[1], n[1]))),
            "sinh": lambda: _sinh(x), "cosh": lambda: _cosh(x),
            "tanh": lambda: div(_sinh(x), _cosh(x)),
            "atanh": lambda: mul(HALF, sub(lnr(add(ONE, x)), lnr(sub(ONE, x)))),
            "max": lambda: ite(lt(x, n[1]), n[1], x), "min": lambda: ite(lt(n[1], x), n[1], x),
            "is_nan": lambda: FALSE if x.op == "const" else uf("is_nan", x),
            "inv": lambda: inv(x), "log": lambda: div(lnr(x), lnr(n[1])),
            "signum": lambda: ite(lt(x, ZERO), const(-1), ONE), "copysign": lambda: mul(absn(x), ite(lt(n[1], ZERO), const(-1), ONE)),
            "powi": lambda: powi(x, int(n[1].data)) if n[1].op == "const" else uf("pow", x, n[1]),
            "to_bits": lambda: x, "clone": lambda: x,
            "log2": lambda: div(lnr(x), lnr(const(2))), "log10": lambda: div(lnr(x), lnr(const(10))),
            "pow": lambda: powi(x, int(n[1].data)) if n[1].op == "const" and n[1].data.denominator == 1 else uf("pow", x, n[1]),
            "is_finite": lambda: uf("is_finite", x), "is_sign_negative": lambda: uf("signneg", x),
            "total_cmp": lambda: ordering(*n), "from": lambda: x,
            "floor": lambda: rounded("floor", x), "round": lambda: rounded("round", x), "ceil": lambda: rounded("ceil", x),
            "trunc": lambda: rounded("trunc", x),
            "zero": lambda: ZERO, "one": lambda: ONE, "cbrt": lambda: uf("powf", x, const(Fraction(1, 3))),
            "clamp": lambda: ite(lt(x, n[1]), n[1], ite(lt(n[2], x), n[2], x)),
        }.get(short)
        if t:
            return t()
        if short == "powf":
            e = n[1]
            if e.op == "const":
                if e.data.denominator == 1:
                    return powi(x, int(e.data))
                if e.data.denominator == 2:
                    return powi(sqrt(x), int(e.data.numerator))
            return uf("powf", x, e)
        return None

    def cx(self, short, a, fr):
        n = [to_node(self.deref(x)) for x in a]
        x = n[0] if n else None
        t = {
            "new": lambda: add(n[0], mul(I, n[1])), "inv": lambda: inv(x), "ln": lambda: ln(x), "exp": lambda: exp(x),
            "sqrt": lambda: sqrt(x), "conj": lambda: conj(x), "re": lambda: re(x), "im": lambda: im(x),
            "norm": lambda: absn(x), "abs": lambda: absn(x), "norm_sqr": lambda: mul(x, conj(x)),
            "i": lambda: I, "scale": lambda: mul(x, n[1]), "unscale": lambda: div(x, n[1]),
            "powi": lambda: powi(x, int(n[1].data)) if n[1].op == "const" else uf("pow", *n),
            "powu": lambda: powi(x, int(n[1].data)) if n[1].op == "const" else uf("pow", *n),
            "recip": lambda: inv(x), "finv": lambda: inv(x), "fdiv": lambda: div(*n),
            "from": lambda: x, "mul_add": lambda: add(mul(n[0], n[1]), n[2]),
            "sinh": lambda: _sinh(x), "cosh": lambda: _cosh(x), "l1_norm": lambda: add(absn(re(x)), absn(im(x))),
            "is_nan": lambda: FALSE if x.op == "const" else uf("is_nan", x), "arg": lambda: uf("arg", x), "powf": lambda: self.fl("powf", a, fr),
            "powc": lambda: uf("powf", *n), "log": lambda: div(ln(x), ln(n[1])),
            "clone": lambda: x, "is_finite": lambda: uf("is_finite", x),
        }.get(short)
        return t() if t else None

    # ---------------------------------------------------------------- Option
    def opt(self, short, a, fr):
        v = self.deref(a[0])
        F = self.F
        site = F.frames[-1].name if F.frames else "?"
        if isinstance(v, VIte) and short not in ("is_some", "is_none"):
            # distribute over the join
            if short in ("unwrap", "expect"):
                x = self.opt_get(v)
                F.event("panic", site, None, b_and(F.pathcond(), b_not(self.is_some(v))))
                return x
            if short == "unwrap_or":
                return merge(self.is_some(v), self.opt_get(v), a[1])
            if short == "unwrap_or_default":
                return merge(self.is_some(v), self.opt_get(v), ZERO)
            if short in ("map", "unwrap_or_else", "map_or", "and_then", "copied", "cloned", "as_ref"):
                return merge(v.c, self.opt(short, [v.a] + a[1:], fr), self.opt(short, [v.b] + a[1:], fr))
            return None
        if short in ("copied", "cloned", "as_ref", "as_deref", "as_mut"):
            return v
        if short == "is_some":
            return self.is_some(v)
        if short == "is_none":
            return b_not(self.is_some(v))
        if isinstance(v, Agg) and v.adt == OPTION:
            if short in ("unwrap", "expect"):
                if v.var == 1:
                    return v.f[0]
                F.event("panic", site, None, F.pathcond())
                from mirflow import Diverge
                raise Diverge()
            if short == "unwrap_or":
                return v.f[0] if v.var == 1 else a[1]
            if short == "unwrap_or_else":
                return v.f[0] if v.var == 1 else F.apply(a[1], [])
            if short == "unwrap_or_default":
                return v.f[0] if v.var == 1 else ZERO
            if short == "map":
                return some(F.apply(a[1], [v.f[0]])) if v.var == 1 else NONE
            if short == "map_or":
                return F.apply(a[2], [v.f[0]]) if v.var == 1 else a[1]
            if short == "map_or_else":
                return F.apply(a[2], [v.f[0]]) if v.var == 1 else F.apply(a[1], [])
            if short == "filter":
                if v.var == 0:
                    return NONE
                c = self.decided(F.apply(a[1], [v.f[0]]))
                return v if c is TRUE else NONE if c is FALSE else None
            if short in ("or", "or_else"):
                return v if v.var == 1 else a[1] if short == "or" else F.apply(a[1], [])
            if short == "is_some_and":
                return F.apply(a[1], [v.f[0]]) if v.var == 1 else FALSE
            if short == "and_then":
                return F.apply(a[1], [v.f[0]]) if v.var == 1 else NONE
            if short == "ok_or":
                return Agg("adt", [v.f[0]], "std::result::Result", 0, "Ok") if v.var == 1 else Agg("adt", [a[1]], "std::result::Result", 1, "Err")
            return None
        if isinstance(v, Node):
            if short in ("unwrap", "expect"):
                F.event("panic", site, v, b_and(F.pathcond(), b_not(self.is_some(v))))
                return fld(v, "Some.0")
            if short == "map":
                return VIte(self.is_some(v), some(F.apply(a[1], [fld(v, "Some.0")])), NONE)
            if short == "unwrap_or":
                return merge(self.is_some(v), fld(v, "Some.0"), a[1])
            if short == "unwrap_or_else":
                return merge(self.is_some(v), fld(v, "Some.0"), F.apply(a[1], []))
            if short == "map_or":
                return merge(self.is_some(v), F.apply(a[2], [fld(v, "Some.0")]), a[1])
            if short == "and_then":
                r = F.apply(a[1], [fld(v, "Some.0")])
                return merge(self.is_some(v), r, NONE)
        return None

    def is_some(self, v):
        if isinstance(v, Agg):
            return TRUE if v.var == 1 else FALSE
        if isinstance(v, VIte):
            return ite(v.c, self.is_some(v.a), self.is_some(v.b))
        return b_not(eq(uf("discr", to_node(v)), ZERO))

    def opt_get(self, v):
        if isinstance(v, Agg):
            return v.f[0] if v.var == 1 else None
        if isinstance(v, VIte):
            return merge(v.c, self.opt_get(v.a), self.opt_get(v.b))
        return fld(to_node(v), "Some.0")

    # ---------------------------------------------------------------- iterators
    def it(self, short, a, fr):
        F = self.F
        if short == "into_iter" or short == "iter":
            v = self.deref(a[0])
            return self.iter(v)
        if short in ("by_ref",):
            return a[0]
        if short == "next":
            return self.next(a[0])
        if not a:
            return None
        s = self.seq(a[0])
        if s is None:
            return None
        if short in ("copied", "cloned", "fuse", "into_iter"):
            return s
        if short == "rev":
            return Seq(list(reversed(s.lit))) if s.lit is not None else s
        if short == "map":
            if s.lit is not None:
                return Seq([F.apply(a[1], [x]) for x in s.lit])
            F.active.append(s.key)
            try:
                e = F.apply(a[1], [s.elem])
            finally:
                F.active.pop()
            return Seq(None, s.key, e, s.guard)
        if short == "filter":
            if s.lit is not None:
                keep = []
                for x in s.lit:
                    c = to_node(F.apply(a[1], [x]))
                    if c is TRUE:
                        keep.append(x)
                    elif c is not FALSE:
                        # keep with a guard: only exact for sums; use neutral element
                        return uf("filter", to_node(s), c)
                return Seq(keep)
            F.active.append(s.key)
            try:
                c = to_node(F.apply(a[1], [s.elem]))
            finally:
                F.active.pop()
            return Seq(None, s.key, s.elem, b_and(s.guard, c))
        if short == "zip":
            o = self.iter(a[1])
            if s.lit is not None and o.lit is not None:
                return Seq([Agg("tuple", [x, y]) for x, y in zip(s.lit, o.lit)])
            if s.lit is None and o.lit is None and s.key is o.key:
                return Seq(None, s.key, Agg("tuple", [s.elem, o.elem]), b_and(s.guard, o.guard))
            return None
        if short == "enumerate":
            if s.lit is not None:
                return Seq([Agg("tuple", [const(i), x]) for i, x in enumerate(s.lit)])
            return Seq(None, s.key, Agg("tuple", [mk("idxof", (s.key,), self.depth(s.key)), s.elem]), s.guard)
        if short in ("collect",):
            return s
        if short in ("skip", "take") and s.lit is not None:
            k = to_node(a[1])
            if k.op != "const":
                return None
            return Seq(s.lit[int(k.data):] if short == "skip" else s.lit[:int(k.data)])
        if s.lit is not None and short in ("position", "find", "take_while", "skip_while", "find_map", "filter_map", "rposition", "step_by", "nth", "min_by",
                                           "max_by", "reduce", "flat_map", "flatten", "partition", "unzip", "map_while", "windows", "inspect", "scan"):
            r = self.listop(short, s.lit, a)
            if r is not None:
                return r
        if short == "last" and s.lit is not None:
            return some(s.lit[-1]) if s.lit else NONE
        if short == "sum":
            return self.fold_terms(s, ZERO, lambda x, y: add(to_node(x), to_node(y)))
        if short == "product":
            return self.fold_terms(s, ONE, lambda x, y: mul(to_node(x), to_node(y)))
        if short == "fold":
            return self.fold_terms(s, a[1], lambda x, y: F.apply(a[2], [x, y]))
        if short == "reduce" and s.lit is None and s.guard is TRUE and isinstance(s.elem, Node):
            from mirflow import peel, peel_mul, sum_node
            h = atom("acc:%d" % len(F.frames))
            F.active.append(s.key)
            try:
                v = to_node(F.apply(a[1], [h, s.elem]))
            finally:
                F.active.pop()
            full = b_not(eq(self.length(s), ZERO))
            if peel(v, h) is s.elem:
                return VIte(full, some(sum_node(s, s.elem)), NONE)
            if peel_mul(v, h) is s.elem:
                return VIte(full, some(mk("prod", (s.key, s.elem), 0)), NONE)
            return None
        if short == "count":
            return self.length(s)
        if short == "for_each":
            if s.lit is not None:
                for x in s.lit:
                    F.apply(a[1], [x])
                return UNIT
            return self.for_each(s, a[1])
        if short == "try_for_each" and s.lit is not None:
            for x in s.lit:
                r = self.deref(F.apply(a[1], [x]))
                if not (isinstance(r, Agg) and r.adt == "std::result::Result"):
                    return None
                if r.var == 1:
                    return r
            return Agg("adt", [UNIT], "std::result::Result", 0, "Ok")
        if short in ("any", "all") and s.lit is not None:
            c = FALSE if short == "any" else TRUE
            for x in s.lit:
                b = to_node(F.apply(a[1], [x]))
                c = b_or(c, b) if short == "any" else b_and(c, b)
            return c
        if short in ("any", "all"):
            F.active.append(s.key)
            try:
                b = to_node(F.apply(a[1], [s.elem]))
            finally:
                F.active.pop()
            return b_not(uf("none", s.key, b)) if short == "any" else uf("none", s.key, b_not(b))
        if short == "chain":
            o = self.iter(a[1])
            if s.lit is not None and o.lit is not None:
                return Seq(s.lit + o.lit)
        return None

    def decided(self, c):
        """a condition, with what is known on this path"""
        return self.F.resolve(to_node(c))

    def listop(self, short, l, a):
        """adaptors and searches over a list of known length"""
        F = self.F
        f = lambda *x: F.apply(a[1], list(x))
        if short in ("position", "find", "find_map", "rposition"):
            r = NONE
            todo = []
            for k, x in (reversed(list(enumerate(l))) if short == "rposition" else enumerate(l)):
                y = f(x)
                if short == "find_map":
                    todo.append((self.is_some(y), y))
                else:
                    todo.append((self.decided(y), some(x if short == "find" else const(k))))
                if todo[-1][0] is TRUE:
                    break
            for c, v in reversed(todo):
                r = merge(c, v, r)
            return r
        if short in ("take_while", "skip_while"):
            k = 0
            while k < len(l):
                c = self.decided(f(l[k]))
                if c is FALSE:
                    break
                if c is not TRUE:
                    raise self.unsup(short + " at an undecided point")
                k += 1
            return Seq(l[:k] if short == "take_while" else l[k:])
        if short in ("filter_map", "map_while"):
            out = []
            for x in l:
                y = f(x)
                c = self.decided(self.is_some(y))
                if c is TRUE:
                    out.append(self.opt_get(y))
                elif c is not FALSE:
                    raise self.unsup(short + " at an undecided point")
                elif short == "map_while":
                    break
            return Seq(out)
        if short in ("step_by", "nth"):
            k = to_node(a[1])
            if k.op != "const":
                return None
            if short == "step_by":
                return Seq(l[::int(k.data)]) if k.data else None
            if isinstance(a[0], MutRef):
                F.store_at(a[0].fid, a[0].local, a[0].proj, Seq(l[int(k.data) + 1:]))
            return some(l[int(k.data)]) if k.data < len(l) else NONE
        if short in ("min_by", "max_by", "reduce"):
            if not l:
                return NONE
            best = l[0]
            for x in l[1:]:
                r = f(best, x)
                if short == "reduce":
                    best = r
                    continue
                greater = self.tupeq(to_node(r), to_node(ORD[2]))
                # of equal elements max_by keeps the last, min_by the first
                best = merge(greater, best, x) if short == "max_by" else merge(greater, x, best)
            return some(best)
        if short == "flatten" or short == "flat_map":
            out = []
            for x in l:
                s = self.seq(x if short == "flatten" else f(x))
                if s is None or s.lit is None:
                    return None
                out += s.lit
            return Seq(out)
        if short == "unzip":
            ps = [self.deref(x) for x in l]
            if all(isinstance(p, Agg) and len(p.f) == 2 for p in ps):
                return Agg("tuple", [Seq([p.f[0] for p in ps]), Seq([p.f[1] for p in ps])])
            return None
        if short == "inspect":
            for x in l:
                f(x)
            return Seq(l)
        return None

    def for_each(self, s, clo):
        """closure with side effects on captured places: treat like a loop body"""
        from mirflow import peel, sum_node
        F = self.F
        st0 = F.state.copy()
        caps = [c for c in clo.caps if isinstance(c, MutRef)] if isinstance(clo, Clo) else []
        hs = []
        for i, m in enumerate(caps):
            v = self.deref(m)
            if not isinstance(v, Node):
                raise self.unsup("for_each capture")
            h = atom("fe:%d:%d" % (len(F.frames), i))
            hs.append((m, v, h))
            F.store_at(m.fid, m.local, m.proj, h)
        F.active.append(s.key)
        try:
            F.apply(clo, [s.elem])
        finally:
            F.active.pop()
        ids = {h.id for _, _, h in hs}
        out = []
        for m, v, h in hs:
            w = to_node(self.deref(m))
            e = peel(w, h)
            if e is not None and not depends(e, ids):
                out.append((m, add(v, sum_node(s, e))))
            elif w is h:
                out.append((m, v))
            else:
                out.append((m, mk("fold", (s.key, v, w), "fe")))
        F.state = st0
        for m, v in out:
            F.store_at(m.fid, m.local, m.proj, v)
        return UNIT

    def next(self, m):
        F = self.F
        if not isinstance(m, MutRef):
            return None
        s = self.deref(m)
        if isinstance(s, Agg) and s.adt and s.adt.startswith("std::ops::Range"):
            s = self.seq(s)
        if not isinstance(s, Seq):
            return None
        if s.lit is not None:
            if not s.lit:
                return NONE
            x = s.lit[0]
            F.store_at(m.fid, m.local, m.proj, Seq(s.lit[1:]))
            return some(x)
        if F.loopstack:
            ctx = F.loopstack[-1]
            if ctx.driver is None:
                ctx.driver = s
                ctx.hasnext = atom("hasnext:%s" % s.key.id)
                F.active.append(s.key)
                return VIte(ctx.hasnext, some(s.elem), NONE)
        return None

    # ---------------------------------------------------------------- Vec / slice
    def vec(self, short, a, fr):
        F = self.F
        if short in ("iter", "into_iter", "iter_mut"):
            if short == "iter_mut":
                return None
            return self.iter(a[0])
        if short in ("deref", "as_slice", "to_vec", "into_vec", "as_ref", "into_boxed_slice", "as_mut_slice", "clone", "borrow", "to_owned", "into_iter"):
            return self.deref(a[0])
        if short == "len":
            return self.length(a[0])
        if short == "is_empty":
            return eq(self.length(a[0]), ZERO)
        if short == "new" and not a:
            return Seq([])
        if short == "with_capacity":
            return Seq([])
        if short == "push" and isinstance(a[0], MutRef):
            s = self.deref(a[0])
            if isinstance(s, Building):
                F.store_at(a[0].fid, a[0].local, a[0].proj, Building(s.key, s.pushed + (a[1],)))
                return UNIT
            if isinstance(s, Seq) and s.lit is not None:
                F.store_at(a[0].fid, a[0].local, a[0].proj, Seq(s.lit + [a[1]]))
                return UNIT
            return None
        s = self.seq(a[0]) if a else None
        if short in ("first", "last") and s is not None and s.lit is not None:
            return some(s.lit[0 if short == "first" else -1]) if s.lit else NONE
        if s is not None and s.lit is not None and short in ("windows", "chunks", "chunks_exact", "split_at", "partition_point", "concat", "reverse", "split_first",
                                                             "split_last", "swap"):
            l = s.lit
            if short == "concat":
                return self.listop("flatten", l, a)
            if short in ("split_first", "split_last"):
                if not l:
                    return NONE
                return some(Agg("tuple", [l[0], Seq(l[1:])] if short == "split_first" else [l[-1], Seq(l[:-1])]))
            if short == "reverse":
                if not isinstance(a[0], MutRef):
                    return None
                F.store_at(a[0].fid, a[0].local, a[0].proj, Seq(list(reversed(l))))
                return UNIT
            if short == "partition_point":
                r = const(len(l))
                for k, x in reversed(list(enumerate(l))):
                    r = ite(self.decided(F.apply(a[1], [x])), r, const(k))
                return r
            k = to_node(a[1])
            k = cases(k) or k
            if short == "split_at":
                def at(k):
                    if k.op == "ite":
                        return merge(k.args[0], at(k.args[1]), at(k.args[2]))
                    if k.op != "const":
                        raise self.unsup("split_at")
                    return Agg("tuple", [Seq(l[:int(k.data)]), Seq(l[int(k.data):])])
                return at(k)
            if k.op != "const" or k.data < 1:
                return None
            n = int(k.data)
            if short == "windows":
                return Seq([Seq(l[j:j + n]) for j in range(len(l) - n + 1)])
            if short in ("chunks", "chunks_exact"):
                return Seq([Seq(l[j:j + n]) for j in range(0, len(l), n) if short == "chunks" or j + n <= len(l)])
            return None
        if short == "split" and s is not None and s.lit is not None:
            out, cur = [], []
            for x in s.lit:
                c = F.resolve(to_node(F.apply(a[1], [x])))
                if c not in (TRUE, FALSE):
                    raise self.unsup("split at an undecided point")
                if c is TRUE:
                    out.append(Seq(cur))
                    cur = []
                else:
                    cur.append(x)
            return Seq(out + [Seq(cur)])
        if short == "get" and s is not None:
            i = to_node(a[1]) if not isinstance(a[1], Agg) else None
            if i is not None and s.lit is not None and i.op == "const":
                return some(s.lit[int(i.data)]) if i.data < len(s.lit) else NONE
        return None

    # ---------------------------------------------------------------- quadrature
    def integrate(self, a, fr):
        F = self.F
        clo, rng, method = a
        lo, hi = [to_node(x) for x in rng.f]
        site = F.frames[-1].name
        F.intdepth += 1
        q = atom("Q%d" % F.intdepth if F.intdepth > 1 else "Q")
        try:
            if is_const(lo, 0) and is_const(hi, 1):
                t = inv(add(ONE, q))
                body = mul(to_node(F.apply(clo, [t])), mul(t, t))
                node = mk("int", (to_node(method), ZERO, atom("INF"), body), q.data)
            else:
                body = to_node(F.apply(clo, [q]))
                node = mk("int", (to_node(method), lo, hi, body), q.data)
        finally:
            F.intdepth -= 1
        F.event("int", site, node, F.pathcond())
        return node

    def c_peroxide_fuga_integrate(self, a, fr):
        return self.integrate(a, fr)

    c_peroxide_numerical_integral_integrate = c_peroxide_fuga_integrate

    def c_peroxide_fuga_Integral_get_tol(self, a, fr):
        v = self.deref(a[0])
        if isinstance(v, Agg) and v.f:
            return v.f[0]
        return uf("tol_of", to_node(v))

    c_peroxide_numerical_integral_Integral_get_tol = c_peroxide_fuga_Integral_get_tol
