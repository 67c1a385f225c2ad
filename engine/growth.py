"""Magnitude domain: how large a floating-point value is in an extreme regime.

Classes: Z zero (also by underflow), S small, F moderate, L large but finite, each of S, F, L with its sign; P, M the
two infinities; N not a number.  A value is a set of classes.  A large argument overflows an exponential to P or
underflows it to Z; infinities then propagate as IEEE 754 says: infinity minus infinity and zero times infinity are
N.  Signs the classes lose are recovered from the rational normal forms of engine/arcs.py."""
from dag import *  # noqa
import dag
from arcs import Arcs

RANK = {"M": -4, "L-": -3, "F-": -2, "S-": -1, "Z": 0, "S+": 1, "F+": 2, "L+": 3, "P": 4}
OPP = {"M": "P", "P": "M", "Z": "Z", "N": "N"}
for x in "SFL":
    OPP[x + "+"], OPP[x + "-"] = x + "-", x + "+"
BAD = {"P", "M", "N"}
F2 = {"F+", "F-"}


def both(ms):
    return {m + s for m in ms for s in "+-"}


def add1(a, b):
    if "N" in (a, b):
        return {"N"}
    if a in "PM" or b in "PM":
        s = {x for x in (a, b) if x in "PM"}
        return s if len(s) == 1 else {"N"}
    if a == "Z":
        return {b}
    if b == "Z":
        return {a}
    o = "SFL"
    if a[0] != b[0]:
        return {a if o.index(a[0]) > o.index(b[0]) else b}
    if a == b:
        return {a}
    return {"Z"} | both("S") if a[0] == "S" else both("F") if a[0] == "F" else both("SFL")


def mul1(a, b):
    if "N" in (a, b):
        return {"N"}
    inf = a in "PM" or b in "PM"
    if "Z" in (a, b):
        return {"N"} if inf else {"Z"}
    neg = (a in ("M",) or a.endswith("-")) != (b in ("M",) or b.endswith("-"))
    if inf:
        return {"M" if neg else "P"}
    s = "-" if neg else "+"
    if {a[0], b[0]} == {"S", "L"}:
        return {m + s for m in "SFL"}
    return {(a if a[0] != "F" else b)[0] + s}


def inv1(a):
    if a == "Z":
        return {"P", "M"}
    if a in ("P", "M"):
        return {"Z"}
    if a == "N":
        return {"N"}
    return {{"S": "L", "F": "F", "L": "S"}[a[0]] + a[1]}


def exp1(a):
    return {"L+": {"P"}, "P": {"P"}, "L-": {"Z"}, "M": {"Z"}, "N": {"N"}}.get(a, {"F+"})


def ln1(a):
    if a == "Z":
        return {"M"}
    if a in ("P", "N"):
        return {a}
    if a == "M":
        return {"N"}
    return {"L": {"L+"}, "F": set(F2), "S": {"L-"}}[a[0]]


def sqrt1(a):
    if a in ("Z", "P", "N"):
        return {a}
    if a == "M":
        return {"N"}
    return {a[0] + "+"}


class Growth:
    """env: atom name -> set of classes; kinds: signs for engine/arcs.py (integration variables are positive)"""

    def __init__(self, env, kinds, arcs=None):
        self.env, self.kinds = env, kinds
        self.A = arcs or Arcs(kinds)
        self.memo = {}
        self.sub = {}

    def val(self, n):
        st = [n]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            if x.op == "int":
                self.memo[x.id] = self.integral(x)
                st.pop()
                continue
            if x.op == "ite":
                c = x.args[0]
                if c.id not in self.memo:
                    st.append(c)
                    continue
                arms = [x.args[1]] * (True in self.memo[c.id]) + [x.args[2]] * (False in self.memo[c.id])
            else:
                arms = x.args
            todo = [a for a in arms if a.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[x.id] = frozenset(self.step(x, arms))
            st.pop()
        return self.memo[n.id]

    def integral(self, x):
        """both ends of the integration variable"""
        r = {"Z"}
        for k in ("F+", "L+"):
            g = self.sub.get((x.data, k))
            if g is None:
                g = self.sub[x.data, k] = Growth(dict(self.env, **{x.data: {k}}), self.kinds, self.A)
            r |= g.val(x.args[-1])
        return frozenset(r)

    def real(self, n):
        v = self.A.val(n)
        return v is not None and v[0] == "R"

    def signed(self, n, r):
        """drop the classes of the wrong sign, add both signs for complex values"""
        if r <= {"Z", "N"}:
            return r
        v = self.A.val(n)
        if v is not None and v[0] == "R" and v[1] in "+-":
            drop = "-" if v[1] == "+" else "+"
            inf = "M" if v[1] == "+" else "P"
            return {x for x in r if not (x[-1] == drop and x[0] in "SFL") and x != inf}
        if v is None or v[0] == "A":
            return r | {OPP[x] for x in r}
        return r

    def step(self, n, arms):
        op = n.op
        a = [self.memo[x.id] for x in arms]
        if op == "const":
            return {"Z"} if n.data == 0 else {"F+"} if n.data > 0 else {"F-"}
        if op == "bool":
            return {n.data}
        if op == "I":
            return set(F2)
        if op == "atom":
            if n.data in self.env:
                return self.env[n.data]
            if n.data == "PI" or self.kinds.get(n.data) == "+":
                return {"F+"}
            return set(F2)
        if op in ("add", "mul"):
            f = add1 if op == "add" else mul1
            r = set()
            for x in a[0]:
                for y in a[1]:
                    r |= f(x, y)
            if op == "mul" and (a[0] & {"P", "M"} or a[1] & {"P", "M"}) and not (self.real(n.args[0]) and self.real(n.args[1])):
                r |= {"N"}
            return self.signed(n, r)
        if op == "neg":
            return {OPP[x] for x in a[0]}
        one = {"inv": inv1, "exp": exp1, "ln": ln1, "sqrt": sqrt1}.get(op)
        if one:
            r = set().union(*map(one, a[0])) if a[0] else set()
            if op in ("inv", "exp") and a[0] & {"P", "M"} and not self.real(n.args[0]):
                r |= {"N"}
            return self.signed(n, r)
        if op == "abs":
            return {x if x == "N" else "P" if x in "PM" else "Z" if x == "Z" else x[0] + "+" for x in a[0]}
        if op in ("re", "im"):
            o = "SFL"
            r = set()
            for x in a[0]:
                if x in BAD:
                    r |= {"N", x}
                elif x == "Z":
                    r.add("Z")
                else:
                    r |= {"Z"} | both(o[:o.index(x[0]) + 1])
            return r
        if op == "conj":
            return a[0]
        if op == "ite":
            return set().union(*a)
        if op == "sum":
            b = a[-1]
            r = set(b) | {"Z"}
            for x in b:
                for y in b:
                    r |= add1(x, y)
            return r
        if op in ("lt", "eq"):
            r = set()
            for x in a[0]:
                for y in a[1]:
                    if not isinstance(x, str) or not isinstance(y, str) or "N" in (x, y):
                        r |= {True, False}
                    elif x == y and x not in ("Z", "P", "M"):
                        r |= {True, False}
                    else:
                        r.add(RANK[x] < RANK[y] if op == "lt" else RANK[x] == RANK[y])
            return r
        if op == "not":
            return {not x for x in a[0]}
        if op == "and":
            return {x and y for x in a[0] for y in a[1]}
        return set(F2)      # fields of a configuration, roots: moderate
