"""Abstract values of the dataflow pass (mirflow.py); scalars are dag.Node."""
from dag import *  # noqa
import dag


class Agg:
    """struct / tuple / array / enum variant"""
    __slots__ = ("kind", "adt", "var", "vn", "names", "f")

    def __init__(self, kind, f, adt=None, var=0, vn=None, names=None):
        self.kind, self.f, self.adt, self.var, self.vn, self.names = kind, list(f), adt, var, vn, names

    def with_field(self, i, v):
        g = list(self.f)
        g[i] = v
        return Agg(self.kind, g, self.adt, self.var, self.vn, self.names)

    def __repr__(self):
        return "%s%s%r" % (self.adt or self.kind, ("::" + self.vn) if self.vn else "", self.f)


class Clo:
    __slots__ = ("fn", "caps", "tyenv")

    def __init__(self, fn, caps, tyenv):
        self.fn, self.caps, self.tyenv = fn, list(caps), tyenv

    def __repr__(self):
        return "Clo(%s)" % self.fn


class FnP:
    __slots__ = ("fnref",)

    def __init__(self, fnref):
        self.fnref = fnref

    def __repr__(self):
        return "Fn(%s)" % self.fnref.get("fn")


class MutRef:
    """a &mut / raw pointer to a place"""
    __slots__ = ("fid", "local", "proj")

    def __init__(self, fid, local, proj):
        self.fid, self.local, self.proj = fid, local, tuple(proj)

    def __repr__(self):
        return "&mut %s.%s%r" % (self.fid, self.local, self.proj)


class Seq:
    """a finite sequence (Vec, slice, array, range or lazy iterator over one).

    lit : list of values, or None when the length is symbolic;
    sym : key (Node naming the underlying collection), elem (Value of the generic
          element), guard (Node: which elements are kept)."""
    __slots__ = ("lit", "key", "elem", "guard")

    def __init__(self, lit=None, key=None, elem=None, guard=TRUE):
        self.lit, self.key, self.elem, self.guard = lit, key, elem, guard

    def __repr__(self):
        return "Seq(%r)" % ((self.lit if self.lit is not None else (self.key, self.elem)),)


class Building(Seq):
    """a list a loop is appending to; pushed: what this turn appended"""
    __slots__ = ("pushed",)

    def __init__(self, key, pushed=()):
        Seq.__init__(self, None, key, key, TRUE)
        self.pushed = tuple(pushed)


def appended(a, b):
    return any(isinstance(x, Building) and x.pushed or isinstance(x, Seq) and x.lit is not None and len(x.lit) > len(a.lit)
               for x in ([b.a, b.b] if isinstance(b, VIte) else [b]))


class VIte:
    """join of values of different shape"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "VIte(%r,%r,%r)" % (self.c, self.a, self.b)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


UNIT = Agg("tuple", [])
OPTION = "std::option::Option"


def some(v):
    return Agg("adt", [v], OPTION, 1, "Some")


NONE = Agg("adt", [], OPTION, 0, "None")


def vkey(v):
    if isinstance(v, Node):
        return v.id
    if isinstance(v, Agg):
        return ("A", v.adt or v.kind, v.var, tuple(vkey(x) for x in v.f))
    if isinstance(v, Clo):
        return ("C", v.fn, tuple(vkey(x) for x in v.caps), tuple(sorted(v.tyenv.items())))
    if isinstance(v, FnP):
        return ("F", v.fnref.get("res") or v.fnref["fn"], tuple(v.fnref.get("args", ())))
    if isinstance(v, MutRef):
        return ("M", v.fid, v.local, v.proj)
    if isinstance(v, Building):
        return ("B", v.key.id, tuple(vkey(x) for x in v.pushed))
    if isinstance(v, Seq):
        if v.lit is not None:
            return ("L", tuple(vkey(x) for x in v.lit))
        return ("S", v.key.id, vkey(v.elem), v.guard.id)
    if isinstance(v, VIte):
        return ("I", v.c.id, vkey(v.a), vkey(v.b))
    if isinstance(v, Str):
        return ("s", v.s)
    if v is None:
        return None
    raise TypeError(v)


def has_mut(v):
    if isinstance(v, MutRef):
        return True
    if isinstance(v, Agg):
        return any(has_mut(x) for x in v.f)
    if isinstance(v, Clo):
        return any(has_mut(x) for x in v.caps)
    if isinstance(v, Seq):
        return any(has_mut(x) for x in v.lit) if v.lit is not None else has_mut(v.elem)
    if isinstance(v, VIte):
        return has_mut(v.a) or has_mut(v.b)
    return False


def to_node(v):
    """fold a structured value into one node (for hashing / equality)"""
    if isinstance(v, Node):
        return v
    if isinstance(v, Agg):
        return mk("tup", [to_node(x) for x in v.f], "%s#%s" % (v.adt or v.kind, v.vn if v.vn else v.var))
    if isinstance(v, Seq):
        if v.lit is not None:
            return mk("tup", [to_node(x) for x in v.lit], "seq")
        return mk("uf", [v.key, to_node(v.elem), v.guard], "seq")
    if isinstance(v, VIte):
        return mk("ite", (v.c, to_node(v.a), to_node(v.b)))
    if isinstance(v, Clo):
        return mk("tup", [to_node(x) for x in v.caps], "clo:" + v.fn)
    if isinstance(v, FnP):
        return mk("tup", [], "fn:" + v.fnref["fn"])
    if isinstance(v, Str):
        return mk("tup", [], "str:" + v.s)
    if isinstance(v, MutRef):
        return mk("tup", [], "mut:%s.%s%r" % (v.fid, v.local, v.proj))
    if v is None:
        return mk("tup", [], "undef")
    raise TypeError(v)


def merge(c, a, b):
    """value at a join: a if c else b"""
    if a is b:
        return a
    if a is None or b is None:
        return a if b is None else b  # undefined on one side: dead at the join
    if isinstance(a, Node) and isinstance(b, Node):
        return ite(c, a, b)
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and (a.adt, a.kind, a.var, len(a.f)) == (b.adt, b.kind, b.var, len(b.f)):
        return Agg(a.kind, [merge(c, x, y) for x, y in zip(a.f, b.f)], a.adt, a.var, a.vn, a.names)
    if isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn:
        return Clo(a.fn, [merge(c, x, y) for x, y in zip(a.caps, b.caps)], a.tyenv)
    if isinstance(a, Building) and isinstance(b, Building) and a.key is b.key and len(a.pushed) == len(b.pushed):
        return Building(a.key, [merge(c, x, y) for x, y in zip(a.pushed, b.pushed)])
    if isinstance(a, Seq) and isinstance(b, Seq) and not isinstance(a, Building) and not isinstance(b, Building):
        if a.lit is not None and b.lit is not None and len(a.lit) == len(b.lit):
            return Seq([merge(c, x, y) for x, y in zip(a.lit, b.lit)])
        if a.lit is None and b.lit is None and a.key is b.key:
            return Seq(None, a.key, merge(c, a.elem, b.elem), ite(c, a.guard, b.guard))
    return VIte(c, a, b)


def map_nodes(v, f):
    """rebuild v with f applied to each node"""
    if isinstance(v, Node):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.kind, [map_nodes(x, f) for x in v.f], v.adt, v.var, v.vn, v.names)
    if isinstance(v, Clo):
        return Clo(v.fn, [map_nodes(x, f) for x in v.caps], v.tyenv)
    if isinstance(v, Building):
        return Building(f(v.key), [map_nodes(x, f) for x in v.pushed])
    if isinstance(v, Seq):
        if v.lit is not None:
            return Seq([map_nodes(x, f) for x in v.lit])
        return Seq(None, f(v.key), map_nodes(v.elem, f), f(v.guard))
    if isinstance(v, VIte):
        return merge(f(v.c), map_nodes(v.a, f), map_nodes(v.b, f))
    return v


def rebuild(n, sub, memo=None):
    """substitute nodes (by id) in a graph, re-simplifying"""
    if memo is None:
        memo = {}
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.id in sub:
            memo[x.id] = sub[x.id]
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        a = [memo[y.id] for y in x.args]
        memo[x.id] = remk(x, a)
    return memo[n.id]


_RE = {
    "add": lambda a: add(*a), "mul": lambda a: mul(*a), "neg": lambda a: neg(*a), "inv": lambda a: inv(*a),
    "sqrt": lambda a: sqrt(*a), "ln": lambda a: ln(*a), "exp": lambda a: exp(*a), "abs": lambda a: absn(*a),
    "re": lambda a: re(*a), "im": lambda a: im(*a), "conj": lambda a: conj(*a), "not": lambda a: b_not(*a),
    "and": lambda a: b_and(*a), "lt": lambda a: lt(*a), "eq": lambda a: eq(*a), "ite": lambda a: ite(*a),
}


def remk(x, a):
    if all(p is q for p, q in zip(a, x.args)):
        return x
    f = _RE.get(x.op)
    return f(a) if f else mk(x.op, a, x.data)
