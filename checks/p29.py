from checks.lib import *
from values import rebuild
import dag

FLOOR = 40
RULE = ("a configuration keeps its colours, gluon mass and quark list; results are invariant under permutation, splitting "
        "and merging of equal flavours and dropping of zero-flavour entries; clone is equal")
EXPLANATION = "value numbering of all field-configuration functions at related literal configurations"


def long_list(c, k, v, f):
    """lists longer than any number the function could count to"""
    n = max([33] + [int(x.data) for x in dag.nodes_of(v) if x.op == "const" and x.data.denominator == 1 and 0 < x.data <= 64]) + 2
    l = [("ln%d" % i, "lm%d" % i) for i in range(n)]
    c.eqv("perm-long:" + k, k + " depends on the order of a list of %d quarks" % n, lambda: f(l), lambda: f(l[1:] + l[:1]))
    c.eqv("merge-long:" + k, k + " treats n1+n2 flavours of one mass differently from two entries of a list of %d quarks" % n,
          lambda: f(l + [("n1", "mqa"), ("n2", "mqa")]), lambda: f(l + [(E("n1") + E("n2"), "mqa")]))


def additive(c, k, v, f):
    """for a list of any length: it enters as sums over all its entries of terms proportional to the number of flavours"""
    key = atom("quarks")
    el = mk("elem", (key,), 0)
    nf, mq = fld(el, 0), fld(el, 1)
    bodies = []
    for x in dag.nodes_of(v):
        if key in x.args:
            if x.op == "sum" and x.args[0] is key and key not in x.args[1:]:
                bodies.append(x.args[1])
            elif x is not el:
                return long_list(c, k, v, f)
    for b in bodies:
        at = lambda n: rebuild(b, {nf.id: lift(n), mq.id: atom("mqa")})
        if any(x is key for x in dag.nodes_of(at("n1"))):
            return long_list(c, k, v, f)
        c.same(k + ": a sum over the quarks treats n1+n2 flavours of one mass differently from two entries",
               E(at("n1")) + E(at("n2")), at(E("n1") + E("n2")), "additive:" + k)
    # outside the sums no single entry is used
    if any(x is key for x in dag.nodes_of(rebuild(v, {x.id: atom("sum%d" % i) for i, x in enumerate(dag.nodes_of(v)) if x.op == "sum" and x.args[0] is key}))):
        return long_list(c, k, v, f)


def run(c):
    a, b, d = ("n1", "mqa"), ("n2", "mqb"), ("n3", "mqd")

    def get(q, name):
        g = c.config(q)
        return to_node(g.f[g.names.index(name)])
    for name, want in (("nc", atom("nc_")), ("gluon", atom("m"))):
        c.eqv("field:" + name, "configuration does not keep " + name, lambda: get([a, b], name), want)
    qs = lambda: to_node(Seq([Agg("tuple", [lift(x), lift(y)]) for x, y in (a, b, d)]))
    c.eqv("field:quarks", "configuration does not keep the quark list", lambda: get([a, b, d], "quarks"), qs)

    def clone():
        g = c.config([a, b])
        return to_node(c.call("<qcd::types::FieldConfig as std::clone::Clone>::clone", [g])), to_node(g)
    try:
        x, y = clone()
        c.same("a cloned configuration differs", x, y, "clone")
    except (Missing, Unsupported, Diverge) as e:
        c.obl += 1
        c.fail("clone", repr(e))
    for k in FNS:
        if not k.endswith("_w_field_config"):
            continue
        f = lambda q: value(c, k, quarks=q)
        try:
            additive(c, k, value(c, k), f)
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail("additive:" + k, "%s: %r" % (k, e))
        if "_inv" not in k:
            continue
        c.eqv("perm:" + k, k + " depends on the order of the quark list", lambda: f([a, b, d]), lambda: f([d, a, b]))
        c.eqv("merge:" + k, k + " treats n1+n2 flavours of one mass differently from two entries",
              lambda: f([("n1", "mqa"), ("n2", "mqa")]), lambda: f([(E("n1") + E("n2"), "mqa")]))
        c.eqv("drop:" + k, k + " depends on an entry without flavours", lambda: f([a, (0, "mqb")]), lambda: f([a]))
        c.eqv("empty:" + k, k + ": list with no flavours differs from the empty list", lambda: f([(0, "mqb")]), lambda: f([]))
