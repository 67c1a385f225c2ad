from checks.lib import *
import dag
from arcs import Arcs
from fractions import Fraction as Fr

FLOOR = 300
RULE = ("every logarithm and square root a function of the momentum takes has its argument strictly off the negative "
        "real axis (s in the open upper half-plane, s on the positive axis, real non-zero frequencies), and nothing "
        "non-analytic (abs, re, im, conj, an ordering) is applied to the complex momentum")
EXPLANATION = ("abstract interpretation of the value graph in a half-plane domain (argument intervals, signs of rational "
               "normal forms, quotients as Moebius maps)")
MASS = ("m", "mq", "m1", "m2", "p", "q", "Q", "beta", "t", "nc", "nc_", ".1", ".0", "nf", "s0", "pren", "f0p")


def respelled(A, x, order, dep, moving, cplx):
    """x is algebraically equal to a value whose place is known"""
    cands = [n.args[0] for n in order if n.op == "ln" and dep[n.id] and dep[n.args[0].id]]
    for n in order:
        if n.op == "sqrt" and dep[n.id] and A.off_cut(n.args[0]):
            cands += [dag.div(dag.sub(n, dag.ONE), dag.add(n, dag.ONE)), dag.sub(n, dag.ONE), dag.add(n, dag.ONE)]
            cands.append(dag.div(dag.const(4), dag.sub(n.args[0], dag.ONE)))
            cands.append(dag.add(cands[-1], dag.ONE))
    for y in cands:
        for f in (1, 2, 4, Fr(1, 2), Fr(1, 4)):
            z = dag.mul(dag.const(f), y)
            if z is x or not A.off_cut(z):
                continue
            try:
                if congruent(x, z, cplx=[m for m in moving if cplx])[0]:
                    return True
            except DivZero:
                pass
    return False


def analyse(c, k, v, kinds, regime, moving, cplx):
    """obligations on the function value v when the atoms `moving` vary in the regime"""
    A = Arcs(kinds)
    ids = {dag.atom(x).id for x in moving}
    memo = {}
    for n in nodes_of(v):
        memo[n.id] = n.id in ids
    order = sorted(nodes_of(v), key=lambda n: n.id)
    for n in order:
        memo[n.id] = memo[n.id] or any(memo.get(a.id) for a in n.args)
    for n in order:
        if not memo[n.id]:
            continue
        if n.op in ("ln", "sqrt") and memo[n.args[0].id]:
            c.obl += 1
            if not A.off_cut(n.args[0]) and not (n.op == "ln" and respelled(A, n.args[0], order, memo, moving, cplx)):
                c.fail("cut:%s" % k, "%s: %s %s can lie on the negative real axis for %s (%s)" % (
                    k, "the logarithm of" if n.op == "ln" else "the square root of", show(n.args[0], 9)[:300], regime,
                    A.val(n.args[0])))
        elif n.op in ("abs", "re", "im", "conj") and memo[n.args[0].id] and cplx:
            c.obl += 1
            c.fail("cut:%s" % k, "%s: %s of a value depending on the complex momentum" % (k, n.op))
        elif n.op == "uf" and cplx:
            c.obl += 1
            c.fail("cut:%s" % k, "%s: %s of a value depending on the complex momentum" % (k, n.data))
        elif n.op == "ite" and any(memo.get(x.id) and x.op == "lt" for x in nodes_of(n.args[0])):
            c.same("%s: switches between different expressions depending on the momentum" % k, n.args[1], n.args[2],
                   "cut:" + k, cplx=[x for x in moving if x in ("s", "om") and cplx])


def run(c):
    for k in list(FNS) + QCD_GHOST:
        if k.startswith("<") or "tlog" in k or not k.startswith((L1, "ym::", "qcd::")):
            continue
        a = args(k)
        cx = [x for x in ("om", "s") if x in a]
        if not cx:
            continue
        try:
            v = lift(value(c, k))
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail("cut:" + k, "%s: %r" % (k, e))
            continue
        kinds = {x: "+" for x in MASS}
        kinds.update({x: None for x in a if x in ("ln_s", "ln_s_pl_1")})
        if "s" in a:
            analyse(c, k, v, dict(kinds, s=("A", Fr(0), Fr(1))), "s in the upper half-plane", ["s"], True)
        analyse(c, k, v, dict(kinds, s="+", om="+"), "real positive %s" % " and ".join(cx), cx, False)
