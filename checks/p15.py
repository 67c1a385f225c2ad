from checks.lib import *
from series import limit_is

FLOOR = 37
RULE = ("the Laurent expansion of the generic function in the frequency has no negative powers and its constant term "
        "is congruent to the Matsubara-limit function")
EXPLANATION = ("truncated Laurent series over GF(p^2) of the value graphs: the om -> 0 limit is decided term by term, "
               "for all other arguments")
VAR, MOD = "om", "zero_matsubara"


def pairs():
    out = []
    for k in FNS:
        if k.startswith(LT) and "::%s::" % MOD in k and not k.endswith(("_landau", "_w_method")):
            out.append((k.replace(MOD + "::", ""), k))
    return out


def limit(c, var, g, k, lnabs=False):
    key = "limit:" + k
    c.obl += 1
    try:
        c.argkinds = {}
        a, b = c.v(g), c.v(k)
        ok, n = limit_is(a, b, var, seed0=1000 * c.seed, lnabs=lnabs)
        gen = tuple(sorted(x for x, t in c.argkinds.items() if t == {"any"} and x != var))
        if ok and gen and not (lnabs and any(x.op == "ln" for x in nodes_of(b))):
            # generic arguments may be complex
            c.obl += 1
            ok, m = limit_is(a, b, var, seed0=1000 * c.seed, lnabs=lnabs, complex_atoms=gen)
            n += m
    except (Missing, Unsupported, Diverge, DivZero) as e:
        ok, n = False, 0
        c.notes.append("%s: %r" % (k, e))
    c.points += n
    if not ok:
        c.fail(key, "%s is not the %s -> 0 limit of %s" % (k, var, g))


def run(c):
    for g, k in pairs():
        if g in FNS:
            limit(c, VAR, g, k, lnabs=True)
