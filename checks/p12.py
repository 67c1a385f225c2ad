from checks.lib import *

FLOOR = 150
RULE = "F(conj z) = conj F(z) for every function of a complex momentum or frequency z; in particular F is real on the real axis"
EXPLANATION = "value numbering of conj F against F at conjugated arguments, all other arguments real"


def run(c):
    for k in list(FNS) + QCD_GHOST:
        if k.startswith("<") or "tlog" in k:
            continue
        a = args(k)
        cx = [x for x in ("om", "s", "ln_s", "ln_s_pl_1") if x in a]
        if not cx or not k.startswith((L1, "ym::", "qcd::")):
            continue
        key = "conj:" + k
        try:
            v = value(c, k)
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail(key, "%s: %r" % (k, e))
            continue
        c.same("%s does not satisfy F(conj z) = conj F(z)" % k, conj(v), v, key, env_b={x: conj(atom(x)) for x in cx},
               cplx=cx)
