import json
from checks.lib import *

FLOOR = 295
RULE = ("rescaling every dimensionful argument (and the Matsubara regulator) by lambda to the power of its mass dimension "
        "multiplies the result by lambda to the power of the function's dimension")
EXPLANATION = "value numbering of every dimensionful function against its own graph in rescaled units"
W = {"om": 1, "p": 1, "q": 1, "m": 1, "m1": 1, "m2": 1, "mq": 1, "mu": 1, "en": 1, "beta": -1, "delta": 2, "n": 3,
     "gluon": 1, "mqa": 1, "mqb": 1, "set:reg": 1, "INF": 1, "Q": 1}
UNITS = json.load(open(os.path.join(VERIF, "spec", "units.json")))
# vacuum functions take masses and momenta in units of the gluon mass: nothing to rescale
PURE = ("low_level::oneloop::g",)


def run(c):
    lam = E("LAM")
    env = {x: lift(lam ** w * E(x)) for x, w in W.items()}
    for k, w in UNITS.items():
        if not set(args(k)) & (set(W) | {"config"}):
            continue
        key = "units:" + k
        try:
            v = value(c, k, quarks=[("n1", "mqa"), ("n2", "mqb")]) if "config" in args(k) else c.v(k)
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail(key, "%s: %r" % (k, e))
            continue
        c.same("%s does not scale with mass dimension %d" % (k, w), v, v, key, env_b=env, scale=lift(lam ** -w), mscale=lam.n)
