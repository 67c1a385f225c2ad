from checks.lib import *

FLOOR = 60
RULE = "value graph of a *_w_field_config function is congruent to itself after replacing a process-wide field setting by a fresh value"
EXPLANATION = ("value numbering of every field-configuration function at an arbitrary quark list against its own graph with the "
               "number of colours, number of fermions or default quark mass changed; a dependence on the number of colours that is "
               "exactly the recorded one (thermal quark loops taken from the settings-based functions) is keyed separately")
ASSUMPTIONS = []
SET = (("nc", "number of colours"), ("nf", "number of fermions"), ("mq", "default quark mass"))


def recorded(c, k):
    """the value the recorded defect gives: configured vacuum part, thermal quark loops with the
    colour number of the settings"""
    z = "zero_matsubara::" if "zero_matsubara" in k else "zero_momentum::" if "zero_momentum" in k else ""
    zt = "_zero_temp" if "_zero_temp" in k else ""
    pol = "l" if "_l_" in k else "t"
    g = LT + "gluon::" + z
    K, m = momentum2(k), E("m")
    gl = E(0) if zt else E(c.v(g + "polarization_glue_%s_thermal_part_landau" % pol))
    quark = lambda mq: E(c.v(g + "polarization_quark_%s_thermal_part%s_landau" % (pol, zt), mq=mq))
    inv = (E(cfg(c, "qcd::gluon::dressing_inv_landau_w_field_config", s=K / m ** 2))
           - 16 * E(PI) ** 2 / 3 / K * (gl + E(c.eachq(lambda n, q: n * quark(q)))))
    if "_inv_" in k:
        return inv
    return 1 / inv if "dressing" in k else 1 / (K * inv)


def run(c):
    n = 0
    for k in FNS:
        if "config" not in args(k):
            continue
        n += 1
        for s, what in SET:
            key = "%s:%s" % (k, s)
            c.obl += 1
            try:
                v = cfg(c, k)
            except (Missing, Unsupported, Diverge) as e:
                c.fail(key, "%s: %s: %s" % (k, type(e).__name__, e))
                continue
            if congruent(v, v, env_b={"set:" + s: atom("other_" + s)}, seed0=1000 * c.seed)[0]:
                continue
            msg = "%s depends on the process-wide %s" % (k, what)
            if s == "nc" and k.startswith("qcd::thermal::"):
                try:
                    if congruent(v, lift(recorded(c, k)), seed0=1000 * c.seed)[0]:
                        key += ":thermal-quark-loop"
                        msg += " (through the thermal quark loops)"
                except (Missing, Unsupported, Diverge, DivZero):
                    pass
            c.fail(key, msg)
    c.ok(n >= 20, "count", "only %d field-configuration functions" % n)
