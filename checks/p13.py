from checks.lib import *

FLOOR = 70
RULE = ("a mass-specialised function equals the generic one at the corresponding masses "
        "(_0: that mass 0; _same_mass: both equal; tlog _same_mass/_zero_mass: delta = 0 / also en = q)")
EXPLANATION = "value numbering of every mass-specialised thermal function against its generic form"


def run(c):
    for z in ("", "zero_matsubara::", "zero_momentum::"):
        M = LT + z
        for k in FNS:
            if k.rsplit("::", 1)[0] + "::" != M:
                continue
            n = k.rsplit("::", 1)[1]
            g = over = None
            if n.startswith("tlog"):
                for suf in ("_same_mass", "_zero_mass"):
                    if n.endswith(suf):
                        g = M + n[:-len(suf)]
                        over = {"delta": 0}
                        if "zero" in suf and g in FNS and "en" in args(g):
                            over["en"] = "q"
            elif "_same_mass" in n:
                g, over = M + n.replace("_same_mass", ""), {"m1": "m", "m2": "m"}
            elif n.startswith(("i_0_0", "d_i_0_0")):
                g, over = M + n.replace("_0_0", "_m_m"), {"m1": 0, "m2": 0}
            elif n == "d_i_m_t_0_i":
                g, over = M + "d_i_m_m_t_i", {"m1": "m", "m2": 0}
            elif n.startswith(("i_m_0", "d_i_m_0")):
                g, over = M + n.replace("_m_0", "_m_m"), {"m1": "m", "m2": 0}
            elif n.startswith(("j_0", "d_j_0", "d2_j_0")):
                g, over = M + n.replace("j_0", "j_m"), {"m": 0}
            if g is None:
                continue
            if g not in FNS:
                c.fail("generic:" + k, "no generic form " + g)
                continue
            c.eqv("special:" + k, "%s differs from %s at %s" % (k, g, over), lambda: c.v(k), lambda: c.v(g, **over))
            # the symmetric second specialisation
    for z in ("", "zero_matsubara::", "zero_momentum::"):
        for t in ("", "_l", "_t"):
            k = LT + z + "i_m_m%s_i" % t
            c.eqv("symm:" + k, k + " is not symmetric in the two masses", lambda: c.v(k), lambda: c.v(k, m1="m2", m2="m1"))
