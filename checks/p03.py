from checks.lib import *

FLOOR = 18
RULE = ("a default-method function = its _w_method form at G7K15(tolerance setting, iteration setting); the Matsubara-limit "
        "gluon polarizations relax the tolerance only while both settings have their initial values")
EXPLANATION = "value numbering of every default-method function against its explicit-method form"



def run(c):
    default = lambda: c.raw("consts::get_default_integration_method")
    n = 0
    # the relaxed tolerance of the zero-frequency functions applies to the untouched defaults only
    customised = b_not(b_and(eq(atom("set:tol"), const(Fraction(1, 10 ** 10))), eq(atom("set:iter"), const(50))))
    for k in FNS:
        base = None
        if k.endswith("_w_method"):
            base = k[:-len("_w_method")]
        elif k.endswith("_with_method"):
            base = k[:-len("_with_method")]
        if base is None or not c.ok(base in FNS, "pair:" + k, "no default-method form of " + k):
            continue
        n += 1
        relaxed = "::gluon::zero_matsubara::" in k
        c.eqv("default:" + base, "%s ignores the customised integration settings" % base, lambda: c.v(base),
              lambda: c.v(k, integral=default()),
              env={"set:tol": atom("tol_"), "set:iter": atom("iter_")} if relaxed else None,
              assume=customised if relaxed else None)
    c.ok(n >= 18, "count", "only %d default-method functions" % n)
    m = default()
    c.eqv("method", "default method is not the adaptive Gauss-Kronrod rule at the current settings", lambda: to_node(m),
          lambda: to_node(Agg("adt", [atom("set:tol"), atom("set:iter")], m.adt, m.var, m.vn)))
    c.ok(m.vn == "G7K15", "rule", "default integration rule is %s" % m.vn)
