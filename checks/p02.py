from checks.lib import *
import itertools

FLOOR = 60
RULE = ("state after the six setters at atoms is canonical: each setter only replaces its own atom in it, the initial state is "
        "its instance at (3, 1, 0.5, 1e-10, 50, 1e-5), getters return the atoms; rejected values are rejected before any write")
EXPLANATION = ("induction over setter histories: value graphs of every static of the library after each setter from the canonical "
               "state, congruence with the canonical state at the changed argument")
INIT = {"nc": 3, "nf": 1, "mq": (1, 2), "tol": (1, 10 ** 10), "iter": 50, "reg": (1, 10 ** 5)}
GET = {"nc": "get_number_of_colors", "nf": "get_number_of_fermions", "mq": "get_default_quark_mass",
       "tol": "get_default_tol_integral", "iter": "get_default_max_iter_integral", "reg": "get_matsubara_reg"}


def run(c):
    F = c.flow
    con = lambda x: E(x[0]) / E(x[1]) if isinstance(x, tuple) else E(x)
    K = State()
    K.st = dict(c.st0)
    statics = sorted(set(s for s in c.P.statics if s.startswith("qcd_sme::")))
    stat = lambda st, s: to_node(st.st[s]) if s in st.st else None
    for s in statics:
        # every static is covered by the canonical state, or nothing ever writes it
        if s not in K.st:
            F.I.unknown.setdefault("unwritten " + s, 0)
    # initial state
    used = []
    for s in statics:
        if s not in K.st:
            continue
        used.append(s)
        c.eqv("init:" + s, "initial value of %s is not that of the settings 3, 1, 0.5, 1e-10, 50, 1e-5" % s,
              lambda: to_node(F.static_init(s)), to_node(K.st[s]), env_b={"set:" + k: con(x) for k, x in INIT.items()})
    for k, f in c.SETTERS.items():
        n = c.name("consts::" + f)
        c.sites.add(n)
        F.events.clear()
        try:
            r, st = c.flow_call(K, n, [atom("new:" + k)])
        except (Missing, Unsupported, Diverge) as e:
            c.obl += 1
            c.fail("set:" + k, "%s: %r" % (f, e))
            continue
        ev = list(F.events.values())
        for s in sorted(set(st.st) | set(K.st)):
            a = stat(st, s)
            b = stat(K, s)
            if a is None or b is None:
                c.ok(False, "set:%s:%s" % (k, s), "%s changes %s, which the other setters do not know" % (f, s))
                continue
            c.same("%s: %s is left stale or changed by it" % (f, s.split("::")[-1]), a, b, "set:%s:%s" % (k, s),
                   env_b={"set:" + k: atom("new:" + k)})
        # no static is written on a path that then panics: with the value rejected, no write happens
        bad = [e for e in ev if e[0] == "panic"]
        wr = [e for e in ev if e[0] == "static-write"]
        c.ok(wr, "writes:" + k, f + " writes nothing")
        want = b_not(lt(ZERO, atom("new:" + k))) if k in ("tol", "reg") else FALSE
        pc = FALSE
        for e in bad:
            pc = b_or(pc, e[3])
        c.same("%s rejects other values than documented" % f, ite(pc, ONE, ZERO), ite(want, ONE, ZERO), "reject:" + k,
               signed=SIGNED | {"new:" + k})
        for e in wr:
            c.same("%s writes %s before rejecting its argument" % (f, e[1].split("::")[-1]),
                   ite(b_and(e[3], pc), ONE, ZERO), ZERO, "atomic:%s:%s" % (k, e[1]),
                   signed=SIGNED | {"new:" + k})
    for k, g in GET.items():
        n = c.name("consts::" + g)
        c.sites.add(n)

        def get(f=n):
            F.events.clear()
            r, st = c.flow_call(K, f, [])
            if any(e[0] == "static-write" for e in F.events.values()):
                raise Unsupported("a getter writes")
            return to_node(r)
        c.eqv("get:" + k, g + " does not return the value set last", get, atom("set:" + k))
    # the settings act as the field configuration made of them
    for k in FNS:
        w = k + "_w_field_config"
        if w not in FNS or "mq" not in args(k):
            continue
        thermal = "thermal" in k
        m, mq = E("m"), E("mq")
        c.eqv("as-config:" + k, k + " does not use the current number of colours and fermions",
              lambda: c.v(k) if thermal else c.v(k, mq=mq / m),
              lambda: cfg(c, w, quarks=[(atom("set:nf"), "mq")], nc="set:nc"))
