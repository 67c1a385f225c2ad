from checks.programs_common import *

FLOOR = 100
RULE = ("every file and plot of the phase-diagram program holds Re D(p; T, mu) / Re D(renormalisation point; T, mu) * m^2/renpoint^2 at its "
        "labels, of the propagator it is named after, with the flavour data chosen for (mu, T); critical temperature, second difference "
        "and phase boundary are computed from those values; the configuration keeps f0, its corrected value and its grids coherent")
EXPLANATION = ("symbolic execution of the output functions of physical_tc into value graphs; every formatted file line, file name, plot "
               "abscissa, curve and legend is compared with the one the labels ask for, with and without corrected flavour data")
PT = "physical_tc::"
CF = PT + "config::Config::<'a>::"


def whole_program(c):
    """everything main writes, for a configuration file with arbitrary masses and short grids"""
    A = atom
    tup = lambda *x: Agg("tuple", list(x))
    two, eighth = const(2), const(Fr(1, 8))
    log = run_main(c, None)
    shape = [x[2] for x in log if x[0] == "save"][0]
    td, uu = A("td"), A("uu")
    grid = {"fewtemps": (ZERO, td, td), "moretemps": (ZERO, mul(two, td), td), "manytemps": (ZERO, mul(const(3), td), td),
            "fewchempots": (uu, add(uu, eighth), eighth), "morechempots": (A("uv"), add(A("uv"), eighth), eighth),
            "manychempots": (ZERO, mul(two, eighth), mul(eighth, const(Fr(1, 2)))), "momenta": (A("p0"), add(A("p0"), eighth), eighth)}

    def pts(g):
        lo, hi, d = grid[g]
        n = {"moretemps": 3, "manytemps": 4, "manychempots": 5}.get(g, 2)
        return [add(lo, mul(d, const(k))) for k in range(n)]
    vals = []
    for i, nm in enumerate(shape.names):
        v = shape.f[i]
        vals.append(tup(*grid[nm]) if nm in grid else Agg(v.kind, [A("%s%d" % (nm, k)) for k in range(len(v.f))], v.adt, v.var, v.vn, v.names)
                    if isinstance(v, Agg) else A(nm))
    data = Agg(shape.kind, vals, shape.adt, shape.var, shape.vn, shape.names)
    m, om, mu0, f0 = A("mg"), A("om"), A("renpoint"), A("f0")
    fcs = [c.call("qcd_sme::qcd::FieldConfig::new" if "qcd_sme::qcd::FieldConfig::new" in c.P.bodies else "qcd_sme::qcd::types::FieldConfig::new",
                  [const(3), m, Seq([tup(two, A(a + "0")), tup(ONE, A(a + "1"))])]) for a in ("mq", "mqc")]

    def lib_f0(a):
        return lift(E("f0") + (E(2) * E(dag.lnr(lift(E("mg") / E(a + "0")))) + E(dag.lnr(lift(E("mg") / E(a + "1"))))) * 4 / 27)
    f0s = [lib_f0("mq"), lib_f0("mqc")]
    asked = []
    mus = pts("manychempots")
    tcs = [A("tc%d" % i) for i in range(3)] + [ZERO, ZERO]
    c.flow.facts = {eq(t, ZERO).id: False for t in tcs[:3]}

    def critical(a, fr):
        asked.append(tuple(to_node(c.flow.I.deref(x)) for x in a))
        return tcs[(len(asked) - 1) % 5]
    pb = Seq([tup(x, t) for x, t in list(zip(mus, tcs))[:3]])
    dec = "tc_long_prop::is_deconfined_phase"

    def chosen(corr, mu, t):
        if not corr:
            return fcs[0], f0s[0]
        cnd = to_node(c.call(dec, [mu, t, pb]))
        return merge(cnd, fcs[1], fcs[0]), ite(cnd, f0s[1], f0s[0])

    def P(kind, p, t, mu, cf):
        if t is ZERO:
            return re(to_node(prop(c, QG + "propagator_%s_zero_temp_landau_w_field_config" % kind, om, p, mu, cf[1], cf[0])))
        return re(to_node(prop(c, QG + "propagator_%s_landau_w_field_config" % kind, om, p, inv(mul(t, m)), mu, cf[1], cf[0])))

    def value(kind, p, t, mu, corr):
        cf = chosen(corr, mu, t)
        return mul(P(kind, mul(p, m), t, mu, cf), inv(mul(P(kind, mu0, t, mu, cf), mul(mul(mu0, mu0), inv(mul(m, m))))))
    S = "target/tc_long_prop/physical_tc"
    wf, wp = [(text(Str(S + "/config.yml")), text(Str("CONFIG")))], []
    moms = pts("momenta")
    expected = []
    for corr in (False, True):
        F = "nf_2+1" + ("_corrected" if corr else "")
        for kind, tag, ptag in (("l", "glulongprop", ""), ("t", "glutransprop", "_transverse")):
            for mu in pts("fewchempots"):
                curves = []
                for t in pts("fewtemps"):
                    vs = [value(kind, p, t, mu, corr) for p in moms]
                    wf.append((text(Str(S + "/data/%s_%s_t_" % (F, tag)), num(t, 4), Str("_mu_"), num(mu, 4), Str(".out")),
                               lines(*[(num(p), num(v)) for p, v in zip(moms, vs)])))
                    curves.append(vs)
                wp.append((text(Str(S + "/%s%s_mu_" % (F, ptag)), num(mu, 4), Str(".png")), moms, curves,
                           [text(Str("$T/m="), num(t, 4), Str("$")) for t in pts("fewtemps")]))
        if not corr:
            wp.append((text(Str(S + "/ir_%s.png" % F)), pts("moretemps"), [[value("l", moms[0], t, mu, False) for t in pts("moretemps")]
                                                                         for mu in pts("morechempots")], None))
        for mu in mus:
            expected.append((to_node(Seq(pts("manytemps"))), to_node(Seq([value("l", moms[0], t, mu, corr) for t in pts("manytemps")]))))
        h = sub(mus[1], mus[0])
        d2 = [(mus[2], mul(sub(add(tcs[4], tcs[0]), mul(two, tcs[2])), inv(mul(const(4), mul(h, h)))))]
        wf += [(text(Str(S + "/tc_%s.out" % F)), lines(*[(num(a, 4), num(b, 4)) for a, b in zip(mus, tcs)])),
               (text(Str(S + "/tcd2_%s.out" % F)), lines(*[(num(a), num(b)) for a, b in d2]))]
        wp += [(text(Str(S + "/tc_%s.png" % F)), mus, [tcs], None), (text(Str(S + "/tcd2_%s.png" % F)), [a for a, _ in d2], [[b for _, b in d2]], None)]
        if corr:
            fit = uf("fit", to_node(pb), const(8), to_node(some(text(Str(S + "/tc_%s_fit.png" % F)))))
            wf.append((text(Str(S + "/tc_%s_fit_parameters.out" % F)), text(Agg("fmt", [fit], "fmt:Debug:"), Str("\n"))))
    # what is written when main runs
    decide_outputs(c, "main", lambda: run_main(c, data, hooked=False, local_hooks={"tc_long_prop::find_critical_temperature": critical}), wf, wp)
    if c.ok(len(asked) == len(expected), "main:critical", "%d critical temperatures are looked for instead of %d" % (len(asked), len(expected))):
        for i, (x, y) in enumerate(zip(asked, expected)):
            for j, what in enumerate(("temperatures", "propagators")):
                c.same("the %s whose maximum is looked for (call %d)" % (what, i), x[j], y[j], "main:critical:%d:%s" % (i, what))
    c.flow.facts = {}


def run(c):
    positive(c)
    dag.LNSPLIT[0] = True
    opaque_propagators(c)
    c.programs = Programs(c.flow)
    A = atom
    quarks = [("nf1", "mq1"), ("nf2", "mq2")]
    cquarks = [("nf1", "mc1"), ("nf2", "mc2")]
    fc, cc = c.config(quarks), c.config(cquarks)
    m, om, mu0, f0 = A("m"), A("om"), A("renp"), A("f0")
    nT, nU, nP = (4, 7, 3) if c.tier == "thorough" else (3, 5, 2)
    td, u0, p0 = A("td"), A("u0"), A("p0")
    eighth = const(Fr(1, 8))
    temps = [mul(td, const(k)) for k in range(nT)]
    mus = [add(u0, mul(eighth, const(k))) for k in range(nU)]
    moms = [add(p0, mul(eighth, const(k))) for k in range(nP)]
    tup = lambda *x: Agg("tuple", list(x))
    SRC = "target/tc_long_prop/physical_tc"
    renp2 = mul(mu0, mu0)

    def new(fcfg=fc, f=f0, g=None, names=("LABEL", "FILE", "TITLE")):
        g = g or [tup(ZERO, mul(td, const(nT - 1)), td), tup(u0, mus[-1], eighth), tup(p0, moms[-1], eighth)]
        return c.call(CF + "new", g + [om, mu0, f, fcfg] + [Str(x) for x in names])

    def method(conf, name, *a):
        """self after a &mut self method"""
        F = c.flow
        F.state = State()
        F.state.st = dict(c.st0)
        F.active = []
        n = CF + name
        if n not in c.P.bodies:
            raise Missing(n)
        F.state.st["conf"] = conf
        c.sites.add(n)
        F.call(n, [MutRef("static", "conf", ())] + list(a), {})
        return F.state.st["conf"]

    get = lambda conf, name, *a: c.call(CF + name, [conf] + list(a))
    lst = lambda conf, name: get(conf, name)

    # the renormalisation constant in the convention of the library
    def f0_of(qs, nc="nc_"):
        r = E("f0")
        for nf, q in qs:
            r = r + E(nf) * E(dag.lnr(lift(E("m") / E(q)))) * 4 / (9 * E(nc))
        return lift(r)

    def guard(key, f):
        try:
            return f()
        except Missing as e:       # private helpers may be named otherwise; the run of main decides
            if any(str(e).startswith(x) for x in c.P.bodies):
                c.obl += 1
                c.fail(key, "%s: %s" % (key, e))
            return None
        except (Unsupported, Diverge) as e:
            c.obl += 1
            c.fail(key, "%s: %s: %s" % (key, type(e).__name__, e))
            return None

    whole_program(c)
    conf = guard("new", new)
    if conf is None:
        return
    points = [(mul(const(Fr(1, 10)), const(0)), A("b0")), (A("v1"), A("b1")), (add(A("v1"), A("v2")), A("b2"))]
    pb = Seq([tup(x, y) for x, y in points[:3 if c.tier == "thorough" else 2]])
    c.flow.facts = {eq(A("b%d" % i), ZERO).id: False for i in range(3)}
    pbz = Seq(pb.lit + [tup(add(A("v1"), A("v3")), ZERO)])

    # ---- grids
    for nm, want in (("temps", temps), ("chempots", mus), ("momenta", moms)):
        guard("grid:" + nm, lambda: same_list(c, "grid:" + nm, "the grid of " + nm, lst(conf, nm), want))
    guard("renpoint", lambda: c.same("the renormalisation point", get(conf, "renpoint"), mu0, "renpoint"))
    guard("renpoint2", lambda: c.same("the squared renormalisation point", get(conf, "renpoint2"), renp2, "renpoint2"))
    # a grid runs from its minimum in equal steps up to the step nearest to its maximum
    for lo, hi, d, n in ((0, 1, Fr(1, 2), 2), (1, 2, Fr(3, 10), 3), (0, 1, Fr(2, 5), 3), (Fr(1, 2), Fr(1, 2), 1, 0), (0, 1, Fr(3, 10), 3)):
        k = lambda x: const(Fr(x))
        guard("grid:round", lambda: same_list(c, "grid:round", "the grid from %s to %s in steps of %s" % (lo, hi, d),
                                              lst(new(g=[tup(k(lo), k(hi), k(d))] + [tup(ZERO, ZERO, ONE)] * 2), "temps"),
                                              [k(lo + i * Fr(d)) for i in range(n + 1)]))

    # ---- flavour data
    pairs = lambda v: (v.f[0], v.f[1])

    def data(key, what, cf, mu, t, wantcfg, wantf0):
        def f():
            c.flow.events.clear()
            g, f_ = pairs(get(cf, "maybe_corrected_data", mu, t))
            c.same(what + ": configuration", to_node(g), to_node(wantcfg), key + ":cfg")
            c.same(what + ": f0", f_, wantf0, key + ":f0")
        guard(key, f)

    T, MU = A("T"), A("MU")
    data("plain", "flavour data without correction", conf, MU, T, fc, f0_of(quarks))
    for nq in (0, 1, 3):
        qs = [("nf%d" % i, "mq%d" % i) for i in range(nq)]
        ks = [("nf%d" % i, "mc%d" % i) for i in range(nq)]
        f1 = c.config(qs)
        guard("f0:%d" % nq, lambda: data("f0:%d" % nq, "f0 with %d flavours" % nq, new(f1), MU, T, f1, f0_of(qs)))

        def corr():
            k1 = c.config(ks)
            k = method(method(new(f1), "set_correctedfieldconfig", some(k1)), "set_phase_boundary", some(Seq([tup(ZERO, A("b0"))])))
            # beyond the boundary: corrected; f0 is the one of a fresh configuration with the corrected masses
            data("cf0:%d" % nq, "corrected f0 with %d flavours" % nq, k, add(MU, ONE), T, k1, f0_of(ks))
        guard("cf0:%d" % nq, corr)

    def corrected(b=pb, order=0):
        k = new()
        if order == 0:
            return method(method(k, "set_correctedfieldconfig", some(cc)), "set_phase_boundary", some(b))
        return method(method(k, "set_phase_boundary", some(b)), "set_correctedfieldconfig", some(cc))
    dec = "tc_long_prop::is_deconfined_phase"
    ccf = guard("corrected", corrected)
    if ccf is None:
        return
    pick = lambda cnd, a, b: map_nodes2(cnd, a, b)

    def map_nodes2(cnd, a, b):
        return merge(cnd, a, b)
    for nm, b, o in (("plain", pb, 0), ("order", pb, 1), ("unreduced", pbz, 0)):
        k = guard("corrected:" + nm, lambda: corrected(b, o))
        if k is None:
            continue
        cnd = to_node(c.call(dec, [MU, T, b]))
        data("choice:" + nm, "flavour data with correction", k, MU, T, merge(cnd, cc, fc), ite(cnd, f0_of(cquarks), f0_of(quarks)))
        guard("boundary:" + nm, lambda: c.same("the stored phase boundary is the reduced one", to_node(get(k, "phase_boundary")),
                                               to_node(some(pb)), "boundary:" + nm))
    # incomplete correction data is refused
    for nm, steps in (("config", [("set_correctedfieldconfig", some(cc))]), ("boundary", [("set_phase_boundary", some(pb))]),
                      ("reset", [("set_correctedfieldconfig", some(cc)), ("set_phase_boundary", some(pb)), ("set_correctedfieldconfig", NONE)])):
        def f():
            k = new()
            for s, v in steps:
                k = method(k, s, v)
            c.flow.events.clear()
            try:
                get(k, "maybe_corrected_data", MU, T)
                ok = panic_cond(c) is TRUE
            except Diverge:
                ok = True
            c.ok(ok, "incomplete:" + nm, "incomplete correction data (%s) is used silently" % nm)
        guard("incomplete:" + nm, f)
    k = guard("reset", lambda: method(method(ccf, "set_correctedfieldconfig", NONE), "set_phase_boundary", NONE))
    if k is not None:
        data("reset", "flavour data after removing the correction", k, MU, T, fc, f0_of(quarks))
    # a setter changes nothing else
    for st, v, own in (("set_temperatures", tup(ONE, ONE, ONE), "temps"), ("set_chemicalpotentials", tup(ONE, ONE, ONE), "chempots"),
                       ("set_phase_boundary", NONE, None), ("set_correctedfieldconfig", NONE, None)):
        def f():
            k2 = method(ccf, st, v)
            for nm in ("temps", "chempots", "momenta", "renpoint", "renpoint2"):
                want = to_node(Seq([ONE])) if nm == own else to_node(get(ccf, nm))
                c.same("%s after %s" % (nm, st), to_node(get(k2, nm)), want, "frame:%s:%s" % (st, nm))
            for i, nm in enumerate(k2.names):
                if nm in ("pbase", "om", "fieldconfig", "label", "filename", "title", "f0"):
                    c.same("%s after %s" % (nm, st), to_node(k2.f[i]), to_node(ccf.f[i]), "frame:%s:%s" % (st, nm))
        guard("frame:" + st, f)

    # ---- outputs
    def D(kind, p, t, mu, cf):
        """the propagator at physical momentum p, chosen flavour data"""
        g, f_ = cf
        if t is ZERO:
            r = prop(c, QG + "propagator_%s_zero_temp_landau_w_field_config" % kind, om, p, mu, f_, g)
        else:
            r = prop(c, QG + "propagator_%s_landau_w_field_config" % kind, om, p, inv(mul(t, m)), mu, f_, g)
        return re(to_node(r))

    def chosen(cf_mode, mu, t):
        if cf_mode == "plain":
            return fc, f0_of(quarks)
        cnd = to_node(c.call(dec, [mu, t, pb]))
        return merge(cnd, cc, fc), ite(cnd, f0_of(cquarks), f0_of(quarks))

    def value(kind, p, t, mu, mode):
        cf = chosen(mode, mu, t)
        return mul(D(kind, mul(p, m), t, mu, cf), inv(mul(D(kind, mu0, t, mu, cf), mul(renp2, inv(mul(m, m))))))

    for mode, cf in (("plain", conf), ("corrected", ccf)):
        for kind, fn, tag, ptag in (("l", "compute_propagators", "glulongprop", ""), ("t", "compute_transverse_propagators", "glutransprop", "_transverse")):
            wf, wp = [], []
            for mu in mus:
                curves = []
                for t in temps:
                    name = text(Str(SRC + "/data/FILE_%s_t_" % tag), num(t, 4), Str("_mu_"), num(mu, 4), Str(".out"))
                    vals = [value(kind, p, t, mu, mode) for p in moms]
                    wf.append((name, lines(*[(num(p), num(v)) for p, v in zip(moms, vals)])))
                    curves.append(vals)
                wp.append((text(Str(SRC + "/FILE%s_mu_" % ptag), num(mu, 4), Str(".png")), moms, curves,
                           [text(Str("$T/m="), num(t, 4), Str("$")) for t in temps]))
            decide_outputs(c, "%s:%s" % (fn, mode), lambda: c.call(PT + fn, [cf]), wf, wp)
        irs = [[value("l", p0, t, mu, mode) for t in temps] for mu in mus]
        decide_outputs(c, "compute_ir_limit:" + mode, lambda: c.call(PT + "compute_ir_limit", [cf]), [],
                       [(text(Str(SRC + "/ir_FILE.png")), temps, irs, None)])
        tcs = []
        for vals in irs:
            best, tc = vals[0], temps[0]
            for t, v in zip(temps[1:], vals[1:]):
                g = lt(best, v)
                best, tc = ite(g, v, best), ite(g, t, tc)
            tcs.append(tc)
        h = sub(mus[1], mus[0])
        d2 = [(mus[i], mul(sub(add(tcs[i + 2], tcs[i - 2]), mul(const(2), tcs[i])), inv(mul(const(4), mul(h, h))))) for i in range(2, nU - 2)]
        r = decide_outputs(c, "compute_phase_diagram:" + mode, lambda: c.call(PT + "compute_phase_diagram", [cf]),
                           [(text(Str(SRC + "/tc_FILE.out")), lines(*[(num(a, 4), num(b, 4)) for a, b in zip(mus, tcs)])),
                            (text(Str(SRC + "/tcd2_FILE.out")), lines(*[(num(a), num(b)) for a, b in d2]))],
                           [(text(Str(SRC + "/tc_FILE.png")), mus, [tcs], None),
                            (text(Str(SRC + "/tcd2_FILE.png")), [a for a, _ in d2], [[b for _, b in d2]], None)])
        if r is not None:
            same_list(c, "compute_phase_diagram:%s:returned" % mode, "the returned phase boundary",
                      r, [to_node(tup(a, b)) for a, b in zip(mus, tcs)])
