from checks.programs_common import *
import re as _re

FLOOR = 2000
RULE = ("every plot and every line of tc.out of the programs one_mass_overall and two_masses_overall is computed from "
        "Re D(p; T, mu) / (Re D(renormalisation point; T, mu) renpoint^2/m^2) of the longitudinal propagator at the temperature, chemical "
        "potential, quark masses and number of quarks its name, title and legend give")
EXPLANATION = ("symbolic execution of the two mains into value graphs; every file, plot, curve, abscissa, legend and title is compared with the "
               "one its labels ask for; the 300 momenta of a curve are one generic element")
M = Fr(656, 1000)
F0, OM, REN = const(Fr(-876, 1000)), const(Fr(1, 100000)), const(4)
TEMPS = [Fr(x, 100) for x in (5, 8, 12, 15, 18, 21)]
TDOM = [Fr(0)] + [Fr(1, 100) + Fr(1, 200) * k for k in range(39)]
NPTS = 300


def generic(c):
    """the momenta: min + k step, k-th of NPTS"""
    key = mk("range", (ZERO, const(NPTS)))
    return key, lambda k: add(const(Fr(1, 100)), mul(const(Fr(1, 100)), k))


def curve(c, key, what, got, want):
    """got holds want(p) for every momentum p"""
    got = got.f[0] if isinstance(got, Agg) and got.adt == OPTION and got.f else got
    rkey, p = generic(c)
    if isinstance(got, Seq) and got.lit is not None:
        if c.ok(len(got.lit) == NPTS, key, "%s: %d values instead of %d" % (what, len(got.lit), NPTS)):
            for k, x in enumerate(got.lit):
                if not c.same("%s, entry %d" % (what, k), to_node(x), want(p(const(k))), "%s:%d" % (key, k)):
                    return
        return
    if not c.ok(isinstance(got, Seq) and got.key is rkey and got.guard is TRUE, key, "%s: not one value per momentum" % what):
        return
    c.same("%s, generic entry" % what, to_node(got.elem), want(p(mk("elem", (rkey,), 0))), key)


def check_plots(c, plots, want):
    """want: name -> (domain or None for the momenta, curves: lists or functions of the momentum, legends, numbers of the title)"""
    Pm = c.programs
    for n in sorted(set(plots) & set(want)):
        p, (dom, curves, legends, title) = plots[n], want[n]
        if dom is None:
            curve(c, n + ":domain", "abscissae of plot %s" % n, p.f[1], lambda x: x)
        else:
            same_list(c, n + ":domain", "abscissae of plot %s" % n, p.f[1], dom)
        im = p.f[0].lit
        c.ok(len(im) == len(curves), n + ":curves", "plot %s has %d curves instead of %d" % (n, len(im), len(curves)))
        for i, (x, y) in enumerate(zip(im, curves)):
            f = same_list if isinstance(y, list) else curve
            f(c, "%s:curve%d" % (n, i), "curve %d of plot %s" % (i, n), x, y)
        lg = p.f[3].f[0] if p.f[3].var else Seq([])
        ok = isinstance(lg, Seq) and lg.lit is not None and len(lg.lit) == len(legends)
        if c.ok(ok, n + ":legend", "plot %s has other legends" % n):
            for i, (x, y) in enumerate(zip(lg.lit, legends)):
                same_text(c, "%s:legend%d" % (n, i), "legend %d of plot %s" % (i, n), Pm.txt(x), y)
        t = literal(p.f[4].f[0]) if p.f[4].var else None
        nums = _re.findall(r"=\s*([0-9.]+)", t or "")
        c.ok(nums == title, n + ":title", "the title of plot %s names %s instead of %s" % (n, nums, title))


def program(c, name, masses, nfs, mus):
    """masses: list of tuples of quark masses"""
    Pm = c.programs = Programs(c.flow)
    F = c.flow
    one = len(masses[0]) == 1
    F.I.local["tc_long_prop::find_critical_temperature"] = lambda a, fr: uf("tc", *[to_node(F.I.deref(x)) for x in a])
    Pm.out = []
    F.events.clear()
    try:
        c.call(name + "::main", [])
    except (Unsupported, Diverge) as e:
        return c.fail(name, "%s: %s: %s" % (name, type(e).__name__, e))
    for e in F.events.values():
        if e[0] in ("panic", "check") and e[3] is not FALSE:
            c.same("%s can panic in %s" % (name, e[1]), ite(e[3], ONE, ZERO), ZERO, "%s:panic" % name)
    fs, plots, bad = files(Pm.out)
    for b in bad:
        c.ok(False, name + ":io", "%s: %s" % (name, b))
    m = const(M)
    S = "target/tc_long_prop/%s/" % name
    renf = const(Fr(16) / (M * M))

    def P(nf, mq, mu, t, p):
        """propagator at momentum p (GeV)"""
        q = QG.replace("qcd_sme::", "")
        if nf == 0:
            if t == 0:
                s = mul(add(mul(OM, OM), mul(p, p)), const(1 / (M * M)))
                return to_node(prop(c, "qcd_sme::ym::gluon::native::propagator_landau", s, F0))
            return re(to_node(prop(c, YM_T, OM, p, m, const(1 / (t * M)), F0)))
        beta = [] if t == 0 else [const(1 / (t * M))]
        z = "_zero_temp" if t == 0 else ""
        if one:
            n = QG + "propagator_l%s_landau" % z
            if n not in F.I.local:
                raise Missing(n)
            return re(uf("call:" + n, const(nf), OM, p, m, const(mq[0]), *(beta + [const(mu), F0])))
        return re(to_node(prop(c, QG + "propagator_l%s_landau_w_field_config" % z, OM, p, *(beta + [const(mu), F0, configs[nf, mq]]))))

    def ratio(nf, mq, mu, t):
        z = inv(mul(P(nf, mq, mu, t, REN), renf))
        return lambda p: mul(P(nf, mq, mu, t, mul(p, m)), z)
    configs = {}
    new = "qcd_sme::qcd::FieldConfig::new" if "qcd_sme::qcd::FieldConfig::new" in c.P.bodies else "qcd_sme::qcd::types::FieldConfig::new"
    if not one:
        for nf in nfs:
            for mq in masses:
                configs[nf, mq] = c.call(new, [const(3), m, Seq([Agg("tuple", [const(nf), const(x)]) for x in mq])])
    d3 = lambda x: "%.3f" % x
    tlab = [text(Str("$T/m=%s$" % ("0.00" if t == 0 else d3(t)))) for t in [0] + TEMPS]
    pmin = const(Fr(1, 100))
    tdom = [const(t) for t in TDOM]
    want, rows = {}, []

    def names(mq):
        if one:
            return "mq_" + (d3(mq[0]) if mq else "NA")
        return "mq1_%s_mq2_%s" % tuple([d3(x) for x in mq] or ["NA", "NA"])

    def tc(nf, mq, mu):
        vals = [ratio(nf, mq, mu, t)(pmin) for t in TDOM]
        return vals, uf("tc", to_node(Seq(tdom)), to_node(Seq(vals)))

    def add_for(nf, mq, mulist):
        lab = [d3(x) for x in mq]
        for mu in mulist:
            want[S + "nf_%d_%s_mu_%s.png" % (nf, names(mq), "NA" if mu is None else d3(mu))] = (
                None, [ratio(nf, mq, mu, t) for t in [0] + TEMPS], tlab, lab + [str(nf)] + ([] if mu is None else [d3(mu)]))
        curves, tcs = [], []
        for mu in mulist:
            vals, t = tc(nf, mq, mu)
            curves.append(vals)
            tcs.append(t)
            rows.append([text(Str(str(nf)))] + [text(Str(x)) for x in (lab or [d3(0)] * len(masses[0]))] + [text(Str(d3(mu or 0))), num(t, 3)])
        want[S + "ir_nf_%d_%s.png" % (nf, names(mq))] = (
            tdom, curves, [text(Str("$\\mu=%s$ GeV" % d3(mu))) for mu in mulist] if nf else [], lab + [str(nf)])
        if nf:
            want[S + "tc_nf_%d_%s.png" % (nf, names(mq))] = ([const(mu) for mu in mulist], [tcs], [], lab + [str(nf)])
    add_for(0, (), [None])
    for nf in nfs:
        for mq in masses:
            add_for(nf, mq, mus)
    c.ok(set(fs) == {S + "tc.out"}, name + ":files", "%s: files written: %s" % (name, sorted(fs)[:3]))
    if S + "tc.out" in fs:
        same_text(c, name + ":tc.out", "content of tc.out of " + name, fs[S + "tc.out"], lines(*rows))
    c.ok(set(plots) == set(want), name + ":plots", "%s: plots saved: unexpected %s, missing %s" % (
        name, sorted(set(plots) - set(want))[:3], sorted(set(want) - set(plots))[:3]))
    check_plots(c, plots, want)
    return len(want)


def run(c):
    positive(c)
    opaque_propagators(c)
    a = program(c, "one_mass_overall", [(Fr(x, 100),) for x in (8, 40, 80)], [1, 2, 4, 6], [Fr(k, 10) for k in range(11)])
    b = program(c, "two_masses_overall", [(Fr(x, 10), Fr(y, 10)) for x, y in ((3, 4), (3, 6), (8, 10), (3, 10))], [1, 4],
                [Fr(k, 10) for k in range(13)])
    return {"plots": [a, b]}
