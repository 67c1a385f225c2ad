from checks.programs_common import *
from core import Missing

FLOOR = 60
RULE = ("critical temperature = first maximiser; the reduced boundary is the points before the first vanishing temperature, reducing "
        "twice changes nothing; a point is deconfined iff it lies strictly above the piecewise-linear interpolation of the reduced "
        "boundary or beyond its last chemical potential; a chemical potential below the first one is rejected; the fit is the polynomial "
        "sum of params[k] mu^k")
EXPLANATION = ("value graphs of the phase-boundary functions on boundaries of every length up to 4 (thorough: 6) with arbitrary points, "
               "ordered by chemical potential, against the interpolation formula; boundary and plateau points are visited exactly")
B = "tc_long_prop::"


def run(c):
    top = 6 if c.tier == "thorough" else 4
    P = c.P.bodies
    T = lambda i: atom("t%d" % i)

    c.flow.facts = {eq(T(i), ZERO).id: False for i in range(top + 4)}      # Tc > 0 unless stated otherwise

    def mu(i):      # increasing
        x = atom("u0")
        for k in range(1, i + 1):
            x = add(x, atom("u%d" % k))
        return x

    def panics(f):
        c.flow.events.clear()
        try:
            v = f()
        except Diverge:
            return TRUE, None
        pc = FALSE
        for e in c.flow.events.values():
            if e[0] in ("panic", "check"):
                pc = b_or(pc, e[3])
        return pc, v

    def decide(key, what, f, want, wantpanic=FALSE, signed=("mu",)):
        c.obl += 1
        try:
            pc, v = panics(f)
        except (Missing, Unsupported) as e:
            c.fail(key, "%s: %s: %s" % (what, type(e).__name__, e))
            return
        sg = dag.SIGNED - {"mu", "m"}
        c.same(what + " (panics otherwise than documented)", ite(pc, ONE, ZERO), ite(wantpanic, ONE, ZERO), "panic:" + key, signed=sg)
        if want is not None:
            v = to_node(v)
            c.same(what, ite(wantpanic, ZERO, v), ite(wantpanic, ZERO, want), key, signed=sg)

    # ---- critical temperature: the first maximiser
    fct = B + "find_critical_temperature"
    for n in range(0, top + 1):
        ts = Seq([T(i) for i in range(n)])
        ds = Seq([atom("d%d" % i) for i in range(n)])
        want = None
        if n:
            want, best = T(0), atom("d0")
            for i in range(1, n):
                g = lt(best, atom("d%d" % i))
                want, best = ite(g, T(i), want), ite(g, atom("d%d" % i), best)
        decide("tc:%d" % n, "find_critical_temperature of %d points is not the first maximiser" % n, lambda: c.call(fct, [ts, ds]),
               want, FALSE if n else TRUE)
    # ---- reduction
    red = B + "reduce_phase_boundary"

    def boundary(n, zeros=()):
        return [Agg("tuple", [mu(i), ZERO if i in zeros else T(i)]) for i in range(n)]
    for n in range(0, top + 1):
        for z in [()] + [(i,) for i in range(n)] + [(i, n - 1) for i in range(n - 1)]:
            b = boundary(n, z)
            keep = b[:min(z)] if z else b
            key = "%d:%s" % (n, ".".join(map(str, z)))
            decide("reduce:" + key, "reduce_phase_boundary does not keep exactly the points before the first Tc = 0",
                   lambda: c.call(red, [Seq(b)]), to_node(Seq(keep)))
    # ---- phase of a point
    dec = B + "is_deconfined_phase"
    m, t = atom("mu"), atom("T")
    for n in range(1, top + 1):
        for extra in ("", "zero", "zeros", "beyond"):
            pts = boundary(n)
            tail = {"": [], "zero": [(n, ZERO)], "zeros": [(n, ZERO), (n + 1, ZERO)], "beyond": [(n, ZERO), (n + 1, T(n + 1))]}[extra]
            full = pts + [Agg("tuple", [mu(i), x]) for i, x in tail]
            want = TRUE
            for i in reversed(range(1, n)):
                tc = add(T(i - 1), mul(div(sub(T(i), T(i - 1)), sub(mu(i), mu(i - 1))), sub(m, mu(i - 1))))
                want = ite(eq(m, mu(i)), lt(T(i), t), ite(lt(m, mu(i)), lt(tc, t), want))
            want = ite(eq(m, mu(0)), lt(T(0), t), want)
            for tt, lab in ((t, "T"), (ZERO, "0")) + tuple((T(i), "T%d" % i) for i in range(n)):
                for mm, ml in ((m, "mu"),) + tuple((mu(i), "mu%d" % i) for i in range(n)):
                    for pl in ((), (1,)) if n > 1 else ((),):
                        sub_ = {x.id: y for x, y in ((t, tt), (m, mm)) if x is not y}
                        from values import rebuild
                        w = rebuild(want, sub_)
                        if pl:       # a plateau of the boundary
                            w = rebuild(w, {T(1).id: T(0)})
                        k = "deconfined:%d%s:%s:%s%s" % (n, extra, lab, ml, ":plateau" if pl else "")
                        if extra and (pl or ml != "mu" or lab not in ("T", "0")):
                            continue
                        rb = lambda v: map_nodes(v, lambda x: rebuild(x, {T(1).id: T(0)})) if pl else v
                        decide(k, "is_deconfined_phase(%s, %s) on %d points%s is not the side of the interpolated boundary" % (
                            ml, lab, n, " with a plateau" if pl else ""),
                               lambda: c.call(dec, [mm, rebuild(tt, {T(1).id: T(0)}) if pl else tt, Seq([rb(x) for x in full])]),
                               ite(w, ONE, ZERO), lt(mm, mu(0)))
    # ---- the fitted polynomial
    par = B + "parametric_phase_diagram"
    for n in range(1, top + 2) if par in P else ():
        want = ZERO
        for i in range(n):
            want = add(want, mul(atom("p%d" % i), powi(atom("mu"), i)))
        decide("fit:%d" % n, "the parametrised boundary is not the polynomial of its %d parameters" % n,
               lambda: c.call(par, [atom("mu"), Seq([atom("p%d" % i) for i in range(n)])], tyenv={"T": "f64"}), want)
    fit(c, top, T, mu)


def fit(c, top, T, mu):
    """what parametrize_phase_boundary fits, with which model, and what it plots"""
    Pm = c.programs = Programs(c.flow)
    F = c.flow
    poly = lambda x, ps: (lambda r: [r := add(r, mul(p, powi(x, i))) for i, p in enumerate(ps)][-1])(ZERO)
    path = text(Str("PATH"))
    for n in range(2, top + 2):
        for order in (1, 3):
            key = "fit:%d:%d" % (n, order)
            for plot in (None, path):
                Pm.out, Pm.fits = [], []
                pb = Seq([Agg("tuple", [mu(i), T(i)]) for i in range(n)] + [Agg("tuple", [mu(n), ZERO]), Agg("tuple", [mu(n + 1), T(n + 1)])])
                F.events.clear()
                try:
                    v = c.call(B + "parametrize_phase_boundary", [pb, const(order), some(plot) if plot else NONE])
                except (Unsupported, Diverge) as e:
                    c.obl += 1
                    c.fail(key, "the boundary cannot be fitted: %s: %s" % (type(e).__name__, e))
                    break
                c.same("fitting a boundary of %d points panics" % n, ite(panic_cond(c), ONE, ZERO), ZERO, key + ":panic")
                if not c.ok(len(Pm.fits) == 1 and Pm.fits[0][1] is TRUE, key + ":once", "%d fits are made" % len(Pm.fits)):
                    continue
                o = Pm.fits[0][0]
                same_list(c, key + ":result", "the parameters returned", v, [uf("fitted", const(k)) for k in range(order + 1)])
                mat = F.I.deref(o.f[0])
                vec, r, cols, shape = mat.f
                want = [mu(i) for i in range(n)] + [T(i) for i in range(n)]
                if isinstance(shape, Agg) and shape.vn == "Row":
                    want = [x for i in range(n) for x in (mu(i), T(i))]
                same_list(c, key + ":data", "the data fitted", vec, want)
                c.ok(to_node(r) is const(n) and to_node(cols) is const(2), key + ":shape", "the data is not one row per point of the reduced boundary")
                ps = [atom("p%d" % k) for k in range(order + 1)]
                xs = [atom("x0"), atom("x1")]
                m = F.apply(o.f[1], [Seq(xs), Seq([Agg("ad", [x], "ad") for x in ps])])
                m = F.I.deref(m.f[0]) if isinstance(m, Agg) and m.adt == OPTION and m.var else m
                if c.ok(isinstance(m, Seq) and m.lit is not None and len(m.lit) == 2, key + ":model", "the model has not one value per point"):
                    for x, y in zip(xs, m.lit):
                        c.same("the model fitted is not the polynomial of its parameters", to_node(y.f[0]), poly(x, ps), key + ":model", signed=dag.SIGNED - {"mu", "m"})
                fs, plots, bad = files([x for x in Pm.out if x[0] != "mkdir"] + [])
                c.ok(not fs and len(plots) == (1 if plot else 0), key + ":plots", "%d plots are saved" % len(plots))
                for nm, pl in plots.items():
                    c.ok(nm == "PATH", key + ":path", "the fit is plotted to %s" % nm)
                    same_list(c, key + ":domain", "abscissae of the plot of the fit", pl.f[1], [mu(i) for i in range(n)])
                    im = pl.f[0].lit
                    if c.ok(len(im) == 2, key + ":curves", "the plot of the fit has %d curves" % len(im)):
                        same_list(c, key + ":points", "points in the plot of the fit", im[0], [T(i) for i in range(n)])
                        same_list(c, key + ":curve", "the fitted curve", im[1], [poly(mu(i), [uf("fitted", const(k)) for k in range(order + 1)]) for i in range(n)])
