"""oracle side of the program checks: texts, files, plots"""
from checks.lib import *
import programs
from programs import Programs, text, fnum, show, literal, files, OK, ERR
from values import rebuild
import re as _re
from fractions import Fraction as Fr
from mirflow import State, Diverge, Unsupported

QG = "qcd_sme::qcd::thermal::gluon::"
YM_T = "qcd_sme::ym::thermal::gluon::propagator_l_landau"


def positive(c):
    """masses, temperatures, chemical potentials are positive: no sign cases"""
    same = c.same
    c.same = lambda *a, **kw: same(*a, **dict({"signed": frozenset()}, **kw))


def opaque_propagators(c):
    """propagators stay uninterpreted, their value depends on the arguments and, for one quark mass, on the number of fermions set"""
    F = c.flow
    ops = [n for n in c.P.bodies if n.startswith("qcd_sme::") and _re.search(r"::propagator_\w+$", n)]
    nfget = c.name("consts::get_number_of_fermions")

    def mkop(n):
        def f(a, fr):
            nf = [] if "::ym::" in n or "_w_field_config" in n else [F.call(nfget, [])]
            return uf("call:" + n, *(nf + [to_node(F.I.deref(x)) for x in a]))
        return f
    for n in ops:
        F.I.local[n] = mkop(n)
    c.note_opaque = len(ops)


def prop(c, name, *a):
    """the value of a propagator at the given arguments"""
    if name not in c.flow.I.local:
        raise Missing(name)
    c.flow.state = State()
    c.flow.state.st = dict(c.st0)
    return c.flow.I.local[name](list(a), None)


def lines(*rows):
    out = []
    for r in rows:
        for k, x in enumerate(r):
            if k:
                out.append(Str("\t"))
            out.append(x)
        out.append(Str("\n"))
    return text(*out)


def num(x, prec=None):
    return fnum(to_node(x), prec)


def same_text(c, key, what, got, want, **kw):
    """obligation: two texts are equal"""
    c.obl += 1
    if isinstance(got, VIte) or got is None:
        return c.fail(key, what + " (conditional or missing)")
    g, w = got.f, want.f
    if len(g) != len(w):
        return c.fail(key, "%s: %s instead of %s" % (what, show(got)[:160], show(want)[:160]))
    for x, y in zip(g, w):
        if isinstance(x, Str) != isinstance(y, Str):
            return c.fail(key, "%s: %s instead of %s" % (what, show(got)[:160], show(want)[:160]))
        if isinstance(x, Str):
            if x.s != y.s:
                return c.fail(key, "%s: text '%s' instead of '%s'" % (what, x.s[:80], y.s[:80]))
        elif x.adt != y.adt:
            return c.fail(key, "%s: formatted %s instead of %s" % (what, x.adt, y.adt))
        elif to_node(x) is not to_node(y):
            if not c.same(what, to_node(x.f[0]), to_node(y.f[0]), key, **kw):
                return
    return


def same_list(c, key, what, got, want, **kw):
    got = got.f[0] if isinstance(got, Agg) and got.adt == OPTION and got.f else got
    if not isinstance(got, Seq) or got.lit is None or len(got.lit) != len(want):
        return c.ok(False, key, "%s: %s values instead of %d" % (what, len(got.lit) if isinstance(got, Seq) and got.lit is not None else "no",
                                                                 len(want)))
    for i, (x, y) in enumerate(zip(got.lit, want)):
        if not c.same("%s, entry %d" % (what, i), to_node(x), to_node(y), "%s:%d" % (key, i), **kw):
            return


def decide_outputs(c, key, run, want_files, want_plots, **kw):
    """run() produces exactly the wanted files (name text, content) and plots (name text, domain, curves, legends)"""
    Pm = c.programs
    Pm.out = []
    c.flow.events.clear()
    try:
        r = run()
    except (Missing, Unsupported, Diverge) as e:
        c.obl += 1
        c.fail(key, "%s: %s: %s" % (key, type(e).__name__, e))
        return None
    for e in c.flow.events.values():
        if e[0] in ("panic", "check") and e[3] is not FALSE:
            c.same("%s can panic in %s" % (key, e[1]), ite(e[3], ONE, ZERO), ZERO, "%s:panic" % key, **kw)
    fs, plots, bad = files(Pm.out)
    for b in bad:
        c.ok(False, key + ":io", "%s: %s" % (key, b))
    wf = {show(n): v for n, v in want_files}
    wp = {show(p[0]): p for p in want_plots}
    c.ok(set(fs) == set(wf), key + ":files", "%s: files written: unexpected %s, missing %s" % (
        key, sorted(set(fs) - set(wf))[:3], sorted(set(wf) - set(fs))[:3]))
    c.ok(set(plots) == set(wp), key + ":plots", "%s: plots saved: unexpected %s, missing %s" % (
        key, sorted(set(plots) - set(wp))[:3], sorted(set(wp) - set(plots))[:3]))
    for n in sorted(set(fs) & set(wf)):
        same_text(c, "%s:%s" % (key, n), "content of %s" % n, fs[n], wf[n], **kw)
    for n in sorted(set(plots) & set(wp)):
        p, (_, dom, curves, legends) = plots[n], wp[n]
        same_list(c, "%s:%s:domain" % (key, n), "abscissae of plot %s" % n, p.f[1], dom, **kw)
        im = p.f[0].lit
        c.ok(len(im) == len(curves), "%s:%s:curves" % (key, n), "plot %s has %d curves instead of %d" % (n, len(im), len(curves)))
        for i, (x, y) in enumerate(zip(im, curves)):
            same_list(c, "%s:%s:curve%d" % (key, n, i), "curve %d of plot %s" % (i, n), x, y, **kw)
        if legends is not None:
            lg = p.f[3].f[0] if p.f[3].var else Seq([])
            ok = isinstance(lg, Seq) and lg.lit is not None and len(lg.lit) == len(legends)
            c.ok(ok, "%s:%s:legend" % (key, n), "plot %s does not label each curve" % n)
            if ok:
                for i, (x, y) in enumerate(zip(lg.lit, legends)):
                    same_text(c, "%s:%s:legend%d" % (key, n, i), "legend %d of plot %s" % (i, n), Pm.txt(x), y, **kw)
    return r


def panic_cond(c):
    pc = FALSE
    for e in c.flow.events.values():
        if e[0] in ("panic", "check"):
            pc = b_or(pc, e[3])
    return pc


PT = "physical_tc::"


def stages(c):
    """functions of the program, other than methods, that work on a configuration"""
    return [n for n, b in c.P.bodies.items() if n.startswith(PT) and "::{" not in n and b.get("kind") == "Fn" and b["argc"] == 1
            and _re.search(r"\bConfig\b", (b.get("sig_in") or [""])[0])]


def run_main(c, source, hooked=True, local_hooks=None, result=False):
    """events of main: what it saves, reads and computes.  source: None (no file), ERR (malformed) or the data in it"""
    Pm, F = c.programs, c.flow
    Pm.out, Pm.ops = [], []
    log = []
    F.events.clear()
    h = Pm.hooks
    h.clear()
    local = dict(F.I.local)
    h["std::env::args"] = lambda a, fr: Seq([text(Str("prog")), text(Str("CONFIG"))])

    def opened(a, fr):
        log.append(("open", Pm.txt(a[0]), F.pathcond()))
        return ERR(UNIT) if source is None else OK(Agg("reader", [], "reader"))
    h["std::fs::File::open"] = opened
    h["serde_yml::from_reader"] = lambda a, fr: ERR(UNIT) if source is ERR else OK(source)
    h["serde_yml::from_str"] = h["serde_yml::from_reader"]

    def read_text(a, fr):
        opened(a, fr)
        return ERR(UNIT) if source is None else OK(text(Str("YAML")))
    h["std::fs::read_to_string"] = read_text

    def save(target, v):
        log.append(("save", show(target.f[0]) if isinstance(target, Agg) and target.kind == "file" else str(target), F.I.deref(v), F.pathcond()))
        return Pm.io("write", target.f[0], text(Str("CONFIG")))

    def writer(a, fr):
        f = a[0]
        while isinstance(f, MutRef):
            f = F.I.deref(f)
        return save(f, a[1])
    h["serde_yml::to_writer"] = writer
    h["serde_yml::to_string"] = lambda a, fr: OK(text(Agg("fmt", [to_node(F.I.deref(a[0]))], "fmt:yaml:")))

    def stage(n, out):
        def f(a, fr):
            v = F.I.deref(a[0])
            log.append(("stage", n[len(PT):], v, F.pathcond()))
            return UNIT if out == "()" else uf("result of " + n, to_node(v))
        return f
    if hooked:
        for n in stages(c):
            F.I.local[n] = stage(n, c.P.bodies[n]["sig_out"])
        F.I.local["tc_long_prop::reduce_phase_boundary"] = lambda a, fr: uf("reduced", to_node(F.I.deref(a[0])))
    F.I.local.update(local_hooks or {})
    F.I.local["tc_long_prop::parametrize_phase_boundary"] = lambda a, fr: uf("fit", *[to_node(F.I.deref(x)) for x in a])
    try:
        r = c.call(PT + "main", [])
    finally:
        F.I.local.clear()
        F.I.local.update(local)
        h.clear()
    return r if result else log


def arbitrary(shape):
    """a configuration of the given shape with arbitrary contents"""
    def f(v, path):
        if isinstance(v, Node):
            return atom("cfg." + path)
        if isinstance(v, Agg):
            return Agg(v.kind, [f(x, "%s%s" % (path + "." if path else "", (v.names or range(len(v.f)))[i])) for i, x in enumerate(v.f)], v.adt, v.var, v.vn, v.names)
        raise Unsupported("configuration field %r" % (v,))
    return f(shape, "")
