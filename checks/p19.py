from checks.lib import *

FLOOR = 800
RULE = ("no panicking construct (assert, unwrap, index, checked arithmetic) is reachable from a public function or an exported "
        "C symbol, except exactly under the documented conditions")
EXPLANATION = ("gated effect analysis: every panic site reachable from each entry point with the condition under which it is reached, "
               "against the documented conditions")
SETS = {"consts::set_default_tol_integral": "tol", "consts::set_matsubara_reg": "reg"}
CP = "qcd::thermal::quark::chemical_potential"


def panics(c, f):
    F = c.flow
    F.events.clear()
    try:
        v = f()
    except Diverge:
        return TRUE, ["always"], None
    pc, sites = FALSE, []
    for kind, site, node, cond in F.events.values():
        if kind in ("panic", "check"):
            pc = b_or(pc, cond)
            sites.append(site.replace("qcd_sme::", ""))
    return pc, sites, v


def run(c):
    def decide(k, f, label=None):
        label = label or k
        key = "panic:" + label
        c.obl += 1
        try:
            pc, sites, v = panics(c, f)
        except (Missing, Unsupported) as e:
            c.fail(key, "%s: %s: %s" % (label, type(e).__name__, e))
            return
        if k in SETS:
            want = b_not(lt(ZERO, atom(SETS[k])))
        elif k.startswith(CP) and "zero_temp" not in k:
            n = atom("n")
            roots = [x for x in nodes_of(to_node(v)) if x.op == "root"]
            want = FALSE
            if roots:
                want = b_and(b_not(eq(ZERO, n)), b_not(uf("found", roots[0])))
                c.obl += 1
                g = roots[0].args[1].args
                c.same("%s searches from two equal guesses, which find_root rejects" % label,
                       ite(b_or(eq(*g), eq(ZERO, n)), ONE, ZERO), ite(eq(ZERO, n), ONE, ZERO), "guesses:" + label)
        else:
            c.ok(not sites or pc is FALSE, key, "%s can panic (in %s)" % (label, ", ".join(sorted(set(sites))[:3])))
            return
        if not congruent(ite(pc, ONE, ZERO), ite(want, ONE, ZERO), seed0=1000 * c.seed,
                         signed=SIGNED | set(SETS.values()))[0]:
            c.fail(key, "%s does not panic exactly when documented (%s)" % (label, ", ".join(sorted(set(sites))[:3])))

    for k in FNS:
        if k == "utils::find_root":
            continue
        decide(k, lambda: c.raw(k) if "config" not in args(k) else c.raw(k, config=c.config()))
    names = {}
    for n, b in c.P.bodies.items():
        if b.get("no_mangle") or b.get("export_name"):
            names[b.get("export_name") or n.rsplit("::", 1)[1]] = n
    for sym, sp in API["ffi"].items():
        if sp["path"].startswith("qcd_sme::consts::"):
            continue
        n = names.get(sym)
        if not c.ok(n is not None, "symbol:" + sym, "symbol %s is not exported" % sym):
            continue
        a = [atom(x[0]) for x in FNS[ALIAS(sp["native"])]["args"]] if ALIAS(sp["native"]) in FNS else None
        decide(sp["native"], lambda: c.call(n, a), "ffi " + sym)
    # find_root: at a fixed number of iterations, panics exactly for equal guesses or a tolerance <= 0
    fr = c.name("utils::find_root")
    for it in (0, 2):
        pc, sites, _ = panics(c, lambda: c.call(fr, [atom("fn"), Agg("tuple", [atom("z0"), atom("z1")]), atom("tol"), const(it)],
                                                tyenv={"T": "num::Complex<f64>", "F": "F"}))
        want = b_or(eq(atom("z0"), atom("z1")), b_not(lt(ZERO, atom("tol"))))
        c.same("find_root does not panic exactly for equal guesses or a tolerance <= 0", ite(pc, ONE, ZERO), ite(want, ONE, ZERO),
               "find_root:%d" % it, signed=SIGNED | {"tol"})
