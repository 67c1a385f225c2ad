from checks.lib import *
import re as rx

FLOOR = 300
RULE = ("effect system over the whole library: no function but the six setters reaches a write to process-wide memory, none reaches "
        "an input/output, environment, process, thread, time, random or synchronisation routine, and no static has interior mutability")
EXPLANATION = ("effect analysis: writes to statics under any path of each entry point (gated value graph), external callees of every body "
               "of the library, types of all statics")
DENY = rx.compile(r"^(std|core|alloc)::(io|fs|env|process|thread|time|net|os|sync|cell|ptr|intrinsics)::|_print$|_eprint$|"
                  r"^<?(std|core|alloc)::(cell|sync|thread|io|fs)|rand::|getrandom|RandomState|libc::|thread_local|LocalKey|"
                  r"^log::|lazy_static|once_cell|transmute|set_hook|read_volatile|write_volatile")
# hints and pointer arithmetic without an effect
FINE = rx.compile(r"intrinsics::(likely|unlikely|cold_path|assume|mul_with_overflow|abort)|ptr::(null|NonNull)")
CELL = rx.compile(r"Cell<|Atomic|Mutex|RwLock|Once|Lazy|LocalKey")


def callees(b):
    for bl in b["blocks"]:
        t = bl["term"]
        if t and t.get("t") == "call":
            f = t["f"].get("c", {}).get("fnref")
            if f:
                yield f["fn"], f.get("local"), t.get("ln", 0)
        for s in bl["st"]:
            # function items taken as values
            for m in rx.finditer(r"'fnref': \{'fn': '([^']+)'", str(s)):
                yield m.group(1), False, s.get("ln", 0)


def run(c):
    F = c.flow
    setters = {c.name("consts::" + f) for f in c.SETTERS.values()}
    # external callees of every body
    n = 0
    for name, b in sorted(c.P.bodies.items()):
        if b.get("krate") != "qcd_sme" or "::tests::" in name:
            continue
        n += 1
        bad = sorted({(f, ln) for f, loc, ln in callees(b) if DENY.search(f) and not FINE.search(f)
                      # plain reads and writes through pointers are followed by the value graphs (only the settings module may)
                      and not (name.startswith("qcd_sme::consts::") and rx.search(r"ptr.*::(read|write)$", f))})
        c.ok(not bad, "effect:" + name, "%s calls %s" % (where(c.P, name), ", ".join("%s (line %s)" % x for x in bad[:3])))
    c.ok(n > 500, "bodies", "only %d bodies in the library" % n)
    # statics: plain data
    for s, d in sorted(c.P.statics.items()):
        if s.startswith("qcd_sme::"):
            c.ok(not CELL.search(str(d.get("ty"))), "static:" + s, "%s has interior mutability: %s" % (s, d.get("ty")))
    # writes to statics
    names = {}
    for nm, b in c.P.bodies.items():
        if b.get("no_mangle") or b.get("export_name"):
            names[b.get("export_name") or nm.rsplit("::", 1)[1]] = nm

    def decide(label, f, setter):
        c.obl += 1
        F.events.clear()
        try:
            f()
        except Diverge:
            pass
        except (Missing, Unsupported) as e:
            c.fail("write:" + label, "%s: %s: %s" % (label, type(e).__name__, e))
            return
        w = sorted({e[1] for e in F.events.values() if e[0] == "static-write"})
        if not setter and w:
            c.fail("write:" + label, "%s writes process-wide memory: %s" % (label, ", ".join(w)))
    for k in FNS:
        if k == "utils::find_root":
            decide(k, lambda: c.call(k, [atom("fn"), Agg("tuple", [atom("z0"), atom("z1")]), atom("tol"), const(3)],
                                     tyenv={"T": "num::Complex<f64>", "F": "F"}), False)
            continue
        decide(k, lambda: c.raw(k) if "config" not in args(k) else c.raw(k, config=c.config()),
               k.startswith("consts::") and c.pub.get(k) in setters)
    for sym, sp in API["ffi"].items():
        if sp["path"].startswith("qcd_sme::consts::"):
            continue
        nm = names.get(sym)
        if c.ok(nm is not None, "symbol:" + sym, "symbol %s is not exported" % sym):
            decide("ffi " + sym, lambda: c.call(nm, [atom(x[0]) for x in FNS[ALIAS(sp["native"])]["args"]]), False)
    # the same arguments give the same result in any order of calls: a second evaluation in the same state is the same graph
    for k in ("qcd::gluon::dressing_inv_landau", "qcd::thermal::gluon::dressing_l_inv_landau"):
        c.eqv("again:" + k, k + " gives another value when called again", lambda: c.v(k), lambda: c.v(k, flow=c.new_flow()))
