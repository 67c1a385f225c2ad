from checks.lib import *

FLOOR = 234
RULE = ("for every exported C symbol: it is still exported unmangled with the C calling convention and the frozen "
        "argument list, and its value graph is congruent to that of its Rust function (instantiated at the "
        "same real/complex types) with the arguments passed by position")
EXPLANATION = "global value numbering of both members of each pair of functions, all symbols of the C interface"


def run(c):
    names = {}
    for n, b in c.P.bodies.items():
        if b.get("no_mangle") or b.get("export_name"):
            names.setdefault(b.get("export_name") or n.rsplit("::", 1)[1], []).append(n)
    for sym, sp in API["ffi"].items():
        key = "ffi:" + sym
        c.obl += 1
        if sp["path"].startswith("qcd_sme::consts::"):
            cand = names.get(sym)
            if not cand:
                c.fail(key, "symbol %s is not exported" % sym)
            continue
        cand = names.get(sym)
        if not cand:
            c.fail(key, "symbol %s is not exported" % sym)
            continue
        n = cand[0]
        b = c.P.bodies[n]
        tys = [a[1] for a in sp["args"]]
        have = [l["ty"] for l in b["locals"][1:1 + b["argc"]]] if isinstance(b["locals"][0], dict) else b["locals"][1:1 + b["argc"]]
        if have != tys or "C" not in b.get("abi", "C"):
            c.fail(key, "interface of %s changed: %s -> %s" % (sym, tys, have))
            continue
        nat = sp["native"]
        try:
            names_ = [a[0] for a in FNS[ALIAS(nat)]["args"]]
            nty = [a[1] for a in FNS[ALIAS(nat)]["args"]]
            vals = [atom(x) for x in names_]
            tyenv = {t: u for t, u in zip(nty, tys) if t.startswith("T")}
            fv = to_node(c.call(n, vals))
            nv = to_node(c.call(nat, vals, tyenv=tyenv))
            c.same("%s differs from %s" % (where(c.P, n), nat), fv, nv, key)
        except (Missing, Unsupported, Diverge) as e:
            c.fail(key, "%s: %s" % (sym, e))
