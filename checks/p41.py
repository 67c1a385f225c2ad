from checks.lib import *
import re as rx

SHARED = rx.compile(r"Cell<|Atomic|Mutex|RwLock|Once(Lock|Cell)|LocalKey")
FLOOR = 700
RULE = ("no library function but the setters calls one; no body reachable from a closure or function handed to a parallel iterator or thread writes a mutable static or calls a setter; "
        "mutable statics are named by nothing but the settings module, no other static of the library has interior mutability; nothing else is unsafe (no raw dereference, unchecked access, "
        "transmutation); no thread outlives the call that started it")
EXPLANATION = ("call graph over the compiler's MIR of the library, its C symbols and the three programs (closures, function values, trait "
               "methods by implementation), points-to of static pointers per body, roots = everything given to rayon or std::thread")
PAR = rx.compile(r"\brayon|std::thread::|crossbeam|tokio|threadpool")
DETACH = rx.compile(r"thread::(functions::)?spawn$|thread::Builder.*spawn|rayon(_core)?::(spawn|spawn_fifo|spawn_broadcast)|Scope.*::spawn")
UNCHECKED = rx.compile(r"_unchecked|transmute|from_raw|::assume_init|zeroed$|^(std|core)::ptr::|::read_volatile|::write_volatile|"
                       r"slice_from_raw|::set_len$|unreachable_unchecked|static_mut_ref|UnsafeCell|::as_mut_ptr$")
# expansions of vec! and format! (the compiler's own) and pointers that are only made
COMPILER = rx.compile(r"box_assume_init_into_vec_unsafe|box_uninit|fmt::|^alloc::|vec::from_elem|ptr::(null|NonNull|drop_in_place|addr_eq|eq)")
VECBOX = rx.compile(r"^\*(const|mut) (std|core)::mem::MaybeUninit<")


def fnrefs(b):
    """(fnref, term or None, line) for every function named in the body"""
    for bl in b["blocks"]:
        t = bl["term"]
        if t and t.get("t") == "call":
            f = t["f"].get("c", {}).get("fnref") if t["f"].get("o") == "const" else None
            if f:
                yield f, t, t.get("ln", 0)
            for a in t.get("args", []):
                f = a.get("c", {}).get("fnref") if a.get("o") == "const" else None
                if f:
                    yield f, None, t.get("ln", 0)
        for s in bl["st"]:
            yield from ((f, None, s.get("ln", 0)) for f in deep(s))


def deep(x):
    if isinstance(x, dict):
        if isinstance(x.get("fnref"), dict):
            yield x["fnref"]
        for y in x.values():
            yield from deep(y)
    elif isinstance(x, list):
        for y in x:
            yield from deep(y)


def closures(x):
    if isinstance(x, dict):
        if x.get("r") == "agg" and x.get("kind") == "closure":
            yield x["def"]
        for y in x.values():
            yield from closures(y)
    elif isinstance(x, list):
        for y in x:
            yield from closures(y)


class Graph:
    def __init__(self, c):
        self.B = {n: b for n, b in c.P.bodies.items() if "::tests::" not in n}
        self.by_dp = {}
        self.method = {}
        for n, b in self.B.items():
            self.by_dp.setdefault(b.get("dp", n), []).append(n)
            self.method.setdefault(n.rsplit("::", 1)[-1], []).append(n)
        self.at = {}
        for n, b in self.B.items():
            if "{closure#" in n:
                self.at.setdefault((b["file"].split("/src/")[-1], b["line"]), []).append(n)

    def targets(self, f):
        out = []
        for k in ("res_dp", "dp", "res", "fn"):
            if f.get(k) in self.by_dp:
                out = self.by_dp[f[k]]
                break
            if f.get(k) in self.B:
                out = [f[k]]
                break
        if not out and f.get("trait"):
            # a method of a trait, resolved no further: any implementation in the workspace
            m = f["fn"].rsplit("::", 1)[-1]
            out = [n for n in self.method.get(m, []) if n.startswith("<") or " as " in n or "::{impl" in n]
        return out

    def edges(self, n):
        b = self.B[n]
        out = set()
        for f, t, ln in fnrefs(b):
            out.update(self.targets(f))
        out.update(d for bl in b["blocks"] for d in closures(bl["st"]) if d in self.B)
        return out

    def reach(self, roots):
        way, todo = {r: None for r in roots}, list(roots)
        while todo:
            n = todo.pop()
            for m in self.edges(n):
                if m not in way:
                    way[m] = n
                    todo.append(m)
        return way

    def path(self, way, n):
        out = []
        while n is not None:
            out.append(n)
            n = way[n]
        return " <- ".join(out)


def statics_of(b):
    """(writes, reads): mutable statics the body accesses through pointers to them"""
    pt, wr, rd = {}, set(), set()
    change = True

    def of(op):
        if op.get("o") == "const":
            s = op.get("c", {}).get("static")
            return {s} if s and op["c"].get("static_mut") else set()
        pl = op.get("pl")
        return pt.get(pl["l"], set()) if pl else set()
    while change:
        change = False
        for bl in b["blocks"]:
            for s in bl["st"]:
                rv, pl = s.get("rv"), s.get("pl")
                if not rv or not pl:
                    continue
                src = set()
                if rv.get("r") in ("use", "cast"):
                    src = of(rv["a"]) if not (rv["a"].get("pl") or {}).get("p") else set()
                elif rv.get("r") in ("ref", "rawptr", "addr", "raw") and rv.get("pl", {}).get("p", [None])[:1] == ["*"]:
                    src = pt.get(rv["pl"]["l"], set())
                if src and not pl["p"] and not src <= pt.setdefault(pl["l"], set()):
                    pt[pl["l"]] |= src
                    change = True
    for bl in b["blocks"]:
        for s in bl["st"]:
            pl = s.get("pl")
            if pl and pl["p"][:1] == ["*"] and pt.get(pl["l"]):
                wr |= pt[pl["l"]]
        t = bl["term"]
        if t and t.get("t") == "call":
            d = t.get("dst")
            if d and d["p"][:1] == ["*"]:
                wr |= pt.get(d["l"], set())
            f = (t["f"].get("c") or {}).get("fnref") or {}
            for a in t.get("args", []):
                if of(a) and not (a.get("pl") or {}).get("p") and not rx.search(r"ptr::.*read|::read$|clone|fmt", f.get("fn", "")):
                    wr |= of(a)
    rd = {s for x in pt.values() for s in x}
    return wr, rd | wr


def run(c):
    G = Graph(c)
    setters = {c.name("consts::" + f) for f in c.SETTERS.values()}
    acc = {n: statics_of(b) for n, b in G.B.items()}
    for n, b in G.B.items():
        # helpers of the settings module: what they do through a pointer they are given
        if n.startswith("qcd_sme::consts::"):
            for bl in b["blocks"]:
                for s in bl["st"]:
                    pl = s.get("pl")
                    ty = b["locals"][pl["l"]] if pl else ""
                    if pl and pl["p"][:1] == ["*"] and str(ty.get("ty") if isinstance(ty, dict) else ty).startswith("*mut"):
                        acc[n][0].add("(through a pointer)")
    writers = {n: w for n, (w, r) in acc.items() if w}
    lost = sorted(n for n in setters if not (set(G.reach([n])) & set(writers)))
    c.ok(not lost, "setters", "a setter of the settings writes no static: the analysis lost %s" % lost)
    for n, d in sorted(c.P.statics.items()):
        if n.startswith("qcd_sme::") and not n.startswith("qcd_sme::consts::"):
            ty = str(d.get("ty"))
            c.ok(not d.get("mut") and not SHARED.search(ty), "shared:" + n, "%s is mutable memory shared by all calls: %s" % (n, ty))
    # the unsafe surface
    for n, b in sorted(G.B.items()):
        w, r = acc[n]
        lib = n.startswith("qcd_sme::consts::") or b.get("no_mangle") or b.get("export_name")
        c.ok(not r or lib, "static:" + n, "%s accesses the mutable static %s outside the settings module" % (where(c.P, n), ", ".join(sorted(r))))
        bad = []
        tys = [x.get("ty") if isinstance(x, dict) else x for x in b["locals"]]
        for bl in b["blocks"]:
            for s in bl["st"] + ([bl["term"]] if bl["term"] else []):
                for l in derefs(s):
                    if str(tys[l]).startswith("*") and not r and not lib and not VECBOX.match(str(tys[l])):
                        bad.append("dereferences a %s (line %s)" % (tys[l], s.get("ln")))
        for f, t, ln in fnrefs(b):
            if UNCHECKED.search(f["fn"]) and not COMPILER.search(f["fn"]) and not r:
                bad.append("uses %s (line %s)" % (f["fn"], ln))
        c.ok(not bad, "unsafe:" + n, "%s %s" % (where(c.P, n), "; ".join(bad[:2])))
    # anything of the library may be computed in parallel by its users
    for n, b in sorted(G.B.items()):
        if b.get("krate") == "qcd_sme" and n not in setters:
            bad = sorted(m for m in G.edges(n) if m in setters or (m in writers and not n.startswith("qcd_sme::consts::")))
            c.ok(not bad, "calls:" + n, "%s, which may run in parallel, changes process-wide memory: it calls %s" % (
                where(c.P, n), ", ".join(bad[:3])))
    # parallel regions
    roots, regions = {}, 0
    generic = set()
    for n, b in sorted(G.B.items()):
        for f, t, ln in fnrefs(b):
            if not PAR.search(str(f)):
                continue
            regions += 1
            c.ok(not DETACH.search(f["fn"]) and not DETACH.search(f.get("dp") or ""), "detached:" + n,
                 "%s starts a thread with %s (line %s)" % (where(c.P, n), f["fn"], ln))
            txt = " ".join(str(x) for x in f.get("args", [])) + " ".join(str(x) for x in (t or {}).get("argtys", []))
            for m in rx.finditer(r"closure@([^:}]+):(\d+)", txt):
                for k in G.at.get((m.group(1).split("/src/")[-1], int(m.group(2))), []):
                    roots.setdefault(k, (n, ln))
            for m in rx.finditer(r"fn item \{([^}]+)\}|\{([\w:<>]+)\}", txt):
                for k in G.by_dp.get(m.group(1) or m.group(2), []):
                    roots.setdefault(k, (n, ln))
            if rx.search(r"(^|[ ,<])[A-Z]\w?($|[ ,>])", txt) and "closure" not in txt:
                generic.add(n)
    # closures given to a function of ours that hands them on
    for n, b in sorted(G.B.items()):
        for f, t, ln in fnrefs(b):
            if any(k in generic for k in G.targets(f)):
                for m in rx.finditer(r"closure@([^:}]+):(\d+)", str(f.get("args")) + str((t or {}).get("argtys"))):
                    for k in G.at.get((m.group(1).split("/src/")[-1], int(m.group(2))), []):
                        roots.setdefault(k, (n, ln))
    c.ok(regions >= 6 and len(roots) >= 6, "regions", "only %d parallel calls with %d closures were found" % (regions, len(roots)))
    for r in sorted(roots):
        way = G.reach([r])
        bad = [m for m in way if m in writers or m in setters]
        c.ok(not bad, "race:" + r, "%s runs in parallel (%s, line %s) and reaches a write to process-wide memory: %s" % (
            where(c.P, r), roots[r][0], roots[r][1], G.path(way, bad[0]) if bad else ""))
    c.notes.append("%d parallel calls, %d parallel closures, %d writers" % (regions, len(roots), len(writers)))


def derefs(x):
    if isinstance(x, dict):
        if "l" in x and isinstance(x.get("p"), list) and x["p"][:1] == ["*"]:
            yield x["l"]
        for y in x.values():
            yield from derefs(y)
    elif isinstance(x, list):
        for y in x:
            yield from derefs(y)
