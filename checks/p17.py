from checks.lib import *
from values import rebuild

FLOOR = 20
RULE = ("with the iteration loop unrolled n times: the result is the first secant iterate z with |f(z)| < tol, together with f(z); "
        "nothing after n iterations or once f is not a number; panics exactly for equal guesses or tol <= 0")
EXPLANATION = ("gated value graph of the root search with its loop unrolled for n = 0..5 (thorough: 0..8) iterations on an "
               "uninterpreted function and arbitrary guesses, against the secant recursion")


def reference(n, tol, nan):
    """(found, z, f(z)) of the documented algorithm"""
    f = lambda z: mk("app", (atom("fn"), z))

    def R(n, z0, z1, f0, f1):
        if n == 0:
            return NONE
        hit = lt(absn(f1), tol)
        z2 = sub(z1, mul(f1, div(sub(z1, z0), sub(f1, f0))))
        rest = R(n - 1, z1, z2, f1, f(z2))
        r = VIte(hit, some(Agg("tuple", [z1, f1])), rest)
        return VIte(nan(f1), NONE, r) if nan else r
    z0, z1 = atom("z0"), atom("z1")
    return to_node(R(n, z0, z1, f(z0), f(z1)))


def is_nan(x):
    return b_or(uf("is_nan", re(x)), uf("is_nan", im(x)))


def nan_false(v):
    return rebuild(v, {x.id: FALSE for x in nodes_of(v) if x.op == "uf" and x.data == "is_nan"})


def masked(v, tol):
    """a comparison with a number that is not one is false"""
    v = rebuild(v, {x.id: is_nan(x.args[0].args[0]) for x in nodes_of(v)
                    if x.op == "uf" and x.data == "is_nan" and x.args[0].op == "abs"})
    return rebuild(v, {x.id: b_and(b_not(is_nan(x.args[0].args[0])), x) for x in nodes_of(v)
                       if x.op == "lt" and x.args[0].op == "abs" and x.args[1] is tol})


def counts(c, fr):
    """numbers of iterations the search could treat specially: the counters its body, its closures and its helpers mention"""
    out, todo, seen = set(), [fr], set()

    def consts(x):
        if isinstance(x, dict):
            k = x.get("c")
            if isinstance(k, dict) and "bits" in k and k.get("ty") in ("usize", "isize", "u64", "i64", "u32"):
                out.add(int(k["bits"]))
            if "fnref" in x:
                r = x["fnref"]
                todo.extend(n for n in (r.get("res"), r.get("fn")) if n in c.P.bodies)
            for y in x.values():
                consts(y)
        elif isinstance(x, list):
            for y in x:
                consts(y)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(m for m in c.P.bodies if m.startswith(n + "::{closure"))
        consts(c.P.bodies[n]["blocks"])
    return sorted(x for x in out if 2 <= x <= 4096)


def late(v, n, keep=2):
    """the value in case the first n - keep iterates are no roots"""
    depth, hits = {}, {}
    st = [v]
    while st:
        x = st[-1]
        if x.id in depth:
            st.pop()
            continue
        more = [y for y in x.args if y.id not in depth]
        st += more
        if not more:
            depth[st.pop().id] = max([depth[y.id] for y in x.args] or [0]) + (x.op == "app")
    for x in nodes_of(v):
        if x.op == "lt" and x.args[0].op == "abs":
            hits.setdefault(depth[x.args[0].id], []).append(x)
    return rebuild(v, {x.id: FALSE for d in sorted(hits)[:max(n - keep, 0)] for x in hits[d]})


def run(c):
    tol = atom("tol")
    fr = c.name("utils::find_root")

    def val(n, T):
        c.flow.events.clear()
        return to_node(c.call(fr, [atom("fn"), Agg("tuple", [atom("z0"), atom("z1")]), tol, const(n)], tyenv={"T": T, "F": "F"}))
    top = 9 if c.tier == "thorough" else 6
    for T in ("f64", "num::Complex<f64>"):
        cx = ("z0", "z1") if T != "f64" else ()
        for n in range(top):
            c.eqv("secant:%s:%d" % (T, n), "find_root at %d iterations is not the secant method" % n,
                  lambda: nan_false(val(n, T)), lambda: reference(n, tol, None), cplx=cx, need=600 if n < 6 else 4000)
            pc = FALSE
            for e in c.flow.events.values():
                if e[0] in ("panic", "check"):
                    pc = b_or(pc, e[3])
            want = b_or(eq(atom("z0"), atom("z1")), b_not(lt(ZERO, tol)))
            c.same("find_root at %d iterations does not panic exactly for equal guesses or a tolerance <= 0" % n,
                   ite(pc, ONE, ZERO), ite(want, ONE, ZERO), "panic:%s:%d" % (T, n), signed=SIGNED | {"tol"})
            if n < 4:
                c.eqv("nan:%s:%d" % (T, n), "find_root at %d iterations does not stop where f is not a number" % n,
                      lambda: masked(val(n, T), tol), lambda: masked(reference(n, tol, is_nan), tol), cplx=cx, need=1500)
    # beyond: wherever the iterations allowed or made are compared with a number, the searches around that many
    for k in counts(c, fr)[:4]:
        for n in (k, k + 1, k + 2):
            if n >= top:
                c.flow.max_early = n + 2
                c.eqv("late:%d" % n, "find_root at %d iterations is not the secant method" % n,
                      lambda: late(nan_false(val(n, "f64")), n), lambda: late(reference(n, tol, None), n), need=200)
    # a returned pair is (z, f(z)), and the search extends: more iterations never change a root already found
    for n in range(2):
        r = val(n + 1, "num::Complex<f64>")
        s = val(n, "num::Complex<f64>")
        hits = [x for x in nodes_of(s) if x.op == "lt" and x.args[0].op == "abs"]
        for h in hits:
            sub_ = {h.id: TRUE}
            sub_.update({x.id: FALSE for x in nodes_of(r) if x.op == "uf" and x.data == "is_nan"})
            c.same("a root found within %d iterations changes with more iterations" % n, rebuild(r, sub_), rebuild(s, sub_),
                   "stable:%d" % n)
