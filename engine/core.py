"""Shared by the checks: program access, obligations, evidence, known findings."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract as ex
from mirflow import Program, Flow, State, Unsupported, Diverge  # noqa
from values import *  # noqa
from dag import *  # noqa
import dag

import expr
from expr import E, lift

BASE_ASSUMPTIONS = [
    "real and complex arithmetic is exact (rounding, overflow and NaN are outside the analysis)",
    "congruence is decided by random interpretation over GF(p^2), p = 2^61-1: a difference is missed with "
    "probability below 1e-15 per obligation; equal graphs are never reported",
    "library routines (num, peroxide, std iterators) behave as summarised in engine/intrinsics.py",
]
API = json.load(open(os.path.join(VERIF, "spec", "api.json")))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        files, self.src_key = ex.extract()
        self.P = Program(files)
        self.flow = self.new_flow()
        self.obl = 0            # obligations decided
        self.fails = []
        self.argkinds = {}         # (key, message)
        self.rules = []         # human-readable rule instances
        self.sites = set()
        self.points = 0
        self.notes = []
        self._val = {}
        self.pub = {}
        for n, b in self.P.bodies.items():     # associated functions and trait methods
            if b["kind"] == "AssocFn" and b.get("krate") == "qcd_sme":
                self.pub[canon(n)] = n
        for cr in self.P.crates:               # functions, under the path users name
            if cr["krate"] == "qcd_sme":
                for p, d in cr["exports"]:
                    if d in self.P.bodies and not p.startswith("ffi::"):
                        self.pub[p] = d
        self.setup_state()
        self.inl = {}
        for n, b in self.P.bodies.items():
            if "::inlines::" in n and b["kind"] == "Fn":
                self.inl[canon(n)] = n

    # ------------------------------------------------------------ global settings
    SETTERS = {"nc": "set_number_of_colors", "nf": "set_number_of_fermions", "mq": "set_default_quark_mass",
               "tol": "set_default_tol_integral", "iter": "set_default_max_iter_integral", "reg": "set_matsubara_reg"}

    def setup_state(self):
        """the state every call is analysed from: the six setters applied to atoms (property P02
        shows that every reachable state is an instance of this one)"""
        self.st0 = {}
        st = State()
        for k, f in self.SETTERS.items():
            n = self.pub.get("consts::" + f)
            if n is None:
                raise Missing("consts::" + f)
            st = self.flow_call(st, n, [atom("set:" + k)])[1]
        self.st0 = dict(st.st)
        self.flow.events.clear()

    def flow_call(self, st, n, args):
        """(result, state afterwards) of a call from state st"""
        F = self.flow
        F.state = State()
        F.state.st = dict(st.st)
        F.active = []
        r = F.call(n, list(args), {})
        out = State()
        out.st = dict(F.state.st)
        return r, out

    def new_flow(self, **kw):
        f = Flow(self.P, **kw)
        f.I.local["qcd_sme::utils::find_root"] = lambda a, fr: self.root(f, a)
        return f

    def root(self, F, a):
        """summary of find_root (its own contract is property P17): Some((z, f(z))) or None"""
        f, guesses, tol, it = a
        z = atom("rootvar")
        body = to_node(F.apply(f, [z]))
        node = mk("root", (body, to_node(guesses), to_node(tol), to_node(it)), "rootvar")
        fz = to_node(F.apply(f, [node]))
        return VIte(uf("found", node), some(Agg("tuple", [node, fz])), NONE)

    # ------------------------------------------------------------ values of functions
    def name(self, path):
        n = self.pub.get(path)
        if n is None:
            n = self.inl.get(path)
        if n is None:
            raise Missing(path)
        return n

    def has(self, path):
        return path in self.pub or path in self.inl

    def call(self, path, args, flow=None, tyenv=None):
        F = flow or self.flow
        n = path if path in self.P.bodies or path.startswith(("qcd_sme::", "tc_long_prop::")) else self.name(path)
        b = self.P.bodies.get(n)
        if b is None:
            raise Missing(n)
        if b["argc"] != len(args):
            raise Missing("%s takes %d arguments, expected %d" % (path, b["argc"], len(args)))
        F.state = State()
        F.state.st = dict(self.st0)
        F.active = []
        self.sites.add(n)
        r = F.call(n, list(args), tyenv or {})
        return r

    def val(self, path, *args, **kw):
        a = [atom(x) if isinstance(x, str) else x for x in args]
        return to_node(self.call(path, a, **kw))

    def v(self, path, flow=None, **over):
        """value graph of a public function; arguments (named as in the frozen interface)
        default to atoms of the same name"""
        return to_node(self.raw(path, flow=flow, **over))

    def raw(self, path, flow=None, **over):
        spec = API["fns"].get(path) or API["fns"].get(ALIAS(path))
        if spec is None:
            raise Missing(path)
        args = []
        left = dict(over)
        for n, t in spec["args"]:
            x = left.pop(n, n)
            if isinstance(x, (str, E, int, float)):
                x = lift(x)
            if isinstance(x, Node):
                kind = "any" if t in spec.get("generics", ()) or "Complex" in t else "real"
                for y in nodes_of(x):
                    if y.op == "atom" and y.data not in ("PI", "INF"):
                        self.argkinds.setdefault(y.data, set()).add(kind)
            args.append(x)
        if left:
            raise Missing("%s: no argument %s" % (path, ", ".join(left)))
        return self.call(path, args, flow=flow)

    def spec(self):
        if not hasattr(self, "_spec"):
            self._spec = expr.load(os.path.join(VERIF, "spec", "formulas.py"))
        return self._spec

    def config(self, quarks=None, nc="nc_", m="m"):
        """FieldConfig::new(nc, m, quarks): quarks a list of (nf, mq), or None for an
        arbitrary list"""
        if quarks is None:
            key = atom("quarks")
            el = mk("elem", (key,), 0)
            seq = Seq(None, key, Agg("tuple", [fld(el, 0), fld(el, 1)]))
        else:
            seq = Seq([Agg("tuple", [lift(a), lift(b)]) for a, b in quarks])
        return self.call("qcd::types::FieldConfig::new", [lift(nc), lift(m), seq])

    def eachq(self, f):
        """sum over the arbitrary quark list of f(nf, mq)"""
        key = atom("quarks")
        el = mk("elem", (key,), 0)
        return E(mk("sum", (key, lift(f(E(fld(el, 0)), E(fld(el, 1))))), None))

    # ------------------------------------------------------------ deciding
    def same(self, what, a, b, key, **kw):
        """obligation: a and b are congruent"""
        self.obl += 1
        a, b = lift(a), lift(b)
        for k in ("env", "env_b"):
            if kw.get(k):
                kw[k] = {x: (lift(y) if not isinstance(y, tuple) else y) for x, y in kw[k].items()}
        try:
            ok, n = congruent(a, b, seed0=1000 * self.seed, **kw)
        except DivZero:
            ok, n = False, 0
            what = what + " (singular)"
        self.points += n
        if not ok:
            self.fail(key, what)
        return ok

    def eqv(self, key, what, fa, fb, **kw):
        """obligation: the two value graphs built by fa and fb are congruent; a construct the
        analysis cannot follow fails this obligation only"""
        self.argkinds = {}
        try:
            a = fa() if callable(fa) else fa
            b = fb() if callable(fb) else fb
        except (Missing, Unsupported, Diverge) as e:
            self.obl += 1
            self.fail(key, "%s: %s: %s" % (what, type(e).__name__, e))
            return False
        real = kw.pop("real", False)
        ok = self.same(what, a, b, key, **kw)
        # the arguments every function here takes as a generic number may be complex
        gen = sorted(n for n, k in self.argkinds.items() if k == {"any"})
        if ok and gen and not kw.get("cplx") and not real:
            ok = self.same(what + " at complex " + ", ".join(gen), a, b, key, **dict(kw, cplx=tuple(gen)))
        return ok

    def ok(self, cond, key, what):
        self.obl += 1
        if not cond:
            self.fail(key, what)
        return cond

    def fail(self, key, what):
        self.fails.append((key, what))


def ALIAS(path):
    """the one-loop ghost sector of full QCD is that of pure Yang-Mills theory"""
    return path.replace("qcd::", "ym::", 1) if path.startswith("qcd::") and "ghost::" in path else path


class Missing(Exception):
    pass


def canon(n):
    if n.startswith("qcd_sme::"):
        n = n[len("qcd_sme::"):]
    return n.replace("::native::", "::").replace("::inlines::", "::")


def where(P, n):
    b = P.bodies.get(n)
    return "%s:%s %s" % (b["file"], b["line"], n) if b else n


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid:
                out[e["key"]] = e["what"]
    return out


def finish(ctx, level, explanation, assumptions, extra=None, rule=""):
    pid = ctx.pid
    kf = known_findings(pid)
    new, old = [], []
    for k, w in ctx.fails:
        (old if k in kf else new).append((k, w))
    uniq = []
    seen = set()
    for k, w in new:
        if k not in seen:
            seen.add(k)
            uniq.append((k, w))
    new = uniq
    oldk = []
    for k, w in old:
        if k not in oldk:
            oldk.append(k)
    cov = {
        "explanation": explanation,
        "rule": rule,
        "obligations": ctx.obl,
        "discharged": ctx.obl - len(ctx.fails),
        "random_points": ctx.points,
        "functions_analysed": len(ctx.sites | ctx.flow.visited),
        "bodies_in_program": len(ctx.P.bodies),
        "entry_points": sorted(ctx.sites)[:400],
        "uninterpreted_callees": dict(sorted(ctx.flow.I.unknown.items())),
        "known_findings": oldk,
        "source_digest": ctx.src_key,
    }
    if new:
        cov["violation_list"] = [{"what": w, "key": k} for k, w in new[:50]]
    cov.update(extra or {})
    if ctx.notes:
        cov["notes"] = ctx.notes[:50]
    ev = {
        "property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
        "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(new),
    }
    return ev, new, oldk, kf
