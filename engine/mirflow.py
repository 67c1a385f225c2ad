"""Interprocedural value-flow analysis over MIR (context-sensitive, hash-consed).

`Flow.call(name, args)` gives the abstract value a function returns for abstract
arguments, joining all paths (branch joins become gated `ite` nodes, counted loops over a
collection become `sum`/`fold` binders, `integrate` becomes an `int` binder).  Nothing is
executed: parameters stay symbolic atoms throughout.
"""
import json
import re as _re
import struct
import sys
from fractions import Fraction

from values import *  # noqa
import values
from dag import *  # noqa
import dag

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Diverge(Exception):
    """abstract execution of a path that cannot return (panic)"""


# ------------------------------------------------------------------ literals
def f64_fraction(bits):
    x = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if x != x or x in (float("inf"), float("-inf")):
        return x
    r = repr(x)
    fr = Fraction(r)
    digits = r.split("e")[0].replace(".", "").replace("-", "").lstrip("0").rstrip("0")
    if len(digits) >= 14:
        from math import pi
        for k in (0, 1, -1, 2, -2, 3, -3, 4, -4):
            y = x / pi ** k
            g = Fraction(y).limit_denominator(2000)
            if g != 0 and abs(float(g) - y) <= 4e-15 * abs(y):
                return (g, k)
    return (fr, 0)


def f64_node(bits):
    v = f64_fraction(bits)
    if isinstance(v, float):
        return mk("atom", (), "f64:" + repr(v))
    g, k = v
    return mul(const(g), powi(PI, k))


def subst_ty(t, env):
    if not env:
        return t
    return _re.sub(r"(?<![\w:])([A-Za-z_]\w*)(?![\w:])", lambda m: env.get(m.group(1), m.group(1)), t)


class Program:
    """the extracted MIR of all crates of the workspace"""

    def __init__(self, files):
        self.bodies, self.adts, self.statics, self.crates = {}, {}, {}, []
        self.impls = {}
        self.bydp = {}
        self.dup = []
        for f in files:
            d = json.load(open(f))
            self.crates.append(d)
            for b in d["bodies"]:
                b["crate_file"] = f
                if b["name"] in self.bodies:
                    self.dup.append(b["name"])
                self.bodies[b["name"]] = b
                if b.get("dp"):
                    self.bydp[b["dp"]] = b["name"]
                if b.get("impl_trait"):
                    self.impls[(b["impl_trait"], b["impl_self"], b["item"])] = b["name"]
            for a in d["adts"]:
                self.adts[a["name"]] = a
            for s in d["statics"]:
                self.statics[s["name"]] = s
        self._cfg = {}

    def cfg(self, name):
        c = self._cfg.get(name)
        if c is None:
            c = self._cfg[name] = CFG(self.bodies[name])
        return c


PANIC_PREFIX = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "core::option::unwrap_failed",
                "core::option::expect_failed", "core::result::unwrap_failed", "std::process::exit",
                "std::process::abort", "core::slice::index::", "std::panicking::", "core::cell::panic",
                "alloc::raw_vec::capacity_overflow", "std::intrinsics::abort", "core::str::slice_error")


def is_panic_fn(n):
    return n.startswith(PANIC_PREFIX)


class CFG:
    """normal (non-unwind) control flow graph with postdominators and natural loops"""

    def __init__(self, body):
        self.body = body
        bl = body["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            t = b["term"]
            k = t["t"]
            if k == "goto":
                s = [t["to"]]
            elif k == "switch":
                s = [x[1] for x in t["vals"]] + ([t["else"]] if t.get("else") is not None else [])
            elif k in ("drop", "assert", "call"):
                s = [t["to"]] if t.get("to") is not None else []
            else:
                s = []
            o = []
            for x in s:
                if x not in o:
                    o.append(x)
            self.succ[i] = o
        self.live = self._reach()
        # blocks that can reach a return
        rets = [i for i in self.live if bl[i]["term"]["t"] == "return"]
        pred = [[] for _ in range(n)]
        for i in self.live:
            for s in self.succ[i]:
                pred[s].append(i)
        self.pred = pred
        can = set(rets)
        st = list(rets)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in can:
                    can.add(p)
                    st.append(p)
        self.canret = can
        self.EXIT = n
        self._postdom(rets, n)
        self._loops(n)

    def _reach(self):
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            for s in self.succ[x]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def _postdom(self, rets, n):
        nodes = [i for i in self.canret]
        E = self.EXIT
        allset = set(nodes) | {E}
        pd = {i: set(allset) for i in nodes}
        pd[E] = {E}
        changed = True
        while changed:
            changed = False
            for i in sorted(nodes, reverse=True):
                ss = [s for s in self.succ[i] if s in self.canret]
                if i in rets:
                    ss = ss + [E]
                new = set.intersection(*[pd[s] for s in ss]) | {i}
                if new != pd[i]:
                    pd[i] = new
                    changed = True
        self.ipdom = {}
        for i in nodes:
            c = pd[i] - {i}
            # immediate: the one whose postdominators are all of c
            best = None
            for x in c:
                if pd[x] >= c:
                    best = x
            self.ipdom[i] = best if best is not None else E

    def _loops(self, n):
        # dominators
        live = sorted(self.live)
        dom = {i: set(live) for i in live}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for i in live:
                if i == 0:
                    continue
                ps = [p for p in self.pred[i]]
                new = set.intersection(*[dom[p] for p in ps]) | {i} if ps else {i}
                if new != dom[i]:
                    dom[i] = new
                    changed = True
        self.dom = dom
        self.loops = {}
        for i in live:
            for s in self.succ[i]:
                if s in dom[i]:
                    body = self.loops.setdefault(s, {s})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])


class State:
    """frames: fid -> {local: Value}; statics: name -> Value (only those written)"""
    __slots__ = ("fr", "st")

    def __init__(self):
        self.fr, self.st = {}, {}

    def copy(self):
        s = State()
        s.fr = {k: dict(v) for k, v in self.fr.items()}
        s.st = dict(self.st)
        return s


def merge_states(c, a, b, flow):
    if a is None:
        return b
    if b is None:
        return a
    for fid in a.fr:
        x, y = a.fr[fid], b.fr[fid]
        for l in set(x) | set(y):
            p, q = x.get(l), y.get(l)
            if p is not q:
                x[l] = merge(c, p, q)
    for s in set(a.st) | set(b.st):
        p, q = a.st.get(s), b.st.get(s)
        if p is not q:
            a.st[s] = merge(c, p if p is not None else flow.static0(s), q if q is not None else flow.static0(s))
    return a


class Frame:
    __slots__ = ("fid", "body", "name", "tyenv", "assume", "cfg", "inloop")


class LoopCtx:
    def __init__(self):
        self.driver = None
        self.mutref = None
        self.hasnext = None


class Flow:
    def __init__(self, prog, intrinsics=None, opaque=(), mono=True):
        self.P = prog
        self.state = State()
        self.nfid = 0
        self.memo = {}
        self.nomemo = False
        self.events = {}      # key -> (kind, site, node, cond)
        self.frames = []
        self.loopstack = []
        self.active = []      # keys of the collections being iterated
        self.opaque = set(opaque)   # local functions treated as uninterpreted
        self.mono = mono
        self.visited = set()
        self.ncalls = 0
        self.static_vals = {}
        self.static_shape = {}
        self.max_early = 12      # unrolled turns of a loop left early
        self.hide = 0
        self.intdepth = 0
        self.facts = {}       # conditions known for the arguments analysed (set by a check before its first call)
        import intrinsics as itr
        self.I = itr.Intr(self)

    # ------------------------------------------------------------ effects
    def event(self, kind, site, node=None, cond=TRUE):
        k = (kind, site, node.id if node is not None else None, cond.id)
        self.events[k] = (kind, site, node, cond)

    def pathcond(self):
        c = TRUE
        for k, v in self.frames[-1].assume.items() if self.frames else ():
            n = dag._ALL[k]
            c = b_and(c, n if v else b_not(n))
        return c

    # ------------------------------------------------------------ statics
    def static0(self, name):
        """the unknown contents of a mutable static: one atom per plain field"""
        v = self.static_shape.get(name)
        if v is None:
            def fields(v, n):
                if isinstance(v, Agg) and v.kind != "closure":
                    return Agg(v.kind, [fields(x, "%s.%d" % (n, i)) for i, x in enumerate(v.f)], v.adt, v.var, v.vn, v.names)
                if isinstance(v, Seq) and v.lit is not None:
                    return Seq([fields(x, "%s.%d" % (n, i)) for i, x in enumerate(v.lit)])
                return atom("static:" + n)
            try:
                w = self.static_init(name)
                plain = not (isinstance(w, Agg) and w.adt in (OPTION, "std::result::Result")) and not isinstance(w, Node)
            except (Unsupported, Diverge):
                plain = False
            v = self.static_shape[name] = fields(w, name) if plain else atom("static:" + name)
        return v

    def static_init(self, name):
        b = self.P.bodies.get(name)
        if b is None:
            raise Unsupported("static " + name)
        return self.run_body(name, [], {})

    # ------------------------------------------------------------ calls
    def call(self, name, args, tyenv=None):
        b = self.P.bodies[name]
        if name in self.opaque:
            return uf("call:" + name, *[to_node(a) for a in args])
        tyenv = tyenv or {}
        mut = self.nomemo or any(has_mut(a) for a in args)
        key = None
        if not mut:
            key = (name, tuple(sorted(tyenv.items())), tuple(vkey(a) for a in args),
                   tuple(sorted((k, vkey(v)) for k, v in self.state.st.items())),
                   tuple(k.id for k in self.active))
            m = self.memo.get(key)
            if m is not None:
                r, ev, st = m
                pc = self.pathcond()
                for (k, site, node, cond) in ev:
                    self.event(k, site, node, b_and(pc, cond))
                for s, v in st.items():
                    self.state.st[s] = v
                if r is None:
                    raise Diverge()
                return r
        outer = self.events
        self.events = {}
        self.exits = []
        st0 = dict(self.state.st)
        try:
            r = self.run_body(name, args, tyenv)
        except Diverge:
            r = None
        ev = list(self.events.values())
        self.events = outer
        pc = self.pathcond()
        for (k, site, node, cond) in ev:
            self.event(k, site, node, b_and(pc, cond))
        if key is not None:
            st = {s: v for s, v in self.state.st.items() if st0.get(s) is not v}
            self.memo[key] = (r, ev, st)
        if r is None:
            raise Diverge()
        return r

    def run_body(self, name, args, tyenv):
        b = self.P.bodies[name]
        if len(self.frames) > 200:
            raise Unsupported("recursion " + name)
        self.visited.add(name)
        self.ncalls += 1
        f = Frame()
        self.nfid += 1
        f.fid, f.body, f.name, f.tyenv, f.assume, f.cfg, f.inloop = self.nfid, b, name, tyenv, {}, self.P.cfg(name), []
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = a
        if b["kind"] == "Closure" and len(args) == 2 and b["argc"] != 2:
            pass
        self.state.fr[f.fid] = loc
        self.frames.append(f)
        ls, self.loopstack = self.loopstack, []
        try:
            out = self.exec(0, frozenset([f.cfg.EXIT]))
            if f.cfg.EXIT not in out:
                raise Diverge()
            self.state = out[f.cfg.EXIT]
            r = self.state.fr[f.fid].get(0, UNIT)
            return r if r is not None else UNIT
        finally:
            self.frames.pop()
            self.loopstack = ls
            self.state.fr.pop(f.fid, None)

    # ------------------------------------------------------------ control flow
    def exec(self, bb, stops):
        """run from block bb until a block in `stops`; {stop: state}. Uses self.state."""
        f = self.frames[-1]
        cfg = f.cfg
        blocks = f.body["blocks"]
        while True:
            if bb in stops:
                return {bb: self.state}
            if bb in cfg.loops and bb not in f.inloop:
                outs = self.loop(bb, stops)
                if len(outs) == 1:
                    (nb, st), = outs.items()
                    self.state = st
                    bb = nb
                    continue
                return outs
            blk = blocks[bb]
            for s in blk["st"]:
                self.stmt(s)
            t = blk["term"]
            k = t["t"]
            if k == "goto":
                bb = t["to"]
            elif k == "return":
                bb = cfg.EXIT
                if bb not in stops:
                    return {bb: self.state}
            elif k == "drop":
                bb = t["to"]
            elif k == "assert":
                self.do_assert(t)
                bb = t["to"]
            elif k == "unreachable":
                return {}
            elif k == "call":
                if not self.do_call(t):
                    return {}
                bb = t["to"]
            elif k == "switch":
                arms = self.arms(t)
                if len(arms) == 1:
                    c, bb = arms[0]
                    continue
                join = cfg.ipdom.get(bb, cfg.EXIT)
                # stay inside the current region: stop at loop boundaries too
                inner = frozenset(stops | {join})
                res = self.branch(arms, inner)
                if set(res) == {join} and join not in stops:
                    self.state = res[join]
                    bb = join
                    continue
                if join in res and join not in stops:
                    # some paths leave the region early (loop exits); continue the rest
                    st = res.pop(join)
                    self.state = st
                    more = self.exec(join, stops)
                    cj = self.region_cond
                    for k2, v2 in more.items():
                        if k2 in res:
                            raise Unsupported("irreducible merge")
                        res[k2] = v2
                return res
            else:
                raise Unsupported("terminator " + k)

    def do_assert(self, t):
        """bounds, division and overflow checks"""
        c = self.operand(t["c"])
        if c is None:
            return
        c = self.resolve(to_node(c))
        if not t["exp"]:
            c = b_not(c)
        if c is not TRUE:
            self.event("check", self.frames[-1].name, c, b_and(self.pathcond(), b_not(c)))

    def arms(self, t):
        """[(cond node, target)] with conditions made disjoint in order; statically
        decided switches give one arm"""
        d = self.operand(t["d"])
        out = []
        rest = TRUE
        isb = t["dty"] == "bool"
        d = self.resolve(to_node(d)) if not isinstance(d, Node) else self.resolve(d)
        for v, tgt in t["vals"]:
            k = int(v)
            if isb:
                c = b_not(d) if k == 0 else d
            else:
                c = eq(d, const(k)) if d.op != "ite" else self.eqk(d, k)
            c = self.resolve(c)
            if c is TRUE:
                out.append((TRUE, tgt))
                return out if len(out) == 1 else out
            if c is FALSE:
                continue
            out.append((c, tgt))
        if t.get("else") is not None:
            out.append((TRUE, t["else"]))
        # drop arms that go straight to an `unreachable` block
        bl = self.frames[-1].body["blocks"]
        keep = [(c, b) for c, b in out if not (bl[b]["term"]["t"] == "unreachable" and not bl[b]["st"])]
        if keep:
            keep[-1] = (TRUE, keep[-1][1]) if len(keep) < len(out) else keep[-1]
        return keep or out

    def eqk(self, d, k):
        if d.op == "ite":
            return ite(d.args[0], self.eqk(d.args[1], k), self.eqk(d.args[2], k))
        return eq(d, const(k))

    def resolve(self, c):
        a = self.frames[-1].assume if self.frames else {}
        if not a and not self.facts:
            return c
        v = a.get(c.id)
        if v is None:
            v = self.facts.get(c.id)
        if v is not None:
            return TRUE if v else FALSE
        if c.op == "not":
            return b_not(self.resolve(c.args[0]))
        if c.op == "and":
            return b_and(self.resolve(c.args[0]), self.resolve(c.args[1]))
        return c

    def branch(self, arms, stops):
        f = self.frames[-1]
        c, tgt = arms[0]
        if len(arms) == 1 or c is TRUE:
            return self.exec(tgt, stops)
        s0 = self.state
        sa = s0.copy()
        saved = f.assume
        f.assume = dict(saved)
        self.learn(c, True)
        self.state = sa
        ra = self.exec_(tgt, stops)
        f.assume = dict(saved)
        self.learn(c, False)
        self.state = s0
        rb = self.branch_(arms[1:], stops)
        f.assume = dict(saved)
        if bool(ra) != bool(rb):        # the other side does not come back: what follows runs on this one only
            self.learn(c, bool(ra))
        out = {}
        for k in set(ra) | set(rb):
            a, b = ra.get(k), rb.get(k)
            if a is not None and b is not None and len(set(ra) | set(rb)) == 1:
                out[k] = merge_states(c, a, b, self)
            elif a is not None and b is not None:
                out[k] = merge_states(self.joincond(c, k, ra, rb), a, b, self)
            else:
                out[k] = a if a is not None else b
        if len(out) > 1:
            # remember under which condition each exit is taken (for loops)
            g = {}
            for k in out:
                ca = self.exitg(ra, k)
                cb = self.exitg(rb, k)
                g[k] = ite(c, ca, cb)
            self.exit_guard = getattr(self, "exit_guard", {})
            for k in out:
                self.exit_guard[id(out[k])] = (out[k], g[k])
        return out

    def learn(self, c, val):
        """record that condition c has truth value val on the current path"""
        if c.op == "not":
            return self.learn(c.args[0], not val)
        if c.op == "and" and val:
            self.learn(c.args[0], True)
            return self.learn(c.args[1], True)
        if c.op != "bool":
            self.frames[-1].assume[c.id] = val

    def exitg(self, r, k):
        if k not in r:
            return FALSE
        if len(r) == 1:
            return TRUE
        eg = getattr(self, "exit_guard", {}).get(id(r[k]))
        return eg[1] if eg and eg[0] is r[k] else TRUE

    def joincond(self, c, k, ra, rb):
        return c

    def exec_(self, bb, stops):
        try:
            return self.exec(bb, stops)
        except Diverge:
            return {}

    def branch_(self, arms, stops):
        try:
            return self.branch(arms, stops)
        except Diverge:
            return {}

    # ------------------------------------------------------------ loops
    def loop(self, h, stops):
        f = self.frames[-1]
        body = f.cfg.loops[h]
        exits = set()
        for x in body:
            for s in f.cfg.succ[x]:
                if s not in body and s in f.cfg.canret:
                    exits.add(s)
        st0 = self.state.copy()
        ev0 = dict(self.events)
        act0 = len(self.active)
        as0 = f.assume
        f.assume = dict(as0)
        # 1. concrete unrolling (literal sequences, constant ranges)
        try:
            try:
                return self.unroll(h, body, exits, stops)
            except Unsupported:
                self.state = st0
                self.events = ev0
                f.assume = dict(as0)
                del self.active[act0:]
            return self.symloop(h, body, exits, stops)
        finally:
            f.assume = as0

    def unroll(self, h, body, exits, stops):
        f = self.frames[-1]
        bb = h
        f.inloop.append(h)
        n = 0
        early = []      # exits taken before the loop is exhausted: (guard, target, state)
        try:
            while True:
                n += 1
                if n > max(80, self.max_early):
                    raise Unsupported("unroll limit")
                # run header..header
                outs = self.exec_once(h, body, exits)
                if set(outs) == {h}:
                    self.state = outs[h]
                    continue
                if len(outs) == 1 and not early:
                    (k, st), = outs.items()
                    self.state = st
                    return {k: st}
                if not outs and not early:
                    return {}
                back = outs.pop(h, None)
                if back is not None and (n > self.max_early or self.lastloop.hasnext is not None):
                    raise Unsupported("symbolic exit")
                for k, st in outs.items():
                    eg = getattr(self, "exit_guard", {}).get(id(st))
                    g = eg[1] if eg and eg[0] is st else TRUE
                    early.append((g, k, st, dict(f.assume)))
                    if g is not TRUE:
                        self.learn(g, False)
                if back is not None:
                    self.state = back
                    continue
                break
        finally:
            f.inloop.pop()
        res = None
        for g, k, st, known in reversed(early):
            if k in stops:
                r = {k: st}
            else:
                self.state = st
                f.assume = known
                if g is not TRUE:
                    self.learn(g, True)
                try:
                    r = self.exec(k, stops)
                except Diverge:
                    r = {}
            if res is None:
                res = r
                continue
            out = {}
            for t in set(r) | set(res):
                a, b = r.get(t), res.get(t)
                out[t] = merge_states(g, a, b, self) if a is not None and b is not None else a if a is not None else b
            if len(out) > 1:
                self.exit_guard = getattr(self, "exit_guard", {})
                for t in out:
                    self.exit_guard[id(out[t])] = (out[t], ite(g, self.exitg(r, t), self.exitg(res, t)))
            res = out
        return res

    def exec_once(self, h, body, exits):
        """one pass of the loop body, from the header to the header or an exit"""
        f = self.frames[-1]
        blk = f.body["blocks"][h]
        # a pseudo entry: execute the header block, then continue with stops
        self.loopstack.append(LoopCtx())
        try:
            return self.exec_from(h, frozenset(exits | {h, f.cfg.EXIT}))
        finally:
            self.lastloop = self.loopstack.pop()

    def exec_from(self, h, stops):
        """like exec, but h itself is executed although it is in stops"""
        f = self.frames[-1]
        blk = f.body["blocks"][h]
        for s in blk["st"]:
            self.stmt(s)
        t = blk["term"]
        k = t["t"]
        if k == "goto":
            return self.exec(t["to"], stops)
        if k in ("drop", "assert"):
            if k == "assert":
                self.do_assert(t)
            return self.exec(t["to"], stops)
        if k == "call":
            if not self.do_call(t):
                return {}
            return self.exec(t["to"], stops)
        if k == "switch":
            arms = self.arms(t)
            if len(arms) == 1:
                return self.exec(arms[0][1], stops)
            join = f.cfg.ipdom.get(h, f.cfg.EXIT)
            return self.branch(arms, frozenset(stops))
        raise Unsupported("loop header " + k)

    def symloop(self, h, body, exits, stops):
        f = self.frames[-1]
        tag = "%s#%d" % (f.name, h)
        st0 = self.state.copy()
        # trial pass to learn the driver and what changes
        f.inloop.append(h)
        try:
            hv, hvs = self.havoc_pass(h, body, exits, st0, {}, tag, trial=True)
            modified = hv
            final = None
            for _ in range(6):
                modified2, res = self.havoc_pass(h, body, exits, st0, modified, tag)
                if modified2 <= set(modified):
                    final = res
                    break
                modified = set(modified) | modified2
            if final is None:
                raise Unsupported("loop fixpoint")
        finally:
            f.inloop.pop()
        outs, ctx, haz = final
        back = outs.pop(h, None)
        exit_states = outs
        if back is None:
            # body never returns to the header
            if len(exit_states) == 1:
                return exit_states
            raise Unsupported("loop without back edge")
        # closed form of every modified place
        drv = ctx.driver
        closed, lists = {}, {}
        hids = set()

        def leaves(hn, v0):
            if hn is v0:
                return
            if isinstance(hn, Node):
                hids.add(hn.id)
            elif isinstance(hn, Building):
                hids.add(hn.key.id)
            elif isinstance(hn, Agg):
                for x in zip(hn.f, v0.f):
                    leaves(*x)

        def closing(hn, v0, v1):
            if isinstance(hn, Agg):
                if not isinstance(v1, Agg) or (v1.adt, v1.var, len(v1.f)) != (hn.adt, hn.var, len(hn.f)):
                    raise Unsupported("loop-carried %r" % (v0,))
                for x in zip(hn.f, v0.f, v1.f):
                    closing(*x)
            elif isinstance(hn, Building) and hn is not v0:
                lists[hn.key.id] = Seq([]) if v1 is hn else self.close_list(v1, drv, hids, tag)
            elif isinstance(hn, Node) and hn is not v0:
                closed[hn.id] = self.close(v0, v1, hn, hids, drv, tag, exit_states, h)
            elif (v1 is None) != (hn is None) or hn is not None and vkey(v1) != vkey(hn):
                raise Unsupported("loop-carried %r" % (v0,))
        for (fid, l), hn in haz.items():
            leaves(hn, st0.fr[fid].get(l))
        for (fid, l), hn in haz.items():
            closing(hn, st0.fr[fid].get(l), back.fr[fid].get(l))

        def built(v):
            if isinstance(v, Building) and v.key.id in lists and not v.pushed:
                return lists[v.key.id]
            if isinstance(v, Agg) and any(built(x) is not x for x in v.f):
                return Agg(v.kind, [built(x) for x in v.f], v.adt, v.var, v.vn, v.names)
            return v
        nonh = {k: v for k, v in exit_states.items()}
        if len(nonh) > 1:
            raise Unsupported("loop with several exits " + tag)
        (k, st), = nonh.items()
        # the exit is taken when the driver is exhausted: hasnext = false
        sub = dict(closed)
        if ctx.hasnext is not None:
            sub[ctx.hasnext.id] = FALSE
        memo = {}
        for fid in st.fr:
            for l, v in st.fr[fid].items():
                w = built(v)
                if isinstance(v, Building) and w is not v:
                    st.fr[fid][l] = w
                elif v is not None:
                    st.fr[fid][l] = map_nodes(w, lambda n: rebuild(n, sub, memo))
        return {k: st}

    def close_list(self, v, drv, hids, tag):
        """the list built by a loop that appends at most one element per turn"""
        g = TRUE
        if isinstance(v, VIte):
            a, b = v.a, v.b
            if isinstance(b, Building) and b.pushed:
                a, b, g = b, a, b_not(v.c)
            else:
                g = v.c
            if not isinstance(b, Building) or b.pushed:
                raise Unsupported("list built by " + tag)
            v = a
        if not isinstance(v, Building) or len(v.pushed) != 1 or drv is None:
            raise Unsupported("list built by " + tag)
        e = v.pushed[0]
        nodes = [g]
        map_nodes(e, lambda n: (nodes.append(n), n)[1])
        if any(depends(n, hids) for n in nodes):
            raise Unsupported("list built by %s from itself" % tag)
        return Seq(None, drv.key, e, b_and(drv.guard, g))

    def havoc_pass(self, h, body, exits, st0, modified, tag, trial=False):
        f = self.frames[-1]
        self.state = st0.copy()
        haz = {}
        paths = {}
        for fid, l, p in modified:
            paths.setdefault((fid, l), set()).add(p)

        def havoc(v, name, ps, path=()):
            if isinstance(v, Agg) and path not in ps:
                return Agg(v.kind, [havoc(x, "%s.%d" % (name, i), ps, path + (i,)) for i, x in enumerate(v.f)],
                           v.adt, v.var, v.vn, v.names)
            if path not in ps or v is None:
                return v
            if isinstance(v, Node):
                return atom("loop:" + name)
            if isinstance(v, Seq):
                return Building(atom("loopvec:" + name)) if v.lit == [] else v
            raise Unsupported("loop-carried %r" % (v,))
        for (fid, l) in sorted(paths, key=lambda p: (p[0], str(p[1]))):
            v = self.state.fr[fid].get(l)
            hv = havoc(v, "%s:%s" % (tag, l if fid == f.fid else "o%s" % (l,)), paths[(fid, l)])
            if hv is not v:
                haz[(fid, l)] = self.state.fr[fid][l] = hv
        before = {fid: dict(d) for fid, d in self.state.fr.items()}

        def grown(a, p):
            """a list that the body appends to"""
            b = [at_path(st.fr[p[0]].get(p[1]), p[2]) for k, st in outs.items() if k == h]
            if a.lit is None or not any(appended(a, x) for x in b):
                return False
            if a.lit:
                raise Unsupported("loop appending to a non-empty list")
            return True

        def changed(a, b, path=()):
            if a is b or a is None or b is not None and vkey(a) == vkey(b):
                return
            if isinstance(a, Agg) and isinstance(b, Agg) and (a.adt, a.var, len(a.f)) == (b.adt, b.var, len(b.f)):
                for i, (x, y) in enumerate(zip(a.f, b.f)):
                    yield from changed(x, y, path + (i,))
            else:
                yield path

        def at_path(v, path):
            for i in path:
                v = v.f[i] if isinstance(v, Agg) and i < len(v.f) else None
            return v
        drv_active = len(self.active)
        try:
            outs = self.exec_once(h, body, exits)
        finally:
            del self.active[drv_active:]
        ctx = self.lastloop
        mod = set()
        for k, st in outs.items():
            if k != h:
                continue
            for fid in before:
                for l in before[fid]:
                    mod.update((fid, l, p) for p in changed(before[fid].get(l), st.fr[fid].get(l)))
                # locals first defined inside the body are not loop carried
        mod |= set(modified)

        # iterator locals are advanced by next(): not carried as values
        def carried(p):
            v = at_path(st0.fr[p[0]].get(p[1]), p[2])
            return not isinstance(v, Seq) or grown(v, p)
        mod = {p for p in mod if carried(p)}
        # temporaries (assigned before use in the body) may be havocked safely
        if trial:
            return mod, None
        return mod, (outs, ctx, haz)

    def close(self, v0, v1, hn, hids, drv, tag, exits, h):
        if v1 is hn:
            return v0
        if not isinstance(v1, Node) or not isinstance(v0, Node):
            return atom("loopout:%s" % tag)
        if drv is None:
            return mk("fold", (v0, v1), tag)
        key, guard = drv.key, drv.guard
        e = peel(v1, hn)
        if e is not None and not depends(e, hids):
            return add(v0, sum_node(drv, e))
        p = peel_mul(v1, hn)
        if p is not None and not depends(p, hids):
            return mul(v0, mk("prod", (key, ite(guard, p, ONE)), 0))
        if not depends(v1, hids):
            return mk("uf", (key, v0, v1), "last")
        return mk("fold", (key, v0, v1), "loop")

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s.get("s") != "=":
            return
        v = self.rvalue(s["rv"])
        self.store(s["pl"], v)

    def rvalue(self, r):
        k = r["r"]
        if k == "use":
            return self.operand(r["a"])
        if k == "ref" or k == "rawptr":
            pl = r["pl"]
            if r.get("mut") or r.get("kind") == "Mut":
                return self.mutref(pl)
            return self.load(pl)
        if k == "bin":
            return self.binop(r["op"], self.operand(r["a"]), self.operand(r["b"]), r.get("aty", ""))
        if k == "un":
            a = self.operand(r["a"])
            if r["op"] == "Neg":
                return neg(to_node(a))
            if r["op"] == "Not":
                return b_not(to_node(a))
            if r["op"] == "PtrMetadata":
                return self.I.length(a)
            raise Unsupported("unop " + r["op"])
        if k == "cast":
            a = self.operand(r["a"])
            kind = r["kind"]
            if kind.startswith(("IntToFloat", "IntToInt", "FloatToFloat", "PointerCoercion", "PtrToPtr", "Transmute", "BoxDerefTransmute")):
                return a
            if kind.startswith("FloatToInt"):
                n = to_node(a)
                from intrinsics import rounded, as_const
                n = as_const(n)
                if n.op == "const":
                    n = rounded("trunc", n)
                    return ZERO if n.data < 0 and r.get("ty", "").startswith("u") else n
                return uf("trunc", n)
            raise Unsupported("cast " + kind)
        if k == "agg":
            ops = [self.operand(o) for o in r["ops"]]
            kind = r["kind"]
            if kind == "tuple":
                return Agg("tuple", ops)
            if kind == "array":
                return Seq(ops)
            if kind == "closure":
                return Clo(r["def"], ops, self.frames[-1].tyenv)
            if kind == "adt":
                if r["adt"] in ("num::Complex", "num_complex::Complex"):
                    return add(to_node(ops[0]), mul(I, to_node(ops[1])))
                return Agg("adt", ops, r["adt"], r["v"], r.get("vn"), r.get("fields"))
            raise Unsupported("aggregate " + kind)
        if k == "discr":
            return self.discr(self.load(r["pl"]))
        if k == "repeat":
            n = r.get("n")
            v = self.operand(r["a"])
            if isinstance(n, int) and n <= 64:
                return Seq([v] * n)
            return uf("repeat", to_node(v))
        if k == "len":
            return self.I.length(self.load(r["pl"]))
        raise Unsupported("rvalue " + k)

    def discr(self, v):
        if isinstance(v, Agg):
            return const((v.var - 1) % 256 if v.adt == "std::cmp::Ordering" else v.var)
        if isinstance(v, VIte):
            return ite(v.c, self.discr(v.a), self.discr(v.b))
        return uf("discr", to_node(v))

    def binop(self, op, a, b, ty):
        a, b = to_node(a), to_node(b)
        isf = ty.startswith("f")
        if not isf and op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and (a.op == "const" or b.op == "const"):
            from intrinsics import cases
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x.op != "const" and y.op == "const" and ty != "bool":
                    z = cases(x)
                    if z is not None and z.op == "ite":
                        return ite(z.args[0], *[self.binop(op, *((y, v) if flip else (v, y)), ty) for v in z.args[1:]])
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "Div":
            if not isf:
                if a.op == "const" and b.op == "const" and b.data:
                    return const(a.data // b.data)
                return uf("idiv", a, b)
            return div(a, b)
        if op == "Rem":
            return uf("rem", a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return b_not(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.binop(op[:3], a, b, ty)
            return Agg("tuple", [r, self.overflow(r, ty)])
        if op == "BitAnd" and ty == "bool":
            return b_and(a, b)
        if op == "BitOr" and ty == "bool":
            return b_or(a, b)
        return uf("bin:" + op, a, b)

    def overflow(self, r, ty):
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
                "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63, "i128": 127}.get(ty)
        if bits is None:
            raise Unsupported("checked arithmetic of " + str(ty))
        lo = 0 if ty[0] == "u" else -(1 << bits)
        return b_or(lt(const((1 << bits) - 1), r), lt(r, const(lo)))

    # ------------------------------------------------------------ operands and places
    def operand(self, o):
        if o["o"] == "const":
            return self.constant(o["c"])
        return self.load(o["pl"])

    def constant(self, c):
        if "fnref" in c:
            return FnP(self.mono_ref(c["fnref"]))
        if "closure" in c:
            return Clo(c["closure"], [], self.frames[-1].tyenv if self.frames else {})
        if "promoted" in c and "bytes" not in c and "str" not in c:
            return self.constval(c["promoted"])
        if "static" in c:
            return MutRef("static", c["static"], ())
        if "bytes" in c:
            return Agg("bytes", [Str(c["bytes"])], "bytes")
        if "const" in c:
            if c.get("ctrait") and c.get("cargs"):
                env = self.frames[-1].tyenv if self.frames else {}
                t2 = self.P.impls.get((c["ctrait"], subst_ty(c["cargs"][0], env), c["const"].rsplit("::", 1)[1]))
                if t2 is not None:
                    return self.constval(t2)
            if c.get("const_local") and c["const"] in self.P.bodies:
                return self.constval(c["const"])
            if c["const"].endswith("consts::PI"):
                return PI
        if "bits" in c:
            ty = c["ty"]
            bits = int(c["bits"])
            if ty == "f64":
                return f64_node(bits)
            if ty == "bool":
                return TRUE if bits else FALSE
            if ty.startswith("i") and ty[1:].isdigit():
                n = int(ty[1:])
                if bits >= 1 << (n - 1):
                    bits -= 1 << n
            if ty == "isize" and bits >= 1 << 63:
                bits -= 1 << 64
            return const(bits)
        if "str" in c:
            return Str(c["str"])
        if c.get("zst"):
            return UNIT
        if "const" in c:
            n = c["const"]
            m = _re.search(r"consts::(FRAC_1_PI|FRAC_2_PI|TAU|E|LN_2|SQRT_2|FRAC_PI_(\d+))$", n)
            if m:
                g = m.group(1)
                if g == "TAU":
                    return mul(const(2), PI)
                if g == "FRAC_1_PI":
                    return inv(PI)
                if g == "FRAC_2_PI":
                    return mul(const(2), inv(PI))
                if g == "SQRT_2":
                    return sqrt(const(2))
                if g == "LN_2":
                    return ln(const(2))
                if m.group(2):
                    return mul(PI, const(Fraction(1, int(m.group(2)))))
            return atom("const:" + n)
        if "fnptr" in c:
            return FnP({"fn": c["fnptr"]})
        return atom("const:" + c["ty"])

    def constval(self, name):
        k = ("const", name)
        v = self.memo.get(k)
        if v is None:
            tyenv = self.frames[-1].tyenv if self.frames else {}
            if name not in self.P.bodies:
                raise Unsupported("const " + name)
            v = self.memo[k] = self.run_body(name, [], tyenv)
        return v

    def base(self, fid, local):
        if fid == "static":
            v = self.state.st.get(local)
            if v is None:
                s = self.P.statics.get(local)
                if s is not None and not s.get("mut"):
                    return self.static_init(local)
                return self.static0(local)
            return v
        return self.state.fr[fid].get(local)

    def load(self, pl):
        v = self.state.fr[self.frames[-1].fid].get(pl["l"])
        return self.project(v, pl["p"], pl)

    def project(self, v, proj, pl=None):
        for p in proj:
            v = self.proj1(v, p)
        return v

    def proj1(self, v, p):
        if p == "*":
            if isinstance(v, MutRef):
                return self.project(self.base(v.fid, v.local), self.unfreeze(v.proj))
            return v
        if isinstance(v, MutRef) and not ("dc" in p):
            # projection through a reference held by value in an aggregate
            v = self.project(self.base(v.fid, v.local), self.unfreeze(v.proj))
        if "f" in p:
            return self.field(v, p)
        if "dc" in p:
            return Down(v, p["dc"], p.get("n")) if not isinstance(v, Agg) else v
        if "idx" in p:
            i = self.state.fr[self.frames[-1].fid].get(p["idx"]) if not isinstance(p["idx"], Node) else p["idx"]
            return self.I.index(v, to_node(i))
        if "cidx" in p:
            if isinstance(v, Seq) and v.lit is not None:
                return v.lit[-p["cidx"] if p.get("from_end") else p["cidx"]]
            return uf("cidx:%s%s" % (p["cidx"], "e" if p.get("from_end") else ""), to_node(v))
        raise Unsupported("projection %r" % (p,))

    def field(self, v, p):
        i, n = p["f"], p.get("n")
        if isinstance(v, Down):
            return self.downfield(v.v, v.var, v.vn, i, n)
        if isinstance(v, Agg):
            if i < len(v.f):
                return v.f[i]
            return None
        if isinstance(v, Clo):
            return v.caps[i]
        if isinstance(v, VIte):
            return merge(v.c, self.field(v.a, p), self.field(v.b, p))
        if isinstance(v, Node):
            if n == "re":
                return re(v)
            if n == "im":
                return im(v)
            if v.op == "tup" and i < len(v.args):
                return v.args[i]
            if v.op == "ite":
                return ite(v.args[0], to_node(self.field(v.args[1], p)), to_node(self.field(v.args[2], p)))
            return fld(v, i if n is None else n)
        if v is None:
            return None
        raise Unsupported("field of %r" % (v,))

    def downfield(self, v, var, vn, i, n):
        if isinstance(v, Agg):
            return v.f[i] if v.var == var and i < len(v.f) else None
        if isinstance(v, VIte):
            a = self.downfield(v.a, var, vn, i, n)
            b = self.downfield(v.b, var, vn, i, n)
            return merge(v.c, a, b)
        if isinstance(v, Node):
            return fld(v, "%s.%s" % (vn or var, i if n is None else n))
        return None

    def freeze(self, proj):
        """projections with index locals evaluated, hashable"""
        out = []
        for p in proj:
            if p == "*":
                out.append("*")
            elif "f" in p:
                out.append(("f", p["f"], p.get("n")))
            elif "idx" in p:
                i = self.state.fr[self.frames[-1].fid].get(p["idx"])
                out.append(("i", to_node(i)))
            elif "dc" in p:
                out.append(("d", p["dc"], p.get("n")))
            elif "cidx" in p:
                out.append(("c", p["cidx"], bool(p.get("from_end"))))
            else:
                raise Unsupported("ref projection %r" % (p,))
        return tuple(out)

    @staticmethod
    def unfreeze(proj):
        out = []
        for p in proj:
            if p == "*":
                out.append("*")
            elif p[0] == "f":
                out.append({"f": p[1], "n": p[2]})
            elif p[0] == "i":
                out.append({"idx": p[1]})
            elif p[0] == "d":
                out.append({"dc": p[1], "n": p[2]})
            elif p[0] == "c":
                out.append({"cidx": p[1], "from_end": p[2]})
        return out

    def mutref(self, pl):
        fid = self.frames[-1].fid
        proj = list(pl["p"])
        # leading deref of a MutRef: reborrow
        base_l = pl["l"]
        v = self.state.fr[fid].get(base_l)
        fz = self.freeze(proj)
        if fz and fz[0] == "*" and isinstance(v, MutRef):
            return MutRef(v.fid, v.local, tuple(v.proj) + fz[1:])
        if "*" in fz:
            # deref of a reference stored inside a structure
            k = fz.index("*")
            inner = self.project(v, self.unfreeze(fz[:k]))
            if isinstance(inner, MutRef):
                return MutRef(inner.fid, inner.local, tuple(inner.proj) + fz[k + 1:])
            return self.project(v, self.unfreeze(fz))
        return MutRef(fid, base_l, fz)

    def store(self, pl, v):
        self.store_at(self.frames[-1].fid, pl["l"], self.freeze(pl["p"]), v)

    def store_at(self, fid, local, proj, v):
        proj = tuple(proj)
        if not proj:
            self.setbase(fid, local, v)
            return
        b = self.base(fid, local)
        if "*" in proj:
            k = proj.index("*")
            inner = self.project(b, self.unfreeze(proj[:k]))
            if isinstance(inner, MutRef):
                self.store_at(inner.fid, inner.local, tuple(inner.proj) + proj[k + 1:], v)
                return
            raise Unsupported("store through %r" % (inner,))
        self.setbase(fid, local, self.update(b, proj, v))

    def setbase(self, fid, local, v):
        if fid == "static":
            self.event("static-write", local, to_node(v), self.pathcond())
            self.state.st[local] = v
        else:
            self.state.fr[fid][local] = v

    def update(self, b, proj, v):
        if not proj:
            return v
        p, rest = proj[0], proj[1:]
        if p[0] == "d":
            return self.update(b, rest, v)
        if p[0] == "f":
            if isinstance(b, Agg):
                return b.with_field(p[1], self.update(b.f[p[1]], rest, v))
            if isinstance(b, VIte):
                return VIte(b.c, self.update(b.a, proj, v), self.update(b.b, proj, v))
            if isinstance(b, Node) and p[2] in ("re", "im") and not rest:
                if p[2] == "re":
                    return add(to_node(v), mul(I, im(b)))
                return add(re(b), mul(I, to_node(v)))
            if b is None:
                f = [None] * (p[1] + 1)
                f[p[1]] = self.update(None, rest, v)
                return Agg("tuple", f)
            if isinstance(b, Node):
                old = self.field(b, {"f": p[1], "n": p[2]})
                return uf("upd:%s" % (p[2] or p[1]), b, to_node(self.update(old, rest, v)))
        if p[0] in ("i", "c"):
            if isinstance(b, Seq) and b.lit is not None:
                i = p[1] if p[0] == "c" else (p[1].data if p[1].op == "const" else None)
                if i is not None:
                    i = int(i)
                    l = list(b.lit)
                    l[i] = self.update(l[i], rest, v)
                    return Seq(l)
            return uf("updidx", to_node(b), to_node(p[1]) if isinstance(p[1], Node) else const(p[1]), to_node(v))
        raise Unsupported("update %r of %r" % (p, b))

    # ------------------------------------------------------------ calls
    def mono_ref(self, fr):
        env = self.frames[-1].tyenv if self.frames else {}
        if not env:
            return fr
        g = dict(fr)
        g["args"] = [subst_ty(a, env) for a in fr.get("args", ())]
        if "res_args" in g:
            g["res_args"] = [subst_ty(a, env) for a in fr["res_args"]]
        return g

    def do_call(self, t):
        f = t["f"]
        args = [self.operand(a) for a in t["args"]]
        if f["o"] == "const" and "fnref" in f["c"]:
            fr = self.mono_ref(f["c"]["fnref"])
        else:
            fv = self.operand(f)
            try:
                r = self.apply(fv, args)
            except Diverge:
                return False
            self.store(t["dst"], r)
            return t.get("to") is not None
        site = self.frames[-1].name
        if is_panic_fn(fr["fn"]):
            if fr["fn"] == "std::process::exit" and args[0] is ZERO:
                self.exits.append(self.pathcond())
            self.event("panic", site, None, self.pathcond())
            return False
        try:
            r = self.call_ref(fr, args, t.get("argtys"), t)
        except Diverge:
            return False
        if t.get("to") is None:
            self.event("panic", site, None, self.pathcond())
            return False
        self.store(t["dst"], r)
        return True

    def call_ref(self, fr, args, argtys=None, term=None):
        name = fr["fn"]
        # resolved trait method or plain local function
        tgt = fr.get("res") if fr.get("res") else name
        B = self.P.bodies
        targs = fr.get("args", [])
        if fr.get("dp") in self.P.bydp:         # a function of another analysed crate, under its own path
            name = self.P.bydp[fr["dp"]]
            fr = dict(fr, fn=name, local=True)
        if fr.get("trait") and not fr.get("res_local") and targs:
            t2 = self.P.impls.get((fr["trait"], targs[0], name.rsplit("::", 1)[1]))
            if t2 is not None:
                return self.call(t2, args, {})
        if fr.get("local") and name in B and not fr.get("trait"):
            h = self.I.local.get(name)
            if h is not None:
                return h(args, fr)
            g = B[name].get("generics", [])
            return self.call(name, args, {k: v for k, v in zip(g, targs) if k != v} if len(g) == len(targs) else {})
        if fr.get("res_local") and tgt in B:
            # a closure called by name takes its arguments in a tuple
            if len(args) == 2 and name.rsplit("::", 1)[1] in ("call", "call_mut", "call_once") and name.split("::")[-2].startswith("Fn"):
                return self.I.call(name, args, fr, argtys, term)
            return self.call(tgt, args, {})
        if fr.get("res_local"):
            # closures called through Fn*, or default trait methods
            pass
        return self.I.call(name, args, fr, argtys, term)

    def apply(self, fv, args):
        """call a function value with a list of arguments"""
        if isinstance(fv, MutRef):
            fv = self.project(self.base(fv.fid, fv.local), self.unfreeze(fv.proj))
        if isinstance(fv, Clo):
            b = self.P.bodies.get(fv.fn)
            if b is None:
                raise Unsupported("closure " + fv.fn)
            n = b["argc"]
            if n == len(args) + 1:
                return self.call(fv.fn, [fv] + list(args), fv.tyenv)
            raise Unsupported("closure arity " + fv.fn)
        if isinstance(fv, FnP):
            if fv.fnref.get("ctor") or fv.fnref["fn"].endswith("::Some"):
                return some(args[0])
            return self.call_ref(fv.fnref, list(args))
        if isinstance(fv, VIte):
            s0 = self.state
            return merge(fv.c, self.apply(fv.a, args), self.apply(fv.b, args))
        return mk("app", [to_node(fv)] + [to_node(a) for a in args])


class Down:
    """an enum place downcast to a variant"""
    __slots__ = ("v", "var", "vn")

    def __init__(self, v, var, vn):
        self.v, self.var, self.vn = v, var, vn


# ------------------------------------------------------------------ loop closed forms
def peel(n, h):
    """e with n == h + e, h not in e; None if not of that shape"""
    if n is h:
        return ZERO
    if n.op == "add":
        a, b = n.args
        da, db = depends(a, {h.id}), depends(b, {h.id})
        if da and db:
            return None
        if da:
            e = peel(a, h)
            return None if e is None else add(e, b)
        if db:
            e = peel(b, h)
            return None if e is None else add(a, e)
        return None
    if n.op == "ite":
        c, a, b = n.args
        if depends(c, {h.id}):
            return None
        x, y = peel(a, h), peel(b, h)
        return None if x is None or y is None else ite(c, x, y)
    return None


def peel_mul(n, h):
    if n is h:
        return ONE
    if n.op == "mul":
        a, b = n.args
        da, db = depends(a, {h.id}), depends(b, {h.id})
        if da and db:
            return None
        if da:
            e = peel_mul(a, h)
            return None if e is None else mul(e, b)
        if db:
            e = peel_mul(b, h)
            return None if e is None else mul(a, e)
        return None
    if n.op == "neg":
        e = peel_mul(n.args[0], h)
        return None if e is None else neg(e)
    if n.op == "ite":
        c, a, b = n.args
        if depends(c, {h.id}):
            return None
        x, y = peel_mul(a, h), peel_mul(b, h)
        return None if x is None or y is None else ite(c, x, y)
    return None


def sum_node(seq, body):
    body = ite(seq.guard, body, ZERO)
    if is_const(body, 0):
        return ZERO
    return mk("sum", (seq.key, body), None)
