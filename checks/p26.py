from checks.programs_common import *
from programs import unflushed

FLOOR = 60
RULE = ("whenever creating a directory or file, writing, flushing or saving a plot fails, the program panics, exits with a non-zero status or "
        "returns an error from main; every buffered file is flushed, with the result examined, after its last write")
EXPLANATION = ("the mains are executed symbolically once per operation that can fail, with that operation returning an error and everything "
               "else succeeding; every path must end in a failure.  Operations executed several times at one place of the code are made to fail "
               "the first and the last time")
LIB = "tc_long_prop::"


def outcome(c, run):
    """('failed',) or ('silent', why)"""
    c.flow.events.clear()
    c.flow.exits = []
    try:
        r = run()
    except Diverge:
        r = None
    if c.flow.exits:
        return "exits with status 0"
    if r is None or isinstance(r, Agg) and r.adt == "std::result::Result" and r.var == 1:
        return None
    if isinstance(r, Agg) and r.adt == "std::process::ExitCode":
        return None
    if panic_cond(c) is TRUE:
        return None
    return "carries on to the end"


def inject(c, prog, run):
    """run(): executes the program and returns what it returns"""
    Pm = c.programs
    Pm.out, Pm.ops, Pm.fault = [], [], None
    why = outcome(c, run)
    if not c.ok(why is not None, prog + ":ends", "%s does not reach its end even if nothing fails" % prog):
        return 0
    out, ops = Pm.out, Pm.ops
    for n in unflushed(out):
        c.ok(False, "%s:flush:%s" % (prog, n), "%s: the buffer of %s is not flushed after the last write: a failure to write it is not noticed" % (prog, n))
    bufs = {show(t) for k, t, v, p in out if k == "buffer"}
    c.obl += len(bufs)
    sites = {}
    for i, (kind, target, fr, t) in enumerate(ops):
        sites.setdefault((kind, fr, t), []).append((i, target))
    for (kind, fr, t), l in sites.items():
        for i, target in {l[0], l[-1]}:
            Pm.out, Pm.ops, Pm.fault = [], [], i
            why = outcome(c, run)
            c.ok(why is None, "%s:%s:%s:%s" % (prog, kind, fr.rsplit("::", 1)[-1] if "{" not in fr else fr, target),
                 "%s: when the operation '%s' on %s in %s fails, the program %s" % (prog, kind, target, fr, why))
    Pm.fault = None
    return len(sites)


def physical(c):
    log = run_main(c, None)
    shape = [x[2] for x in log if x[0] == "save"][0]
    d = Fr(1, 8)
    n = {"moretemps": 2, "manytemps": 2, "manychempots": 5}

    def field(nm, v):
        if isinstance(v, Agg) and v.kind == "tuple" and len(v.f) == 3 and nm not in ("mq", "mqc"):
            return Agg("tuple", [const(d), const(d * n.get(nm, 1) + (0 if nm == "manychempots" else d)), const(d)])
        if isinstance(v, Agg):
            return Agg(v.kind, [const(Fr(k + 1, 3)) for k in range(len(v.f))], v.adt, v.var, v.vn, v.names)
        return const(Fr(2, 3))
    data = Agg(shape.kind, [field(nm, v) for nm, v in zip(shape.names, shape.f)], shape.adt, shape.var, shape.vn, shape.names)
    k = [0]

    def critical(a, fr):
        k[0] += 1
        return [const(Fr(1, 2)), const(Fr(2, 5)), const(Fr(3, 10)), ZERO, ZERO][(k[0] - 1) % 5]

    def run():
        k[0] = 0
        return run_main(c, data, hooked=False, local_hooks={LIB + "find_critical_temperature": critical}, result=True)
    return run


def overall(c, name):
    F = c.flow

    def run():
        F.I.local[LIB + "find_critical_temperature"] = lambda a, fr: const(Fr(1, 2))
        return c.call(name + "::main", [])
    return run


def run(c):
    positive(c)
    opaque_propagators(c)
    c.programs = Programs(c.flow)
    r = {}
    r["physical_tc"] = inject(c, "physical_tc", physical(c))
    for n in ("one_mass_overall", "two_masses_overall"):
        r[n] = inject(c, n, overall(c, n))
    pb = Seq([Agg("tuple", [const(Fr(k, 5)), const(Fr(3 - k, 7))]) for k in range(4)])
    r["parametrize_phase_boundary"] = inject(c, "parametrize_phase_boundary", lambda: c.call(
        LIB + "parametrize_phase_boundary", [pb, const(2), some(text(Str("d/PATH")))]))
    return {"operation_sites": r}
