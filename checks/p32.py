from checks.programs_common import *
import re as _re

FLOOR = 40
RULE = ("main of the phase-diagram program is a function of its configuration: the configuration it saves is the one it uses, field by field, "
        "whether read from a file or built in; every field is saved under the name it is read from; a file that cannot be understood, or that "
        "lacks a field, is refused; the stages of a run see the same configuration whatever its source")
EXPLANATION = ("symbolic execution of main with an arbitrary configuration file, with the built-in configuration and with an unreadable file, and of "
               "the serialisation routines of the configuration on arbitrary field values")
PT = "physical_tc::"


def run(c):
    positive(c)
    dag.LNSPLIT[0] = True
    opaque_propagators(c)
    Pm = c.programs = Programs(c.flow)

    def of(log, kind):
        return [x for x in log if x[0] == kind]

    def no_panic(key):
        for e in c.flow.events.values():
            if e[0] == "panic" and e[3] is not FALSE:      # overflow of the number of grid points is no refusal
                c.same("the program can panic in %s (%s)" % (e[1], key), ite(e[3], ONE, ZERO), ZERO, key + ":panic")
    # ---- built-in configuration
    plain = run_main(c, None)
    no_panic("builtin")
    saves = of(plain, "save")
    if not c.ok(len(saves) == 1 and saves[0][3] is TRUE, "saved", "the configuration is saved %d times" % len(saves)):
        return
    shape = saves[0][2]
    fs, _, bad = files(Pm.out)
    for b in bad:
        c.ok(False, "io", b)
    c.ok(saves[0][1] == "target/tc_long_prop/physical_tc/config.yml", "where", "the configuration is saved as %s" % saves[0][1])
    c.ok(len(of(plain, "stage")) >= 5, "stages", "the run has %d stages" % len(of(plain, "stage")))
    c.ok(all(x[3] is TRUE for x in of(plain, "stage")), "stages:cond", "a stage is run only under a condition")
    # ---- from a file
    data = arbitrary(shape)
    given = run_main(c, data)
    no_panic("file")
    for x in of(given, "open"):
        c.ok(show(x[1]) == "CONFIG", "argument", "the configuration is read from %s, not from the file named on the command line" % show(x[1]))
    c.ok(len(of(given, "open")) > 0, "argument", "the file named on the command line is not read")
    saves = of(given, "save")
    if c.ok(len(saves) == 1, "saved:file", "the configuration is saved %d times" % len(saves)):
        for i, (x, y) in enumerate(zip(saves[0][2].f, data.f)):
            nm = (shape.names or range(99))[i]
            c.same("the saved field %s is not the one that was read" % nm, to_node(x), to_node(y), "roundtrip:%s" % nm)
    b = of(given, "stage")
    same = of(run_main(c, shape), "stage")
    a = of(plain, "stage")
    if c.ok([x[1] for x in a] == [x[1] for x in same] == [x[1] for x in b], "stages:same", "a run from a file has other stages (%s) than one from the "
            "built-in configuration (%s)" % ([x[1] for x in b], [x[1] for x in a])):
        for k, (x, y) in enumerate(zip(a, same)):
            if not (isinstance(x[2], Agg) and isinstance(y[2], Agg) and len(x[2].f) == len(y[2].f)):
                c.ok(False, "stage:%d" % k, "stage %d (%s) works on something other than a configuration" % (k, x[1]))
                continue
            for j, (p, q) in enumerate(zip(x[2].f, y[2].f)):
                nm = (x[2].names or range(99))[j]
                c.same("stage %d (%s): %s differs between the built-in configuration and a file with the same contents" % (k, x[1], nm),
                       to_node(p), to_node(q), "stage:%d:%s" % (k, nm))
    # every entry of the configuration matters (the masses of the third flavour belong to a calculation that is not run)
    used = set()
    for x in b:
        for n in nodes_of(to_node(x[2])):
            if n.op == "atom":
                used.add(n.data)
    idle = sorted(n.data for n in (atom("cfg." + p) for p in paths(shape)) if n.data not in used and n.data not in ("cfg.mq.2", "cfg.mqc.2"))
    c.ok(not idle, "used", "configuration entries without any effect on the run: %s" % idle[:4])
    # ---- malformed file
    try:
        run_main(c, ERR)
        bad = panic_cond(c) is not TRUE
    except Diverge:
        bad = False
    c.ok(not bad, "malformed", "a malformed configuration file is not refused")
    serialisation(c, shape, data)
    shipped(c, shape)


def paths(v, p=""):
    if isinstance(v, Agg):
        return [q for i, x in enumerate(v.f) for q in paths(x, "%s%s" % (p + "." if p else "", (v.names or range(len(v.f)))[i]))]
    return [p]


def serialisation(c, shape, data):
    """the derived (or hand-written) routines save every field under the name it is read from"""
    Pm, F = c.programs, c.flow
    ty = (shape.adt or "?").rsplit("::", 1)[1]
    ser = [n for n in c.P.bodies if n.startswith(PT) and n.endswith("serde::Serialize for %s>::serialize" % ty)]
    vm = [n for n in c.P.bodies if n.startswith(PT) and "for %s>::deserialize::" % ty in n and n.endswith("::visit_map")]
    vs = [n for n in c.P.bodies if n.startswith(PT) and "for %s>::deserialize::" % ty in n and n.endswith("::visit_str")]
    if not c.ok(len(ser) == len(vm) == len(vs) == 1, "serde", "serialisation of the configuration is not where it is expected"):
        return
    rec = []
    Pm.hooks.clear()
    Pm.hooks["serde::Serializer::serialize_struct"] = lambda a, fr: OK(Agg("ser", [], "ser"))

    def field(a, fr):
        rec.append((Pm.txt(a[1]).f[0].s, to_node(F.I.deref(a[2])), F.pathcond()))
        return OK(UNIT)
    Pm.hooks["serde::ser::SerializeStruct::serialize_field"] = field
    Pm.hooks["serde::ser::SerializeStruct::end"] = lambda a, fr: OK(UNIT)
    Pm.hooks["serde::ser::SerializeStruct::skip_field"] = lambda a, fr: OK(UNIT)
    c.call(ser[0], [data, Agg("serializer", [], "serializer")])
    c.ok(all(x[2] is TRUE for x in rec), "serialize:cond", "a field is saved only under a condition")
    keys = {}
    for k, v, _ in rec:
        c.ok(k not in keys, "serialize:dup:" + k, "two fields are saved as %s" % k)
        keys[k] = v
    for i, v in enumerate(data.f):
        c.ok(any(x is to_node(v) for x in keys.values()), "serialize:%d" % i, "field %s of the configuration is not saved" % (shape.names or range(99))[i])
    # reading: entries in the order saved, in reverse order, and with one missing
    Pm.hooks["std::cmp::PartialEq::eq"] = lambda a, fr: TRUE if literal(Pm.txt(a[0])) == literal(Pm.txt(a[1])) else FALSE
    ident = {}
    for k in keys:
        r = c.call(vs[0], [UNIT, Str(k)], tyenv={})
        ident[k] = r.f[0] if isinstance(r, Agg) and r.var == 0 else None
    Pm.hooks.clear()
    queue = []
    Pm.hooks["serde::de::MapAccess::next_key"] = lambda a, fr: OK(some(ident[queue[0]])) if queue else OK(NONE)
    Pm.hooks["serde::de::MapAccess::next_value"] = lambda a, fr: OK(by_node[queue.pop(0)])
    Pm.hooks["serde::__private::de::missing_field"] = lambda a, fr: ERR(UNIT)
    Pm.hooks["serde::de::Error::duplicate_field"] = lambda a, fr: UNIT
    by_node = {k: [x for x in data.f if to_node(x) is v][0] for k, v in keys.items() if any(to_node(x) is v for x in data.f)}
    order = list(by_node)

    def read(entries):
        queue[:] = entries
        return c.call(vm[0], [UNIT, MutRef("static", "map", ())])
    F.state.st["map"] = Agg("map", [], "map")
    c.st0 = dict(c.st0, map=Agg("map", [], "map"))
    for nm, es in (("saved", order), ("reversed", order[::-1])):
        r = read(es)
        ok = isinstance(r, Agg) and r.var == 0
        c.ok(ok, "deserialize:" + nm, "a saved configuration with its entries in %s order is not read back" % nm)
        if ok:
            for i, (x, y) in enumerate(zip(r.f[0].f, data.f)):
                c.same("field %s is not read back as it was saved" % (shape.names or range(99))[i], to_node(x), to_node(y), "deserialize:%s:%d" % (nm, i))
    for k in order:
        r = read([x for x in order if x != k])
        c.ok(isinstance(r, Agg) and r.var == 1, "missing:" + k, "a configuration file without %s is not refused" % k)


def shipped(c, shape):
    """configs/default_config.yml says what the program does without a file"""
    import ast
    import os
    from extract import REPO
    path = os.path.join(REPO, "tc_long_prop", "configs", "default_config.yml")
    if not c.ok(os.path.exists(path), "shipped", "there is no configs/default_config.yml"):
        return
    have = {}
    for line in open(path):
        line = line.split("#")[0].strip()
        if ":" in line:
            k, v = line.split(":", 1)
            try:
                v = ast.literal_eval(v.strip())
            except (ValueError, SyntaxError):
                v = None
            c.ok(k.strip() not in have, "shipped:twice:" + k, "default_config.yml gives %s twice" % k.strip())
            have[k.strip()] = v
    c.ok(set(have) == set(shape.names), "shipped:entries", "default_config.yml has the entries %s" % sorted(have))
    for nm, v in zip(shape.names, shape.f):
        if nm not in have:
            continue
        w = have[nm]
        w = list(w) if isinstance(w, (list, tuple)) else [w]
        v = [to_node(x) for x in v.f] if isinstance(v, Agg) else [to_node(v)]
        ok = len(v) == len(w) and all(isinstance(y, (int, float)) and x.op == "const" and x.data == Fr(repr(y)) for x, y in zip(v, w))
        c.ok(ok, "shipped:" + nm, "%s is %s in default_config.yml, but the program uses %s without a file" % (nm, w, [str(x) for x in v]))
