import ast
import os
import re as _re
from extract import REPO
from checks.lib import *
from dag import I as IM

FLOOR = 12
RULE = ("every Python function passes its arguments in order to the exported symbol of its own name, complex arguments by real and imaginary "
        "part, and returns what the symbol returns, complex results as real + imaginary part")
EXPLANATION = ("abstract interpretation of the syntax tree of the Cython module, its cimports resolved against the symbols the compiled library "
               "exports (MIR)")
FUNCS = {"ym__gluon__dressing_inv_landau": ["f64", "f64"], "ym__gluon__dressing_inv_landau__complex": ["num::Complex<f64>", "f64"],
         "ym__gluon__dressing_landau": ["f64", "f64"], "ym__gluon__dressing_landau__complex": ["num::Complex<f64>", "f64"]}
CPLX = "num::Complex<f64>"


class Bad(Exception):
    pass


class Struct:
    """a complex number of the C interface"""

    def __init__(self, n):
        self.n = n


def symbol(name, a, cplx, out):
    """the value of a symbol: a real function of the parts of its arguments, or two"""
    parts = [y for x, z in zip(a, cplx) for y in ((re(x), im(x)) if z else (re(x),))]
    if not out:
        return uf("ffi:" + name, *parts)
    return Struct(add(uf("ffi re:" + name, *parts), mul(IM, uf("ffi im:" + name, *parts))))


class Eval:
    """values: nodes (numbers), Struct, ("sym", name), ("def", FunctionDef), None"""

    def __init__(self, glob, used):
        self.glob, self.used = glob, used

    def expr(self, e, env):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, complex):
                return add(const(int(e.value.real)), mul(const(int(e.value.imag)), IM))
            if isinstance(e.value, (int, float)):
                return const(int(e.value)) if e.value == int(e.value) else self.bad(e)
            return None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.glob:
                return self.glob[e.id]
            if e.id in ("complex", "float"):
                return ("builtin", e.id)
            self.bad(e)
        if isinstance(e, ast.Attribute):
            v = self.expr(e.value, env)
            k = {"real": re, "imag": im, "re": re, "im": im}.get(e.attr)
            if k is None or (e.attr in ("re", "im")) != isinstance(v, Struct) or not isinstance(v, (Struct, Node)):
                self.bad(e)
            return k(v.n if isinstance(v, Struct) else v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.num(e.operand, env)
            return mul(const(-1), v) if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a, b = self.num(e.left, env), self.num(e.right, env)
            f = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div}.get(type(e.op))
            return f(a, b) if f else self.bad(e)
        if isinstance(e, (ast.Tuple, ast.List)):
            return [self.expr(x, env) for x in e.elts]
        if isinstance(e, ast.Call):
            return self.call(e, env)
        self.bad(e)

    def bad(self, e):
        raise Bad("not understood: " + ast.unparse(e))

    def num(self, e, env):
        v = self.expr(e, env)
        return v if isinstance(v, Node) else self.bad(e)

    def call(self, e, env):
        f = self.expr(e.func, env)
        a = [self.expr(x, env) for x in e.args]
        kw = {k.arg: self.expr(k.value, env) for k in e.keywords}
        if not isinstance(f, tuple):
            self.bad(e)
        if f[0] == "builtin":
            if f[1] == "float" and len(a) == 1 and isinstance(a[0], Node):
                return a[0]
            if f[1] == "complex":
                a += [kw[k] for k in ("real", "imag")[len(a):] if k in kw]
                if a and all(isinstance(x, Node) for x in a):
                    return a[0] if len(a) == 1 else add(a[0], mul(IM, a[1]))
            self.bad(e)
        if f[0] == "sym" and f[1] == "C":
            a += [kw[k] for k in ("re", "im")[len(a):] if k in kw]
            if len(a) != 2:
                self.bad(e)
            return Struct(add(a[0], mul(IM, a[1])))
        if f[0] == "sym":
            if kw:
                self.bad(e)
            self.used.append((f[1], a))
            if not all(isinstance(x, (Struct, Node)) for x in a):
                self.bad(e)
            return symbol(f[1], [x.n if isinstance(x, Struct) else x for x in a], [isinstance(x, Struct) for x in a], self.out(f[1]) == CPLX)
        if f[0] == "def":
            d = f[1]
            names = [x.arg for x in d.args.args]
            if d.args.vararg or d.args.kwarg or d.args.kwonlyargs or len(a) + len(kw) != len(names):
                self.bad(e)
            env2 = dict(zip(names, a))
            env2.update(kw)
            return self.body(d, env2)
        self.bad(e)

    def body(self, d, env):
        for s in d.body:
            if isinstance(s, ast.Return):
                return self.expr(s.value, env)
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                v, t = self.expr(s.value, env), s.targets[0]
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, ast.Tuple) and isinstance(v, list) and len(v) == len(t.elts) and all(isinstance(x, ast.Name) for x in t.elts):
                    env.update(zip([x.id for x in t.elts], v))
                else:
                    self.bad(t)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                pass
            else:
                self.bad(s)
        return None


def run(c):
    exported = {}
    for n, b in c.P.bodies.items():
        if n.startswith("qcd_sme::") and (b.get("no_mangle") or b.get("export_name")):
            ty = lambda l: l["ty"] if isinstance(l, dict) else l
            exported[b.get("export_name") or n.rsplit("::", 1)[1]] = (
                [ty(l) for l in b["locals"][1:1 + b["argc"]]], ty(b["locals"][0]))
    path = os.path.join(REPO, "python", "pyqcd_sme_so.pyx")
    src = open(path).read()
    glob, out = {}, []
    for line in src.split("\n"):
        m = _re.match(r"\s*from\s+(\w+)\s+cimport\s+(.*)$", line)
        if m:
            c.ok(m.group(1) == "qcd_sme", "cimport:" + line.strip(), "symbols are taken from %s" % m.group(1))
            for x in m.group(2).strip(" ()\\").split(","):
                p = x.split(" as ")
                if x.strip():
                    glob[p[-1].strip()] = ("sym", p[0].strip())
            out.append("")
        elif _re.match(r"\s*cpdef\s", line):
            out.append(_re.sub(r"cpdef\s+(inline\s+)?(double\s+complex|double|complex)?\s*", "def ", line))
        else:
            out.append(line)
    try:
        mod = ast.parse("\n".join(out))
    except SyntaxError as e:
        return c.fail("parse", "%s cannot be parsed: %s" % (path, e))
    defs = {}
    for s in mod.body:
        if isinstance(s, ast.FunctionDef):
            c.ok(s.name not in defs, "twice:" + s.name, "%s is defined twice" % s.name)
            defs[s.name] = s
            glob[s.name] = ("def", s)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
            glob[s.targets[0].id] = glob.get(s.value.id)
            if glob[s.targets[0].id] and glob[s.targets[0].id][0] == "def":
                defs[s.targets[0].id] = glob[s.targets[0].id][1]
        elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            c.ok(False, "toplevel", "not understood: " + ast.unparse(s)[:100])
    for _, (k, sym) in [(n, v) for n, v in glob.items() if v]:
        if k == "sym" and sym != "C":
            c.ok(sym in exported, "symbol:" + sym, "%s is not a symbol of the library" % sym)
    for n in sorted(set(FUNCS) | {d for d in defs if d in exported}):
        if not c.ok(n in defs, "missing:" + n, "there is no Python function %s" % n) or n not in exported:
            continue
        tys, res = exported[n]
        if n in FUNCS:
            c.ok(tys == FUNCS[n], "interface:" + n, "the symbol %s takes %s" % (n, tys))
        d = defs[n]
        vals = [add(atom("x%d" % i), mul(IM, atom("y%d" % i))) if t == CPLX else atom("x%d" % i) for i, t in enumerate(tys)]
        used = []
        ev = Eval(glob, used)
        ev.out = lambda s: exported.get(s, (None, None))[1]
        names = [x.arg for x in d.args.args]
        if not c.ok(len(names) == len(tys) and not d.args.defaults, "arity:" + n, "%s takes %d arguments" % (n, len(names))):
            continue
        try:
            r = ev.body(d, dict(zip(names, vals)))
        except Bad as e:
            c.ok(False, "body:" + n, "%s: %s" % (n, e))
            continue
        for sym, a in used:
            t2 = exported.get(sym, ([], ""))[0]
            c.ok(len(t2) == len(a) and all(isinstance(x, Struct) == (t == CPLX) for x, t in zip(a, t2)), "call:%s:%s" % (n, sym),
                 "%s calls %s with other kinds of arguments than it takes" % (n, sym))
        if not c.ok(isinstance(r, Node), "result:" + n, "%s does not return a number" % n):
            continue
        want = symbol(n, vals, [t == CPLX for t in tys], res == CPLX)
        c.same("%s does not return %s of its arguments" % (n, n), r, want.n if res == CPLX else want, "value:" + n)
    init = os.path.join(REPO, "python", "qcd_sme", "ffi.py")
    names = {a.name for s in ast.parse(open(init).read()).body if isinstance(s, ast.ImportFrom) and s.module == "pyqcd_sme_so" for a in s.names}
    c.ok("*" in names or set(FUNCS) <= names, "reexport", "qcd_sme.ffi does not offer all functions of the module")
