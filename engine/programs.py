"""Transfer functions of the routines the phase-diagram programs use to produce output: formatted text,
paths, files, plots.  Output is recorded, in program order, as (kind, target, payload, path condition)."""
import re as _re
from decimal import Decimal
from fractions import Fraction
from values import *  # noqa
from dag import *  # noqa
import dag

RESULT = "std::result::Result"
OK = lambda v: Agg("adt", [v], RESULT, 0, "Ok")
ERR = lambda v: Agg("adt", [v], RESULT, 1, "Err")


def text(*parts):
    """canonical text: adjacent literals joined"""
    out = []
    for p in parts:
        for q in (p.f if isinstance(p, Agg) and p.kind == "text" else [p]):
            if isinstance(q, Str) and out and isinstance(out[-1], Str):
                out[-1] = Str(out[-1].s + q.s)
            elif not (isinstance(q, Str) and q.s == ""):
                out.append(q)
    return Agg("text", out, "text")


def fnum(x, prec, trait="Display", ty="f64"):
    """the text of a number"""
    n = to_node(x)
    if n.op == "const" and trait == "Display":
        f = Fraction(n.data)
        if ty in ("f64", "f32"):
            v = float(f)
            if prec is not None:
                return text(Str("%.*f" % (prec, v)))
            s = format(Decimal(repr(v)), "f")
            return text(Str(s[:-2] if s.endswith(".0") else s))
        if f.denominator == 1 and prec is None:
            return text(Str(str(int(f))))
    return text(Agg("fmt", [n], "fmt:%s:%s" % (trait, "" if prec is None else prec)))


_CANON = {}


def canon(n):
    """one representative of the arithmetic expressions equal to n"""
    if n.op not in ("add", "mul", "neg", "inv") or not all(x.op in ("const", "atom", "add", "mul", "neg", "inv") for x in nodes_of(n)):
        return n
    try:
        k = tuple(GF(s).ev(n) for s in (31341, 31342, 31343))
    except (Retry, DivZero):
        return n
    return _CANON.setdefault(k, n)


def show(t):
    """readable form of a text"""
    r = ""
    for p in (t.f if isinstance(t, Agg) else [t]):
        r += p.s if isinstance(p, Str) else "{%s}" % ((str(canon(to_node(p.f[0]))) + p.adt[3:]).replace("/", "÷") if isinstance(p, Agg) else "?")
    return r


def literal(t):
    return "".join(p.s for p in t.f) if all(isinstance(p, Str) for p in t.f) else None


def files(out):
    """name -> content of every file, [(name, plot)], problems"""
    fs, plots, bad, dirs = {}, [], [], set()
    for kind, target, v, pc in out:
        name = show(target) if target is not None else "?"
        if pc is not TRUE:
            bad.append("%s of %s happens only under a condition" % (kind, name))
        if kind == "mkdir":
            dirs.add(name)
            if v == "create_dir_all":
                while "/" in name:
                    name = name.rsplit("/", 1)[0]
                    dirs.add(name)
        elif kind == "create":
            if name in fs:
                bad.append("%s is created twice" % name)
            if name.rsplit("/", 1)[0] not in dirs:
                bad.append("%s is created in a directory the program has not created" % name)
            fs[name] = text()
        elif kind == "write":
            fs[name] = text(fs.get(name, text()), v)
        elif kind == "plot":
            if target is None:
                bad.append("a plot is saved without a path")
            elif name in [n for n, _ in plots]:
                bad.append("plot %s is saved twice" % name)
            elif name.rsplit("/", 1)[0] not in dirs:
                bad.append("plot %s is saved in a directory the program has not created" % name)
            plots.append((name, v))
    return fs, dict(plots), bad


def unflushed(out):
    """buffered files whose last write is not followed by a flush whose failure would be noticed"""
    buf, last = set(), {}
    for kind, target, v, pc in out:
        n = show(target) if target is not None else "?"
        if kind == "buffer":
            buf.add(n)
        elif kind == "create":
            last.pop(n, None)
        elif kind == "write" and n in buf:
            last[n] = pc
        elif kind == "flush" and n in last and (pc is TRUE or pc is last[n]):
            del last[n]
    return sorted(last)


class Programs:
    IDENT = {"std::path::Path::new", "std::path::Path::to_string_lossy", "std::path::PathBuf::as_path", "std::string::String::as_str",
             "std::hint::must_use", "std::path::PathBuf::from", "std::string::ToString::to_string", "std::path::Path::to_path_buf",
             "std::path::Path::display", "std::path::PathBuf::into_os_string", "std::path::Path::as_os_str", "std::string::String::from",
             "std::borrow::Cow::<'_, B>::into_owned", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
             "std::path::Path::to_owned", "alloc::str::<impl str>::to_owned", "std::str::<impl str>::to_string"}

    def __init__(self, flow):
        self.F = flow
        self.I = flow.I
        self.out = []
        self.nplot = 0
        flow.I.ext = self.call
        flow.nomemo = True
        self.hooks = {}
        self.ops, self.fault = [], None      # operations that can fail, in order; the one made to fail
        self.term = None
        self.fits = []

    # ------------------------------------------------------------------
    @staticmethod
    def arity(F, f):
        return getattr(f, "fn", None) in F.P.bodies and F.P.bodies[f.fn]["argc"] > 1

    def record(self, kind, target, payload):
        self.out.append((kind, target, payload, self.F.pathcond()))

    def io(self, kind, target, payload, result=UNIT):
        """an operation on a file: succeeds, unless it is the one that is made to fail"""
        self.ops.append((kind, show(target) if target is not None else "?", self.F.frames[-1].name, id(self.term)))
        if self.fault == len(self.ops) - 1:
            return ERR(atom("io error"))
        self.record(kind, target, payload)
        return OK(result)

    def txt(self, v):
        v = self.I.deref(v)
        if isinstance(v, Str):
            return text(v)
        if isinstance(v, Agg) and v.kind == "text":
            return v
        if isinstance(v, VIte):
            return merge(v.c, self.txt(v.a), self.txt(v.b))
        if isinstance(v, Seq) and v.lit is not None:
            return v
        return text(Agg("fmt", [to_node(v)], "fmt:text:"))

    def disp(self, arg, prec):
        trait, v, ty = arg.f[0].s, arg.f[1], arg.f[2].s
        v = self.I.deref(v)
        if isinstance(v, (Str,)) or (isinstance(v, Agg) and v.kind == "text"):
            return self.txt(v) if trait == "Display" else text(Agg("fmt", [to_node(v)], "fmt:%s:" % trait))
        if isinstance(v, VIte):
            return text(Agg("fmt", [to_node(v)], "fmt:%s:%s" % (trait, prec)))
        return fnum(v, prec, trait, ty)

    def fmt(self, tpl, args):
        b = bytes.fromhex(tpl)
        i, k, out = 0, 0, []
        while True:
            n = b[i]
            i += 1
            if n == 0:
                return text(*out)
            if n < 0x80:
                out.append(Str(b[i:i + n].decode("utf8")))
                i += n
            elif n == 0x80:
                ln = int.from_bytes(b[i:i + 2], "little")
                out.append(Str(b[i + 2:i + 2 + ln].decode("utf8")))
                i += 2 + ln
            else:
                prec, extra = None, ""
                if n & 1:
                    fl = int.from_bytes(b[i:i + 4], "little")
                    i += 4
                    # default flags: fill ' ', unknown alignment; bits 27/28: width/precision present
                    base = fl & ~((1 << 27) | (1 << 28))
                    if base != 0x60000020:
                        extra += "f%x" % base
                if n & 2:
                    extra += "w%d" % int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if n & 4:
                    prec = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if n & 8:
                    k = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if n & 16:
                    extra += "iw"
                if n & 32:
                    pv = self.I.deref(args[prec].f[1])
                    pv = to_node(pv)
                    prec = int(pv.data) if pv.op == "const" else "*%d" % pv.id
                t = self.disp(args[k], prec)
                if extra:
                    t = text(Agg("fmt", [to_node(t)], "fmt:pad%s:" % extra))
                out.append(t)
                k += 1

    # ------------------------------------------------------------------
    def call(self, name, a, fr, argtys, term):
        F, I = self.F, self.I
        if "__private" in name:
            name = _re.sub(r"__private\d+", "__private", name)
        self.term = term
        h = self.hooks.get(name)
        if h is not None:
            return h(a, fr)
        short = name.rsplit("::", 1)[1]
        owner = name.rsplit("::", 1)[0]
        at = " ".join(argtys or ())
        # ---- logging, printing
        if "log::" in at and owner == "std::cmp::PartialOrd":
            return FALSE
        if name in ("log::max_level", "log::__private_api::loc", "log::__private_api::log", "std::io::_print", "std::io::_eprint",
                    "log::__private_api::enabled"):
            return UNIT
        # ---- formatting
        if owner.startswith("core::fmt::rt::Argument"):
            if short.startswith("new_"):
                ty = (argtys or ["?"])[0].lstrip("&").replace("mut ", "")
                tr = {"new_display": "Display", "new_debug": "Debug", "new_lower_exp": "LowerExp", "new_upper_exp": "UpperExp"}.get(short, short)
                return Agg("fmtarg", [Str(tr), a[0], Str(ty.split(" ")[-1])], "fmtarg")
            if short == "from_usize":
                return Agg("fmtarg", [Str("Display"), a[0], Str("usize")], "fmtarg")
        if owner.startswith("std::fmt::Arguments"):
            if short in ("from_str", "from_str_nonconst", "new_const"):
                return self.txt(a[0])
            if short == "new":
                t = I.deref(a[0])
                args = I.deref(a[1])
                if isinstance(t, Agg) and t.kind == "bytes" and isinstance(args, Seq) and args.lit is not None:
                    return self.fmt(t.f[0].s, args.lit)
        if name in ("std::fmt::format", "alloc::fmt::format"):
            return self.txt(a[0])
        # ---- strings and paths
        if name in self.IDENT or (short in ("to_string", "to_owned", "into", "from", "as_ref", "borrow", "clone", "deref", "into_string", "as_str",
                                            "as_path", "into_owned")
                                  and _re.search(r"\bstr\b|String|Path|Cow|OsStr", at)):
            return self.txt(a[0])
        if name in ("std::path::Path::join",):
            c = self.txt(a[1])
            b = self.txt(a[0])
            return text(b, Str("/"), c)
        if name == "std::path::Path::to_str":
            return some(self.txt(a[0]))
        if owner.startswith("std::string::String") or owner.startswith("alloc::string"):
            if short == "push_str":
                F.store_at(a[0].fid, a[0].local, a[0].proj, text(self.txt(a[0]), self.txt(a[1])))
                return UNIT
            if short == "new":
                return text()
        if owner == "std::ops::Add" and "String" in at:
            return text(self.txt(a[0]), self.txt(a[1]))
        if owner == "std::fmt::Write" and short in ("write_fmt", "write_str"):
            F.store_at(a[0].fid, a[0].local, a[0].proj, text(self.txt(a[0]), self.txt(a[1])))
            return OK(UNIT)
        # ---- lazily initialised statics
        if name.startswith("lazy_static::lazy::Lazy") and short == "get":
            return F.apply(a[1], [])
        # ---- files
        if name in ("std::fs::create_dir_all", "std::fs::create_dir"):
            return self.io("mkdir", self.txt(a[0]), short)
        if name == "std::fs::File::create":
            p = self.txt(a[0])
            return self.io("create", p, None, Agg("file", [p], "file"))
        if name == "std::fs::write":
            p = self.txt(a[0])
            self.record("create", p, None)
            return self.io("write", p, self.txt(a[1]))
        if owner.startswith("std::io::BufWriter") or owner.startswith("std::io::LineWriter"):
            if short in ("new", "with_capacity"):
                v = a[-1]
                f = I.deref(v)
                if isinstance(f, Agg) and f.kind == "file":
                    self.record("buffer", f.f[0], None)
                return v
            if short == "into_inner":
                f = I.deref(a[0])
                return self.io("flush", f.f[0], None, a[0]) if isinstance(f, Agg) and f.kind == "file" else OK(a[0])
            if short in ("get_ref", "get_mut"):
                return a[0]
        if owner == "std::fs::File" and short in ("sync_all", "sync_data", "flush"):
            return OK(UNIT)
        if owner == "std::io::Write":
            f = I.deref(a[0])
            while isinstance(f, MutRef):
                f = I.deref(f)
            if isinstance(f, Agg) and f.kind == "file":
                if short in ("write_fmt", "write_all", "write_str"):
                    return self.io("write", f.f[0], self.txt(a[1]))
                if short == "flush":
                    return self.io("flush", f.f[0], None)
                if short == "by_ref":
                    return a[0]
        if name in ("std::panic::catch_unwind", "std::thread::spawn", "std::thread::Scope::spawn", "std::thread::scope") or \
                name.startswith("std::thread::Scope") and short == "spawn":
            # a panic ends the closure, not the program
            from mirflow import Diverge
            f = I.deref(a[-1])
            while isinstance(f, Agg) and len(f.f) == 1:      # AssertUnwindSafe
                f = I.deref(f.f[0])
            if short == "scope":
                keep, self.unjoined = getattr(self, "unjoined", []), []
                v = F.apply(f, [Agg("scope", [])])
                if self.unjoined:                            # the scope passes on panics of threads nobody joined
                    F.event("panic", F.frames[-1].name, None, F.pathcond())
                    raise Diverge()
                self.unjoined = keep
                return v
            old, args = set(F.events), [Agg("scope", [])] if owner.startswith("std::thread::Scope") and self.arity(F, f) else []
            try:
                v = OK(F.apply(f, args))
            except Diverge:
                for k in [k for k, e in F.events.items() if k not in old and e[0] == "panic"]:
                    del F.events[k]
                v = ERR(atom("panic payload"))
            if short == "catch_unwind":
                return v
            h = Agg("thread", [v])
            if v.var == 1 and owner.startswith("std::thread::Scope"):
                self.unjoined.append(h)
            return h
        if short == "join" and owner.startswith("std::thread::"):
            h = I.deref(a[0])
            if isinstance(h, Agg) and h.kind == "thread":
                self.unjoined = [x for x in getattr(self, "unjoined", []) if x is not h]
                return h.f[0]
        if owner.startswith("std::result::Result"):
            v = I.deref(a[0])
            if isinstance(v, Agg) and v.adt == RESULT:
                good = v.var == 0
                if short in ("unwrap", "expect"):
                    if good:
                        return v.f[0]
                    from mirflow import Diverge
                    F.event("panic", F.frames[-1].name, None, F.pathcond())
                    raise Diverge()
                if short == "unwrap_or_else":
                    return v.f[0] if good else F.apply(a[1], [v.f[0]])
                if short == "unwrap_or":
                    return v.f[0] if good else a[1]
                if short == "is_ok":
                    return TRUE if good else FALSE
                if short == "is_err":
                    return FALSE if good else TRUE
                if short == "ok":
                    return some(v.f[0]) if good else NONE
                if short == "map_err":
                    return v if good else ERR(F.apply(a[1], [v.f[0]]))
                if short == "map":
                    return OK(F.apply(a[1], [v.f[0]])) if good else v
                if short == "and_then":
                    return F.apply(a[1], [v.f[0]]) if good else v
                if short == "and":
                    return a[1] if good else v
                if short == "or_else":
                    return v if good else F.apply(a[1], [v.f[0]])
                if short == "err":
                    return NONE if good else some(v.f[0])
                if short in ("inspect_err", "inspect"):
                    if good == (short == "inspect"):
                        F.apply(a[1], [v.f[0]])
                    return v
                if short in ("map_or_else", "map_or"):
                    if good:
                        return F.apply(a[2], [v.f[0]])
                    return F.apply(a[1], [v.f[0]]) if short == "map_or_else" else a[1]
                if short == "is_ok_and":
                    return F.apply(a[1], [v.f[0]]) if good else FALSE
                if short in ("expect_err", "unwrap_err") and not good:
                    return v.f[0]
                if short in ("as_ref", "as_mut"):
                    return v
        if name == "std::ops::Try::branch":
            v = I.deref(a[0])
            if isinstance(v, Agg) and v.adt == RESULT:
                return Agg("adt", [v.f[0] if v.var == 0 else v], "std::ops::ControlFlow", v.var, "Continue" if v.var == 0 else "Break")
        if name == "std::ops::FromResidual::from_residual":
            return a[0]
        # ---- plots
        if _re.search(r"::Plot2D$", owner) and short == "new":
            self.nplot += 1
            return Agg("plot", [Seq([])] + [NONE] * 6, "plot")
        if _re.search(r"::Plot$", owner) and short == "savefig" and isinstance(a[0], Agg) and a[0].kind == "plot":
            return self.io("plot", a[0].f[2].f[0] if a[0].f[2].var else None, a[0])
        if _re.search(r"::Plot$", owner) and isinstance(a[0], MutRef):
            p = I.deref(a[0])
            while isinstance(p, MutRef):
                a = [p] + list(a[1:])
                p = I.deref(p)
            if isinstance(p, Agg) and p.kind == "plot":
                k = {"set_domain": 1, "set_path": 2, "set_legend": 3, "set_title": 4, "set_xlabel": 5, "set_ylabel": 6}.get(short)
                if short == "insert_image":
                    p = p.with_field(0, Seq(p.f[0].lit + [I.deref(a[1])]))
                elif k is not None:
                    v = I.deref(a[1])
                    p = p.with_field(k, some(self.txt(v) if k != 1 and k != 3 else v))
                elif short == "savefig":
                    return self.io("plot", p.f[2].f[0] if p.f[2].var else None, p)
                elif not short.startswith("set_"):
                    return None
                F.store_at(a[0].fid, a[0].local, a[0].proj, p)
                return a[0]
        if name in ("std::vec::from_elem", "alloc::vec::from_elem"):
            n = to_node(I.deref(a[1]))
            return Seq([I.deref(a[0])] * int(n.data)) if n.op == "const" and n.data <= 64 else None
        # ---- fits: the data, model and settings are kept, the result is uninterpreted
        if name.endswith("::matrix") and "peroxide" in name:
            return Agg("matrix", [I.deref(x) for x in a], "matrix")
        if _re.search(r"::Optimizer(::<.*>)?$", owner):
            if short == "new":
                return Agg("optimizer", [a[0], a[1], NONE], "optimizer")
            o = I.deref(a[0])
            if isinstance(o, Agg) and o.kind == "optimizer":
                if short == "optimize":
                    init = I.deref(o.f[2].f[0]) if o.f[2].var else None
                    self.fits.append((o, F.pathcond()))
                    if isinstance(init, Seq) and init.lit is not None:
                        return Seq([uf("fitted", const(k)) for k in range(len(init.lit))])
                    return None
                if short == "set_init_param":
                    o = o.with_field(2, some(a[1]))
                elif not short.startswith("set_"):
                    return None
                if not isinstance(a[0], MutRef):
                    return o
                F.store_at(a[0].fid, a[0].local, a[0].proj, o)
                return a[0]
        if owner in ("std::ops::Add", "std::ops::Mul", "std::ops::Sub", "std::ops::Neg") and any(
                isinstance(x, Agg) and (x.kind == "ad" or (x.adt or "").endswith("::AD")) for x in map(I.deref, a)):
            v = [x.f[0] if isinstance(x, Agg) and x.f else x for x in map(I.deref, a)]
            r = {"add": add, "mul": mul, "sub": sub}.get(short)
            return Agg("ad", [r(*v) if r else mul(const(-1), v[0])], "ad")
        # ---- parallel iterators: same elements, independent
        if _re.search(r"::(IntoParallelRefIterator|IntoParallelIterator)$", owner) and short in ("par_iter", "into_par_iter"):
            return I.iter(I.deref(a[0]))
        if _re.search(r"::(ParallelIterator|IndexedParallelIterator|ParallelSlice)$", owner):
            return I.it(short, a, fr)
        if owner == "std::iter::Extend" and short == "extend" and isinstance(a[0], MutRef):
            s, o = I.deref(a[0]), I.iter(a[1])
            if isinstance(s, Seq) and s.lit is not None and o is not None and o.lit is not None:
                F.store_at(a[0].fid, a[0].local, a[0].proj, Seq(s.lit + o.lit))
                return UNIT
        return None
