#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, TyCtxt, TypingEnv};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    let v: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn ty(&self, t: ty::Ty<'tcx>) -> String {
        format!("{}", t)
    }

    fn fn_ref(&self, env: TypingEnv<'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f = vec![
            ("fn", js(&self.path(def))),
            ("args", arr(args.iter().map(|a| js(&format!("{}", a))))),
            ("local", format!("{}", def.is_local())),
        ];
        if !def.is_local() {
            let k = tcx.crate_name(def.krate);
            if ["qcd_sme", "tc_long_prop"].contains(&k.as_str()) {
                f.push(("dp", js(&format!("{}{}", k, tcx.def_path(def).to_string_no_crate_verbose()))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            f.push(("trait", js(&self.path(tr))));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, args) {
            let rd = inst.def_id();
            if rd != def {
                f.push(("res", js(&self.path(rd))));
                f.push(("res_local", format!("{}", rd.is_local())));
                f.push(("res_args", arr(inst.args.iter().map(|a| js(&format!("{}", a))))));
            }
            f.push(("inst", js(&format!("{:?}", inst.def).chars().take(40).collect::<String>())));
        }
        obj(&f)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => js("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(adt, _) = pty.ty.kind() {
                        let v = match pty.variant_index {
                            Some(v) => Some(adt.variant(v)),
                            None if !adt.is_enum() => Some(adt.non_enum_variant()),
                            _ => None,
                        };
                        if let Some(v) = v {
                            name = v.fields[f].name.to_string();
                        }
                    }
                    obj(&[("f", format!("{}", f.as_usize())), ("n", js(&name))])
                }
                ProjectionElem::Index(l) => obj(&[("idx", format!("{}", l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => obj(&[
                    ("cidx", format!("{}", offset)),
                    ("from_end", format!("{}", from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => obj(&[
                    ("sub", format!("[{},{}]", from, to)),
                    ("from_end", format!("{}", from_end)),
                ]),
                ProjectionElem::Downcast(n, v) => obj(&[
                    ("dc", format!("{}", v.as_usize())),
                    ("n", js(&n.map(|x| x.to_string()).unwrap_or_default())),
                ]),
                other => js(&format!("{:?}", other)),
            };
            pr.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        obj(&[("l", format!("{}", p.local.as_usize())), ("p", arr(pr))])
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut f: Vec<(&str, String)> = vec![("ty", js(&self.ty(t)))];
        if let ty::FnDef(d, a) = t.kind() {
            f.push(("fnref", self.fn_ref(env, *d, a.skip_binder())));
            return obj(&f);
        }
        if let ty::Closure(d, _) = t.kind() {
            f.push(("closure", js(&self.path(*d))));
            return obj(&f);
        }
        if let Const::Unevaluated(u, _) = c {
            match u.promoted {
                Some(p) => f.push(("promoted", js(&format!("{}::{{promoted#{}}}", self.path(u.def), p.as_usize())))),
                None => {
                    f.push(("const", js(&self.path(u.def))));
                    f.push(("const_local", format!("{}", u.def.is_local())));
                    f.push(("cargs", arr(u.args.iter().map(|a| js(&format!("{}", a))))));
                    if let Some(tr) = tcx.trait_of_assoc(u.def) {
                        f.push(("ctrait", js(&self.path(tr))));
                    }
                }
            }
        }
        let val = match c {
            Const::Val(v, _) => Some(*v),
            _ => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    f.push(("size", format!("{}", i.size().bytes())));
                    f.push(("bits", js(&format!("{}", i.to_bits_unchecked()))));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(ga) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        match ga {
                            GlobalAlloc::Static(d) => {
                                f.push(("static", js(&self.path(d))));
                                f.push(("static_mut", format!("{}", tcx.is_mutable_static(d))));
                            }
                            GlobalAlloc::Function { instance, .. } => {
                                f.push(("fnptr", js(&self.path(instance.def_id()))))
                            }
                            GlobalAlloc::Memory(m) => {
                                f.push(("alloc", js("memory")));
                                let is_bytes = matches!(t.kind(), ty::Ref(_, r, _)
                                    if matches!(r.kind(), ty::Array(e, _) if *e == tcx.types.u8));
                                let m = m.inner();
                                if is_bytes && m.provenance().ptrs().is_empty() {
                                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                                    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                                    f.push(("bytes", js(&h)));
                                }
                            }
                            _ => f.push(("alloc", js("memory"))),
                        }
                    }
                }
                ConstValue::ZeroSized => f.push(("zst", "true".into())),
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        f.push(("str", js(&String::from_utf8_lossy(b))));
                    }
                }
                ConstValue::Indirect { .. } => f.push(("indirect", "true".into())),
            }
        }
        obj(&f)
    }

    fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("o", js("copy")), ("pl", self.place(body, p))]),
            Operand::Move(p) => obj(&[("o", js("move")), ("pl", self.place(body, p))]),
            Operand::Constant(c) => obj(&[("o", js("const")), ("c", self.konst(env, &c.const_))]),
            #[allow(unreachable_patterns)]
            other => obj(&[("o", js("other")), ("dbg", js(&format!("{:?}", other)))]),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(body, env, o);
        match r {
            Rvalue::Use(o, ..) => obj(&[("r", js("use")), ("a", op(o))]),
            Rvalue::Repeat(o, n) => {
                obj(&[("r", js("repeat")), ("a", op(o)), ("n", js(&format!("{}", n)))])
            }
            Rvalue::Ref(_, bk, p) => obj(&[
                ("r", js("ref")),
                ("mut", format!("{}", matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => obj(&[
                ("r", js("rawptr")),
                ("kind", js(&format!("{:?}", k))),
                ("pl", self.place(body, p)),
            ]),
            Rvalue::Cast(k, o, t) => obj(&[
                ("r", js("cast")),
                ("kind", js(&format!("{:?}", k))),
                ("a", op(o)),
                ("ty", js(&self.ty(*t))),
            ]),
            Rvalue::BinaryOp(b, ab) => obj(&[
                ("r", js("bin")),
                ("op", js(&format!("{:?}", b))),
                ("a", op(&ab.0)),
                ("b", op(&ab.1)),
                ("aty", js(&self.ty(ab.0.ty(body, self.tcx)))),
            ]),
            Rvalue::UnaryOp(u, o) => {
                obj(&[("r", js("un")), ("op", js(&format!("{:?}", u))), ("a", op(o))])
            }
            Rvalue::Discriminant(p) => obj(&[("r", js("discr")), ("pl", self.place(body, p)),
                ("ty", js(&self.ty(p.ty(body, self.tcx).ty)))]),
            Rvalue::Aggregate(k, ops) => {
                let ops_s = arr(ops.iter().map(|o| op(o)));
                match &**k {
                    AggregateKind::Array(_) => {
                        obj(&[("r", js("agg")), ("kind", js("array")), ("ops", ops_s)])
                    }
                    AggregateKind::Tuple => {
                        obj(&[("r", js("agg")), ("kind", js("tuple")), ("ops", ops_s)])
                    }
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        obj(&[
                            ("r", js("agg")),
                            ("kind", js("adt")),
                            ("adt", js(&self.path(*d))),
                            ("enum", format!("{}", adt.is_enum())),
                            ("v", format!("{}", v.as_usize())),
                            ("vn", js(&var.name.to_string())),
                            ("fields", arr(var.fields.iter().map(|f| js(&f.name.to_string())))),
                            ("ops", ops_s),
                        ])
                    }
                    AggregateKind::Closure(d, _) => obj(&[
                        ("r", js("agg")),
                        ("kind", js("closure")),
                        ("def", js(&self.path(*d))),
                        ("ops", ops_s),
                    ]),
                    other => obj(&[
                        ("r", js("agg")),
                        ("kind", js(&format!("{:?}", other))),
                        ("ops", ops_s),
                    ]),
                }
            }
            Rvalue::CopyForDeref(p) => obj(&[
                ("r", js("use")),
                ("a", obj(&[("o", js("copy")), ("pl", self.place(body, p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                obj(&[("r", js("tls")), ("static", js(&self.path(*d)))])
            }
            #[allow(unreachable_patterns)]
            other => obj(&[("r", js("other")), ("dbg", js(&format!("{:?}", other)))]),
        }
    }

    fn body(&self, name: &str, def: DefId, body: &Body<'tcx>, extra: Vec<(&str, String)>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upvars: Vec<String> = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(vdi.name.to_string());
                } else if p.local.as_usize() == 1 {
                    upvars.push(obj(&[
                        ("n", js(&vdi.name.to_string())),
                        ("pl", self.place(body, p)),
                    ]));
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(i, d)| {
            let mut f = vec![("ty", js(&self.ty(d.ty)))];
            if let Some(n) = &names[i.as_usize()] {
                f.push(("n", js(n)));
            }
            obj(&f)
        }));
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                let (_, line) = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        st.push(obj(&[
                            ("s", js("=")),
                            ("pl", self.place(body, &b.0)),
                            ("rv", self.rvalue(body, env, &b.1)),
                            ("ln", format!("{}", line)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(obj(&[
                        ("s", js("setdiscr")),
                        ("pl", self.place(body, place)),
                        ("v", format!("{}", variant_index.as_usize())),
                    ])),
                    StatementKind::StorageLive(_)
                    | StatementKind::StorageDead(_)
                    | StatementKind::Nop
                    | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..)
                    | StatementKind::AscribeUserType(..)
                    | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter => {}
                    other => {
                        st.push(obj(&[("s", js("other")), ("dbg", js(&format!("{:?}", other)))]))
                    }
                }
            }
            let term = data.terminator();
            let (_, line) = self.span(term.source_info.span);
            let b2 = |b: BasicBlock| format!("{}", b.as_usize());
            let mut t = match &term.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", js("goto")), ("to", b2(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("t", js("switch")),
                    ("d", self.operand(body, env, discr)),
                    ("dty", js(&self.ty(discr.ty(body, tcx)))),
                    (
                        "vals",
                        arr(targets
                            .iter()
                            .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize()))),
                    ),
                    ("else", b2(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("t", js("return"))],
                TerminatorKind::Unreachable => vec![("t", js("unreachable"))],
                TerminatorKind::UnwindResume => vec![("t", js("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("t", js("abort"))],
                TerminatorKind::Drop { place, target, .. } => vec![
                    ("t", js("drop")),
                    ("pl", self.place(body, place)),
                    ("ty", js(&self.ty(place.ty(body, tcx).ty))),
                    ("to", b2(*target)),
                ],
                TerminatorKind::Call { func, args, destination, target, .. } => vec![
                    ("t", js("call")),
                    ("f", self.operand(body, env, func)),
                    ("args", arr(args.iter().map(|a| self.operand(body, env, &a.node)))),
                    ("argtys", arr(args.iter().map(|a| js(&self.ty(a.node.ty(body, tcx)))))),
                    ("dst", self.place(body, destination)),
                    ("to", target.map(b2).unwrap_or("null".into())),
                ],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    ("t", js("assert")),
                    ("c", self.operand(body, env, cond)),
                    ("exp", format!("{}", expected)),
                    ("msg", js(&format!("{:?}", msg).chars().take(60).collect::<String>())),
                    ("to", b2(*target)),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("t", js("goto")), ("to", b2(*real_target))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("t", js("goto")), ("to", b2(*real_target))]
                }
                other => vec![("t", js("other")), ("dbg", js(&format!("{:?}", other)))],
            };
            t.push(("ln", format!("{}", line)));
            blocks.push(obj(&[
                ("st", arr(st)),
                ("term", obj(&t)),
                ("cleanup", format!("{}", data.is_cleanup)),
            ]));
        }
        let (file, line) = self.span(tcx.def_span(def));
        let mut f = vec![
            ("name", js(name)),
            ("file", js(&file)),
            ("line", format!("{}", line)),
            ("argc", format!("{}", body.arg_count)),
            ("locals", locals),
            ("upvars", arr(upvars)),
            ("blocks", arr(blocks)),
        ];
        f.extend(extra);
        obj(&f)
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            let path = cx.path(def);
            let mut extra: Vec<(&str, String)> = vec![
                ("kind", js(&format!("{:?}", kind))),
                ("krate", js(&krate)),
                ("dp", js(&format!("{}{}", krate, tcx.def_path(def).to_string_no_crate_verbose()))),
            ];
            let is_const_like = !matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            );
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                extra.push(("vis", js(if tcx.visibility(def).is_public() { "pub" } else { "restricted" })));
                let eff = tcx.effective_visibilities(());
                extra.push(("reachable", format!("{}", eff.is_reachable(*ld))));
                let attrs = tcx.codegen_fn_attrs(def);
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                extra.push(("sig_in", arr(sig.inputs().iter().map(|t| js(&cx.ty(*t))))));
                extra.push(("sig_out", js(&cx.ty(sig.output()))));
                extra.push(("abi", js(&format!("{:?}", sig.abi()))));
                extra.push(("no_mangle", format!("{}", attrs.contains_extern_indicator())));
                if let Some(s) = attrs.symbol_name {
                    extra.push(("symbol", js(s.as_str())));
                }
                let g = tcx.generics_of(def);
                let mut gp = vec![];
                for i in 0..g.count() {
                    gp.push(js(g.param_at(i, tcx).name.as_str()));
                }
                extra.push(("generics", arr(gp)));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) || matches!(kind, DefKind::AssocConst { .. }) {
                if let Some(imp) = tcx.impl_of_assoc(def) {
                    extra.push(("impl_self", js(&format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        extra.push(("impl_trait", js(&cx.path(tr.instantiate_identity().skip_norm_wip().def_id))));
                        extra.push(("impl_trait_ref", js(&format!("{}", tr.instantiate_identity().skip_norm_wip()))));
                    }
                    extra.push(("item", js(tcx.item_name(def).as_str())));
                }
            }
            if matches!(kind, DefKind::Closure) {
                extra.push(("parent", js(&cx.path(tcx.parent(def)))));
            }
            let b: &Body<'tcx> = if is_const_like {
                tcx.mir_for_ctfe(def)
            } else {
                tcx.optimized_mir(def)
            };
            bodies.push(cx.body(&path, def, b, extra));
            for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                bodies.push(cx.body(
                    &format!("{}::{{promoted#{}}}", path, i.as_usize()),
                    def,
                    p,
                    vec![("kind", js("Promoted")), ("krate", js(&krate))],
                ));
            }
        }
        // ADTs and their field visibility, local impls, statics
        let mut adts = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let def = id.owner_id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(def);
                    let vs = arr(adt.variants().iter().map(|v| {
                        obj(&[
                            ("n", js(v.name.as_str())),
                            (
                                "fields",
                                arr(v.fields.iter().map(|f| {
                                    obj(&[
                                        ("n", js(f.name.as_str())),
                                        ("ty", js(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                                        ("pub", format!("{}", tcx.visibility(f.did).is_public())),
                                    ])
                                })),
                            ),
                        ])
                    }));
                    adts.push(obj(&[("name", js(&cx.path(def))), ("variants", vs)]));
                }
                DefKind::Static { .. } => {
                    statics.push(obj(&[
                        ("name", js(&cx.path(def))),
                        ("mut", format!("{}", tcx.is_mutable_static(def))),
                        ("ty", js(&cx.ty(tcx.type_of(def).instantiate_identity().skip_norm_wip()))),
                    ]));
                }
                _ => {}
            }
        }
        // what other crates can name: public path -> definition
        let mut exports = vec![];
        let mut stack = vec![(String::new(), rustc_hir::def_id::CRATE_DEF_ID)];
        let mut seen = std::collections::HashSet::new();
        while let Some((pre, m)) = stack.pop() {
            if !seen.insert((pre.clone(), m)) || pre.len() > 200 {
                continue;
            }
            for ch in tcx.module_children_local(m) {
                if !ch.vis.is_public() {
                    continue;
                }
                let p = if pre.is_empty() { ch.ident.to_string() } else { format!("{}::{}", pre, ch.ident) };
                if let Some(d) = ch.res.opt_def_id() {
                    match tcx.def_kind(d) {
                        DefKind::Mod => {
                            if let Some(l) = d.as_local() {
                                stack.push((p, l));
                            }
                        }
                        DefKind::Fn | DefKind::Const { .. } | DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::TyAlias => {
                            exports.push(arr([js(&p), js(&cx.path(d))]));
                        }
                        _ => {}
                    }
                }
            }
        }
        let (file, _) = cx.span(tcx.def_span(rustc_hir::def_id::CRATE_DEF_ID.to_def_id()));
        let s = obj(&[
            ("krate", js(&krate)),
            ("root", js(&file)),
            ("bodies", arr(bodies)),
            ("adts", arr(adts)),
            ("statics", arr(statics)),
            ("exports", arr(exports)),
        ]);
        let cts = format!("{:?}", tcx.crate_types());
        let f = format!("{}/{}-{}.json", self.out, krate, if cts.contains("Executable") { "bin" } else { "lib" });
        std::fs::write(&f, s).expect("mirdump: write");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = mirdump rustc <args>
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let skip = args.iter().any(|a| a == "build_script_build" || a == "-vV" || a.starts_with("--print"));
    match out {
        Some(out) if !skip => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Cdebug-assertions=on".into());
            args.push("-Zub-checks=no".into());
            args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
            args.push("-Awarnings".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
