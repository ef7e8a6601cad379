// Fact extractor: a rustc driver that type-checks the crate with the real flags and
// writes its resolved program (types, ADTs, impls, MIR bodies, resolved callees,
// constants) as JSON. It decides nothing; the rules live in /verif/rules.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, BorrowKind, CastKind, Const, ConstValue, Operand, Place,
    PlaceElem, ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, GenericArg, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(v: T) -> J {
    J::S(v.into())
}
fn n<T: TryInto<i128>>(v: T) -> J {
    match v.try_into() {
        Ok(v) => J::N(v),
        Err(_) => J::Null,
    }
}
fn esc(out: &mut String, v: &str) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(v) => {
                let _ = write!(o, "{}", v);
            }
            J::S(v) => esc(o, v),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<DefId, String>,
    used: HashMap<String, u32>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&mut self, d: DefId) -> String {
        if let Some(k) = self.keys.get(&d) {
            return k.clone();
        }
        let base = self.tcx.def_path_str(d);
        let k = if d.is_local() {
            let c = self.used.entry(base.clone()).or_insert(0);
            *c += 1;
            if *c > 1 {
                format!("{}~{}", base, *c)
            } else {
                base
            }
        } else {
            base
        };
        self.keys.insert(d, k.clone());
        k
    }
    fn args(&mut self, a: &[GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for g in a {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(n(self.ty(t))),
                GenericArgKind::Const(c) => v.push(s(format!("{}", c))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                J::A(vec![s("prim"), s(format!("{}", t))])
            }
            ty::Never => J::A(vec![s("never")]),
            ty::Adt(d, a) => {
                let k = self.key(d.did());
                let a = self.args(a);
                J::A(vec![s("adt"), s(k), a])
            }
            ty::Ref(_, t, m) => J::A(vec![s("ref"), J::B(m.is_mut()), n(self.ty(*t))]),
            ty::RawPtr(t, m) => J::A(vec![s("ptr"), J::B(m.is_mut()), n(self.ty(*t))]),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                J::A(vec![s("tuple"), J::A(v)])
            }
            ty::Slice(t) => J::A(vec![s("slice"), n(self.ty(*t))]),
            ty::Array(t, l) => J::A(vec![s("array"), n(self.ty(*t)), s(format!("{}", l))]),
            ty::Param(p) => J::A(vec![s("param"), n(p.index), s(p.name.to_string())]),
            ty::Alias(..) => {
                let mut r = J::A(vec![s("other"), s(format!("{}", t))]);
                if let ty::Alias(_, a) = t.kind() {
                    if let ty::AliasTyKind::Projection { def_id } = a.kind {
                        let tr = self.tcx.parent(def_id);
                        let k = self.key(tr);
                        let nm = self.tcx.item_name(def_id).to_string();
                        let ar = self.args(a.args);
                        r = J::A(vec![s("proj"), s(k), s(nm), ar]);
                    }
                }
                r
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let k = self.key(*d);
                let a = self.args(a);
                J::A(vec![s("fndef"), s(k), a])
            }
            ty::Closure(d, a) => {
                let k = self.key(*d);
                let ups: Vec<J> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| n(self.ty(t)))
                    .collect();
                let pa = self.args(a.as_closure().parent_args());
                J::A(vec![s("closure"), s(k), J::A(ups), pa])
            }
            ty::Dynamic(p, ..) => {
                let nm = p
                    .principal_def_id()
                    .map(|d| self.key(d))
                    .unwrap_or_default();
                J::A(vec![s("dyn"), s(nm)])
            }
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(format!("{}", t))]),
            _ => J::A(vec![s("other"), s(format!("{}", t))]),
        };
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        self.types.push(j);
        self.tymap.insert(t, self.types.len() - 1);
        self.types.len() - 1
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let c = sp.source_callsite();
        let lo = sm.lookup_char_pos(c.lo());
        let lo2 = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(c.hi());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        J::A(vec![s(f), n(lo.line), n(lo2.line), n(hi.line)])
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let e: PlaceElem<'tcx> = e;
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() && pt.variant_index.is_none() {
                                String::new()
                            } else {
                                d.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => String::new(),
                    };
                    J::A(vec![s("f"), n(f.as_usize()), s(nm), n(self.ty(t))])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => J::A(vec![s("ci"), n(offset), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![
                    s("d"),
                    n(v.as_usize()),
                    s(nm.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let mut o = vec![("t", n(self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                o.push(("fn", self.callee(env, *d, a)));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("prom", n(p.as_usize())));
                o.push(("of", s(self.key(u.def))));
            } else {
                o.push(("name", s(self.key(u.def))));
                let a = self.args(u.args);
                o.push(("nargs", a));
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(sc) = c.try_eval_scalar_int(self.tcx, env) {
                let v = if t.is_signed() {
                    sc.to_int(sc.size()).to_string()
                } else {
                    sc.to_bits(sc.size()).to_string()
                };
                o.push(("v", s(v)));
            }
        } else if let Const::Val(cv, _) = c {
            self.cval(&mut o, *cv, t);
        } else if let Ok(cv) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            self.cval(&mut o, cv, t);
        }
        J::O(o)
    }
    fn cval(&mut self, o: &mut Vec<(&'static str, J)>, cv: ConstValue, t: Ty<'tcx>) {
        match cv {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                }
            }
            ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    o.push(("bits", s(i.to_bits(i.size()).to_string())));
                } else if let mir::interpret::Scalar::Ptr(p, _) = sc {
                    let id = p.provenance.alloc_id();
                    match self.tcx.try_get_global_alloc(id) {
                        Some(GlobalAlloc::Static(d)) => o.push(("static", s(self.key(d)))),
                        Some(GlobalAlloc::Function { instance }) => {
                            o.push(("fnptr", s(self.key(instance.def_id()))))
                        }
                        Some(GlobalAlloc::Memory(m)) => {
                            let a = m.inner();
                            if a.len() <= 64 && a.provenance().ptrs().is_empty() {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    0..a.len(),
                                );
                                o.push((
                                    "mem",
                                    J::A(b.iter().map(|x| n(*x as u32)).collect()),
                                ));
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        let _ = t;
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut o = vec![("p", s(self.key(d))), ("a", self.args(a))];
        o.push(("l", J::B(d.is_local())));
        let tcx = self.tcx;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.key(tr))));
        }
        o.push(("nm", s(tcx.item_name(d).to_string())));
        let ea = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, ea) {
            let rd = i.def_id();
            if rd != d {
                o.push(("r", s(self.key(rd))));
                let ra = self.args(i.args);
                o.push(("ra", ra));
                o.push(("rl", J::B(rd.is_local())));
            } else {
                o.push(("rs", J::B(true)));
            }
        }
        J::O(o)
    }
    fn op(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, *p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, *p)]),
            Operand::Constant(c) => J::A(vec![s("c"), self.konst(env, &c.const_)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("c"), J::O(vec![("rt", s(format!("{:?}", o)))])]),
        }
    }
    fn rv(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(env, b, o)]),
            Rvalue::Repeat(o, c) => {
                J::A(vec![s("rep"), self.op(env, b, o), s(format!("{}", c))])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(b, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(b, *p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    k => format!("{:?}", k),
                };
                let ot = o.ty(&b.local_decls, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(ks),
                    self.op(env, b, o),
                    n(self.ty(*t)),
                    n(self.ty(ot)),
                ])
            }
            Rvalue::BinaryOp(k, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", k)),
                    self.op(env, b, &ab.0),
                    self.op(env, b, &ab.1),
                    n(self.ty(t)),
                ])
            }
            Rvalue::UnaryOp(k, o) => {
                let t = o.ty(&b.local_decls, self.tcx);
                J::A(vec![
                    s("un"),
                    s(format!("{:?}", k)),
                    self.op(env, b, o),
                    n(self.ty(t)),
                ])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(b, *p), {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                n(self.ty(t))
            }]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let k = self.key(*d);
                        let fs = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![
                            s("adt"),
                            s(k),
                            n(v.as_usize()),
                            s(var.name.to_string()),
                            J::A(fs),
                            self.args(a),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let k = self.key(*d);
                        let pa = self.args(a.as_closure().parent_args());
                        J::A(vec![s("closure"), s(k), pa])
                    }
                    k => J::A(vec![s("other"), s(format!("{:?}", k))]),
                };
                let v = ops.iter().map(|o| self.op(env, b, o)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, *p)])])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), J::B(m.is_mut()), self.place(b, *p)])
            }
            r => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, def: DefId, b: &Body<'tcx>) -> J {
        let env = TypingEnv::post_analysis(self.tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let nm = names.get(&i.as_usize()).cloned().unwrap_or_default();
            locals.push(J::A(vec![n(self.ty(l.ty)), s(nm)]));
        }
        let mut blocks = vec![];
        let bb = |x: BasicBlock| n(x.as_usize());
        for (_i, d) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &d.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(b, pr.0);
                        let r = self.rv(env, b, &pr.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(b, **place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", i))]))
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let signed = dt.is_signed();
                    let size = if dt.is_bool() {
                        8
                    } else if let ty::Int(_) | ty::Uint(_) = dt.kind() {
                        dt.primitive_size(self.tcx).bits()
                    } else {
                        32
                    };
                    let mut v = vec![];
                    for (val, tgt) in targets.iter() {
                        let vs = if signed && size < 128 && (val >> (size - 1)) & 1 == 1 {
                            (val as i128 - (1i128 << size)).to_string()
                        } else if signed {
                            (val as i128).to_string()
                        } else {
                            val.to_string()
                        };
                        v.push(J::A(vec![s(vs), bb(tgt)]));
                    }
                    let dt = n(self.ty(dt));
                    J::A(vec![
                        s("switch"),
                        self.op(env, b, discr),
                        J::A(v),
                        bb(targets.otherwise()),
                        dt,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unr")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("unw")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&b.local_decls, self.tcx).ty;
                    let dt = n(self.ty(dt));
                    J::A(vec![s("drop"), self.place(b, *place), bb(*target), dt])
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.op(env, b, func);
                    let a = args.iter().map(|x| self.op(env, b, &x.node)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(b, *destination),
                        target.map(bb).unwrap_or(J::Null),
                        sp.clone(),
                    ])
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => J::A(vec![
                    s("assert"),
                    self.op(env, b, cond),
                    J::B(*expected),
                    s(format!("{:?}", msg)),
                    bb(*target),
                    sp.clone(),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), bb(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), bb(*real_target)])
                }
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, J::B(d.is_cleanup), sp]));
        }
        J::O(vec![
            ("argc", n(b.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn vis(&self, d: DefId) -> J {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => s("pub"),
            ty::Visibility::Restricted(m) => {
                if m.is_crate_root() {
                    s("crate")
                } else {
                    s(self.tcx.def_path_str(m))
                }
            }
        }
    }
    fn func(&mut self, ld: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let mut o: Vec<(&'static str, J)> = vec![("kind", s(format!("{:?}", kind)))];
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
        if is_fn {
            o.push(("name", s(tcx.item_name(d).to_string())));
            o.push(("vis", self.vis(d)));
            let ev = tcx.effective_visibilities(());
            o.push(("exported", J::B(ev.is_reachable(ld))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = sig.inputs().iter().map(|t| n(self.ty(*t))).collect();
            o.push(("in", J::A(ins)));
            o.push(("out", n(self.ty(sig.output()))));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(self.key(im))));
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.key(tr))));
            }
        } else if kind == DefKind::Closure {
            let p = tcx.typeck_root_def_id(d);
            o.push(("root", s(self.key(p))));
        }
        let g = tcx.generics_of(d);
        let mut gp = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                gp.push(J::A(vec![n(p.index), s(p.name.to_string())]));
            }
        }
        o.push(("generics", J::A(gp)));
        o.push(("span", self.span(tcx.def_span(d))));
        let hir_sp = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(ld));
        o.push(("bspan", self.span(hir_sp)));
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
        );
        if !is_const && tcx.is_mir_available(d) {
            let b = tcx.optimized_mir(d);
            o.push(("mir", self.body(d, b)));
            let pr = tcx.promoted_mir(d);
            let v = pr.iter().map(|b| self.body(d, b)).collect();
            o.push(("prom", J::A(v)));
        } else if is_const {
            let b = tcx.mir_for_ctfe(d);
            o.push(("mir", self.body(d, b)));
            let pr = tcx.promoted_mir(d);
            let v = pr.iter().map(|b| self.body(d, b)).collect();
            o.push(("prom", J::A(v)));
            o.push(("ty", {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                n(self.ty(t))
            }));
        }
        J::O(o)
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            keys: HashMap::new(),
            used: HashMap::new(),
        };
        // fix keys in definition order
        let mut all: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        all.sort_by_key(|d| d.local_def_index);
        for d in &all {
            cx.key(d.to_def_id());
        }
        let mut fns = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| d.local_def_index);
        for d in owners {
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::AnonConst) {
                continue;
            }
            let key = cx.key(d.to_def_id());
            let f = cx.func(d);
            fns.push((key, f));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut others = vec![];
        for d in &all {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            let vis = cx.vis(f.did);
                            fs.push(J::A(vec![s(f.name.to_string()), n(t), vis]));
                        }
                        vs.push(J::A(vec![s(v.name.to_string()), J::A(fs)]));
                    }
                    let ev = tcx.effective_visibilities(());
                    let k = cx.key(did);
                    adts.push((
                        k,
                        J::O(vec![
                            ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                            ("vis", cx.vis(did)),
                            ("exported", J::B(ev.is_reachable(*d))),
                            ("variants", J::A(vs)),
                            ("span", cx.span(tcx.def_span(did))),
                        ]),
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![];
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    o.push(("self", n(cx.ty(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.key(tr.def_id))));
                        let a = cx.args(tr.args);
                        o.push(("targs", a));
                        o.push(("neg", J::B(false)));
                    }
                    let mut items = vec![];
                    let mut at = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        match it.kind {
                            ty::AssocKind::Fn { name, .. } => {
                                let k = cx.key(it.def_id);
                                items.push((name.to_string(), s(k)));
                            }
                            ty::AssocKind::Type { .. } => {
                                let t = tcx
                                    .type_of(it.def_id)
                                    .instantiate_identity()
                                    .skip_norm_wip();
                                let t = cx.ty(t);
                                at.push((tcx.item_name(it.def_id).to_string(), n(t)));
                            }
                            ty::AssocKind::Const { name, .. } => {
                                let k = cx.key(it.def_id);
                                items.push((name.to_string(), s(k)));
                            }
                        }
                    }
                    o.push(("items", J::M(items)));
                    o.push(("types", J::M(at)));
                    let mut preds = vec![];
                    for (p, _) in tcx
                        .clauses_of(did)
                        .instantiate_identity(tcx)
                        .into_iter()
                    {
                        preds.push(s(format!("{:?}", p.skip_norm_wip())));
                    }
                    o.push(("preds", J::A(preds)));
                    o.push(("span", cx.span(tcx.def_span(did))));
                    o.push((
                        "derived",
                        J::B(tcx.def_span(did).from_expansion() && {
                            matches!(
                                tcx.def_span(did).ctxt().outer_expn_data().kind,
                                rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, _)
                            )
                        }),
                    ));
                    let k = cx.key(did);
                    impls.push((k, J::O(o)));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if let ty::AssocKind::Fn { name, .. } = it.kind {
                            let k = cx.key(it.def_id);
                            let df = it.defaultness(tcx).has_value();
                            items.push((name.to_string(), J::A(vec![s(k), J::B(df)])));
                        }
                    }
                    let k = cx.key(did);
                    traits.push((
                        k,
                        J::O(vec![("vis", cx.vis(did)), ("items", J::M(items))]),
                    ));
                }
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let k = cx.key(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                        ("t", n(cx.ty(t))),
                        ("vis", cx.vis(did)),
                        ("span", cx.span(tcx.def_span(did))),
                    ];
                    // integer tables are evaluated by the compiler's const evaluator
                    let env = TypingEnv::fully_monomorphized();
                    let mut bytes: Option<Vec<u8>> = None;
                    if let DefKind::Static { .. } = tcx.def_kind(did) {
                        if let Ok(a) = tcx.eval_static_initializer(did) {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() {
                                bytes = Some(
                                    a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len())
                                        .to_vec(),
                                );
                            }
                        }
                    } else if let Ok(cv) = tcx.const_eval_poly(did) {
                        match cv {
                            ConstValue::Scalar(sc) => {
                                if let Ok(i) = sc.try_to_scalar_int() {
                                    o.push(("bits", s(i.to_bits(i.size()).to_string())));
                                }
                            }
                            ConstValue::Indirect { alloc_id, .. } => {
                                if let Some(GlobalAlloc::Memory(m)) =
                                    tcx.try_get_global_alloc(alloc_id)
                                {
                                    let a = m.inner();
                                    if a.provenance().ptrs().is_empty() {
                                        bytes = Some(
                                            a.inspect_with_uninit_and_ptr_outside_interpreter(
                                                0..a.len(),
                                            )
                                            .to_vec(),
                                        );
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    let _ = env;
                    if let Some(b) = bytes {
                        let mut h = String::new();
                        for x in b {
                            let _ = write!(h, "{:02x}", x);
                        }
                        o.push(("bytes", s(h)));
                    }
                    others.push((k, J::O(o)));
                }
                _ => {}
            }
        }
        let types = J::A(cx.types.clone());
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("types", types),
            ("adts", J::M(adts)),
            ("impls", J::M(impls)),
            ("traits", J::M(traits)),
            ("statics", J::M(others)),
            ("fns", J::M(fns)),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "algebraics");
    if is_target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
