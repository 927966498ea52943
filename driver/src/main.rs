//! MIR fact extractor: runs as a rustc wrapper and dumps the resolved program
//! of the crate named by FTML_FACTS_CRATE as JSON to FTML_FACTS_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = with_no_trimmed_paths!(dump(tcx));
        std::fs::write(&self.out, j.to_string()).expect("write facts");
        Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, id: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(id))
}

fn tys(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let cs = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(cs.lo());
    let file = format!("{}", lo.file.name.prefer_local_unconditionally());
    J::s(format!("{}:{}", file, lo.line))
}

fn mac(sp: Span) -> Option<String> {
    if !sp.from_expansion() {
        return None;
    }
    let mut v = vec![];
    for e in sp.macro_backtrace() {
        v.push(e.kind.descr().to_string());
    }
    Some(v.join("<"))
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut projs = vec![];
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let j = match elem {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _fty) => {
                    let mut o = vec![("f", J::n(f.index() as i128))];
                    match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = adt.variant(vi);
                            if f.index() < v.fields.len() {
                                o.push(("n", J::s(v.fields[f].name.to_string())));
                            }
                            o.push(("a", J::s(path(self.tcx, adt.did()))));
                            if adt.is_enum() {
                                o.push(("v", J::s(v.name.to_string())));
                            }
                        }
                        ty::Closure(did, _) => {
                            o.push(("a", J::s(path(self.tcx, *did))));
                            let names = self.tcx.closure_saved_names_of_captured_variables(*did);
                            if let Some(n) = names.get(f) {
                                o.push(("n", J::s(n.to_string())));
                            }
                        }
                        _ => {}
                    }
                    J::o(o)
                }
                ProjectionElem::Index(l) => J::o(vec![("i", J::n(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::o(vec![
                    ("ci", J::n(offset as i128)),
                    ("fe", J::b(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::o(vec![
                    ("sub", J::n(from as i128)),
                    ("to", J::n(to as i128)),
                    ("fe", J::b(from_end)),
                ]),
                ProjectionElem::Downcast(name, vi) => {
                    let n = match name {
                        Some(n) => n.to_string(),
                        None => format!("#{}", vi.index()),
                    };
                    J::o(vec![("d", J::s(n)), ("vi", J::n(vi.index() as i128))])
                }
                _ => J::s("?"),
            };
            projs.push(j);
            pty = pty.projection_ty(self.tcx, elem);
        }
        let mut o = vec![("l", J::n(p.local.index() as i128))];
        if !projs.is_empty() {
            o.push(("p", J::A(projs)));
            o.push(("t", J::s(tys(pty.ty))));
        }
        J::o(o)
    }

    fn fndef(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut o = vec![("fn", J::s(path(self.tcx, did)))];
        if let Some(tr) = self.tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(path(self.tcx, tr))));
            o.push(("name", J::s(self.tcx.item_name(did).to_string())));
        }
        if let Some(imp) = self.tcx.impl_of_assoc(did) {
            let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("implself", J::s(tys(st))));
        }
        let a: Vec<J> = args
            .iter()
            .filter(|g| g.as_region().is_none())
            .map(|g| J::s(with_no_trimmed_paths!(g.to_string())))
            .collect();
        o.push(("args", J::A(a)));
        let args2 = self.tcx.erase_and_anonymize_regions(args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(self.tcx, self.env, did, args2)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            if rd != did {
                o.push(("res", J::s(path(self.tcx, rd))));
            }
            let kd = format!("{:?}", inst.def);
            let kind = if kd.starts_with("Item") { "item".to_string() } else { kd.split('(').take(2).collect::<Vec<_>>().join("(") };
            if kind != "item" {
                o.push(("rk", J::s(kind)));
            }
            if kd.contains("ClosureOnce") {
                if let ty::Closure(cd, _) = inst.args.type_at(0).kind() {
                    o.push(("res", J::s(path(self.tcx, *cd))));
                }
            }
        } else {
            o.push(("rk", J::s("unresolved")));
        }
        J::o(o)
    }

    fn const_bytes(&self, cv: ConstValue, ty: Ty<'tcx>) -> Option<J> {
        // &str / &[u8] / &[u8; N]
        if let ty::Ref(_, inner, _) = ty.kind() {
            match inner.kind() {
                ty::Str => {
                    let b = cv.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                    return Some(J::s(String::from_utf8_lossy(b).to_string()));
                }
                ty::Slice(t) if matches!(t.kind(), ty::Uint(ty::UintTy::U8)) => {
                    let b = cv.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                    return Some(J::A(b.iter().map(|x| J::n(*x as i128)).collect()));
                }
                ty::Array(t, n) if matches!(t.kind(), ty::Uint(ty::UintTy::U8)) => {
                    let n = n.try_to_target_usize(self.tcx)?;
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = cv {
                        let (prov, off) = ptr.prov_and_relative_offset();
                        if let mir::interpret::GlobalAlloc::Memory(alloc) =
                            self.tcx.global_alloc(prov.alloc_id())
                        {
                            let s = off.bytes_usize();
                            let e = s + n as usize;
                            let b = alloc
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                            return Some(J::A(b.iter().map(|x| J::n(*x as i128)).collect()));
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    fn constant(&self, c: &mir::ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        let mut o: Vec<(&str, J)> = vec![("ty", J::s(tys(ty)))];
        match ty.kind() {
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                if let J::O(v) = self.fndef(*did, args) {
                    for (k, x) in v {
                        o.push((k, x));
                    }
                }
                return J::O(o);
            }
            ty::Closure(did, _) => {
                o.push(("closure", J::s(path(self.tcx, *did))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::n(p.index() as i128)));
                o.push(("of", J::s(path(self.tcx, u.def))));
            } else {
                o.push(("name", J::s(path(self.tcx, u.def))));
            }
        }
        let cv = c.const_.eval(self.tcx, self.env, c.span);
        if let Ok(cv) = cv {
            if let Some(b) = self.const_bytes(cv, ty) {
                o.push(("val", b));
            } else if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = cv {
                match ty.kind() {
                    ty::Bool => o.push(("val", J::b(i.try_to_bool().unwrap_or(false)))),
                    ty::Char => {
                        let u = i.to_uint(i.size());
                        o.push((
                            "val",
                            J::s(char::from_u32(u as u32).unwrap_or('?').to_string()),
                        ))
                    }
                    ty::Int(_) => o.push(("val", J::n(i.to_int(i.size())))),
                    _ => o.push(("val", J::n(i.to_uint(i.size()) as i128))),
                }
            }
            if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = cv {
                let (prov, _) = ptr.prov_and_relative_offset();
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                    self.tcx.try_get_global_alloc(prov.alloc_id())
                {
                    o.push(("static", J::s(path(self.tcx, d))));
                }
            }
        }
        J::O(o)
    }

    fn operand(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("c", self.place(p))]),
            Operand::Move(p) => J::o(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::o(vec![("k", self.constant(c))]),
            #[allow(unreachable_patterns)]
            _ => J::o(vec![("x", J::s(format!("{op:?}")))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::o(vec![("r", J::s("use")), ("o", self.operand(op))]),
            Rvalue::Repeat(op, _) => J::o(vec![("r", J::s("repeat")), ("o", self.operand(op))]),
            Rvalue::Ref(_, bk, p) => J::o(vec![
                ("r", J::s("ref")),
                ("mut", J::b(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("pl", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::o(vec![("r", J::s("raw")), ("pl", self.place(p))]),
            Rvalue::Cast(k, op, t) => J::o(vec![
                ("r", J::s("cast")),
                ("k", J::s(format!("{k:?}"))),
                ("o", self.operand(op)),
                ("ty", J::s(tys(*t))),
            ]),
            Rvalue::BinaryOp(b, ops) => J::o(vec![
                ("r", J::s("bin")),
                ("op", J::s(format!("{b:?}"))),
                ("a", self.operand(&ops.0)),
                ("b", self.operand(&ops.1)),
            ]),
            Rvalue::UnaryOp(u, op) => J::o(vec![
                ("r", J::s("un")),
                ("op", J::s(format!("{u:?}"))),
                ("o", self.operand(op)),
            ]),
            Rvalue::Discriminant(p) => {
                let pty = p.ty(self.body, self.tcx).ty;
                let mut o = vec![("r", J::s("discr")), ("pl", self.place(p))];
                if let ty::Adt(adt, _) = pty.kind() {
                    o.push(("adt", J::s(path(self.tcx, adt.did()))));
                }
                J::o(o)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        let adt = self.tcx.adt_def(*did);
                        let v = adt.variant(*vi);
                        o.push(("adt", J::s(path(self.tcx, *did))));
                        if adt.is_enum() {
                            o.push(("v", J::s(v.name.to_string())));
                        }
                        let names: Vec<J> = match active {
                            Some(f) => vec![J::s(v.fields[*f].name.to_string())],
                            None => v.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        o.push(("fn", J::A(names)));
                    }
                    AggregateKind::Closure(did, _) => {
                        o.push(("closure", J::s(path(self.tcx, *did))));
                        let names: Vec<J> = self
                            .tcx
                            .closure_saved_names_of_captured_variables(*did)
                            .iter()
                            .map(|n| J::s(n.to_string()))
                            .collect();
                        o.push(("fn", J::A(names)));
                    }
                    AggregateKind::Tuple => o.push(("tuple", J::b(true))),
                    AggregateKind::Array(_) => o.push(("array", J::b(true))),
                    _ => o.push(("other", J::b(true))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(x)).collect())));
                J::o(o)
            }
            Rvalue::CopyForDeref(p) => J::o(vec![
                ("r", J::s("use")),
                ("o", J::o(vec![("c", self.place(p))])),
            ]),
            Rvalue::ThreadLocalRef(d) => {
                J::o(vec![("r", J::s("tls")), ("d", J::s(path(self.tcx, *d)))])
            }
            other => J::o(vec![("r", J::s("?")), ("dbg", J::s(format!("{other:?}")))]),
        }
    }

    fn bb(b: BasicBlock) -> J {
        J::n(b.index() as i128)
    }

    fn unwind(u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Cleanup(b) => Self::bb(*b),
            _ => J::Null,
        }
    }

    fn term(&self, t: &mir::Terminator<'tcx>) -> J {
        let mut o: Vec<(&str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", Self::bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                o.push(("o", self.operand(discr)));
                o.push(("ty", J::s(tys(discr.ty(self.body, self.tcx)))));
                let v: Vec<J> = targets
                    .iter()
                    .map(|(x, b)| J::A(vec![J::n(x as i128), Self::bb(b)]))
                    .collect();
                o.push(("ts", J::A(v)));
                o.push(("else", Self::bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", J::s("ret"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::UnwindResume => o.push(("k", J::s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("abort"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                o.push(("k", J::s("drop")));
                o.push(("pl", self.place(place)));
                o.push(("ty", J::s(tys(place.ty(self.body, self.tcx).ty))));
                o.push(("t", Self::bb(*target)));
                o.push(("u", Self::unwind(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                o.push(("k", J::s("call")));
                let mut f = self.operand(func);
                if let Operand::Constant(c) = func {
                    if let ty::FnDef(..) = c.const_.ty().kind() {
                        f = self.constant(c);
                    }
                }
                o.push(("f", f));
                o.push((
                    "args",
                    J::A(args.iter().map(|a| self.operand(&a.node)).collect()),
                ));
                o.push(("d", self.place(destination)));
                if let Some(t) = target {
                    o.push(("t", Self::bb(*t)));
                }
                o.push(("u", Self::unwind(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                o.push(("k", J::s("assert")));
                o.push(("o", self.operand(cond)));
                o.push(("exp", J::b(*expected)));
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    mir::AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                    mir::AssertKind::DivisionByZero(..) => "divzero".to_string(),
                    mir::AssertKind::RemainderByZero(..) => "remzero".to_string(),
                    _ => "other".to_string(),
                };
                o.push(("msg", J::s(m)));
                o.push(("t", Self::bb(*target)));
                o.push(("u", Self::unwind(unwind)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", Self::bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("t", Self::bb(*real_target)));
            }
            other => {
                o.push(("k", J::s("other")));
                o.push(("dbg", J::s(format!("{other:?}"))));
            }
        }
        o.push(("s", span_j(self.tcx, t.source_info.span)));
        if let Some(m) = mac(t.source_info.span) {
            o.push(("mac", J::s(m)));
        }
        J::O(o)
    }

    fn body_j(&self) -> Vec<(&'static str, J)> {
        let body = self.body;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upvars = vec![];
        for vdi in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(vdi.name.to_string());
                } else {
                    upvars.push(J::A(vec![J::s(vdi.name.to_string()), self.place(p)]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut o = vec![("ty", J::s(tys(d.ty)))];
                if let Some(n) = &names[l.index()] {
                    o.push(("n", J::s(n.clone())));
                }
                J::O(o)
            })
            .collect();
        let mut blocks = vec![];
        for (_, bbd) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &bbd.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        stmts.push(J::o(vec![
                            ("d", self.place(&b.0)),
                            ("v", self.rvalue(&b.1)),
                            ("s", span_j(self.tcx, st.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(J::o(vec![
                            ("setd", self.place(place)),
                            ("vi", J::n(variant_index.index() as i128)),
                        ]));
                    }
                    _ => {}
                }
            }
            let mut o = vec![("s", J::A(stmts)), ("t", self.term(bbd.terminator()))];
            if bbd.is_cleanup {
                o.push(("cl", J::b(true)));
            }
            blocks.push(J::O(o));
        }
        vec![
            ("argc", J::n(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, ldid: LocalDefId, out: &mut Vec<J>) {
    let did = ldid.to_def_id();
    let kind = tcx.def_kind(did);
    let env = TypingEnv::post_analysis(tcx, did);
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
    let kname = match kind {
        DefKind::Fn => "fn",
        DefKind::AssocFn => "assocfn",
        DefKind::Closure => "closure",
        DefKind::Const { .. } => "const",
        DefKind::AssocConst { .. } => "assocconst",
        DefKind::Static { .. } => "static",
        DefKind::AnonConst => "anonconst",
        DefKind::Ctor(..) => return,
        _ => "other",
    };
    let mut o: Vec<(&'static str, J)> = vec![
        ("path", J::s(path(tcx, did))),
        ("kind", J::s(kname)),
        ("span", span_j(tcx, tcx.def_span(did))),
    ];
    if let Some(m) = mac(tcx.def_span(did)) {
        o.push(("mac", J::s(m)));
    }
    if matches!(kind, DefKind::AssocFn) {
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("implself", J::s(tys(st))));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                o.push(("trait", J::s(path(tcx, tr.skip_binder().def_id))));
                o.push(("name", J::s(tcx.item_name(did).to_string())));
            }
            // derived?
            if tcx.is_automatically_derived(imp) {
                o.push(("derived", J::b(true)));
            }
        }
    }
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        o.push((
            "pub",
            J::b(tcx.effective_visibilities(()).is_reachable(ldid)),
        ));
    }
    let parent = tcx.opt_parent(did).map(|p| path(tcx, p));
    if let Some(p) = parent {
        o.push(("parent", J::s(p)));
    }
    if is_fn {
        let steal = tcx.mir_drops_elaborated_and_const_checked(ldid);
        let body = steal.borrow();
        let cx = Cx { tcx, body: &body, env };
        o.extend(cx.body_j());
    } else {
        let body = tcx.mir_for_ctfe(did);
        let cx = Cx { tcx, body, env };
        o.extend(cx.body_j());
    }
    let prom = tcx.promoted_mir(did);
    let mut pj = vec![];
    for b in prom.iter() {
        let cx = Cx { tcx, body: b, env };
        pj.push(J::O(cx.body_j()));
    }
    o.push(("promoted", J::A(pj)));
    out.push(J::O(o));
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut bodies = vec![];
    // Promoted MIR first would steal; drops_elaborated must be read before optimized_mir.
    for ldid in tcx.hir_body_owners() {
        dump_body(tcx, ldid, &mut bodies);
    }
    let mut adts = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let mut vs = vec![];
                let discrs: Vec<u128> = if adt.is_enum() {
                    adt.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (i, v) in adt.variants().iter().enumerate() {
                    let fs: Vec<J> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            J::o(vec![
                                ("n", J::s(f.name.to_string())),
                                ("ty", J::s(tys(t))),
                                ("vis", J::s(format!("{:?}", f.vis))),
                            ])
                        })
                        .collect();
                    vs.push(J::o(vec![
                        ("n", J::s(v.name.to_string())),
                        ("discr", J::n(discrs[i] as i128)),
                        ("fields", J::A(fs)),
                    ]));
                }
                adts.push(J::o(vec![
                    ("path", J::s(path(tcx, did))),
                    ("enum", J::b(adt.is_enum())),
                    ("span", span_j(tcx, tcx.def_span(did))),
                    ("pub", J::b(tcx.effective_visibilities(()).is_reachable(ldid))),
                    ("variants", J::A(vs)),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                statics.push(J::o(vec![
                    ("path", J::s(path(tcx, did))),
                    ("ty", J::s(tys(t))),
                    ("mut", J::b(mutability.is_mut())),
                    ("freeze", J::b(t.is_freeze(tcx, env))),
                    (
                        "tls",
                        J::b(tcx.codegen_fn_attrs(did).flags.contains(
                            rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::THREAD_LOCAL,
                        )),
                    ),
                    ("span", span_j(tcx, tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", J::s(tys(st)))];
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    o.push(("trait", J::s(path(tcx, tr.skip_binder().def_id))));
                    o.push((
                        "traitref",
                        J::s(with_no_trimmed_paths!(tr.skip_binder().to_string())),
                    ));
                }
                let items: Vec<J> = tcx
                    .associated_item_def_ids(did)
                    .iter()
                    .map(|d| J::s(path(tcx, *d)))
                    .collect();
                o.push(("items", J::A(items)));
                if tcx.is_automatically_derived(did) {
                    o.push(("derived", J::b(true)));
                }
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    J::o(vec![
        ("crate", J::s("ftml")),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("statics", J::A(statics)),
        ("impls", J::A(impls)),
    ])
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let want = std::env::var("FTML_FACTS_CRATE").unwrap_or_else(|_| "ftml".into());
    let mut is = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            is = it.next().map(|n| *n == want).unwrap_or(false);
        }
    }
    let out = std::env::var("FTML_FACTS_OUT").ok();
    if is && out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        let mut cb = Cb { out: out.unwrap() };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
