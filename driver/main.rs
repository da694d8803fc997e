// Fact extractor: dumps types, impls, signatures and MIR (as built, after const promotion) of a workspace crate as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_transform;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_middle::util::Providers;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, (Body<'static>, IndexVec<Promoted, Body<'static>>)>> = RefCell::new(HashMap::new());
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    regions: std::cell::Cell<bool>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            if d.is_local() {
                format!("{}::{}", self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE), p)
            } else {
                p
            }
        })
    }

    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        arr(a.iter().map(|g| {
            if let Some(t) = g.as_type() {
                self.ty(t)
            } else if let Some(r) = g.as_region() {
                format!("{{\"k\":\"region\",\"n\":{}}}", js(&format!("{:?}", r)))
            } else {
                format!("{{\"k\":\"const\",\"n\":{}}}", js(&format!("{}", g)))
            }
        }))
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", js(&format!("{}", t)))
            }
            ty::Adt(d, a) => format!(
                "{{\"k\":\"adt\",\"n\":{},\"id\":{},\"a\":{}}}",
                js(&self.path(d.did())),
                js(&self.id(d.did())),
                self.args(a)
            ),
            ty::Ref(r, t, m) => {
                let r = if self.regions.get() { format!(",\"r\":{}", js(&format!("{:?}", r))) } else { String::new() };
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}{}}}", m.is_mut(), self.ty(*t), r)
            }
            ty::Alias(..) if self.regions.get() => {
                let a = match t.kind() { ty::Alias(_, a) => a, _ => unreachable!() };
                format!("{{\"k\":\"alias\",\"n\":{},\"a\":{}}}", js(&with_no_trimmed_paths!(format!("{}", t))), self.args(a.args))
            }
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(*t), js(&format!("{}", n))),
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(ts.iter().map(|t| self.ty(t)))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::Closure(d, _a) => format!("{{\"k\":\"closure\",\"id\":{}}}", js(&self.id(*d))),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!("{{\"k\":\"fndef\",\"n\":{},\"id\":{},\"a\":{}}}", js(&self.path(*d)), js(&self.id(*d)), self.args(a))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", js(&format!("{}", t))),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", js(&with_no_trimmed_paths!(format!("{}", t)))),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", js(&with_no_trimmed_paths!(format!("{}", t)))),
        }
    }
}


impl<'tcx> Cx<'tcx> {
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = Vec::new();
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => format!(
                    "[\"deref\",{}]",
                    js(match pty.ty.kind() {
                        ty::Ref(..) => "ref",
                        ty::RawPtr(..) => "ptr",
                        _ => "box",
                    })
                ),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pty.variant_index {
                                Some(v) => d.variant(v),
                                None if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => d.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    format!("[\"field\",{},{}]", f.index(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"downcast\",{},{}]", v.index(), js(&n.map(|s| s.to_string()).unwrap_or_default()))
                }
                other => format!("[\"proj\",{}]", js(&format!("{:?}", other))),
            });
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(out))
    }

    fn callee(&self, body_did: DefId, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"fn\":{},\"id\":{},\"args\":{}", js(&self.path(d)), js(&self.id(d)), self.args(a));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(t)));
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let _ = write!(o, ",\"impl\":{}", js(&self.id(i)));
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                let _ = write!(o, ",\"impltrait\":{}", js(&self.path(tr.skip_binder().def_id)));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            if !sig.safety().is_safe() {
                o.push_str(",\"unsafe\":true");
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", js(n.as_str()));
        }
        let te = TypingEnv::post_analysis(tcx, body_did);
        let ea = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, ea) {
            let rd = inst.def_id();
            if rd != d || tcx.trait_of_assoc(d).is_some() {
                let _ = write!(
                    o,
                    ",\"res\":{},\"resid\":{},\"resargs\":{}",
                    js(&self.path(rd)),
                    js(&self.id(rd)),
                    self.args(inst.args)
                );
            }
        }
        o.push('}');
        o
    }

    fn konst(&self, body: &Body<'tcx>, body_did: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let tys = self.ty(ty);
        let _ = body;
        if let ty::FnDef(d, a) = ty.kind() {
            return format!("{{\"o\":\"fn\",\"ty\":{},\"callee\":{}}}", tys, self.callee(body_did, *d, a.skip_binder()));
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                return format!("{{\"o\":\"promoted\",\"n\":{},\"ty\":{}}}", p.index(), tys);
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            return format!("{{\"o\":\"static\",\"n\":{},\"ty\":{}}}", js(&self.path(d)), tys);
        }
        let te = TypingEnv::post_analysis(tcx, body_did);
        if !c.const_.has_non_region_param() {
            if let Ok(v) = c.const_.eval(tcx, te, c.span) {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    let val = match ty.kind() {
                        ty::Int(_) => format!("{}", s.to_int(s.size())),
                        _ => format!("{}", bits),
                    };
                    return format!("{{\"o\":\"int\",\"v\":{},\"ty\":{}}}", js(&val), tys);
                }
                if let ty::Ref(_, t, _) = ty.kind() {
                    if t.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"o\":\"str\",\"v\":{},\"ty\":{}}}", js(&String::from_utf8_lossy(b)), tys);
                        }
                    }
                }
                if matches!(v, ConstValue::ZeroSized) {
                    return format!("{{\"o\":\"zst\",\"ty\":{}}}", tys);
                }
            }
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            return format!("{{\"o\":\"uneval\",\"n\":{},\"args\":{},\"ty\":{}}}", js(&self.path(uv.def)), self.args(uv.args), tys);
        }
        format!("{{\"o\":\"other\",\"n\":{},\"ty\":{}}}", js(&with_no_trimmed_paths!(format!("{}", c.const_))), tys)
    }

    fn operand(&self, body: &Body<'tcx>, did: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(body, did, c),
            #[allow(unreachable_patterns)]
            other => format!("{{\"o\":\"rt\",\"n\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, did: DefId, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(body, did, o);
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", op(o), js(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"m\":{},\"fake\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), matches!(k, BorrowKind::Fake(_)), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"raw\",\"m\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"from\":{},\"ty\":{}}}", js(&format!("{:?}", k)), op(o), self.ty(o.ty(&body.local_decls, self.tcx)), self.ty(*t)),
            Rvalue::BinaryOp(b, ab) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{:?}", b)), op(&ab.0), op(&ab.1)),
            Rvalue::UnaryOp(u, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", u)), op(a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{},\"ty\":{}}}", self.place(body, p), self.ty(p.ty(&body.local_decls, self.tcx).ty)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| op(o)));
                match &**k {
                    AggregateKind::Array(t) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"ty\":{},\"ops\":{}}}", self.ty(*t), ops),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"ops\":{}}}", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let ad = self.tcx.adt_def(*d);
                        format!(
                            "{{\"r\":\"agg\",\"k\":\"adt\",\"id\":{},\"n\":{},\"enum\":{},\"variant\":{},\"vn\":{},\"args\":{},\"active\":{},\"ops\":{}}}",
                            js(&self.id(*d)),
                            js(&self.path(*d)),
                            ad.is_enum(),
                            v.index(),
                            js(ad.variant(*v).name.as_str()),
                            self.args(a),
                            f.map(|f| f.index() as i64).unwrap_or(-1),
                            ops
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"r\":\"agg\",\"k\":\"closure\",\"id\":{},\"ops\":{}}}", js(&self.id(*d)), ops),
                    AggregateKind::RawPtr(t, m) => format!("{{\"r\":\"agg\",\"k\":\"rawptr\",\"ty\":{},\"m\":{},\"ops\":{}}}", self.ty(*t), m.is_mut(), ops),
                    _ => format!("{{\"r\":\"agg\",\"k\":\"other\",\"ops\":{}}}", ops),
                }
            }
            other => format!("{{\"r\":\"other\",\"n\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn body(&self, did: DefId, body: &Body<'tcx>, promoted: Option<&IndexVec<Promoted, Body<'tcx>>>) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "{{\"ty\":{},\"n\":{},\"m\":{}}}",
                self.ty(d.ty),
                names.get(&l.index()).map(|s| js(s)).unwrap_or("null".into()),
                d.mutability.is_mut()
            )
        }));
        let blocks = arr(body.basic_blocks.iter().map(|b| {
            let stmts = arr(b.statements.iter().filter_map(|s| {
                let sp = js(&self.span(s.source_info.span));
                Some(match &s.kind {
                    StatementKind::Assign(pr) => format!(
                        "{{\"s\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}",
                        self.place(body, &pr.0),
                        self.rvalue(body, did, &pr.1),
                        sp
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"s\":\"setdiscr\",\"p\":{},\"v\":{},\"sp\":{}}}", self.place(body, place), variant_index.index(), sp)
                    }
                    StatementKind::Intrinsic(i) => format!("{{\"s\":\"intrinsic\",\"n\":{},\"sp\":{}}}", js(&format!("{:?}", i)), sp),
                    _ => return None,
                })
            }));
            let t = b.terminator();
            let sp = js(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.index()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"v\":{},\"else\":{},\"sp\":{}}}",
                    self.operand(body, did, discr),
                    self.ty(discr.ty(&body.local_decls, tcx)),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.index()))),
                    targets.otherwise().index(),
                    sp
                ),
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"t\":\"drop\",\"p\":{},\"b\":{},\"sp\":{}}}", self.place(body, place), target.index(), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"b\":{},\"sp\":{},\"dty\":{}}}",
                    self.operand(body, did, func),
                    arr(args.iter().map(|a| self.operand(body, did, &a.node))),
                    self.place(body, destination),
                    target.map(|b| b.index() as i64).unwrap_or(-1),
                    sp,
                    self.ty(destination.ty(&body.local_decls, tcx).ty)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "{{\"t\":\"assert\",\"o\":{},\"e\":{},\"msg\":{},\"b\":{},\"sp\":{}}}",
                    self.operand(body, did, cond),
                    expected,
                    js(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divzero",
                        _ => "other",
                    }),
                    target.index(),
                    sp
                ),
                other => format!("{{\"t\":\"other\",\"n\":{}}}", js(&format!("{:?}", other))),
            };
            format!("{{\"c\":{},\"s\":{},\"t\":{}}}", b.is_cleanup, stmts, term)
        }));
        let prom = match promoted {
            Some(p) => arr(p.iter().map(|b| self.body(did, b, None))),
            None => "[]".into(),
        };
        let parent = if tcx.is_closure_like(did) { js(&self.id(tcx.typeck_root_def_id(did))) } else { "null".into() };
        format!(
            "{{\"id\":{},\"path\":{},\"span\":{},\"argc\":{},\"spread\":{},\"root\":{},\"locals\":{},\"blocks\":{},\"promoted\":{}}}",
            js(&self.id(did)),
            js(&self.path(did)),
            js(&self.span(body.span)),
            body.arg_count,
            body.spread_arg.map(|l| l.index() as i64).unwrap_or(-1),
            parent,
            locals,
            blocks,
            prom
        )
    }

    fn preds(&self, d: DefId) -> String {
        arr(self.tcx.param_env(d).caller_bounds().map(|p| {
            js(&with_no_trimmed_paths!(format!("{:?}", p)))
        }))
    }

    /// For Send and Sync: does the type have it when everything it is generic over has both, and which assumptions does that need?
    fn autos(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
        let sync = tcx.lang_items().sync_trait().unwrap();
        let me = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let mut subj: Vec<Ty<'tcx>> = vec![];
        for g in tcx.generics_of(d).own_params.iter() {
            if let ty::GenericParamDefKind::Type { .. } = g.kind {
                subj.push(Ty::new_param(tcx, g.index, g.name));
            }
        }
        let n = subj.len();
        for v in tcx.adt_def(d).variants() {
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                for x in t.walk() {
                    if let Some(x) = x.as_type() {
                        if let ty::Alias(..) = x.kind() {
                            if !subj.contains(&x) {
                                subj.push(x);
                            }
                        }
                    }
                }
            }
        }
        let env = tcx.param_env(d);
        let holds = |tr: DefId, skip: Option<(usize, DefId)>| -> bool {
            let mut cl: Vec<ty::Clause<'tcx>> = env.caller_bounds().collect();
            for (i, t) in subj.iter().enumerate() {
                for a in [send, sync] {
                    if skip == Some((i, a)) {
                        continue;
                    }
                    let p: ty::TraitRef<'tcx> = ty::TraitRef::new(tcx, a, [*t]);
                    cl.push(rustc_middle::ty::Upcast::upcast(p, tcx));
                }
            }
            let pe = ty::ParamEnv::new(tcx, tcx.mk_clauses(&cl));
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            infcx.type_implements_trait(tr, [me], pe).must_apply_modulo_regions()
        };
        let mut out = vec![];
        for (n0, tr) in [("Send", send), ("Sync", sync)] {
            let full = holds(tr, None);
            let mut needs = vec![];
            if full {
                for i in 0..n {
                    for (n1, a) in [("Send", send), ("Sync", sync)] {
                        if !holds(tr, Some((i, a))) {
                            needs.push(format!("[{},{}]", js(&format!("{}", subj[i])), js(n1)));
                        }
                    }
                }
            }
            out.push(format!("{}:{{\"full\":{},\"needs\":{}}}", js(n0), full, arr(needs)));
        }
        format!("{{{}}}", out.join(","))
    }

    fn outlives(&self, d: DefId) -> String {
        arr(self.tcx.param_env(d).caller_bounds().filter_map(|p| match p.kind().skip_binder() {
            ty::ClauseKind::RegionOutlives(o) => Some(format!("[{},{}]", js(&format!("{:?}", o.0)), js(&format!("{:?}", o.1)))),
            ty::ClauseKind::TypeOutlives(o) => Some(format!("[{},{}]", js(&format!("{}", o.0)), js(&format!("{:?}", o.1)))),
            _ => None,
        }))
    }

    fn fun(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sigs = with_no_trimmed_paths!(format!("{:?}", sig));
        let s = sig.skip_binder();
        let (mut im, mut tr) = ("null".to_string(), "null".to_string());
        if let Some(i) = tcx.impl_of_assoc(d) {
            im = js(&self.id(i));
        }
        if let Some(i) = tcx.trait_of_assoc(d) {
            tr = js(&self.path(i));
        }
        let g = tcx.generics_of(d);
        let mut gn = Vec::new();
        let mut cur = Some(g);
        while let Some(g) = cur {
            let mut v: Vec<String> = g.own_params.iter().map(|p| js(p.name.as_str())).collect();
            v.extend(gn);
            gn = v;
            cur = g.parent.map(|p| tcx.generics_of(p));
        }
        let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
        self.regions.set(true);
        let lib = tcx.liberate_late_bound_regions(d, sig);
        let rsig = format!("[{},{}]", arr(lib.inputs().iter().map(|t| self.ty(*t))), self.ty(lib.output()));
        self.regions.set(false);
        format!(
            "{{\"id\":{},\"path\":{},\"name\":{},\"impl\":{},\"trait\":{},\"vis\":{},\"exported\":{},\"unsafe\":{},\"const\":{},\"sig\":{},\"in\":{},\"out\":{},\"rsig\":{},\"outl\":{},\"g\":{},\"preds\":{},\"span\":{}}}",
            js(&self.id(d)),
            js(&self.path(d)),
            js(tcx.item_name(d).as_str()),
            im,
            tr,
            js(&format!("{:?}", tcx.visibility(d))),
            reach,
            !s.safety().is_safe(),
            tcx.is_const_fn(d),
            js(&sigs),
            arr(s.inputs().iter().map(|t| self.ty(*t))),
            self.ty(s.output()),
            rsig,
            self.outlives(d),
            arr(gn),
            self.preds(d),
            js(&self.span(tcx.def_span(d)))
        )
    }

    fn dump(&self, out: &str) {
        let tcx = self.tcx;
        let (mut fns, mut adts, mut impls, mut traits, mut statics, mut misc) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => fns.push(self.fun(d)),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let vs = arr(ad.variants().iter().map(|v| {
                        format!(
                            "{{\"n\":{},\"f\":{}}}",
                            js(v.name.as_str()),
                            arr(v.fields.iter().map(|f| format!(
                                "{{\"n\":{},\"vis\":{},\"ty\":{}}}",
                                js(f.name.as_str()),
                                js(&format!("{:?}", f.vis)),
                                self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                            )))
                        )
                    }));
                    adts.push(format!(
                        "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"vis\":{},\"exported\":{},\"g\":{},\"auto\":{},\"var\":{},\"variants\":{},\"span\":{}}}",
                        js(&self.id(d)),
                        js(&self.path(d)),
                        js(tcx.item_name(d).as_str()),
                        js(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" }),
                        js(&format!("{:?}", tcx.visibility(d))),
                        tcx.effective_visibilities(()).is_exported(ld),
                        arr(tcx.generics_of(d).own_params.iter().map(|p| js(p.name.as_str()))),
                        self.autos(d),
                        arr(tcx.variances_of(d).iter().map(|v| js(&format!("{:?}", v)))),
                        vs,
                        js(&self.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let (mut tr, mut targs, mut pol, mut uns) = ("null".to_string(), "[]".to_string(), "null".to_string(), false);
                    if of_trait {
                        let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        tr = js(&self.path(t.def_id));
                        targs = self.args(t.args);
                        pol = js(&format!("{:?}", tcx.impl_polarity(d)));
                        uns = !tcx.impl_trait_header(d).safety.is_safe();
                    }
                    let derived = tcx.is_automatically_derived(d);
                    let items = arr(tcx.associated_items(d).in_definition_order().map(|i| {
                        let ty = if i.is_type() {
                            self.regions.set(true);
                            let t = self.ty(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip());
                            self.regions.set(false);
                            format!(",\"ty\":{},\"g\":{}", t, arr(tcx.generics_of(i.def_id).own_params.iter().map(|p| js(p.name.as_str()))))
                        } else {
                            String::new()
                        };
                        format!("{{\"n\":{},\"id\":{},\"k\":{}{}}}", js(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()), js(&self.id(i.def_id)), js(i.descr()), ty)
                    }));
                    self.regions.set(true);
                    let rself = self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    self.regions.set(false);
                    impls.push(format!(
                        "{{\"id\":{},\"trait\":{},\"targs\":{},\"self\":{},\"rself\":{},\"pol\":{},\"unsafe\":{},\"derived\":{},\"items\":{},\"preds\":{},\"span\":{}}}",
                        js(&self.id(d)),
                        tr,
                        targs,
                        self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                        rself,
                        pol,
                        uns,
                        derived,
                        items,
                        self.preds(d),
                        js(&self.span(tcx.def_span(d)))
                    ));
                }
                DefKind::Trait => {
                    let items = arr(tcx.associated_items(d).in_definition_order().map(|i| {
                        format!(
                            "{{\"n\":{},\"id\":{},\"k\":{},\"def\":{}}}",
                            js(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                            js(&self.id(i.def_id)),
                            js(i.descr()),
                            i.defaultness(tcx).has_value()
                        )
                    }));
                    traits.push(format!(
                        "{{\"id\":{},\"path\":{},\"exported\":{},\"unsafe\":{},\"items\":{}}}",
                        js(&self.id(d)),
                        js(&self.path(d)),
                        tcx.effective_visibilities(()).is_exported(ld),
                        !tcx.trait_def(d).safety.is_safe(),
                        items
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(format!("{{\"path\":{},\"m\":{},\"ty\":{},\"span\":{}}}", js(&self.path(d)), mutability.is_mut(), self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()), js(&self.span(tcx.def_span(d)))));
                }
                DefKind::Const { .. } => {
                    statics.push(format!("{{\"const\":true,\"path\":{},\"m\":false,\"ty\":{},\"span\":{}}}", js(&self.path(d)), self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()), js(&self.span(tcx.def_span(d)))));
                }
                DefKind::ForeignMod | DefKind::GlobalAsm => misc.push(js(&format!("{:?} {}", tcx.def_kind(d), self.id(d)))),
                _ => {}
            }
        }
        let mut bodies = vec![];
        BODIES.with(|b| {
            let b = b.borrow();
            let mut ks: Vec<_> = b.keys().copied().collect();
            ks.sort_by_key(|k| self.id(k.to_def_id()));
            for k in ks {
                let (body, prom) = &b[&k];
                let body: &Body<'tcx> = unsafe { std::mem::transmute(body) };
                let prom: &IndexVec<Promoted, Body<'tcx>> = unsafe { std::mem::transmute(prom) };
                bodies.push(self.body(k.to_def_id(), body, Some(prom)));
            }
        });
        let s = format!(
            "{{\"crate\":{},\"fns\":{},\n\"adts\":{},\n\"impls\":{},\n\"traits\":{},\n\"statics\":{},\n\"misc\":{},\n\"bodies\":[\n{}\n]}}\n",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(fns),
            arr(adts),
            arr(impls),
            arr(traits),
            arr(statics),
            arr(misc),
            bodies.join(",\n")
        );
        std::fs::write(out, s).unwrap();
    }
}

struct Cb;

impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, providers: &mut Providers| {
            providers.queries.mir_promoted = |tcx, def| {
                let mut p = Providers::default();
                rustc_mir_transform::provide(&mut p);
                let r = (p.queries.mir_promoted)(tcx, def);
                let b: Body<'_> = r.0.borrow().clone();
                let pr = r.1.borrow().clone();
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                let pr: IndexVec<Promoted, Body<'static>> = unsafe { std::mem::transmute(pr) };
                BODIES.with(|m| m.borrow_mut().insert(def, (b, pr)));
                r
            };
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VERIF_FACTS_DIR") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            Cx { tcx, regions: std::cell::Cell::new(false) }.dump(&format!("{}/{}.json", dir, name));
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // As a workspace wrapper the first argument is the path of rustc; it stays in place as argv[0].
    if !args.first().map(|a| a.ends_with("rustc")).unwrap_or(false) {
        args.insert(0, "rustc".into());
    }
    let probing = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || args.iter().any(|a| a == "___");
    args.push("--cap-lints=allow".into());
    if probing {
        struct Plain;
        impl rustc_driver_impl::Callbacks for Plain {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    }
}
