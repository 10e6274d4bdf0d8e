// Fact extractor: dumps the MIR (resolved, type-checked program) of a workspace crate as JSON lines.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
macro_rules! full {
    ($e:expr) => {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!($e)))
    };
}
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_infer::infer::TyCtxtInferExt as _;
use rustc_trait_selection::infer::InferCtxtExt as _;
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Ex<'tcx> {
    fn path(&self, d: DefId) -> String {
        full!(self.tcx.def_path_str(d))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        full!(format!("{}", t))
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => {
                    if pt.ty.is_raw_ptr() {
                        o.push_str("\"*raw\"");
                    } else {
                        o.push_str("\"*\"");
                    }
                }
                ProjectionElem::Field(idx, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = ad.variant(v);
                            let n = vd.fields[idx].name.to_string();
                            let ow = if ad.is_enum() {
                                format!("{}::{}", self.path(ad.did()), vd.name)
                            } else {
                                self.path(ad.did())
                            };
                            (n, ow)
                        }
                        ty::Closure(d, _) => {
                            let n = d
                                .as_local()
                                .and_then(|ld| {
                                    self.tcx.closure_captures(ld).get(idx.as_usize()).map(|c| c.to_symbol().to_string())
                                })
                                .unwrap_or_else(|| idx.as_usize().to_string());
                            (n, "closure".to_string())
                        }
                        _ => (idx.as_usize().to_string(), "tuple".to_string()),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", js(&name), idx.as_usize(), js(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(ad, _) => ad.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"d\",{},{}]", js(&n), v.as_usize());
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn fn_ids_in(&self, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> Vec<String> {
        let mut out = vec![];
        for a in args.iter() {
            for x in a.walk() {
                if let Some(t) = x.as_type() {
                    match t.kind() {
                        ty::Closure(d, _) | ty::Coroutine(d, _) => out.push(self.path(*d)),
                        ty::FnDef(d, fa) => {
                            let fa = fa.skip_binder();
                            let (r, _) = self.resolve(*d, fa, te);
                            out.push(r.unwrap_or_else(|| self.path(*d)));
                        }
                        _ => {}
                    }
                }
            }
        }
        out
    }

    fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> (Option<String>, Option<DefId>) {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, te, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                let tag = match i.def {
                    ty::InstanceKind::Virtual(..) => return (Some(format!("dyn {}", self.path(rd))), Some(rd)),
                    _ => self.path(rd),
                };
                (Some(tag), Some(rd))
            }
            _ => (None, None),
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>, te: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let mut o = format!("{{\"ty\":{}", js(&self.tys(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let (r, _) = self.resolve(*d, args, te);
            let _ = write!(o, ",\"fn\":{}", js(&r.unwrap_or_else(|| self.path(*d))));
            let _ = write!(o, ",\"orig\":{}}}", js(&self.path(*d)));
            return o;
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"promoted\":{},\"of\":{}", p.as_usize(), js(&self.path(u.def)));
                } else {
                    let _ = write!(o, ",\"const\":{}", js(&self.path(u.def)));
                }
            }
            Const::Val(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), _) => {
                let id = p.provenance.alloc_id();
                if let Some(interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(id) {
                    let _ = write!(o, ",\"static\":{}", js(&self.path(d)));
                }
            }
            _ => {}
        }
        let is_simple = matches!(
            t.kind(),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)
        ) || matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
        let u8slice = matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Slice(e) if *e == self.tcx.types.u8));
        // reference to a byte array (format templates, byte-string literals)
        if let ty::Ref(_, i, _) = t.kind() {
            if let ty::Array(e, n) = i.kind() {
                if *e == self.tcx.types.u8 {
                    if let (Ok(ConstValue::Scalar(interpret::Scalar::Ptr(p, _))), Some(n)) =
                        (c.const_.eval(self.tcx, te, c.span), n.try_to_target_usize(self.tcx))
                    {
                        let (prov, off) = p.into_raw_parts();
                        if let Some(interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            let s0 = off.bytes_usize();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s0..s0 + n as usize);
                            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            let _ = write!(o, ",\"hex\":\"{}\"", h);
                        }
                    }
                }
            }
        }
        if is_simple || u8slice {
            let ev = c.const_.eval(self.tcx, te, c.span);
            if let Ok(v) = ev {
                if matches!(t.kind(), ty::Ref(..)) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let k = if u8slice { "bytes" } else { "str" };
                        let _ = write!(o, ",\"{}\":{}", k, js(&String::from_utf8_lossy(b)));
                    }
                } else if let Some(si) = v.try_to_scalar_int() {
                    let s = match t.kind() {
                        ty::Int(_) => si.to_int(si.size()).to_string(),
                        ty::Float(ty::FloatTy::F32) => {
                            format!("{:?}", f32::from_bits(si.to_u32()))
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            format!("{:?}", f64::from_bits(si.to_u64()))
                        }
                        _ => si.to_uint(si.size()).to_string(),
                    };
                    let _ = write!(o, ",\"val\":{}", js(&s));
                }
            }
        }
        o.push('}');
        o
    }

    fn op(&self, body: &Body<'tcx>, x: &Operand<'tcx>, te: TypingEnv<'tcx>) -> String {
        match x {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, te)),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, o, te)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(body, o, te), js(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(k, BorrowKind::Mut { .. }) { 1 } else { 0 },
                self.place(body, p)
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(body, o, te), js(&self.tys(*t)))
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(body, &ab.0, te), self.op(body, &ab.1, te))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(body, o, te)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                format!("[\"disc\",{},{}]", self.place(body, p), js(&self.tys(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut names: Vec<String> = vec![];
                let (kind, what) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(d, v, _, _, act) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        if let Some(a) = act {
                            names.push(vd.fields[*a].name.to_string());
                        } else {
                            for f in vd.fields.iter() {
                                names.push(f.name.to_string());
                            }
                        }
                        let p = if ad.is_enum() {
                            format!("{}::{}", self.path(*d), vd.name)
                        } else {
                            self.path(*d)
                        };
                        ("adt", p)
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        if let Some(ld) = d.as_local() {
                            for c in self.tcx.closure_captures(ld).iter() {
                                names.push(c.to_symbol().to_string());
                            }
                        }
                        ("closure", self.path(*d))
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", String::new()),
                };
                let names = names.iter().map(|n| js(n)).collect::<Vec<_>>().join(",");
                let opss = ops.iter().map(|o| self.op(body, o, te)).collect::<Vec<_>>().join(",");
                format!("[\"agg\",\"{}\",{},[{}],[{}]]", kind, js(&what), names, opss)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(body, o, te)),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn body(&self, out: &mut String, owner: DefId, body: &Body<'tcx>) {
        let te = TypingEnv::post_analysis(self.tcx, owner);
        let _ = write!(out, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push_str(&js(&self.tys(l.ty)));
        }
        out.push_str("],\"names\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    out.push(',');
                }
                first = false;
                let _ = write!(out, "[{},{}]", js(v.name.as_str()), self.place(body, p));
            }
        }
        out.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                out.push(',');
            }
            let _ = write!(out, "{{\"c\":{},\"s\":[", if bb.is_cleanup { 1 } else { 0 });
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(pr) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &pr.0),
                        self.rvalue(body, &pr.1, te),
                        self.line(st.source_info.span)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(&s);
            }
            out.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize() as i64,
                UnwindAction::Continue => -1,
                _ => -2,
            };
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize()))
                        .collect::<Vec<_>>()
                        .join(",");
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.op(body, discr, te),
                        vs,
                        targets.otherwise().as_usize(),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(body, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(body, place),
                        js(&self.tys(t)),
                        target.as_usize(),
                        uw(unwind),
                        ln
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut f = String::new();
                    match func.constant().map(|c| (c, c.const_.ty().kind())) {
                        Some((_, ty::FnDef(d, ga))) => {
                            let ga = ga.skip_binder();
                            let (r, _) = self.resolve(*d, ga, te);
                            let orig = self.path(*d);
                            let fnargs = self.fn_ids_in(ga, te).iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
                            let gas = ga
                                .types()
                                .map(|t| js(&self.tys(t)))
                                .collect::<Vec<_>>()
                                .join(",");
                            let uns = self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe();
                            let _ = write!(
                                f,
                                "{{\"fn\":{},\"orig\":{},\"ga\":[{}],\"fa\":[{}]{}}}",
                                js(&r.clone().unwrap_or_else(|| orig.clone())),
                                js(&orig),
                                gas,
                                fnargs,
                                if uns { ",\"unsafe\":1" } else { "" }
                            );
                        }
                        _ => {
                            let _ = write!(f, "{{\"ptr\":{}}}", self.op(body, func, te));
                        }
                    }
                    let a = args.iter().map(|a| self.op(body, &a.node, te)).collect::<Vec<_>>().join(",");
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        f,
                        a,
                        self.place(body, destination),
                        target.map_or(-1, |b| b.as_usize() as i64),
                        uw(unwind),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("ovf{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("ovfneg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let o = ops.iter().map(|o| self.op(body, o, te)).collect::<Vec<_>>().join(",");
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{},{}]",
                        self.op(body, cond, te),
                        expected,
                        js(&k),
                        o,
                        target.as_usize(),
                        uw(unwind),
                        ln
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
            };
            out.push_str(&s);
            out.push('}');
        }
        out.push(']');
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    hits: Vec<(LocalDefId, Span, &'static str)>,
}
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let ed = b.span.ctxt().outer_expn_data();
            let foreign = ed.macro_def_id.map_or(false, |m| !m.is_local()) || ed.is_root() == false && ed.macro_def_id.is_none();
            self.hits.push((b.hir_id.owner.def_id, b.span, if foreign { "foreign-macro" } else { "block" }));
        }
        intravisit::walk_block(self, b);
    }
}

fn extract(tcx: TyCtxt<'_>, dir: &str, tag: &str) {
    let ex = Ex { tcx };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let path = format!("{}/{}.{}.jsonl", dir, krate, tag);
    let f = std::fs::File::create(&path).expect("facts file");
    let mut w = std::io::BufWriter::new(f);
    let ev = tcx.effective_visibilities(());
    let mut n = 0usize;
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let kn = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
            DefKind::Static { .. } => "static",
            DefKind::Ctor(..) => continue,
            _ => continue,
        };
        if kind == DefKind::AnonConst {
            continue;
        }
        let mut o = String::new();
        let (file, line) = ex.loc(tcx.def_span(d));
        let _ = write!(o, "{{\"k\":\"fn\",\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{}", js(&ex.path(d)), kn, js(&file), line);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(o, ",\"name\":{},\"pub\":{}", js(&name), ev.is_reachable(*ld));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_binder();
            let _ = write!(o, ",\"sig\":{}", js(&full!(format!("{:?}", sig))));
            if sig.safety().is_unsafe() {
                o.push_str(",\"unsafe\":1");
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"self\":{}", js(&ex.tys(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let trd = tr.skip_binder().def_id;
                let _ = write!(o, ",\"trait\":{}", js(&ex.path(trd)));
            }
            if tcx.is_automatically_derived(imp) {
                o.push_str(",\"derived\":1");
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"intrait\":{}", js(&ex.path(tr)));
        }
        if kind == DefKind::Closure {
            let _ = write!(o, ",\"parent\":{}", js(&ex.path(tcx.parent(d))));
        }
        if let DefKind::Static { mutability, .. } = kind {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let fr = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            let _ = write!(o, ",\"mut\":{},\"freeze\":{}", mutability.is_mut(), fr);
        }
        o.push(',');
        let is_fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let body: &Body<'_> = if is_fnlike { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
        ex.body(&mut o, d, body);
        let prom = tcx.promoted_mir(d);
        o.push_str(",\"promoted\":[");
        for (i, p) in prom.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push('{');
            ex.body(&mut o, d, p);
            o.push('}');
        }
        o.push_str("]}\n");
        w.write_all(o.as_bytes()).unwrap();
        n += 1;
    }
    // ADTs, traits, impls
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let (file, line) = ex.loc(tcx.def_span(d));
                let mut o = format!(
                    "{{\"k\":\"adt\",\"id\":{},\"enum\":{},\"pub\":{},\"gen\":{},\"auto\":{},\"file\":{},\"line\":{},\"variants\":[",
                    js(&ex.path(d)),
                    ad.is_enum(),
                    ev.is_reachable(id),
                    tcx.generics_of(d).own_params.iter().any(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })),
                    auto(tcx, d, tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                    js(&file),
                    line
                );
                for (i, v) in ad.variants().iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("[{},{},{},{}]", js(f.name.as_str()), js(&ex.tys(t)), f.vis.is_public(), auto(tcx, d, t))
                        })
                        .collect::<Vec<_>>()
                        .join(",");
                    let _ = write!(o, "[{},[{}]]", js(v.name.as_str()), fs);
                }
                o.push_str("]}\n");
                w.write_all(o.as_bytes()).unwrap();
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(d).map(|t| ex.path(t.skip_binder().def_id));
                let (file, line) = ex.loc(tcx.def_span(d));
                let uns = tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe();
                let ms = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|m| js(&ex.path(*m)))
                    .collect::<Vec<_>>()
                    .join(",");
                let o = format!(
                    "{{\"k\":\"impl\",\"self\":{},\"trait\":{},\"unsafe\":{},\"file\":{},\"line\":{},\"items\":[{}],\"derived\":{}}}\n",
                    js(&ex.tys(st)),
                    tr.map_or("null".into(), |t| js(&t)),
                    uns,
                    js(&file),
                    line,
                    ms,
                    tcx.is_automatically_derived(d)
                );
                w.write_all(o.as_bytes()).unwrap();
            }
            DefKind::Trait => {
                let ms = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|m| format!("[{},{}]", js(&ex.path(*m)), tcx.associated_item(*m).defaultness(tcx).has_value()))
                    .collect::<Vec<_>>()
                    .join(",");
                let o = format!("{{\"k\":\"trait\",\"id\":{},\"pub\":{},\"items\":[{}]}}\n", js(&ex.path(d)), ev.is_reachable(id), ms);
                w.write_all(o.as_bytes()).unwrap();
            }
            _ => {}
        }
    }
    let mut v = UnsafeV { tcx, hits: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    for (d, sp, k) in v.hits {
        let (file, line) = ex.loc(sp);
        let o = format!("{{\"k\":\"unsafe\",\"fn\":{},\"what\":\"{}\",\"file\":{},\"line\":{}}}\n", js(&ex.path(d.to_def_id())), k, js(&file), line);
        w.write_all(o.as_bytes()).unwrap();
    }
    let _ = write!(w, "{{\"k\":\"end\",\"crate\":{},\"fns\":{}}}\n", js(&krate), n);
    w.flush().unwrap();
}

struct Cb {
    dir: String,
    tag: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        extract(tcx, &self.dir, &self.tag);
        rustc_driver::Compilation::Continue
    }
}
struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib"));
    let is_test = args.iter().any(|a| a == "--test");
    let dir = std::env::var("FACTS_DIR").unwrap_or_default();
    let tag = std::env::var("FACTS_TAG").unwrap_or_default();
    let want = std::env::var("FACTS_CRATES").unwrap_or("ass_core,ass_editor,ass_renderer".into());
    if !dir.is_empty() && is_lib && !is_test && want.split(',').any(|c| c == crate_name) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { dir, tag };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}

/// "[Send, Sync, Freeze]" of a type as seen inside the definition of `d`
fn auto<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, t: Ty<'tcx>) -> String {
    let env = TypingEnv::non_body_analysis(tcx, d);
    let (inf, pe) = tcx.infer_ctxt().build_with_typing_env(env);
    let has = |tr: Option<DefId>| tr.map_or(false, |tr| inf.type_implements_trait(tr, [t], pe).must_apply_modulo_regions());
    let send = has(tcx.get_diagnostic_item(rustc_span::sym::Send));
    let sync = has(tcx.lang_items().sync_trait());
    format!("[{},{},{}]", send, sync, t.is_freeze(tcx, env))
}
