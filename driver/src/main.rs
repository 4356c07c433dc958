//! Exports the resolved program (MIR as built, before any optimisation, plus type and impl tables)
//! of one crate as JSON.  Used as RUSTC_WORKSPACE_WRAPPER; nothing is executed, only type-checked.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::ExitCode;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    /// short type name: constructor path without generic arguments
    fn tyn(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.key(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyn(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.tyn(*t)),
            ty::Param(p) => p.name.to_string(),
            ty::Closure(d, _) => format!("closure:{}", self.key(*d)),
            ty::Coroutine(d, _) => format!("coroutine:{}", self.key(*d)),
            ty::FnDef(d, _) => format!("fn:{}", self.qual(*d)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tyn(t)).collect::<Vec<_>>().join(",")),
            ty::Slice(t) => format!("[{}]", self.tyn(*t)),
            ty::Array(t, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => format!("[{};{}]", self.tyn(*t), n),
                None => format!("[{};_]", self.tyn(*t)),
            },
            ty::Dynamic(ps, _) => match ps.principal_def_id() {
                Some(d) => format!("dyn {}", self.key(d)),
                None => "dyn ?".to_string(),
            },
            ty::Alias(..) => format!("alias:{}", with_no_trimmed_paths!(format!("{}", t))),
            _ => with_no_trimmed_paths!(format!("{}", t)),
        }
    }
    fn tyf(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    /// readable, impl-index-free name of a function
    fn qual(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::AnonConst => {
                let p = tcx.parent(d);
                let k = self.key(d);
                let last = k.rsplit("::").next().unwrap_or("").to_string();
                return format!("{}::{}", self.qual(p), last);
            }
            DefKind::Ctor(..) => {
                let p = tcx.parent(d);
                return format!("ctor:{}", self.key(p));
            }
            _ => {}
        }
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = self.tyn(tcx.type_of(p).instantiate_identity().skip_norm_wip());
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{}", st, self.key(tr.def_id), name);
                }
                return format!("{}::{}", st, name);
            }
        }
        self.key(d)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let p = sm.lookup_char_pos(s.lo());
        format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line)
    }
    fn note_adt(&mut self, a: ty::AdtDef<'tcx>) {
        let k = self.key(a.did());
        if self.adts.contains_key(&k) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = Vec::new();
        if a.is_enum() {
            for (i, d) in a.discriminants(tcx) {
                let v = a.variant(i);
                vs.push(format!(
                    "[{},\"{}\",{}]",
                    q(v.name.as_str()),
                    d.val,
                    arr(v.fields.iter().map(|f| q(f.name.as_str())))
                ));
            }
        } else {
            for v in a.variants() {
                vs.push(format!("[{},\"0\",{}]", q(v.name.as_str()), arr(v.fields.iter().map(|f| q(f.name.as_str())))));
            }
        }
        let mut ftys = Vec::new();
        let mut vis = Vec::new();
        if a.did().is_local() {
            for v in a.variants() {
                for f in &v.fields {
                    ftys.push(q(&self.tyf(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())));
                    vis.push(q(&format!("{:?}", f.vis)));
                }
            }
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let loc = if a.did().is_local() { self.span(tcx.def_span(a.did())) } else { String::new() };
        // what may be done with a value between threads, for arguments that are (u32) and are not (a raw pointer) thread-safe
        let mut auto = Vec::new();
        let mut autop = Vec::new();
        if a.did().is_local() {
            auto = self.autos(a, tcx.types.u32);
            autop = self.autos(a, Ty::new_imm_ptr(tcx, tcx.types.u8));
        }
        let js = format!(
            "{{\"kind\":\"{}\",\"loc\":{},\"variants\":{},\"ftys\":{},\"vis\":{},\"avis\":{},\"auto\":{},\"autop\":{}}}",
            kind,
            q(&loc),
            arr(vs),
            arr(ftys),
            arr(vis),
            q(&format!("{:?}", tcx.visibility(a.did()))),
            arr(auto),
            arr(autop)
        );
        self.adts.insert(k, js);
    }
    fn autos(&self, a: ty::AdtDef<'tcx>, arg: Ty<'tcx>) -> Vec<String> {
        let tcx = self.tcx;
        let args = ty::GenericArgs::for_item(tcx, a.did(), |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => arg.into(),
            ty::GenericParamDefKind::Const { .. } => tcx.types.usize.into(),
        });
        let t = Ty::new_adt(tcx, a, args);
        let mut out = Vec::new();
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        for (n, tr) in [
            ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
            ("Sync", tcx.lang_items().sync_trait()),
            ("Clone", tcx.lang_items().clone_trait()),
            ("Copy", tcx.lang_items().copy_trait()),
            ("Unpin", tcx.lang_items().unpin_trait()),
        ] {
            if let Some(d) = tr {
                if infcx.type_implements_trait(d, [t], ty::ParamEnv::empty()).must_apply_modulo_regions() {
                    out.push(q(n));
                }
            }
        }
        out
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut ps = Vec::new();
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let (owner, fname) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.note_adt(*a);
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None => {
                                    if a.is_enum() {
                                        a.variant(rustc_abi::VariantIdx::from_u32(0))
                                    } else {
                                        a.non_enum_variant()
                                    }
                                }
                            };
                            let f = v.fields.get(i).map(|f| f.name.to_string()).unwrap_or_else(|| i.as_usize().to_string());
                            (self.key(a.did()), f)
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => (format!("up:{}", self.key(*d)), i.as_usize().to_string()),
                        ty::Tuple(_) => ("tuple".to_string(), i.as_usize().to_string()),
                        _ => ("?".to_string(), i.as_usize().to_string()),
                    };
                    format!("[\"f\",{},{}]", q(&fname), q(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"ci\",{},{},{}]", offset, from_end, min_length),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => {
                    let n = match n {
                        Some(n) => n.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(a, _) => a.variant(v).name.to_string(),
                            _ => v.as_usize().to_string(),
                        },
                    };
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        self.note_adt(*a);
                    }
                    format!("[\"d\",{}]", q(&n))
                }
                _ => "[\"o\"]".to_string(),
            };
            ps.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(ps))
    }
    fn place_ty(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        p.ty(&body.local_decls, self.tcx).ty
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("[\"fn\",{}]", self.callee(env, *d, args.skip_binder()));
        }
        let tn = self.tyn(t);
        let mut path = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            path = self.qual(u.def);
            if u.promoted.is_some() {
                path.push_str("::promoted");
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            path = with_no_trimmed_paths!(format!("{}", ct));
        }
        let mut val = "null".to_string();
        let poly = c.const_.has_param();
        // never const-evaluate a constant of a body that may still be being built
        if !poly {
            match t.kind() {
                ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                    if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                        val = match t.kind() {
                            ty::Bool => format!("{}", if s.is_null() { "false" } else { "true" }),
                            ty::Int(_) => format!("{}", s.to_int(s.size())),
                            _ => format!("{}", s.to_bits(s.size())),
                        };
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(_) | ty::Array(..)) => {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                val = if inner.is_str() { q(&String::from_utf8_lossy(b)) } else { arr(b.iter().map(|b| b.to_string())) };
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // a reference to a static: name it
        if let Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)), _) = c.const_ {
            if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(ptr.provenance.alloc_id()) {
                path = self.qual(d);
            }
        }
        let mut dbg = String::new();
        if val == "null" && path.is_empty() {
            dbg = with_no_trimmed_paths!(format!("{}", c.const_));
        }
        format!("[\"c\",{},{},{},{}]", q(&tn), val, q(&path), q(&dbg))
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, c),
            Operand::RuntimeChecks(_) => "[\"c\",\"bool\",null,\"rtcheck\",\"\"]".into(),
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.qual(d);
        let mut key = String::new();
        let mut rq = String::new();
        let mut krate = String::new();
        let mut st = String::new();
        let mut virt = false;
        let mut coro = String::new();
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Trait) && args.len() > 0 {
                if let Some(t) = args.get(0).and_then(|a| a.as_type()) {
                    st = self.tyf(t);
                }
            } else if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let t = tcx.type_of(p).instantiate(tcx, args).skip_norm_wip();
                st = self.tyf(t);
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args2 = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args2) {
                let rd = i.def_id();
                rq = self.qual(rd);
                key = self.key(rd);
                krate = tcx.crate_name(rd.krate).to_string();
                virt = matches!(i.def, ty::InstanceKind::Virtual(..));
                if tcx.is_coroutine(rd) {
                    coro = key.clone();
                }
                if let ty::InstanceKind::Item(_) = i.def {
                } else {
                    // shim (closure once, fn pointer, drop glue, ...): keep the def of the wrapped item
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(_, CtorKind::Fn)) {
            rq = decl.clone();
        }
        let ga = arr(args.iter().filter_map(|a| a.as_type()).map(|t| q(&self.tyn(t))));
        format!(
            "{{\"d\":{},\"q\":{},\"k\":{},\"kr\":{},\"st\":{},\"ga\":{},\"v\":{},\"co\":{}}}",
            q(&decl),
            q(&rq),
            q(&key),
            q(&krate),
            q(&st),
            ga,
            virt,
            q(&coro)
        )
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(body, env, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "m",
                    #[allow(unreachable_patterns)]
                    _ => "s",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.key(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                let k = k.split('(').next().unwrap_or("").to_string();
                format!("[\"cast\",{},{},{}]", q(&k), self.operand(body, env, o), q(&self.tyn(*t)))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(body, p);
                if let ty::Adt(a, _) = t.kind() {
                    self.note_adt(*a);
                }
                format!("[\"discr\",{},{}]", self.place(body, p), q(&self.tyn(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.operand(body, env, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",\"\",\"\",[],{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",\"\",\"\",[],{}]", os),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        self.note_adt(a);
                        let vd = a.variant(*v);
                        let fs = match active {
                            Some(f) => arr([q(vd.fields[*f].name.as_str())]),
                            None => arr(vd.fields.iter().map(|f| q(f.name.as_str()))),
                        };
                        format!("[\"agg\",\"adt\",{},{},{},{}]", q(&self.key(*d)), q(vd.name.as_str()), fs, os)
                    }
                    AggregateKind::Closure(d, _) => format!("[\"agg\",\"closure\",{},\"\",[],{}]", q(&self.key(*d)), os),
                    AggregateKind::Coroutine(d, _) => format!("[\"agg\",\"coroutine\",{},\"\",[],{}]", q(&self.key(*d)), os),
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"agg\",\"coroutineclosure\",{},\"\",[],{}]", q(&self.key(*d)), os),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",\"\",\"\",[],{}]", os),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "m" } else { "s" }, self.place(body, p)),
        }
    }
    fn body(&mut self, ld: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let env = TypingEnv::non_body_analysis(tcx, d);
        let mut o = String::new();
        let parent_fn = tcx.typeck_root_def_id(d);
        let (mut st, mut tr) = (String::new(), String::new());
        if let Some(p) = tcx.opt_parent(parent_fn) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                st = self.tyn(tcx.type_of(p).instantiate_identity().skip_norm_wip());
                if of_trait {
                    tr = self.key(tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().def_id);
                }
            }
        }
        let kind = if tcx.is_coroutine(d) {
            "coroutine"
        } else {
            match tcx.def_kind(d) {
                DefKind::Closure => "closure",
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                _ => "const",
            }
        };
        let vis = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.visibility(d).is_public() {
                    "pub"
                } else {
                    "priv"
                }
            }
            _ => "",
        };
        let immediate_parent = if kind == "closure" || kind == "coroutine" { self.key(tcx.parent(d)) } else { String::new() };
        let _ = write!(
            o,
            "{{\"key\":{},\"qual\":{},\"name\":{},\"kind\":\"{}\",\"vis\":\"{}\",\"parent\":{},\"root\":{},\"self\":{},\"trait\":{},\"span\":{},\"argc\":{}",
            q(&self.key(d)),
            q(&self.qual(d)),
            q(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            kind,
            vis,
            q(&immediate_parent),
            q(&self.key(parent_fn)),
            q(&st),
            q(&tr),
            q(&self.span(tcx.def_span(d))),
            body.arg_count
        );
        // locals
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(i, _) = e {
                            upnames.entry(i.as_usize()).or_insert(v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let locals = arr(body.local_decls.iter_enumerated().map(|(i, l)| {
            let ty_full = self.tyf(l.ty);
            format!("[{},{},{}]", q(&self.tyn(l.ty)), q(names.get(&i.as_usize()).map(|s| s.as_str()).unwrap_or("")), q(&ty_full))
        }));
        let ups = arr(upnames.iter().map(|(i, n)| format!("[{},{}]", i, q(n))));
        let _ = write!(o, ",\"locals\":{},\"ups\":{},\"blocks\":[", locals, ups);
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = b.1 {
                            continue;
                        }
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, q(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        let t = self.place_ty(body, place);
                        let n = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        ss.push(format!("[\"sd\",{},{}]", p, q(&n)));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"sx\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"sl\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = q(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let ts = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, env, discr),
                        ts,
                        targets.otherwise().as_usize(),
                        q(&self.tyn(t)),
                        sp
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => format!("[\"ret\",{}]", sp),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = self.place_ty(body, place);
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), target.as_usize(), q(&self.tyn(t)), self.unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, env, func);
                    let a = arr(args.iter().map(|a| self.operand(body, env, &a.node)).collect::<Vec<_>>());
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, self.place(body, destination), tg, sp, self.unw(unwind))
                }
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(body, env, len), self.operand(body, env, index)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![self.operand(body, env, a), self.operand(body, env, b)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(body, env, a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(body, env, cond),
                        expected,
                        q(&k),
                        arr(ops),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", self.operand(body, env, value), resume.as_usize(), self.place(body, resume_arg))
                }
                TerminatorKind::CoroutineDrop => "[\"unreach\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
            };
            let _ = write!(o, "{{\"s\":{},\"t\":{},\"c\":{}}}", arr(ss), t, if bb.is_cleanup { 1 } else { 0 });
        }
        o.push_str("]}");
        o
    }
    fn unw(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            _ => "null".into(),
        }
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(LocalDefId, Span)>,
    cur: LocalDefId,
}
impl<'tcx> Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push((self.cur, b.span));
        }
        intravisit::walk_block(self, b);
    }
}

type Build = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>;
static ORIG: std::sync::OnceLock<Build> = std::sync::OnceLock::new();
thread_local! {
    static STASH: std::cell::RefCell<std::collections::HashMap<LocalDefId, mir::Body<'static>>> = Default::default();
}
fn stash_mir_built<'tcx>(tcx: TyCtxt<'tcx>, id: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>> {
    let r = ORIG.get().unwrap()(tcx, id);
    let copy: mir::Body<'tcx> = r.borrow().clone();
    // only read back below, while the same type context is alive
    let copy: mir::Body<'static> = unsafe { std::mem::transmute(copy) };
    STASH.with(|s| s.borrow_mut().insert(id, copy));
    r
}
struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        // type-checking one body can steal the MIR of another (auto traits of coroutines); keep a copy of each as it is built
        c.override_queries = Some(|_, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = stash_mir_built;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("P2P_FACTS_OUT") else { return Compilation::Continue };
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_test = tcx.sess.opts.test;
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // typeck first: a type error must surface as an ordinary build error
        for &o in &owners {
            if matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let r = tcx.typeck_root_def_id(o.to_def_id());
                if let Some(r) = r.as_local() {
                    if tcx.typeck(r).tainted_by_errors.is_some() {
                        return Compilation::Continue;
                    }
                }
            }
        }
        let mut bodies: Vec<(LocalDefId, mir::Body<'tcx>)> = Vec::new();
        for &o in &owners {
            if matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let b = tcx.mir_built(o);
                if !b.is_stolen() {
                    bodies.push((o, b.borrow().clone()));
                } else if let Some(c) = STASH.with(|s| s.borrow().get(&o).cloned()) {
                    let c: mir::Body<'tcx> = unsafe { std::mem::transmute(c) };
                    bodies.push((o, c));
                }
            }
        }
        let mut cx = Cx { tcx, adts: BTreeMap::new() };
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"test\":{},\"bodies\":[", q(&cname), is_test);
        for (i, (o, b)) in bodies.iter().enumerate() {
            if i > 0 {
                s.push_str(",\n");
            }
            s.push_str(&cx.body(*o, b));
        }
        s.push_str("],\n\"impls\":[");
        let mut first = true;
        let mut consts = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                        (cx.key(t.def_id), with_no_trimmed_paths!(format!("{}", t)))
                    } else {
                        (String::new(), String::new())
                    };
                    if !first {
                        s.push_str(",\n");
                    }
                    first = false;
                    let neg = of_trait && tcx.impl_polarity(id) == ty::ImplPolarity::Negative;
                    let unsafety = of_trait && tcx.impl_trait_header(id).safety.is_unsafe();
                    let items = arr(tcx.associated_items(id).in_definition_order().map(|a| {
                        format!("[{},{}]", q(&cx.key(a.def_id)), q(&a.opt_name().map(|n| n.to_string()).unwrap_or_default()))
                    }));
                    let _ = write!(
                        s,
                        "{{\"self\":{},\"selff\":{},\"trait\":{},\"traitf\":{},\"neg\":{},\"unsafe\":{},\"span\":{},\"items\":{}}}",
                        q(&cx.tyn(st)),
                        q(&cx.tyf(st)),
                        q(&tr.0),
                        q(&tr.1),
                        neg,
                        unsafety,
                        q(&cx.span(tcx.def_span(id))),
                        items
                    );
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(id);
                    cx.note_adt(a);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    if tcx.generics_of(id).count() == 0 {
                        if let Ok(v) = tcx.const_eval_poly(id.to_def_id()) {
                            let val = if let Some(si) = v.try_to_scalar_int() {
                                format!("{}", si.to_bits(si.size()))
                            } else if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_str() {
                                    v.try_get_slice_bytes_for_diagnostics(tcx)
                                        .map(|b| q(&String::from_utf8_lossy(b)))
                                        .unwrap_or("null".into())
                                } else {
                                    "null".into()
                                }
                            } else {
                                "null".into()
                            };
                            consts.push(format!(
                                "[{},{},{},{}]",
                                q(&cx.qual(id.to_def_id())),
                                q(&cx.tyn(t)),
                                val,
                                q(&cx.span(tcx.def_span(id)))
                            ));
                        }
                    }
                }
                _ => {}
            }
        }
        s.push_str("],\n\"consts\":");
        s.push_str(&arr(consts));
        // unsafe blocks, unsafe fns
        let mut uf = UnsafeFinder { tcx, found: vec![], cur: rustc_hir::def_id::CRATE_DEF_ID };
        for &o in &owners {
            if matches!(tcx.def_kind(o), DefKind::Closure) {
                continue;
            }
            uf.cur = o;
            let b = tcx.hir_body_owned_by(o);
            uf.visit_body(b);
        }
        let us = arr(uf.found.iter().map(|(o, sp)| format!("[{},{}]", q(&cx.qual(o.to_def_id())), q(&cx.span(*sp)))));
        let _ = write!(s, ",\n\"unsafe\":{}", us);
        s.push_str(",\n\"adts\":{");
        let mut first = true;
        for (k, v) in &cx.adts {
            if !first {
                s.push_str(",\n");
            }
            first = false;
            let _ = write!(s, "{}:{}", q(k), v);
        }
        s.push_str("}}");
        let f = format!("{}/{}{}.json", out, cname, if is_test { ".test" } else { "" });
        if let Err(e) = std::fs::write(&f, s) {
            eprintln!("p2p-facts: cannot write {f}: {e}");
            std::process::exit(101);
        }
        Compilation::Continue
    }
}

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // probes (--print, -vV) must not export
    rustc_driver::catch_with_exit_code(move || {
        let only_probe = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
        if only_probe {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        }
    })
}
