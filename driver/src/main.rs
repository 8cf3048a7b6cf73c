//! Dumps the type-checked program of every workspace crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. For each crate it
//! writes MIRDUMP_OUT/<crate>-<kind>.json with: types, ADT definitions, impl table, function
//! signatures, and the MIR (after borrow checking and drop elaboration, no optimisation) of every
//! function, closure, constant, static and promoted, with callees resolved by the trait system.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
    env: Option<TypingEnv<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    // A path that is unique for every definition (impls are numbered).
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.krate(d), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                v.push(format!("{{\"const\":{}}}", js(&format!("{}", c))));
            }
        }
        list(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, idx);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) | ty::Uint(_) => format!("\"k\":\"int\",\"name\":{}", js(&s)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                self.adt(def);
                let a = self.args(args);
                format!(
                    "\"k\":\"adt\",\"path\":{},\"key\":{},\"args\":{}",
                    js(&self.path(def.did())),
                    js(&self.key(def.did())),
                    a
                )
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, js(&format!("{}", n)))
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            ty::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"mut\":{},\"elem\":{}", m.is_mut(), self.ty(e))
            }
            ty::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"elem\":{}", m.is_mut(), self.ty(e))
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let c = self.callee(d.into(), a);
                format!("\"k\":\"fndef\",{}", c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds
                    .principal_def_id()
                    .map(|d| self.path(d))
                    .unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", js(&p))
            }
            ty::Closure(d, a) => {
                let c = a.as_closure();
                let ups: Vec<String> =
                    c.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!(
                    "\"k\":\"closure\",\"key\":{},\"upvars\":{},\"parent\":{}",
                    js(&self.key(d.into())),
                    list(ups),
                    self.args(a)
                )
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", list(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[idx] = format!("{{\"s\":{},{}}}", js(&s), body);
        idx
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, String::new());
        self.adt_order.push(did);
        let tcx = self.tcx;
        let kr = self.krate(did);
        let local = did.is_local();
        let full = local || kr.starts_with("cubing") || ["core", "alloc", "std", "nom", "clap_builder"].contains(&kr.as_str());
        let mut vs = vec![];
        if def.is_enum() || full {
            for (i, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    format!("{}", def.discriminant_for_variant(tcx, i).val)
                } else {
                    "0".into()
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = if local || kr.starts_with("cubing") { self.ty(t) as i64 } else { -1 };
                    let vis = match f.vis {
                        ty::Visibility::Public => "pub".to_string(),
                        ty::Visibility::Restricted(m) => self.key(m.into()),
                    };
                    fs.push(format!(
                        "{{\"name\":{},\"ty\":{},\"vis\":{}}}",
                        js(f.name.as_str()),
                        ti,
                        js(&vis)
                    ));
                }
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                    js(v.name.as_str()),
                    js(&discr),
                    list(fs)
                ));
            }
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let vis = match tcx.visibility(did) {
            ty::Visibility::Public => "pub".to_string(),
            ty::Visibility::Restricted(m) => self.key(m.into()),
        };
        // what the trait solver says about sharing values between threads
        let mut share = String::new();
        if local && tcx.generics_of(did).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
            let env = TypingEnv::post_analysis(tcx, did);
            let t = tcx.erase_and_anonymize_regions(tcx.type_of(did).instantiate_identity().skip_norm_wip());
            let ask = |name: rustc_span::Symbol| {
                let tr = tcx.get_diagnostic_item(name)?;
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                Some(icx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions())
            };
            let send = ask(rustc_span::sym::Send);
            let sync = ask(rustc_span::sym::Sync);
            share = format!(
                ",\"send\":{},\"sync\":{},\"freeze\":{},\"reachable\":{}",
                send.map_or("null".to_string(), |b| b.to_string()),
                sync.map_or("null".to_string(), |b| b.to_string()),
                t.is_freeze(tcx, env),
                did.as_local().is_some_and(|l| tcx.effective_visibilities(()).is_reachable(l))
            );
        }
        let s = format!(
            "{{\"path\":{},\"key\":{},\"kind\":\"{}\",\"vis\":{}{share},\"variants\":{}}}",
            js(&self.path(did)),
            js(&self.key(did)),
            kind,
            js(&vis),
            list(vs)
        );
        self.adts.insert(did, s);
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "\"path\":{},\"key\":{},\"args\":{}",
            js(&self.path(d)),
            js(&self.key(d)),
            self.args(a)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", js(&self.path(tr)));
            let _ = write!(s, ",\"method\":{}", js(tcx.item_name(d).as_str()));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"self\":{}", self.ty(st));
            let _ = write!(s, ",\"method\":{}", js(tcx.item_name(d).as_str()));
        }
        if let Some(env) = self.env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let ea = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, ea) {
                    let rd = inst.def_id();
                    let shim = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(..) => "intrinsic",
                        _ => "shim",
                    };
                    let _ = write!(
                        s,
                        ",\"res\":{{\"path\":{},\"key\":{},\"args\":{},\"shim\":\"{}\"}}",
                        js(&self.path(rd)),
                        js(&self.key(rd)),
                        self.args(inst.args),
                        shim
                    );
                }
            }
        }
        s
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, i) => format!("[\"d\",{}]", i.as_u32()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(v))
    }
    fn constval(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(t);
        match t.kind() {
            ty::Int(it) => {
                if let Some(s) = val.try_to_scalar_int() {
                    let sz = s.size();
                    let _ = it;
                    return format!("{{\"int\":{},\"ty\":{}}}", js(&s.to_int(sz).to_string()), ti);
                }
            }
            ty::Uint(_) => {
                if let Some(s) = val.try_to_scalar_int() {
                    return format!("{{\"int\":{},\"ty\":{}}}", js(&s.to_bits_unchecked().to_string()), ti);
                }
            }
            ty::Bool => {
                if let Some(s) = val.try_to_scalar_int() {
                    return format!("{{\"bool\":{},\"ty\":{}}}", s.to_bits_unchecked() != 0, ti);
                }
            }
            ty::Char => {
                if let Some(s) = val.try_to_scalar_int() {
                    return format!("{{\"char\":{},\"ty\":{}}}", s.to_bits_unchecked(), ti);
                }
            }
            ty::FnDef(..) | ty::Closure(..) => return format!("{{\"zst\":true,\"ty\":{}}}", ti),
            ty::Ref(_, inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        return match (inner.is_str(), std::str::from_utf8(b)) {
                            (true, Ok(s)) => format!("{{\"str\":{},\"ty\":{}}}", js(s), ti),
                            _ => format!(
                                "{{\"bytes\":{},\"ty\":{}}}",
                                list(b.iter().map(|x| x.to_string())),
                                ti
                            ),
                        };
                    }
                }
                if let ConstValue::Scalar(sc) = val {
                    if let mir::interpret::Scalar::Ptr(p, _) = sc {
                        let (prov, off) = p.prov_and_relative_offset();
                        let alloc_id = prov.alloc_id();
                        match tcx.try_get_global_alloc(alloc_id) {
                            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                return format!("{{\"static\":{},\"ty\":{}}}", js(&self.key(d)), ti);
                            }
                            Some(mir::interpret::GlobalAlloc::Memory(m)) => {
                                if let ty::Array(e, n) = inner.kind() {
                                    if *e == tcx.types.u8 {
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            let o = off.bytes() as usize;
                                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                            return format!(
                                                "{{\"bytes\":{},\"ty\":{}}}",
                                                list(b.iter().map(|x| x.to_string())),
                                                ti
                                            );
                                        }
                                    }
                                }
                                if depth < 6 {
                                    let v = ConstValue::Indirect { alloc_id, offset: off };
                                    let s = self.constval(v, *inner, depth + 1);
                                    return format!("{{\"ref\":{},\"ty\":{}}}", s, ti);
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if depth < 6 {
                    let small = match t.kind() {
                        ty::Array(_, n) => n.try_to_target_usize(tcx).map_or(false, |n| n <= 512),
                        ty::Adt(d, _) => !d.is_union(),
                        _ => true,
                    };
                    if small {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                            let fs: Vec<String> = d
                                .fields
                                .iter()
                                .map(|(v, t)| self.constval(*v, *t, depth + 1))
                                .collect();
                            let v = d.variant.map(|v| v.as_u32() as i64).unwrap_or(0);
                            return format!(
                                "{{\"agg\":{},\"variant\":{},\"ty\":{}}}",
                                list(fs),
                                v,
                                ti
                            );
                        }
                    }
                }
            }
            _ => {}
        }
        format!("{{\"opaque\":true,\"ty\":{}}}", ti)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"zst\":true,\"ty\":{}}}", ti);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"promoted\":{},\"of\":{},\"ty\":{}}}",
                    p.as_u32(),
                    js(&self.key(u.def)),
                    ti
                );
            }
            extra = format!(",\"def\":{}", js(&self.key(u.def)));
        }
        let env = self.env.unwrap();
        let s = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => format!("{{\"opaque\":true,\"ty\":{}}}", ti),
        };
        if extra.is_empty() {
            s
        } else {
            format!("{}{}}}", &s[..s.len() - 1], extra)
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c)),
            Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), js(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                js(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                }),
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", js(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let f = {
                    let tcx = self.tcx;
                    let _ = tcx;
                    format!("{:?}", k)
                };
                format!("[\"cast\",{},{},{}]", js(&f), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let k = match **k {
                    AggregateKind::Array(t) => format!("\"array\",{}", self.ty(t)),
                    AggregateKind::Tuple => "\"tuple\",0".into(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip();
                        format!("\"adt\",[{},{}]", self.ty(t), v.as_u32())
                    }
                    AggregateKind::Closure(d, _) => format!("\"closure\",{}", js(&self.key(d))),
                    AggregateKind::RawPtr(..) => "\"rawptr\",0".into(),
                    _ => "\"other\",0".into(),
                };
                format!("[\"agg\",{},{}]", k, list(f))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", js(if m.is_mut() { "mut" } else { "shared" }), self.place(p))
            }
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (
            format!("{}", loc.file.name.prefer_local_unconditionally()),
            loc.line,
        )
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        self.env = Some(env);
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_u32()) {
                    Some(n) => format!("[{},{}]", t, js(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push("null".into());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pl = self.place(p);
                        let rv = self.rvalue(r);
                        let line = self.span(s.source_info.span).1;
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"setd\",{},{}]",
                            self.place(place),
                            variant_index.as_u32()
                        ));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", js(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, line) = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets, .. } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", js(&v.to_string()), t.as_u32()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        list(v),
                        targets.otherwise().as_u32(),
                        self.ty(ty)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_u32(), self.ty(ty))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.operand(func),
                        list(a),
                        self.place(destination),
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]",
                            js(&format!("{:?}", op)),
                            self.operand(a),
                            self.operand(b)
                        ),
                        AssertKind::OverflowNeg(a) => format!("[\"overflow_neg\",{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div_zero\",{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem_zero\",{}]", self.operand(a)),
                        o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        m,
                        target.as_u32()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                k => format!("[\"other\",{}]", js(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", list(st), ts, line));
        }
        let (file, line) = self.span(b.span);
        format!(
            "{{\"argc\":{},\"locals\":{},\"blocks\":{},\"file\":{},\"line\":{},\"spread\":{}}}",
            b.arg_count,
            list(locals),
            list(blocks),
            js(&file),
            line,
            b.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1)
        )
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tmap: HashMap::new(),
        adts: HashMap::new(),
        adt_order: vec![],
        env: None,
    };
    let mut bodies = vec![];
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let ks = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const | DefKind::AssocConst | DefKind::AnonConst => "const",
            DefKind::Static { .. } => "static",
            DefKind::Ctor(..) => continue,
            _ => continue,
        };
        if matches!(kind, DefKind::AnonConst) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        cx.env = Some(env);
        let mut s = format!("\"key\":{},\"path\":{},\"kind\":\"{}\"", js(&cx.key(d)), js(&cx.path(d)), ks);
        let vis = if kind == DefKind::Closure {
            "closure".to_string()
        } else {
            match tcx.visibility(d) {
                ty::Visibility::Public => "pub".to_string(),
                ty::Visibility::Restricted(m) => cx.key(m.into()),
            }
        };
        let _ = write!(s, ",\"vis\":{}", js(&vis));
        if kind != DefKind::Closure {
            let eff = tcx.effective_visibilities(()).is_reachable(ld);
            let _ = write!(s, ",\"reachable\":{}", eff);
        }
        if let DefKind::Static { mutability, .. } = kind {
            let _ = write!(s, ",\"mutstatic\":{}", mutability.is_mut());
        }
        if let Some(p) = tcx.opt_parent(d) {
            let _ = write!(s, ",\"parent\":{}", js(&cx.key(p)));
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"self\":{}", cx.ty(st));
                let _ = write!(s, ",\"name\":{}", js(tcx.item_name(d).as_str()));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(
                        s,
                        ",\"trait\":{},\"trait_args\":{}",
                        js(&cx.path(tr.def_id)),
                        cx.args(tr.args)
                    );
                    let _ = write!(s, ",\"derived\":{}", tcx.is_automatically_derived(p));
                }
            } else if let DefKind::Trait = tcx.def_kind(p) {
                let _ = write!(s, ",\"in_trait\":{},\"name\":{}", js(&cx.path(p)), js(tcx.item_name(d).as_str()));
            } else if kind == DefKind::Fn {
                let _ = write!(s, ",\"name\":{}", js(tcx.item_name(d).as_str()));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(s, ",\"unsafe\":{}", !sig.safety().is_safe());
            let gens: Vec<String> = ty::GenericArgs::identity_for_item(tcx, d)
                .iter()
                .filter_map(|g| g.as_type())
                .map(|t| js(&format!("{}", t)))
                .collect();
            let _ = write!(s, ",\"generics\":{}", list(gens));
        }
        let body = match ks {
            "fn" | "method" | "closure" => tcx.optimized_mir(d),
            _ => tcx.mir_for_ctfe(d),
        };
        let _ = write!(s, ",\"body\":{}", cx.body(body, env));
        let proms = tcx.promoted_mir(d);
        let mut pv = vec![];
        for p in proms.iter() {
            pv.push(cx.body(p, env));
        }
        let _ = write!(s, ",\"promoted\":{}", list(pv));
        bodies.push(format!("{{{}}}", s));
    }
    // impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            cx.env = Some(TypingEnv::post_analysis(tcx, d));
            let mut s = format!("\"key\":{},\"self\":{}", js(&cx.key(d)), cx.ty(st));
            if of_trait {
                let h = tcx.impl_trait_header(d);
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                let _ = write!(
                    s,
                    ",\"trait\":{},\"trait_args\":{},\"unsafe\":{},\"negative\":{},\"derived\":{}",
                    js(&cx.path(tr.def_id)),
                    cx.args(tr.args),
                    !h.safety.is_safe(),
                    h.polarity != ty::ImplPolarity::Positive,
                    tcx.is_automatically_derived(d)
                );
            }
            let (f, l) = cx.span(tcx.def_span(d));
            let _ = write!(s, ",\"file\":{},\"line\":{}", js(&f), l);
            impls.push(format!("{{{}}}", s));
        }
    }
    // all local ADTs (even if not mentioned in a body)
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.env = Some(TypingEnv::post_analysis(tcx, d));
            cx.adt(tcx.adt_def(d));
        }
    }
    // re-exported names: module children of every reachable module
    let mut exports = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut work = vec![(String::new(), LOCAL_CRATE.as_def_id())];
    while let Some((prefix, m)) = work.pop() {
        if !seen.insert((prefix.clone(), m)) || prefix.len() > 200 {
            continue;
        }
        let children: Vec<_> = if let Some(lm) = m.as_local() {
            tcx.module_children_local(lm).iter().map(|c| (c.ident.to_string(), c.res, c.vis)).collect()
        } else {
            tcx.module_children(m).iter().map(|c| (c.ident.to_string(), c.res, c.vis)).collect()
        };
        for (name, res, vis) in children {
            if vis != ty::Visibility::Public {
                continue;
            }
            if let Some(d) = res.opt_def_id() {
                let p = if prefix.is_empty() { name.clone() } else { format!("{}::{}", prefix, name) };
                exports.push(format!(
                    "[{},{},{}]",
                    js(&p),
                    js(&cx.key(d)),
                    js(&format!("{:?}", tcx.def_kind(d)))
                ));
                if matches!(tcx.def_kind(d), DefKind::Mod) && cx.krate(d).starts_with("cubing") {
                    work.push((p, d));
                }
            }
        }
    }
    let adts: Vec<String> = cx.adt_order.iter().map(|d| cx.adts[d].clone()).collect();
    let text = format!(
        "{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"exports\":{},\"bodies\":{}}}",
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        list(cx.types.clone()),
        list(adts),
        list(impls),
        list(exports),
        format!("[\n{}\n]", bodies.join(",\n"))
    );
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let kind = tcx
        .crate_types()
        .iter()
        .map(|c| format!("{:?}", c).to_lowercase())
        .next()
        .unwrap_or("lib".into());
    let f = format!("{}/{}-{}.json", out, name, kind);
    std::fs::write(&f, text).unwrap();
}

struct Cb(String);
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if tcx.dcx().has_errors().is_none() {
            dump(tcx, &self.0);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_print = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    let build_script = args.iter().any(|a| a.contains("build_script"));
    struct N;
    impl rustc_driver::Callbacks for N {}
    rustc_driver::catch_with_exit_code(move || {
        if out.is_empty() || is_print || build_script {
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb(out.clone()))
        }
    })
}
