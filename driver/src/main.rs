//! rustc driver: type-checks the crate exactly as the normal build does and writes down
//! its MIR, with every callee resolved, as JSON for the analyser in ../sa.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_span::{Span, Symbol};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = rustc_middle::ty::print::with_no_trimmed_paths!({
            let mut d = Dump::new(tcx);
            d.run()
        });
        std::fs::write(&self.out, j.to_string()).expect("write dump");
        Compilation::Stop
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    envs: Vec<TypingEnv<'tcx>>,
    types: Vec<J>,
    ty_ids: HashMap<(Ty<'tcx>, usize), usize>,
    bodies: Vec<J>,
    body_ids: HashMap<(Instance<'tcx>, usize), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, usize)>,
    promoted_ids: HashMap<(Instance<'tcx>, usize, u32), usize>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
    callees: Vec<J>,
    callee_ids: HashMap<(DefId, ty::GenericArgsRef<'tcx>, usize), usize>,
}

fn inlinable(path: &str) -> bool {
    // Library code that is analysed through its own MIR instead of being treated as opaque.
    const P: &[&str] = &[
        "option::", "result::", "ops::function", "ops::try_trait", "ops::control_flow", "convert::",
        "iter::adapters", "iter::traits", "iter::sources", "cmp::", "default::", "borrow::",
        "tuple::", "bool::", "clone::",
    ];
    let p = path.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
    for k in ["core::", "std::", "alloc::"] {
        if let Some(r) = p.strip_prefix(k) {
            if P.iter().any(|x| r.starts_with(x)) {
                return true;
            }
        }
    }
    false
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            envs: vec![],
            types: vec![],
            ty_ids: HashMap::new(),
            bodies: vec![],
            body_ids: HashMap::new(),
            queue: VecDeque::new(),
            promoted_ids: HashMap::new(),
            files: vec![],
            file_ids: HashMap::new(),
            callees: vec![],
            callee_ids: HashMap::new(),
        }
    }

    fn span(&mut self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        let files = &mut self.files;
        let id = *self.file_ids.entry(f.clone()).or_insert_with(|| {
            files.push(f);
            files.len() - 1
        });
        J::A(vec![J::I(id as i128), J::I(loc.line as i128)])
    }

    fn dpath(&self, d: DefId) -> String {
        let s = self.tcx.def_path_str(d);
        s
    }
    fn vpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty(&mut self, t: Ty<'tcx>, env: usize) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        let ke = if t.has_param() || t.has_aliases() { env } else { 0 };
        if let Some(i) = self.ty_ids.get(&(t, ke)) {
            return *i;
        }
        let id = self.types.len();
        if std::env::var("RFL_DEBUG").is_ok() { eprintln!("T {} {}", id, t); }
        self.types.push(J::Null);
        self.ty_ids.insert((t, ke), id);
        let mut o: Vec<(&str, J)> = vec![("s", J::S(format!("{}", t)))];
        let te = self.envs[env];
        let nd = t.needs_drop(tcx, te);
        if nd {
            o.push(("nd", J::B(true)));
        }
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", J::s("int")));
                o.push(("signed", J::B(t.is_signed())));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Array(e, _) | ty::Slice(e) => {
                let a = self.ty(*e, env);
                o.push(("k", J::s(if t.is_slice() { "slice" } else { "array" })));
                o.push(("e", J::I(a as i128)));
            }
            ty::RawPtr(e, m) => {
                let a = self.ty(*e, env);
                o.push(("k", J::s("ptr")));
                o.push(("e", J::I(a as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                let a = self.ty(*e, env);
                o.push(("k", J::s("ref")));
                o.push(("e", J::I(a as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                let c = self.callee(*d, a.no_bound_vars().expect("bound"), env);
                o.push(("k", J::s("fndef")));
                o.push(("c", J::I(c as i128)));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", J::S(self.dpath(p))));
                }
            }
            ty::Closure(d, a) => {
                let c = a.as_closure();
                let ups: Vec<J> = c.upvar_tys().iter().map(|u| J::I(self.ty(u, env) as i128)).collect();
                let inst = Instance::new_raw(*d, a);
                let k = self.body(inst, env);
                o.push(("k", J::s("closure")));
                o.push(("body", J::I(k as i128)));
                o.push(("path", J::S(self.vpath(*d))));
                o.push(("local", J::B(d.is_local())));
                o.push(("ck", J::S(format!("{:?}", c.kind()))));
                o.push(("ups", J::A(ups)));
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|u| J::I(self.ty(u, env) as i128)).collect();
                o.push(("k", J::s("tuple")));
                o.push(("fs", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::S(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Adt(def, args) => {
                let did = def.did();
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(self.dpath(did))));
                if did.is_local() {
                    o.push(("local", J::B(true)));
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                o.push(("kind", J::s(kind)));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                let av: Vec<J> = args.types().map(|u| J::I(self.ty(u, env) as i128)).collect();
                o.push(("args", J::A(av)));
                let kr = tcx.crate_name(did.krate);
                let std = ["core", "alloc"].contains(&kr.as_str());
                if did.is_local() || def.is_enum() || std {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        let vp = self.vpath(did);
                        if did.is_local() || def.is_enum() || ["core::iter", "core::ops", "core::option", "core::result", "core::cmp", "core::pin"].iter().any(|x| vp.starts_with(x)) {
                            for f in v.fields.iter() {
                                let ft = f.ty(tcx, args);
                                let ft = tcx.try_normalize_erasing_regions(te, ft).unwrap_or(f.ty(tcx, args).skip_norm_wip());
                                let fi = self.ty(ft, env);
                                fs.push(J::A(vec![J::S(f.name.to_string()), J::I(fi as i128)]));
                            }
                        }
                        let mut vo = vec![("n", J::S(v.name.to_string())), ("fs", J::A(fs))];
                        if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            vo.push(("d", J::U(d.val)));
                        }
                        vs.push(J::O(vo));
                    }
                    o.push(("vs", J::A(vs)));
                }
                if let Some(dest) = tcx.adt_destructor(did) {
                    if did.is_local() {
                        let k = self.body(Instance::new_raw(dest.did, args), env);
                        o.push(("drop", J::I(k as i128)));
                    } else {
                        o.push(("xdrop", J::B(true)));
                    }
                }
            }
            _ => o.push(("k", J::s("other"))),
        }
        // iterator protocol of this type, for consumers that are not analysed through their own MIR
        let small = t.walk().take(40).count() < 40 && match t.kind() {
            ty::Ref(_, e, _) => !e.is_ref(),
            _ => true,
        };
        if small && !matches!(t.kind(), ty::Alias(..) | ty::FnDef(..) | ty::Dynamic(..)) && !t.has_escaping_bound_vars() && t.is_sized(tcx, te) {
            if let Some(tr) = tcx.get_diagnostic_item(Symbol::intern("Iterator")) {
                let imp = {
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                    infcx.type_implements_trait(tr, [ty::GenericArg::from(t)], pe).must_apply_modulo_regions()
                };
                if imp {
                    let args = tcx.mk_args(&[t.into()]);
                    let nx = tcx.associated_items(tr).filter_by_name_unhygienic(Symbol::intern("next")).next().unwrap().def_id;
                    let it = tcx.associated_items(tr).filter_by_name_unhygienic(Symbol::intern("Item")).next().unwrap().def_id;
                    let c = self.callee(nx, args, env);
                    o.push(("next", J::I(c as i128)));
                    let ity = Ty::new_projection(tcx, ty::IsRigid::No, it, args);
                    if let Ok(ity) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(ity)) {
                        let ii = self.ty(ity, env);
                        o.push(("item", J::I(ii as i128)));
                    }
                } else if let Some(ii) = tcx.get_diagnostic_item(Symbol::intern("IntoIterator")) {
                    let imp = {
                        let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                        infcx.type_implements_trait(ii, [ty::GenericArg::from(t)], pe).must_apply_modulo_regions()
                    };
                    if imp {
                        let args = tcx.mk_args(&[t.into()]);
                        let m = tcx.associated_items(ii).filter_by_name_unhygienic(Symbol::intern("into_iter")).next().unwrap().def_id;
                        let it = tcx.associated_items(ii).filter_by_name_unhygienic(Symbol::intern("IntoIter")).next().unwrap().def_id;
                        let c = self.callee(m, args, env);
                        o.push(("into_iter", J::I(c as i128)));
                        let ity = Ty::new_projection(tcx, ty::IsRigid::No, it, args);
                        if let Ok(ity) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(ity)) {
                            let ix = self.ty(ity, env);
                            o.push(("iter_ty", J::I(ix as i128)));
                        }
                    }
                }
            }
        }
        self.types[id] = J::O(o);
        id
    }

    fn want_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        let k = self.tcx.crate_name(d.krate);
        if !["core", "alloc", "std"].contains(&k.as_str()) {
            return false;
        }
        inlinable(&self.vpath(d)) && self.tcx.is_mir_available(d)
    }

    fn body(&mut self, i: Instance<'tcx>, env: usize) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(i.args);
        let i = Instance { def: i.def, args };
        let ke = if i.args.has_param() || i.args.has_aliases() { env } else { 0 };
        if let Some(k) = self.body_ids.get(&(i, ke)) {
            return *k;
        }
        let id = self.bodies.len();
        self.bodies.push(J::Null);
        self.body_ids.insert((i, ke), id);
        self.queue.push_back((id, i, env));
        id
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: usize) -> usize {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let ke = if args.has_param() || args.has_aliases() { env } else { 0 };
        if let Some(i) = self.callee_ids.get(&(d, args, ke)) {
            return *i;
        }
        let id = self.callees.len();
        self.callees.push(J::Null);
        self.callee_ids.insert((d, args, ke), id);
        let mut o: Vec<(&str, J)> = vec![("path", J::S(self.dpath(d))), ("crate", J::S(tcx.crate_name(d.krate).to_string()))];
        o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        let av: Vec<J> = args.types().map(|u| J::I(self.ty(u, env) as i128)).collect();
        o.push(("args", J::A(av)));
        let full = tcx.def_path_str_with_args(d, args);
        o.push(("full", J::S(full)));
        let dk = tcx.def_kind(d);
        if let DefKind::Ctor(..) = dk {
            o.push(("kind", J::s("ctor")));
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_id(p).as_u32())
                }
                _ => (p, 0),
            };
            o.push(("adt", J::S(self.dpath(adt))));
            o.push(("variant", J::I(vi as i128)));
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig).output();
            let out = tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(out)).unwrap_or(out);
            let t = self.ty(out, env);
            o.push(("out", J::I(t as i128)));
            self.callees[id] = J::O(o);
            return id;
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.safety().is_unsafe() {
                o.push(("unsafe", J::B(true)));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.dpath(tr))));
            if tr.is_local() {
                o.push(("trait_local", J::B(true)));
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let st = tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(st)).unwrap_or(st);
            let s = self.ty(st, env);
            o.push(("impl_self", J::I(s as i128)));
        }
        let te = self.envs[env];
        match Instance::try_resolve(tcx, te, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                match inst.def {
                    InstanceKind::Item(_) => {
                        o.push(("kind", J::s("item")));
                        o.push(("rpath", J::S(self.dpath(rd))));
                        o.push(("rcrate", J::S(tcx.crate_name(rd.krate).to_string())));
                        if rd != d {
                            if let Some(im) = tcx.impl_of_assoc(rd) {
                                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                                o.push(("rself", J::S(format!("{}", st))));
                            }
                        }
                        if self.want_body(rd) {
                            let k = self.body(inst, env);
                            o.push(("body", J::I(k as i128)));
                        }
                        // Iterator consumers overridden for a leaf iterator: keep the trait's default body as well
                        if let Some(tr) = tcx.trait_of_assoc(d) {
                            let kn = tcx.crate_name(tr.krate);
                            if rd != d && kn.as_str() == "core" && self.vpath(tr).contains("iter::traits") && tcx.defaultness(d).has_value() && self.want_body(d) {
                                let k = self.body(Instance::new_raw(d, args), env);
                                o.push(("dflt", J::I(k as i128)));
                            }
                        }
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", J::s("virtual"))),
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => o.push(("kind", J::s("intrinsic"))),
                    InstanceKind::Shim(s) => {
                        o.push(("kind", J::s("shim")));
                        o.push(("shim", J::S(format!("{:?}", s).split('(').next().unwrap().to_string())));
                    }
                }
            }
            _ => {
                o.push(("kind", J::s("param")));
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    if tcx.crate_name(tr.krate).as_str() == "core" && self.vpath(tr).contains("iter::traits") && tcx.defaultness(d).has_value() && self.want_body(d) {
                        let k = self.body(Instance::new_raw(d, args), env);
                        o.push(("dflt", J::I(k as i128)));
                    } else if tr.is_local() && tcx.defaultness(d).has_value() {
                        o.push(("has_default", J::B(true)));
                    }
                }
            }
        }
        self.callees[id] = J::O(o);
        id
    }

    fn place(&mut self, p: &mir::Place<'tcx>, env: usize) -> J {
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t, env);
                    J::A(vec![J::s("f"), J::I(f.as_u32() as i128), J::I(ti as i128)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_u32() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, vi) => J::A(vec![J::s("v"), J::I(vi.as_u32() as i128)]),
                _ => J::A(vec![J::s("x")]),
            });
        }
        J::A(v)
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        match s {
            Scalar::Int(i) => {
                let v = i.to_bits(i.size());
                if t.is_signed() {
                    J::O(vec![("int", J::I(i.size().sign_extend(v) as i128))])
                } else {
                    J::O(vec![("int", J::U(v))])
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => J::O(vec![("static", J::S(self.dpath(d)))]),
                    GlobalAlloc::Function { instance } => {
                        let c = self.callee(instance.def_id(), instance.args, env);
                        J::O(vec![("fnref", J::I(c as i128))])
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let n = a.len();
                        let off = off.bytes() as usize;
                        let isb = match t.kind() {
                            ty::Ref(_, e, _) => match e.kind() {
                                ty::Array(b, _) => b.is_integral(),
                                _ => e.is_integral(),
                            },
                            _ => false,
                        };
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..n.min(off + 256)).to_vec();
                        let is = if isb { "bytes" } else { "mem" };
                        // a constant that leads to a function
                        if let ty::Ref(_, e, _) = t.kind() {
                            if e.is_fn() || e.is_fn_ptr() {
                                let q = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() as usize == off).map(|(_, q)| *q);
                                if let Some(q) = q {
                                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(q.alloc_id()) {
                                        let c = self.callee(instance.def_id(), instance.args, env);
                                        return J::O(vec![("reffn", J::I(c as i128))]);
                                    }
                                }
                            }
                        }
                        J::O(vec![(is, J::S(b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))])
                    }
                    _ => J::O(vec![("ptr", J::s("?"))]),
                }
            }
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, inst: Instance<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t, env);
        let te = self.envs[env];
        let mut o = vec![("t", J::I(ti as i128))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let i = Instance::new_raw(u.def, u.args);
                let k = self.promoted(i, env, p.as_u32());
                o.push(("promoted", J::I(k as i128)));
                return J::O(o);
            }
            o.push(("item", J::S(self.dpath(u.def))));
        }
        let _ = inst;
        if let ty::FnDef(..) = t.kind() {
            o.push(("fn", J::B(true)));
            return J::O(o);
        }
        let skip = match c.const_ {
            mir::Const::Unevaluated(u, _) => u.args.has_param() || tcx.trait_of_assoc(u.def).is_some() && u.args.has_param(),
            _ => c.const_.has_param(),
        };
        if !skip {
            if let Ok(v) = c.const_.eval(tcx, te, c.span) {
                match v {
                    mir::ConstValue::Scalar(s) => {
                        let x = self.scalar(s, t, env);
                        o.push(("v", x));
                    }
                    mir::ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                    mir::ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            match std::str::from_utf8(b) {
                                Ok(s) => o.push(("str", J::S(s.to_string()))),
                                _ => o.push(("bytes", J::S(b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))),
                            }
                        }
                    }
                    mir::ConstValue::Indirect { .. } => {
                        o.push(("indirect", J::S(format!("{}", c.const_))));
                        if t.is_enum() {
                            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                                if let (Some(vi), true) = (d.variant, d.fields.iter().all(|(_, t)| t.is_unit())) {
                                    o.push(("variant", J::I(vi.as_u32() as i128)));
                                    o.push(("units", J::I(d.fields.len() as i128)));
                                }
                            }
                        }
                    }
                }
            }
        }
        if o.len() == 1 {
            o.push(("text", J::S(format!("{}", c.const_))));
        }
        J::O(o)
    }

    fn promoted(&mut self, i: Instance<'tcx>, env: usize, p: u32) -> usize {
        let tcx = self.tcx;
        let ke = if i.args.has_param() { env } else { 0 };
        if let Some(k) = self.promoted_ids.get(&(i, ke, p)) {
            return *k;
        }
        let id = self.bodies.len();
        self.bodies.push(J::Null);
        self.promoted_ids.insert((i, ke, p), id);
        let b = &tcx.promoted_mir(i.def_id())[mir::Promoted::from_u32(p)];
        let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.envs[env], ty::EarlyBinder::bind(tcx, b.clone()));
        let j = self.mir(&b, i, env, "promoted");
        self.bodies[id] = j;
        id
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, inst: Instance<'tcx>, env: usize) -> J {
        match op {
            mir::Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p, env)]),
            mir::Operand::Move(p) => J::A(vec![J::s("m"), self.place(p, env)]),
            mir::Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(c, inst, env)]),
            mir::Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, inst: Instance<'tcx>, env: usize) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![J::s("use"), self.operand(o, inst, env)]),
            Repeat(o, _) => J::A(vec![J::s("rep"), self.operand(o, inst, env)]),
            Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), J::B(m), self.place(p, env)])
            }
            ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(self.dpath(*d))]),
            RawPtr(_, p) => J::A(vec![J::s("raw"), self.place(p, env)]),
            Cast(k, o, t) => {
                let kk = match k {
                    mir::CastKind::PointerCoercion(pc, _) => format!("{:?}", pc),
                    k => format!("{:?}", k),
                };
                let t = self.ty(*t, env);
                J::A(vec![J::s("cast"), J::S(kk), self.operand(o, inst, env), J::I(t as i128)])
            }
            BinaryOp(b, ab) => J::A(vec![J::s("bin"), J::S(format!("{:?}", b)), self.operand(&ab.0, inst, env), self.operand(&ab.1, inst, env)]),
            UnaryOp(u, a) => J::A(vec![J::s("un"), J::S(format!("{:?}", u)), self.operand(a, inst, env)]),
            Discriminant(p) => J::A(vec![J::s("discr"), self.place(p, env)]),
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, inst, env)).collect();
                let h = match &**k {
                    mir::AggregateKind::Array(_) => vec![J::s("array")],
                    mir::AggregateKind::Tuple => vec![J::s("tuple")],
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), a);
                        let t = self.tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        let t = self.ty(t, env);
                        vec![J::s("adt"), J::I(t as i128), J::I(v.as_u32() as i128), match f { Some(f) => J::I(f.as_u32() as i128), None => J::Null }]
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(self.tcx, *d, a), env);
                        vec![J::s("closure"), J::I(t as i128)]
                    }
                    mir::AggregateKind::RawPtr(..) => vec![J::s("rawptr")],
                    _ => vec![J::s("other")],
                };
                J::A(vec![J::s("agg"), J::A(h), J::A(v)])
            }
            CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p, env)])]),
            Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::B(m.is_mut()), self.place(p, env)]),
            WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(o, inst, env)]),
        }
    }

    fn mir(&mut self, b: &mir::Body<'tcx>, inst: Instance<'tcx>, env: usize, kind: &str) -> J {
        use mir::TerminatorKind::*;
        let tcx = self.tcx;
        let d = inst.def_id();
        let locals: Vec<J> = b.local_decls.iter().map(|l| J::I(self.ty(l.ty, env) as i128)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![J::S(v.name.to_string()), self.place(p, env)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let l = self.span(s.source_info.span);
                        let rv = match r {
                            mir::Rvalue::Discriminant(q) => {
                                let t = q.ty(&b.local_decls, tcx).ty;
                                let t = self.ty(t, env);
                                J::A(vec![J::s("discr"), self.place(q, env), J::I(t as i128)])
                            }
                            r => self.rvalue(r, inst, env),
                        };
                        ss.push(J::A(vec![J::s("="), self.place(p, env), rv, l]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(J::A(vec![J::s("sd"), self.place(place, env), J::I(variant_index.as_u32() as i128)]));
                    }
                    mir::StatementKind::StorageDead(l) => ss.push(J::A(vec![J::s("dead"), J::I(l.as_u32() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbi = |b: mir::BasicBlock| J::I(b.as_u32() as i128);
            let tj = match &t.kind {
                Goto { target, .. } => J::A(vec![J::s("goto"), bbi(*target)]),
                SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(ty, env);
                    let vs: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::U(v), bbi(t)])).collect();
                    J::A(vec![J::s("switch"), self.operand(discr, inst, env), J::A(vs), bbi(targets.otherwise()), J::I(ti as i128), sp])
                }
                Return => J::A(vec![J::s("ret")]),
                Unreachable => J::A(vec![J::s("unreachable"), sp]),
                UnwindResume | UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    let ti = self.ty(ty, env);
                    J::A(vec![J::s("drop"), self.place(place, env), bbi(*target), J::I(ti as i128), sp])
                }
                Call { func, args, destination, target, fn_span, .. } => {
                    let fty = func.ty(&b.local_decls, tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => J::A(vec![J::s("fn"), J::I(self.callee(*d, a.no_bound_vars().expect("bound"), env) as i128)]),
                        _ => J::A(vec![J::s("ptr"), self.operand(func, inst, env)]),
                    };
                    let av: Vec<J> = args.iter().map(|a| self.operand(&a.node, inst, env)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, tcx); J::I(self.ty(t, env) as i128) }).collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dti = self.ty(dt, env);
                    let sp2 = self.span(*fn_span);
                    J::A(vec![J::s("call"), f, J::A(av), self.place(destination, env), match target { Some(t) => bbi(*t), None => J::Null }, J::I(dti as i128), J::A(at), sp2])
                }
                Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, inst, env), self.operand(index, inst, env)]),
                        mir::AssertKind::Overflow(op, x, y) => (format!("overflow:{:?}", op), vec![self.operand(x, inst, env), self.operand(y, inst, env)]),
                        mir::AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x, inst, env)]),
                        mir::AssertKind::DivisionByZero(x) | mir::AssertKind::RemainderByZero(x) => ("divzero".into(), vec![self.operand(x, inst, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![J::s("assert"), self.operand(cond, inst, env), J::B(*expected), J::S(k), J::A(ops), bbi(*target), sp])
                }
                TailCall { .. } | Yield { .. } | CoroutineDrop | FalseEdge { .. } | FalseUnwind { .. } | InlineAsm { .. } => J::A(vec![J::s("unsupported")]),
            };
            let mut o = vec![("s", J::A(ss)), ("t", tj)];
            if bb.is_cleanup {
                o.push(("c", J::B(true)));
            }
            if let Some(mir::UnwindAction::Cleanup(u)) = t.unwind() {
                o.push(("u", bbi(*u)));
            }
            blocks.push(J::O(o));
        }
        let sp = self.span(tcx.def_span(d));
        let mut o = vec![
            ("path", J::S(self.dpath(d))),
            ("vpath", J::S(self.vpath(d))),
            ("full", J::S(if tcx.is_closure_like(d) { self.dpath(d) } else { tcx.def_path_str_with_args(d, inst.args) })),
            ("kind", J::s(kind)),
            ("local", J::B(d.is_local())),
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", sp),
        ];
        if let Some(sl) = b.spread_arg {
            o.push(("spread", J::I(sl.as_u32() as i128)));
        }
        J::O(o)
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        // env 0: empty
        self.envs.push(TypingEnv::new(ty::ParamEnv::empty(), ty::TypingMode::PostAnalysis));
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let mut env_ids: HashMap<ty::ParamEnv<'tcx>, usize> = HashMap::new();
        let ev = tcx.effective_visibilities(());
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let te = TypingEnv::post_analysis(tcx, d);
            let envs = &mut self.envs;
            let env = *env_ids.entry(te.param_env).or_insert_with(|| {
                envs.push(te);
                envs.len() - 1
            });
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let key = self.body(Instance::new_raw(d, args), env);
            let mut o = vec![("path", J::S(self.dpath(d))), ("vpath", J::S(self.vpath(d))), ("name", J::S(tcx.item_name(d).to_string())), ("body", J::I(key as i128))];
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("reach", J::B(ev.is_reachable(k))));
            o.push(("exported", J::B(ev.is_exported(k))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::I(self.ty(*t, env) as i128)).collect();
            o.push(("ins", J::A(ins)));
            let out = sig.output();
            let out = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(out)).unwrap_or(out);
            o.push(("out", J::I(self.ty(out, env) as i128)));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", J::I(self.ty(st, env) as i128)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::S(self.dpath(tr.def_id))));
                    o.push(("trait_ref", J::S(format!("{}", tr))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("in_trait", J::S(self.dpath(tr))));
            }
            o.push(("span", self.span(tcx.def_span(d))));
            fns.push(J::O(o));
        }
        while let Some((id, inst, env)) = self.queue.pop_front() {
            let d = inst.def_id();
            if !tcx.is_mir_available(d) {
                self.bodies[id] = J::Null;
                continue;
            }
            let b = tcx.optimized_mir(d);
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.envs[env], ty::EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => {
                    let kind = if tcx.is_closure_like(d) { "closure" } else { "fn" };
                    let j = self.mir(&b, inst, env, kind);
                    self.bodies[id] = j;
                }
                Err(_) => self.bodies[id] = J::Null,
            }
        }
        // items
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let dk = tcx.def_kind(d);
            let mut o = vec![("path", J::S(self.dpath(d))), ("kind", J::S(format!("{:?}", dk)))];
            match dk {
                DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::TyAlias | DefKind::Mod => {}
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("self", J::S(format!("{}", st))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        o.push(("trait", J::S(format!("{}", tr.instantiate_identity().skip_norm_wip()))));
                        let h = tcx.impl_trait_header(d);
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("negative", J::B(h.polarity == ty::ImplPolarity::Negative)));
                    }
                }
                _ => continue,
            }
            if let DefKind::Struct | DefKind::Enum = dk {
                let te = TypingEnv::post_analysis(tcx, d);
                let envs = &mut self.envs;
                let env = *env_ids.entry(te.param_env).or_insert_with(|| {
                    envs.push(te);
                    envs.len() - 1
                });
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t, env);
                o.push(("ty", J::I(ti as i128)));
                let mut fv = vec![];
                for v in tcx.adt_def(d).variants().iter() {
                    for f in v.fields.iter() {
                        fv.push(J::A(vec![J::S(f.name.to_string()), J::S(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), J::B(f.vis.is_public())]));
                    }
                }
                o.push(("fields", J::A(fv)));
            }
            if let DefKind::Static { .. } | DefKind::Const { .. } = dk {
                let te = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("tys", J::S(format!("{}", t))));
                if !t.has_param() {
                    o.push(("freeze", J::B(t.is_freeze(tcx, te))));
                }
            }
            if !matches!(dk, DefKind::Impl { .. }) {
                o.push(("exported", J::B(ev.is_exported(id))));
            }
            let sp = self.span(tcx.def_span(d));
            o.push(("span", sp));
            items.push(J::O(o));
        }
        // bodies queued by items
        while let Some((id, inst, env)) = self.queue.pop_front() {
            let d = inst.def_id();
            if tcx.is_mir_available(d) {
                let b = tcx.optimized_mir(d);
                if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.envs[env], ty::EarlyBinder::bind(tcx, b.clone())) {
                    let kind = if tcx.is_closure_like(d) { "closure" } else { "fn" };
                    let j = self.mir(&b, inst, env, kind);
                    self.bodies[id] = j;
                }
            }
        }
        J::O(vec![
            ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("files", J::A(self.files.iter().map(|f| J::S(f.clone())).collect())),
            ("fns", J::A(fns)),
            ("items", J::A(items)),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("callees", J::A(std::mem::take(&mut self.callees))),
            ("bodies", J::A(std::mem::take(&mut self.bodies))),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc itself
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned()).unwrap_or_default();
    let want = std::env::var("RFL_CRATE").unwrap_or_else(|_| "rustful".into());
    let out = std::env::var("RFL_OUT").ok();
    if let (true, Some(out)) = (name == want, out) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
