// Compiler driver: dumps the resolved program (types, consts, MIR) of one crate as JSON.
// Run through RUSTC_WORKSPACE_WRAPPER. Environment: VP_CRATE (crate name), VP_OUT (output file).
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J { Null, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => { let _ = write!(o, "{b}"); }
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{k}\":"); x.w(o); } o.push('}'); }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: impl TryInto<i128>) -> J { J::I(x.try_into().ok().unwrap_or(-1)) }

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> { did: DefId, args: GenericArgsRef<'tcx> }

struct Cx<'tcx> {
    iter_done: std::collections::HashSet<usize>,
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<J>,
    insts: HashMap<(Instance<'tcx>, DefId), usize>,
    queue: Vec<(usize, Instance<'tcx>, DefId)>,
    inst_json: Vec<J>,
}

fn path_str(tcx: TyCtxt<'_>, did: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(did)))
}

const BODY_CRATES: &[&str] = &["nom"];

impl<'tcx> Cx<'tcx> {
    fn env(&self, root: DefId) -> TypingEnv<'tcx> { TypingEnv::post_analysis(self.tcx, root) }

    fn norm<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, root: DefId, t: T) -> T {
        let t2 = t.clone();
        match self.tcx.try_normalize_erasing_regions(self.env(root), ty::Unnormalized::new(t2)) { Ok(x) => x, Err(_) => t }
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() { return J::Null; }
        let loc = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn want_body(&self, did: DefId) -> bool {
        let tcx = self.tcx;
        if did.is_local() { return true; }
        let krate = tcx.crate_name(did.krate);
        if BODY_CRATES.contains(&krate.as_str()) { return true; }
        let p = path_str(tcx, did);
        match krate.as_str() {
            "core" => {
                for pre in ["core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::bool::", "core::array::", "core::tuple", "core::iter::", "core::slice::iter", "core::str::", "core::mem::take", "core::clone::", "core::default::", "core::borrow::", "core::char::"] {
                    if p.contains(pre) { return true; }
                }
                // trait impl paths print as <X as core::convert::..>
                false
            }
            _ => false,
        }
    }

    fn inst(&mut self, inst: Instance<'tcx>, root: DefId) -> usize {
        if let Some(&k) = self.insts.get(&(inst, root)) { return k; }
        let k = self.inst_json.len();
        self.insts.insert((inst, root), k);
        self.inst_json.push(J::Null);
        self.queue.push((k, inst, root));
        k
    }

    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> Option<Instance<'tcx>> {
        match Instance::try_resolve(self.tcx, self.env(root), did, args) { Ok(x) => x, Err(_) => None }
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId, root: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        if t.has_escaping_bound_vars() { return false; }
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(self.env(root));
        infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
    }

    // how values of this type are iterated: attached to the type entry
    fn iter_info(&mut self, t: Ty<'tcx>, root: DefId) {
        let t = self.norm(root, t);
        let k = self.ty(t, root);
        if !self.iter_done.insert(k) { return; }
        if let ty::FnDef(..) | ty::Closure(..) | ty::Never | ty::Str | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Param(_) = t.kind() { return; }
        let tcx = self.tcx;
        let Some(nf) = tcx.lang_items().next_fn() else { return };
        let Some(inf) = tcx.lang_items().into_iter_fn() else { return };
        let itr = tcx.parent(nf);
        let intr = tcx.parent(inf);
        let assoc = |tr: DefId, n: &str| tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().map(|x| x.to_string()).as_deref() == Some(n)).map(|a| a.def_id);
        let args = tcx.mk_args(&[t.into()]);
        let mut extra: Vec<(&'static str, J)> = vec![];
        if self.implements(t, itr, root) {
            if let Some(inst) = self.resolve(nf, args, root) {
                let n = self.inst(inst, root);
                extra.push(("next", i(n as i128)));
                let out = tcx.fn_sig(nf).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
                let o = self.ty(out, root);
                extra.push(("next_out", i(o as i128)));
                if let Some(it) = assoc(itr, "Item") {
                    let p = Ty::new_projection(tcx, ty::IsRigid::No, it, args);
                    let p = self.norm(root, p);
                    let pk = self.ty(p, root);
                    extra.push(("item", i(pk as i128)));
                    self.iter_info(p, root);
                }
            }
        }
        if self.implements(t, intr, root) {
            if let (Some(inst), Some(it)) = (self.resolve(inf, args, root), assoc(intr, "IntoIter")) {
                let n = self.inst(inst, root);
                extra.push(("into_iter", i(n as i128)));
                let p = Ty::new_projection(tcx, ty::IsRigid::No, it, args);
                let p = self.norm(root, p);
                let pk = self.ty(p, root);
                extra.push(("into_ty", i(pk as i128)));
                self.iter_info(p, root);
            }
        }
        if let J::O(o) = &mut self.ty_json[k] { o.extend(extra); }
    }

    fn ty(&mut self, t: Ty<'tcx>, root: DefId) -> usize {
        let t = self.norm(root, t);
        if let Some(&k) = self.tys.get(&t) { return k; }
        let k = self.ty_json.len();
        self.tys.insert(t, k);
        self.ty_json.push(J::Null);
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("s", s(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => { o.push(("k", s("int"))); o.push(("bits", i(x.bit_width().unwrap_or(64)))); }
            ty::Uint(x) => { o.push(("k", s("uint"))); o.push(("bits", i(x.bit_width().unwrap_or(64)))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(e, root);
                o.push(("elem", i(e as i128)));
                o.push(("len", match n.try_to_target_usize(tcx) { Some(n) => i(n), None => J::Null }));
            }
            ty::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e, root); o.push(("elem", i(e as i128))); }
            ty::RawPtr(e, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e, root); o.push(("elem", i(e as i128))); }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e, root); o.push(("elem", i(e as i128))); }
            ty::Tuple(es) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = es.iter().map(|e| i(self.ty(e, root) as i128)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path_str(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let targs: Vec<J> = args.types().map(|e| i(self.ty(e, root) as i128)).collect();
                o.push(("args", J::A(targs)));
                let krate = tcx.crate_name(def.did().krate);
                let p = path_str(tcx, def.did());
                let expand = def.did().is_local() || def.is_enum() || krate.as_str() == "nom" || krate.as_str() == "windows" || p.contains("ops::range") || p.contains("ops::Range")
                    || p.contains("core::iter") || p.contains("num::wrapping") || p.contains("cmp::Reverse") || p.contains("std::time::SystemTimeError");
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = ft.skip_norm_wip();
                            let ft = self.ty(ft, root);
                            fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", i(ft as i128)), ("vis", s(format!("{:?}", tcx.visibility(f.did))))]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", i(d)), ("f", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                o.push(("path", s(path_str(tcx, did))));
                let targs: Vec<J> = args.types().map(|e| i(self.ty(e, root) as i128)).collect();
                o.push(("args", J::A(targs)));
                if let Some(inst) = self.resolve(did, args, root) { let k = self.inst(inst, root); o.push(("inst", i(k as i128))); }
                // tuple-struct / variant constructors
                if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
                    let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
                    let out = sig.output().skip_binder();
                    let ot = self.ty(out, root);
                    o.push(("ctor_ty", i(ot as i128)));
                    let vid = match of { rustc_hir::def::CtorOf::Variant => { let v = tcx.parent(did); if let ty::Adt(d, _) = out.kind() { d.variant_index_with_id(v).as_u32() } else { 0 } } _ => 0 };
                    o.push(("ctor_variant", i(vid)));
                }
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path_str(tcx, did))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|e| i(self.ty(e, root) as i128)).collect();
                o.push(("upvars", J::A(ups)));
                let inst = Instance::new_raw(did, args);
                let k = self.inst(inst, root);
                o.push(("inst", i(k as i128)));
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        if let Ok(l) = tcx.layout_of(self.env(root).as_query_input(t)) { o.push(("size", i(l.size.bytes()))); }
        self.ty_json[k] = J::O(o);
        k
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let inner = m.inner();
                if off + len > inner.len() as u64 { return None; }
                Some(inner.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }

    fn mutable_static(&self, did: DefId) -> bool {
        let tcx = self.tcx;
        if tcx.is_mutable_static(did) || tcx.is_thread_local_static(did) { return true; }
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        !t.is_freeze(tcx, TypingEnv::fully_monomorphized())
    }

    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let t = self.norm(root, t);
        let tj = self.ty(t, root) as i128;
        let opaque = |k: &str| J::O(vec![("k", s("opaque")), ("t", i(tj)), ("d", s(k))]);
        if depth > 6 { return opaque("deep"); }
        if let ty::Pat(base, _) = t.kind() { return self.cv(v, *base, root, depth + 1); }
        let mut v = v;
        if let ConstValue::Scalar(Scalar::Ptr(p, sz)) = v {
            if let Some(GlobalAlloc::Static(did)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                if self.mutable_static(did) || tcx.is_foreign_item(did) { return J::O(vec![("k", s("opaque")), ("t", i(tj)), ("d", s("static")), ("static", s(path_str(tcx, did)))]); }
                // an immutable static is a constant: read it through a copy of its initial value
                if let Ok(a) = tcx.eval_static_initializer(did) {
                    let id = tcx.reserve_and_set_memory_alloc(a);
                    let (_, off) = p.prov_and_relative_offset();
                    v = ConstValue::Scalar(Scalar::from_pointer(rustc_middle::mir::interpret::Pointer::new(id.into(), off), &tcx));
                    let _ = sz;
                }
            }
        }
        match (t.kind(), v) {
            (ty::FnDef(..) | ty::Closure(..), _) => J::O(vec![("k", s("fn")), ("t", i(tj))]),
            (ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_), ConstValue::Scalar(Scalar::Int(x))) => {
                let val: i128 = if let ty::Int(_) = t.kind() { x.to_int(x.size()) } else { x.to_uint(x.size()) as i128 };
                J::O(vec![("k", s("int")), ("v", i(val)), ("t", i(tj))])
            }
            (ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_), ConstValue::Indirect { alloc_id, offset }) => {
                let sz = tcx.layout_of(self.env(root).as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(0);
                match self.bytes_of(alloc_id, offset.bytes(), sz) {
                    Some(b) => { let mut x: u128 = 0; for (k, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * k); }
                        if matches!(t.kind(), ty::Int(_)) && sz < 16 && (x >> (8 * sz - 1)) & 1 == 1 { x |= u128::MAX << (8 * sz); }
                        J::O(vec![("k", s("int")), ("v", i(x as i128)), ("t", i(tj))]) }
                    None => opaque("indirect"),
                }
            }
            (ty::Ref(_, inner, _) | ty::RawPtr(inner, _), v) => {
                let inner = *inner;
                // (alloc, offset, meta)
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (prov, off) = p.prov_and_relative_offset(); Some((prov.alloc_id(), off.bytes(), None)) }
                    ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, Some(meta))),
                    ConstValue::Indirect { alloc_id, offset } => {
                        // a reference stored in memory
                        match tcx.try_get_global_alloc(alloc_id) {
                            Some(GlobalAlloc::Memory(m)) => {
                                let m = m.inner();
                                let prov = m.provenance().ptrs().iter().find(|(o, _)| *o == offset).map(|x| x.1);
                                let rd = |o: u64| -> Option<u64> { let b = self.bytes_of(alloc_id, o, 8)?; Some(u64::from_le_bytes(b.try_into().ok()?)) };
                                match (prov, rd(offset.bytes())) {
                                    (Some(p), Some(o)) => {
                                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) { rd(offset.bytes() + 8) } else { None };
                                        Some((p.alloc_id(), o, meta))
                                    }
                                    _ => None,
                                }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let Some((aid, off, meta)) = ptr else { return opaque("ref") };
                match inner.kind() {
                    ty::Str => match meta.and_then(|m| self.bytes_of(aid, off, m)) {
                        Some(b) => J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(&b).to_string())), ("t", i(tj))]),
                        None => opaque("str"),
                    },
                    ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => match meta.and_then(|m| self.bytes_of(aid, off, m)) {
                        Some(b) => J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| i(*x)).collect())), ("t", i(tj))]),
                        None => opaque("bytes"),
                    },
                    ty::Slice(e) => {
                        let Some(n) = meta else { return opaque("slice") };
                        let sz = tcx.layout_of(self.env(root).as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                        let mut v = vec![];
                        for k in 0..n.min(256) {
                            let x = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + k * sz) };
                            v.push(self.cv(x, *e, root, depth + 1));
                        }
                        J::O(vec![("k", s("refslice")), ("v", J::A(v)), ("t", i(tj))])
                    }
                    ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => match n.try_to_target_usize(tcx).and_then(|m| self.bytes_of(aid, off, m)) {
                        Some(b) => J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| i(*x)).collect())), ("t", i(tj))]),
                        None => opaque("bytes"),
                    },
                    _ => {
                        if inner.has_param() || matches!(tcx.try_get_global_alloc(aid), Some(GlobalAlloc::Function { .. } | GlobalAlloc::VTable(..) | GlobalAlloc::Static(_)) | None) { return opaque("refother"); }
                        let x = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) };
                        let v = self.cv(x, inner, root, depth + 1);
                        J::O(vec![("k", s("refto")), ("v", v), ("t", i(tj))])
                    }
                }
            }
            (ty::Adt(..) | ty::Tuple(..) | ty::Array(..), v) => {
                if t.has_param() || t.has_aliases() { return opaque("param"); }
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return opaque("union"); } }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fields: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cv(*fv, *ft, root, depth + 1)).collect();
                        J::O(vec![("k", s("agg")), ("t", i(tj)), ("variant", match d.variant { Some(x) => i(x.as_u32()), None => i(0) }), ("f", J::A(fields))])
                    }
                    None => opaque("destructure"),
                }
            }
            _ => opaque("const"),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = self.norm(root, c.ty());
        let tj = self.ty(t, root) as i128;
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() { return J::O(vec![("k", s("fn")), ("t", i(tj))]); }
        let name = match c { mir::Const::Unevaluated(u, _) => Some(path_str(tcx, u.def)), _ => None };
        let promoted = match c { mir::Const::Unevaluated(u, _) => u.promoted.map(|p| p.as_u32()), _ => None };
        let cc = self.norm(root, *c);
        let r = if cc.has_param() { None } else { cc.eval(tcx, self.env(root), rustc_span::DUMMY_SP).ok() };
        if r.is_none() {
            // a promoted constant of a generic function: embed the promoted body
            if let mir::Const::Unevaluated(u, _) = c {
                if let Some(p) = u.promoted {
                    let pb = tcx.promoted_mir(u.def)[p].clone();
                    let inst = Instance::new_raw(u.def, u.args);
                    let eb = ty::EarlyBinder::bind(tcx, pb);
                    let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(root), eb.clone()) { Ok(b) => b, Err(_) => eb.instantiate(tcx, u.args).skip_norm_wip() };
                    let bj = self.body(&b, root);
                    return J::O(vec![("k", s("promoted")), ("t", i(tj)), ("body", bj)]);
                }
            }
        }
        let mut v = match r { Some(v) => self.cv(v, t, root, 0), None => J::O(vec![("k", s("opaque")), ("t", i(tj)), ("d", s(format!("{:?}", c)))]) };
        if let (J::O(o), Some(n)) = (&mut v, name) { if promoted.is_none() { o.push(("name", s(n))); } }
        v
    }

    fn place(&mut self, p: &Place<'tcx>, root: DefId) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t, root); J::A(vec![s("f"), i(f.as_u32()), i(t as i128)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), i(offset), i(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), i(vi.as_u32())]),
                _ => J::A(vec![s("?"), s(format!("{:?}", e))]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p, root)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p, root)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, root)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtc"), s(format!("{:?}", r))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, root)]),
            Rvalue::Repeat(o, n) => { let n = self.norm(root, *n); J::A(vec![s("repeat"), self.operand(o, root), match n.try_to_target_usize(self.tcx) { Some(n) => i(n), None => J::Null }]) }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p, root)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p, root)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t, root); let kk = match k { CastKind::PointerCoercion(pc, _) => format!("{:?}", pc), k => format!("{:?}", k) }; J::A(vec![s("cast"), s(kk), self.operand(o, root), i(t as i128)]) }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(&b.0, root), self.operand(&b.1, root)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, root)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, root)]),
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<J> = ops.iter().map(|o| self.operand(o, root)).collect();
                match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t, root); J::A(vec![s("agg"), s("array"), i(t as i128), i(0), J::A(f)]) }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::Null, i(0), J::A(f)]),
                    AggregateKind::Adt(did, vi, args, _, active) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t, root);
                        J::A(vec![s("agg"), s("adt"), i(t as i128), i(vi.as_u32()), J::A(f)])
                    }
                    AggregateKind::Closure(did, args) => { let t = Ty::new_closure(self.tcx, (*did).try_into().unwrap(), args); let t = self.ty(t, root); J::A(vec![s("agg"), s("closure"), i(t as i128), i(0), J::A(f)]) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t, root); J::A(vec![s("agg"), s("rawptr"), i(t as i128), i(0), J::A(f)]) }
                    _ => J::A(vec![s("agg"), s("other"), J::Null, i(0), J::A(f)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, root)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p, root)])]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn callee(&mut self, t: Ty<'tcx>, root: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let t = self.norm(root, t);
        let mut o = vec![];
        match *t.kind() {
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                o.push(("path", s(path_str(tcx, did))));
                let targs: Vec<J> = args.types().map(|e| i(self.ty(e, root) as i128)).collect();
                o.push(("targs", J::A(targs)));
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let n = path_str(tcx, tr);
                    if n.contains("Iterator") || n.contains("collect::") { for e in args.types() { self.iter_info(e, root); } }
                }
                let cargs: Vec<J> = args.consts().map(|c| match c.try_to_target_usize(tcx) { Some(n) => i(n), None => J::Null }).collect();
                if !cargs.is_empty() { o.push(("cargs", J::A(cargs))); }
                let safety = tcx.fn_sig(did).skip_binder().safety();
                if !safety.is_safe() { o.push(("unsafe", J::B(true))); }
                if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("trait", s(path_str(tcx, tr)))); }
                if tcx.intrinsic(did).is_some() { o.push(("intrinsic", s(tcx.item_name(did).to_string()))); }
                if let Some(inst) = self.resolve(did, args, root) {
                    o.push(("rpath", s(path_str(tcx, inst.def_id()))));
                    let k = self.inst(inst, root);
                    o.push(("inst", i(k as i128)));
                }
            }
            _ => { let k = self.ty(t, root); o.push(("fnptr", i(k as i128))); }
        }
        o
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, root: DefId) -> J {
        let sp = self.span(t.source_info.span);
        let bb = |b: BasicBlock| i(b.as_u32());
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { o.push(("k", s("goto"))); o.push(("to", bb(*target))); }
            TerminatorKind::FalseEdge { real_target, .. } => { o.push(("k", s("goto"))); o.push(("to", bb(*real_target))); }
            TerminatorKind::FalseUnwind { real_target, .. } => { o.push(("k", s("goto"))); o.push(("to", bb(*real_target))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                let dt = discr.ty(&body.local_decls, self.tcx);
                let signed = if let ty::Int(x) = dt.kind() { x.bit_width().or(Some(64)) } else { None };
                o.push(("d", self.operand(discr, root)));
                let v: Vec<J> = targets.iter().map(|(v, b)| {
                    let vv = match signed { Some(w) => { let sh = 128 - w as u32; ((v as i128) << sh) >> sh } None => v as i128 };
                    J::A(vec![i(vv), bb(b)]) }).collect();
                o.push(("t", J::A(v)));
                o.push(("else", bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("unwind"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop"))); o.push(("p", self.place(place, root))); o.push(("to", bb(*target)));
                let pt = place.ty(&body.local_decls, self.tcx).ty; let k = self.ty(pt, root); o.push(("t", i(k as i128)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                let ft = func.ty(&body.local_decls, self.tcx);
                let c = self.callee(ft, root);
                o.push(("f", J::O(c)));
                if !matches!(func, Operand::Constant(_)) { o.push(("fop", self.operand(func, root))); }
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                o.push(("a", J::A(a)));
                let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); i(self.ty(t, root) as i128) }).collect();
                o.push(("at", J::A(at)));
                o.push(("dst", self.place(destination, root)));
                let dt = destination.ty(&body.local_decls, self.tcx).ty; let dt = self.ty(dt, root);
                o.push(("dt", i(dt as i128)));
                o.push(("to", match target { Some(b) => bb(*b), None => J::Null }));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("c", self.operand(cond, root)));
                o.push(("e", J::B(*expected)));
                let (m, ops) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len, root), self.operand(index, root)]),
                    AssertKind::Overflow(op, a, b) => (format!("overflow {:?}", op), vec![self.operand(a, root), self.operand(b, root)]),
                    AssertKind::OverflowNeg(_) => ("overflow neg".into(), vec![]),
                    AssertKind::DivisionByZero(_) => ("div by zero".into(), vec![]),
                    AssertKind::RemainderByZero(_) => ("rem by zero".into(), vec![]),
                    AssertKind::MisalignedPointerDereference { .. } => ("ub-check misaligned".into(), vec![]),
                    AssertKind::NullPointerDereference => ("ub-check null".into(), vec![]),
                    AssertKind::InvalidEnumConstruction(_) => ("ub-check enum".into(), vec![]),
                    other => ("ub-check other".into(), vec![]),
                };
                o.push(("m", s(m)));
                o.push(("ops", J::A(ops)));
                o.push(("to", bb(*target)));
            }
            other => { o.push(("k", s("other"))); o.push(("d", s(format!("{:?}", other)))); }
        }
        o.push(("sp", sp));
        J::O(o)
    }

    fn body(&mut self, body: &Body<'tcx>, root: DefId) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|d| i(self.ty(d.ty, root) as i128)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(J::A(vec![i(p.local.as_u32()), s(v.name.to_string())])); } }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            let mut dead = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::StorageDead(l) => dead.push(J::A(vec![i(st.len() as i128), i(l.as_u32())])),
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let sp = self.span(x.source_info.span);
                        let pl = self.place(p, root);
                        let rv = self.rvalue(r, root);
                        st.push(J::A(vec![pl, rv, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, root);
                        st.push(J::A(vec![pl, J::A(vec![s("setdiscr"), i(variant_index.as_u32())]), J::Null]));
                    }
                    StatementKind::Intrinsic(x) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**x { st.push(J::A(vec![J::Null, J::A(vec![s("copynonoverlapping")]), J::Null])); }
                    }
                    _ => {}
                }
            }
            let t = self.term(b.terminator(), body, root);
            blocks.push(J::O(vec![("s", J::A(st)), ("dead", J::A(dead)), ("t", t), ("cleanup", J::B(b.is_cleanup))]));
        }
        J::O(vec![("argc", i(body.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("spread", match body.spread_arg { Some(l) => i(l.as_u32()), None => J::Null }), ("blocks", J::A(blocks))])
    }

    fn dump_inst(&mut self, inst: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o = vec![("path", s(path_str(tcx, did))), ("crate", s(tcx.crate_name(did.krate).to_string())), ("local", J::B(did.is_local()))];
        o.push(("name", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tcx.def_path_str_with_args(did, inst.args))))));
        let targs: Vec<J> = inst.args.types().map(|e| i(self.ty(e, root) as i128)).collect();
        o.push(("targs", J::A(targs)));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(k) => {
                let d = format!("{:?}", k);
                let short = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                format!("shim:{}", short)
            }
        };
        let is_item = kind == "item";
        o.push(("kind", s(kind)));
        o.push(("span", self.span(tcx.def_span(did))));
        if is_item && self.want_body(did) && tcx.is_mir_available(did) && !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let b = tcx.optimized_mir(did);
            let eb = ty::EarlyBinder::bind(tcx, b.clone());
            let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(root), eb.clone()) { Ok(b) => Some(b), Err(_) => Some(eb.instantiate(tcx, inst.args).skip_norm_wip()) };
            if let Some(b) = b { let bj = self.body(&b, root); o.push(("body", bj)); }
        }
        J::O(o)
    }
}
struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("VP_CRATE").unwrap_or_default();
        let Ok(out) = std::env::var("VP_OUT") else { return rustc_driver_impl::Compilation::Continue };
        if krate != want { return rustc_driver_impl::Compilation::Continue; }
        let mut cx = Cx { iter_done: Default::default(), tcx, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), queue: vec![], inst_json: vec![] };
        let mut roots = vec![];
        let mut consts = vec![];
        let mut adts = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let did = k.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let inst = Instance::new_raw(did, args);
                    let n = cx.inst(inst, did);
                    let imp = tcx.impl_of_assoc(did).and_then(|im| tcx.impl_opt_trait_ref(im).map(|t| rustc_middle::ty::print::with_no_trimmed_paths!(t.instantiate_identity().skip_norm_wip().to_string())));
                    let selfty = tcx.impl_of_assoc(did).map(|im| tcx.type_of(im).instantiate_identity().skip_norm_wip());
                    let st = match selfty { Some(t) => i(cx.ty(t, did) as i128), None => J::Null };
                    let tr = tcx.impl_of_assoc(did).and_then(|im| tcx.impl_opt_trait_ref(im).map(|t| path_str(tcx, t.skip_binder().def_id)));
                    let derived = tcx.impl_of_assoc(did).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false);
                    let reach = tcx.effective_visibilities(()).is_reachable(k);
                    let unsafe_ = !tcx.fn_sig(did).skip_binder().safety().is_safe();
                    roots.push(J::O(vec![("path", s(path_str(tcx, did))), ("inst", i(n as i128)), ("implref", match imp { Some(x) => s(x), None => J::Null }), ("trait", match tr { Some(x) => s(x), None => J::Null }),
                        ("self", st), ("name", s(tcx.item_name(did).to_string())), ("vis", s(format!("{:?}", tcx.visibility(did)))), ("reachable", J::B(reach)), ("derived", J::B(derived)), ("unsafe", J::B(unsafe_)), ("span", cx.span(tcx.def_span(did)))]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if matches!(tcx.def_kind(did), DefKind::Static { .. }) {
                        consts.push(J::O(vec![("path", s(path_str(tcx, did))), ("static", J::B(true)), ("mut", J::B(cx.mutable_static(did))), ("v", J::Null), ("span", cx.span(tcx.def_span(did)))]));
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
                    let v = match tcx.const_eval_poly(did) { Ok(v) => cx.cv(v, t, did, 0), Err(_) => J::Null };
                    consts.push(J::O(vec![("path", s(path_str(tcx, did))), ("static", J::B(false)), ("v", v), ("span", cx.span(tcx.def_span(did)))]));
                }
                _ => {}
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(id) {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let k = cx.ty(t, id.to_def_id());
                adts.push(i(k as i128));
            }
        }
        while let Some((k, inst, root)) = cx.queue.pop() {
            let j = cx.dump_inst(inst, root);
            cx.inst_json[k] = j;
        }
        let top = J::O(vec![("crate", s(krate)), ("roots", J::A(roots)), ("consts", J::A(consts)), ("adts", J::A(adts)), ("types", J::A(std::mem::take(&mut cx.ty_json))), ("insts", J::A(std::mem::take(&mut cx.inst_json)))]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&out, o).expect("write VP_OUT");
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver_impl::catch_with_exit_code(move || rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}
