//! bspmir: a rustc driver that dumps, for one workspace crate, the type-checked, fully resolved
//! program as JSON facts: MIR of every local function and closure (instantiated per call
//! context), MIR of the small std/crossbeam combinators they call, ADT layouts, trait impls.
//! It is injected with RUSTC_WORKSPACE_WRAPPER and decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, InstanceKind, Ty, TyCtxt};
use rustc_middle::ty::util::IntTypeExt;
use rustc_middle::ty::TypeVisitableExt;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    keys: HashMap<String, ()>,
    work: Vec<(String, Instance<'tcx>, ty::TypingEnv<'tcx>, Option<mir::Promoted>)>,
    types: Vec<J>,
    tyids: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, J)>,
    adtseen: HashMap<DefId, ()>,
    adtwork: Vec<DefId>,
}

fn erase<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    tcx.erase_and_anonymize_regions(t)
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    /// A path that is unique per definition (closures and impls are numbered).
    fn upath(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            dp.to_string_no_crate_verbose()
        )
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => format!("{}", r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display()),
            o => format!("{:?}", o),
        };
        J::s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = erase(self.tcx, t);
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tyids.insert(t, id);
        self.types.push(J::Null);
        let s = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(def.did()))));
                self.adt(def.did());
                let a: Vec<J> = args.types().map(|x| J::n(self.ty(x))).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to", J::n(i)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to", J::n(i)));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::Num(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::Num(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Never => o.push(("k", J::s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let i = self.ty(*e);
                o.push(("of", J::n(i)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let i = self.ty(*e);
                o.push(("of", J::n(i)));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::Num(n as i128)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.upath(*d))));
                let ups: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| J::n(self.ty(x)))
                    .collect();
                o.push(("args", J::Arr(ups)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(self.path(*d))));
                let a: Vec<J> = args.skip_binder().types().map(|x| J::n(self.ty(x))).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(p, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(d) = p.principal_def_id() {
                    o.push(("path", J::s(self.path(d))));
                }
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[id] = J::Obj(o);
        id
    }

    fn adt(&mut self, d: DefId) {
        if self.adtseen.insert(d, ()).is_none() {
            self.adtwork.push(d);
        }
    }

    fn emit_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vars = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        let discr_ty = if def.is_enum() {
            Some(def.repr().discr_type().to_ty(tcx))
        } else {
            None
        };
        let local = d.is_local() || tcx.crate_name(d.krate).as_str().starts_with("bsp");
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in &v.fields {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if local || def.is_enum() { J::n(self.ty(ft)) } else { J::Null };
                fs.push(J::Obj(vec![
                    ("name", J::s(f.name.to_string())),
                    ("ty", t),
                    ("pub", J::Bool(f.vis.is_public())),
                ]));
            }
            let dv = discrs.get(i).copied().unwrap_or(0);
            let dv = match discr_ty.map(|t| *t.kind()) {
                Some(ty::Int(it)) => {
                    let bits = it.bit_width().unwrap_or(64) as u32;
                    if bits == 128 { dv as i128 } else { ((dv << (128 - bits)) as i128) >> (128 - bits) }
                }
                _ => dv as i128,
            };
            vars.push(J::Obj(vec![
                ("name", J::s(v.name.to_string())),
                ("discr", J::Num(dv)),
                ("fields", J::Arr(fs)),
            ]));
        }
        let gen: Vec<J> = {
            let g = tcx.generics_of(d);
            let mut out = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    out.push(J::s(p.name.to_string()));
                }
            }
            out
        };
        let p = self.path(d);
        let (send, sync) = if d.is_local() {
            (
                self.implements(d, tcx.get_diagnostic_item(rustc_span::sym::Send)),
                self.implements(d, tcx.lang_items().sync_trait()),
            )
        } else {
            (J::Null, J::Null)
        };
        self.adts.push((
            p,
            J::Obj(vec![
                ("send", send),
                ("sync", sync),
                ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                ("local", J::Bool(d.is_local())),
                ("crate", J::s(tcx.crate_name(d.krate).to_string())),
                ("pub", J::Bool(tcx.visibility(d).is_public())),
                ("generics", J::Arr(gen)),
                ("span", if d.is_local() { self.span(tcx.def_span(d)) } else { J::Null }),
                ("variants", J::Arr(vars)),
            ]),
        ));
    }

    /// Does the type (its parameters taken as a plain integer) implement the trait?
    fn implements(&self, d: DefId, tr: Option<DefId>) -> J {
        let tcx = self.tcx;
        let tr = match tr {
            Some(t) => t,
            None => return J::Null,
        };
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
            ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 0).into(),
        });
        let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
        let (infcx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
        J::Bool(infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions())
    }

    /// Is the body of this (resolved) extern function part of the analysed program?
    /// Only thin combinators whose semantics is "call the closure / rewrap the value".
    fn descend(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let cr = self.tcx.crate_name(d.krate);
        let cr = cr.as_str();
        if cr == "bsp_types" || cr == "bsp_server" {
            return true;
        }
        let p = self.upath(d);
        const ALLOW: &[&str] = &[
            "core::option::",
            "core::result::",
            "core::ops::control_flow",
            "core::ops::function",
            "core::ops::try_trait",
            "core::convert::{impl",
            "core::bool::",
            "core::iter::traits::iterator::Iterator::try_for_each",
            "core::iter::traits::iterator::Iterator::try_fold",
            "core::iter::traits::iterator::Iterator::for_each",
            "core::iter::traits::iterator::Iterator::fold",
            "core::iter::traits::iterator::Iterator::map",
            "core::iter::traits::iterator::Iterator::by_ref",
            "core::iter::traits::iterator::Iterator::inspect",
            "core::iter::traits::iterator::Iterator::find",
            "core::iter::traits::iterator::Iterator::find_map",
            "core::iter::traits::iterator::Iterator::any",
            "core::iter::traits::iterator::Iterator::all",
            "core::iter::traits::iterator::Iterator::map_while",
            "core::iter::traits::iterator::Iterator::take_while",
            "core::iter::traits::iterator::Iterator::filter",
            "core::iter::adapters::map::",
            "core::iter::adapters::inspect::",
            "core::iter::adapters::map_while::",
            "core::iter::adapters::take_while::",
            "core::iter::sources::from_fn",
            "core::iter::sources::successors",
            "core::iter::traits::collect::{impl",
            "core::iter::traits::iterator::{impl",
            "crossbeam_channel::channel::{impl",
        ];
        if !ALLOW.iter().any(|a| p.starts_with(a)) {
            return false;
        }
        if cr == "crossbeam_channel" {
            // Iteration sugar over recv() only; the channel operations stay opaque events.
            let owner = self.tcx.parent(d);
            let name = self.tcx.item_name(d);
            let name = name.as_str();
            let st = match self.tcx.def_kind(owner) {
                DefKind::Impl { .. } => {
                    with_no_trimmed_paths!(format!("{}", self.tcx.type_of(owner).instantiate_identity().skip_norm_wip()))
                }
                _ => String::new(),
            };
            return matches!(name, "next" | "into_iter" | "iter" | "try_iter")
                && (st.contains("Iter") || st.contains("Receiver"));
        }
        !(p.contains("unwrap_failed") || p.contains("expect_failed"))
    }

    fn key(&self, inst: &Instance<'tcx>) -> String {
        let mut s = match inst.def {
            InstanceKind::Item(d) => self.upath(d),
            other => {
                let n = format!("{:?}", other);
                let tag = n.split(|c: char| c == '(' || c == '{').nth(0).unwrap_or("Shim").trim().to_string();
                let tag2 = if tag == "Shim" { n.chars().take(60).collect::<String>() } else { tag };
                format!("{}@{}", self.upath(other.def_id()), tag2)
            }
        };
        let args = self.tcx.erase_and_anonymize_regions(inst.args);
        let targs: Vec<String> = args
            .types()
            .map(|a| with_no_trimmed_paths!(format!("{}", a)))
            .collect();
        if !targs.is_empty() {
            s.push('<');
            s.push_str(&targs.join(", "));
            s.push('>');
        }
        s
    }

    fn push(&mut self, inst: Instance<'tcx>, env: ty::TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let ok = match inst.def {
            InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    false
                } else {
                    self.descend(d) && tcx.is_mir_available(d)
                }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if !ok {
            return None;
        }
        let k = self.key(&inst);
        if self.keys.insert(k.clone(), ()).is_none() {
            self.work.push((k.clone(), inst, env, None));
        }
        Some(k)
    }

    /// Describe what a callable type denotes.
    fn callee(&mut self, fty: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match fty.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let mut o: Vec<(&'static str, J)> = vec![("path", J::s(self.path(*d)))];
                let targs: Vec<J> = args.types().map(|t| J::n(self.ty(t))).collect();
                o.push(("targs", J::Arr(targs)));
                if let Some(tr) = tcx.trait_of_assoc(*d) {
                    o.push(("trait", J::s(self.path(tr))));
                    o.push(("item", J::s(tcx.item_name(*d).to_string())));
                } else if let Some(im) = tcx.impl_of_assoc(*d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("self", J::n(self.ty(st))));
                    o.push(("item", J::s(tcx.item_name(*d).to_string())));
                }
                if let DefKind::Ctor(..) = tcx.def_kind(*d) {
                    let v = tcx.parent(*d);
                    let (adt, idx) = match tcx.def_kind(v) {
                        DefKind::Variant => {
                            let a = tcx.parent(v);
                            (a, tcx.adt_def(a).variant_index_with_id(v).as_usize())
                        }
                        _ => (v, 0),
                    };
                    self.adt(adt);
                    o.push(("ctor", J::Arr(vec![J::s(self.path(adt)), J::n(idx)])));
                    return J::Obj(o);
                }
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *d, args) {
                    o.push(("rpath", J::s(self.path(inst.def_id()))));
                    if let InstanceKind::Virtual(..) = inst.def {
                        o.push(("virtual", J::Bool(true)));
                    }
                    if let InstanceKind::Intrinsic(..) = inst.def {
                        o.push(("intrinsic", J::Bool(true)));
                    }
                    let own = self.push(inst, env);
                    if own.is_none() && inst.def_id() != *d && self.upath(*d).starts_with("core::iter::traits::iterator::Iterator::") {
                        // a library's faster version of a default method: the default says what it does
                        if let Some(k) = self.push(Instance::new_raw(*d, args), env) {
                            o.push(("dkey", J::s(k)));
                        }
                    }
                    if let Some(k) = own {
                        o.push(("key", J::s(k)));
                    }
                }
                J::Obj(o)
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let mut o: Vec<(&'static str, J)> = vec![("path", J::s(self.upath(*d))), ("closure", J::Bool(true))];
                if let Some(k) = self.push(inst, env) {
                    o.push(("key", J::s(k)));
                }
                J::Obj(o)
            }
            _ => J::Obj(vec![("path", J::s("<indirect>"))]),
        }
    }

    fn constval(&mut self, val: ConstValue, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let opaque = |s: &mut Self| {
            J::Obj(vec![("c", J::s("opaque")), ("ty", J::n(s.ty(t)))])
        };
        if depth > 8 {
            return opaque(self);
        }
        match t.kind() {
            ty::FnDef(..) => {
                let c = self.callee(t, env);
                J::Obj(vec![("c", J::s("fn")), ("callee", c)])
            }
            ty::Pat(base, _) => self.constval(val, *base, env, depth + 1),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                let sc = match val {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let size = match tcx.layout_of(env.as_query_input(t)) {
                            Ok(l) => l.size,
                            Err(_) => return opaque(self),
                        };
                        match tcx.global_alloc(alloc_id) {
                            mir::interpret::GlobalAlloc::Memory(a) => a
                                .inner()
                                .read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false)
                                .ok(),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(Scalar::Int(i)) = sc {
                    let n: i128 = match t.kind() {
                        ty::Int(_) => i.to_int(i.size()),
                        _ => i.to_bits(i.size()) as i128,
                    };
                    return J::Obj(vec![("c", J::s("int")), ("v", J::Num(n)), ("ty", J::n(self.ty(t)))]);
                }
                opaque(self)
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::Obj(vec![("c", J::s("str")), ("v", J::s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    opaque(self)
                }
                ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::Obj(vec![("c", J::s("bytes")), ("v", J::Arr(b.iter().map(|x| J::n(*x as usize)).collect()))]);
                    }
                    opaque(self)
                }
                ty::Slice(e) => {
                    let (alloc_id, off, len) = match val {
                        ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
                        ConstValue::Indirect { alloc_id, offset } => {
                            // a fat pointer in memory
                            match self.read_fat(alloc_id, offset) {
                                Some(x) => x,
                                None => return opaque(self),
                            }
                        }
                        _ => return opaque(self),
                    };
                    let es = match tcx.layout_of(env.as_query_input(*e)) {
                        Ok(l) => l.size,
                        Err(_) => return opaque(self),
                    };
                    let mut v = vec![];
                    for i in 0..len {
                        v.push(self.constval(ConstValue::Indirect { alloc_id, offset: off + es * i }, *e, env, depth + 1));
                    }
                    J::Obj(vec![("c", J::s("ref")), ("v", J::Obj(vec![("c", J::s("array")), ("v", J::Arr(v))]))])
                }
                _ => {
                    let ptr = match val {
                        ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                        ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                            mir::interpret::GlobalAlloc::Memory(a) => {
                                let ps = tcx.data_layout.pointer_size();
                                match a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true) {
                                    Ok(Scalar::Ptr(p, _)) => Some(p),
                                    _ => None,
                                }
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(p) = ptr {
                        let (prov, off) = p.into_raw_parts();
                        let alloc_id = prov.alloc_id();
                        match tcx.global_alloc(alloc_id) {
                            mir::interpret::GlobalAlloc::Memory(_) => {
                                let v = self.constval(ConstValue::Indirect { alloc_id, offset: off }, *inner, env, depth + 1);
                                return J::Obj(vec![("c", J::s("ref")), ("v", v)]);
                            }
                            mir::interpret::GlobalAlloc::Static(d) => {
                                return J::Obj(vec![("c", J::s("static")), ("path", J::s(self.path(d))), ("ty", J::n(self.ty(*inner)))]);
                            }
                            _ => {}
                        }
                    }
                    opaque(self)
                }
            },
            ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                if let ConstValue::Indirect { alloc_id, offset } = val {
                    if let (Some(n), mir::interpret::GlobalAlloc::Memory(a)) = (n.try_to_target_usize(tcx), tcx.global_alloc(alloc_id)) {
                        let r = a.inner().get_bytes_strip_provenance(
                            &tcx,
                            mir::interpret::alloc_range(offset, rustc_abi::Size::from_bytes(n)),
                        );
                        if let Ok(b) = r {
                            return J::Obj(vec![("c", J::s("bytes")), ("v", J::Arr(b.iter().map(|x| J::n(*x as usize)).collect()))]);
                        }
                    }
                }
                opaque(self)
            }
            ty::Adt(def, _) if def.is_union() => opaque(self),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if t.has_param() || t.has_aliases() {
                    return opaque(self);
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).is_none() {
                        return opaque(self);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(dc) => {
                        let mut fs = vec![];
                        for (v, ft) in dc.fields.iter() {
                            fs.push(self.constval(*v, *ft, env, depth + 1));
                        }
                        let mut o = vec![
                            ("c", J::s(if matches!(t.kind(), ty::Array(..)) { "array" } else { "agg" })),
                            ("ty", J::n(self.ty(t))),
                            ("v", J::Arr(fs)),
                        ];
                        if let Some(vi) = dc.variant {
                            o.push(("var", J::n(vi.as_usize())));
                        }
                        J::Obj(o)
                    }
                    None => opaque(self),
                }
            }
            ty::Closure(..) => {
                let c = self.callee(t, env);
                J::Obj(vec![("c", J::s("closure")), ("callee", c), ("ty", J::n(self.ty(t)))])
            }
            ty::FnPtr(..) => {
                let ptr = match val {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        mir::interpret::GlobalAlloc::Memory(a) => {
                            let ps = tcx.data_layout.pointer_size();
                            match a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true) {
                                Ok(Scalar::Ptr(p, _)) => Some(p),
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(p) = ptr {
                    if let mir::interpret::GlobalAlloc::Function { instance, .. } = tcx.global_alloc(p.into_raw_parts().0.alloc_id()) {
                        let fty = match instance.def {
                            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => Some(instance.args.type_at(0)),
                            InstanceKind::Item(d) if matches!(tcx.def_kind(d), DefKind::Closure) => None,
                            InstanceKind::Item(d) => Some(Ty::new_fn_def(tcx, d, ty::Binder::dummy(instance.args))),
                            _ => None,
                        };
                        if let Some(fty) = fty {
                            let c = self.callee(fty, env);
                            return J::Obj(vec![("c", J::s("fn")), ("callee", c)]);
                        }
                    }
                }
                opaque(self)
            }
            _ => opaque(self),
        }
    }

    fn read_fat(&self, alloc_id: mir::interpret::AllocId, offset: rustc_abi::Size) -> Option<(mir::interpret::AllocId, rustc_abi::Size, u64)> {
        let tcx = self.tcx;
        let ps = tcx.data_layout.pointer_size();
        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
            let p = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok()?;
            let l = a.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset + ps, ps), false).ok()?;
            if let (Scalar::Ptr(p, _), Scalar::Int(l)) = (p, l) {
                let (prov, off) = p.into_raw_parts();
                return Some((prov.alloc_id(), off, l.to_bits(l.size()) as u64));
            }
        }
        None
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            let cal = self.callee(t, env);
            return J::Obj(vec![("c", J::s("fn")), ("callee", cal)]);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                // the standard library is shipped without some of its promoted bodies
                if tcx.promoted_mir(u.def).len() <= p.as_usize() {
                    return J::Obj(vec![("c", J::s("opaque")), ("ty", J::n(self.ty(t))), ("path", J::s(self.path(u.def)))]);
                }
                // a default method's own promoted values must not be looked up in
                // the implementation that overrides it
                if u.args.has_param() || tcx.trait_of_assoc(u.def).is_some() {
                    // evaluated by the interpreter: dump the promoted body
                    let inst = Instance::new_raw(u.def, u.args);
                    let k = format!("{}#promoted{}", self.key(&inst), p.as_usize());
                    if self.keys.insert(k.clone(), ()).is_none() {
                        self.work.push((k.clone(), inst, env, Some(p)));
                    }
                    return J::Obj(vec![("c", J::s("promoted")), ("key", J::s(k)), ("ty", J::n(self.ty(t)))]);
                }
            }
            if u.args.has_param() && u.promoted.is_none() {
                return J::Obj(vec![("c", J::s("opaque")), ("ty", J::n(self.ty(t))), ("path", J::s(self.path(u.def)))]);
            }
        }
        if c.const_.has_param() {
            return J::Obj(vec![("c", J::s("opaque")), ("ty", J::n(self.ty(t))), ("s", J::s(with_no_trimmed_paths!(format!("{}", c.const_))))]);
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.constval(v, t, env, 0),
            Err(_) => J::Obj(vec![("c", J::s("opaque")), ("ty", J::n(self.ty(t)))]),
        }
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let before = pt;
            pt = pt.projection_ty(self.tcx, e);
            pr.push(match e {
                mir::ProjectionElem::Deref => J::Arr(vec![J::s("d")]),
                mir::ProjectionElem::Field(f, ft) => {
                    let bt = self.ty(before.ty);
                    let v = before.variant_index.map(|v| v.as_usize()).unwrap_or(0);
                    J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(v), J::n(bt), J::n(self.ty(ft))])
                }
                mir::ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![J::s("ci"), J::Num(offset as i128), J::Bool(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::Num(from as i128), J::Num(to as i128), J::Bool(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("v"), J::n(v.as_usize())]),
                _ => J::Arr(vec![J::s("x")]),
            });
        }
        let fin = self.ty(pt.ty);
        J::Arr(vec![J::n(p.local.as_usize()), J::Arr(pr), J::n(fin)])
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Obj(vec![("p", self.place(body, p))]),
            mir::Operand::Move(p) => J::Obj(vec![("p", self.place(body, p)), ("mv", J::Bool(true))]),
            mir::Operand::Constant(c) => J::Obj(vec![("k", self.constant(c, env))]),
            _ => J::Obj(vec![("k", J::Obj(vec![("c", J::s("opaque"))]))]),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::Arr(vec![J::s("use"), self.operand(body, o, env)]),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::Num(x as i128)).unwrap_or(J::Null);
                J::Arr(vec![J::s("repeat"), self.operand(body, o, env), n])
            }
            Ref(_, bk, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(matches!(bk, mir::BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            RawPtr(_, p) => J::Arr(vec![J::s("ref"), J::Bool(true), self.place(body, p)]),
            Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let ks = format!("{:?}", k);
                let mut a = vec![J::s("cast"), J::s(ks), self.operand(body, o, env), J::n(self.ty(*t)), J::n(self.ty(from))];
                if let (mir::CastKind::PointerCoercion(..), ty::FnDef(..) | ty::Closure(..)) = (k, from.kind()) {
                    a.push(self.callee(from, env));
                }
                J::Arr(a)
            }
            BinaryOp(op, ab) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(body, &ab.0, env),
                self.operand(body, &ab.1, env),
            ]),
            UnaryOp(op, a) => J::Arr(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(body, a, env)]),
            Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(body, p)]),
            Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, fi) => {
                        self.adt(*d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        J::Arr(vec![
                            J::s("adt"),
                            J::s(self.path(*d)),
                            J::n(v.as_usize()),
                            fi.map(|f| J::n(f.as_usize())).unwrap_or(J::Null),
                            J::n(t),
                        ])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let key = self.push(inst, env);
                        J::Arr(vec![J::s("closure"), J::s(self.upath(*d)), key.map(J::s).unwrap_or(J::Null)])
                    }
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kk, J::Arr(ops)])
            }
            CopyForDeref(p) => J::Arr(vec![J::s("use"), J::Obj(vec![("p", self.place(body, p))])]),
            ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(self.path(*d))]),
            _ => J::Arr(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn emit_fn(&mut self, k: &str, inst: Instance<'tcx>, env: ty::TypingEnv<'tcx>, promoted: Option<mir::Promoted>) -> Option<J> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: mir::Body<'tcx> = match promoted {
            Some(p) => tcx.promoted_mir(d)[p].clone(),
            None => tcx.instance_mir(inst.def).clone(),
        };
        let body = match promoted {
            Some(_) => tcx
                .try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, raw.clone()))
                .ok()?,
            None => inst
                .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()))
                .unwrap_or(raw),
        };
        let mut locals = vec![];
        for ld in body.local_decls.iter() {
            locals.push(J::n(self.ty(ld.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::Arr(vec![J::n(p.local.as_usize()), J::s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(pr) => {
                        let r = self.rvalue(&body, &pr.1, env);
                        let p = self.place(&body, &pr.0);
                        st.push(J::Arr(vec![J::s("="), p, r]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&body, place);
                        st.push(J::Arr(vec![J::s("sd"), p, J::n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("x"), J::n(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            use mir::TerminatorKind::*;
            let b = |x: &mir::BasicBlock| J::n(x.as_usize());
            let t = match &term.kind {
                Goto { target, .. } => J::Obj(vec![("t", J::s("goto")), ("to", b(target))]),
                SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::Arr(vec![J::Num(v as i128), b(&t)]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    J::Obj(vec![
                        ("t", J::s("switch")),
                        ("on", self.operand(&body, discr, env)),
                        ("ty", J::n(self.ty(dt))),
                        ("arms", J::Arr(v)),
                        ("else", b(&targets.otherwise())),
                    ])
                }
                Return => J::Obj(vec![("t", J::s("return"))]),
                Unreachable => J::Obj(vec![("t", J::s("unreachable"))]),
                UnwindResume | UnwindTerminate(_) => J::Obj(vec![("t", J::s("resume"))]),
                Drop { place, target, .. } => J::Obj(vec![
                    ("t", J::s("drop")),
                    ("place", self.place(&body, place)),
                    ("to", b(target)),
                ]),
                Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let c = self.callee(fty, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&body, &x.node, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| J::n(self.ty(x.node.ty(&body.local_decls, tcx))))
                        .collect();
                    let f = if matches!(fty.kind(), ty::FnDef(..)) { J::Null } else { self.operand(&body, func, env) };
                    J::Obj(vec![
                        ("t", J::s("call")),
                        ("callee", c),
                        ("func", f),
                        ("args", J::Arr(a)),
                        ("atys", J::Arr(at)),
                        ("dest", self.place(&body, destination)),
                        ("to", target.as_ref().map(|x| b(x)).unwrap_or(J::Null)),
                        ("span", self.span(term.source_info.span)),
                        ("exp", J::s(self.expn(term.source_info.span))),
                    ])
                }
                Assert { cond, expected, msg, target, .. } => J::Obj(vec![
                    ("t", J::s("assert")),
                    ("cond", self.operand(&body, cond, env)),
                    ("exp", J::Bool(*expected)),
                    ("msg", J::s(format!("{:?}", msg).chars().take(200).collect::<String>())),
                    ("to", b(target)),
                    ("span", self.span(term.source_info.span)),
                ]),
                FalseEdge { real_target, .. } => J::Obj(vec![("t", J::s("goto")), ("to", b(real_target))]),
                FalseUnwind { real_target, .. } => J::Obj(vec![("t", J::s("goto")), ("to", b(real_target))]),
                o => J::Obj(vec![("t", J::s("other")), ("s", J::s(format!("{:?}", o)))]),
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", t),
                ("u", J::Bool(bb.is_cleanup)),
                ("span", self.span(term.source_info.span)),
            ]));
        }
        let is_closure = matches!(inst.def, InstanceKind::Item(d) if tcx.def_kind(d) == DefKind::Closure);
        let mut o = vec![
            ("key", J::s(k)),
            ("path", J::s(self.path(d))),
            ("upath", J::s(self.upath(d))),
            ("local", J::Bool(d.is_local())),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("closure", J::Bool(is_closure)),
            ("shim", J::Bool(!matches!(inst.def, InstanceKind::Item(_)))),
            ("argc", J::n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ];
        if d.is_local() {
            o.push(("span", self.span(tcx.def_span(d))));
        }
        if !is_closure && promoted.is_none() && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::Bool(tcx.visibility(d).is_public())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", J::n(self.ty(st))));
                o.push(("item", J::s(tcx.item_name(d).to_string())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(self.path(tr.def_id))));
                    let ta: Vec<J> = tr.args.types().map(|t| J::n(self.ty(t))).collect();
                    o.push(("traitargs", J::Arr(ta)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("intrait", J::s(self.path(tr))));
                o.push(("item", J::s(tcx.item_name(d).to_string())));
            }
        }
        Some(J::Obj(o))
    }

    /// Outermost-to-innermost macro names this span came from.
    fn expn(&self, sp: rustc_span::Span) -> String {
        let mut v = vec![];
        for e in sp.macro_backtrace().take(6) {
            let cr = e.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default();
            v.push(format!("{}::{}", cr, e.kind.descr()));
        }
        v.join(",")
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("BSPMIR_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            keys: HashMap::new(),
            work: vec![],
            types: vec![],
            tyids: HashMap::new(),
            adts: vec![],
            adtseen: HashMap::new(),
            adtwork: vec![],
        };
        let mut roots = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let inst = Instance::new_raw(did, args);
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    if let Some(k) = d.push(inst, env) {
                        roots.push(J::s(k));
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = d.ty(t);
                    statics.push(J::Obj(vec![("path", J::s(d.path(did))), ("ty", J::n(t)), ("span", d.span(tcx.def_span(did)))]));
                }
                _ => {}
            }
        }
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => d.adt(did),
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = d.ty(tr.self_ty());
                    let ta: Vec<J> = tr.args.types().skip(1).map(|t| J::n(d.ty(t))).collect();
                    let items: Vec<(String, J)> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|i| (tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default(), J::s(d.upath(*i))))
                        .collect();
                    impls.push(J::Obj(vec![
                        ("trait", J::s(d.path(tr.def_id))),
                        ("self", J::n(st)),
                        ("targs", J::Arr(ta)),
                        ("items", J::Map(items)),
                        ("span", d.span(tcx.def_span(did))),
                    ]));
                }
                _ => {}
            }
        }
        let mut fns: Vec<(String, J)> = vec![];
        while let Some((k, inst, env, pr)) = d.work.pop() {
            if let Some(j) = d.emit_fn(&k, inst, env, pr) {
                fns.push((k, j));
            }
        }
        loop {
            let w = std::mem::take(&mut d.adtwork);
            if w.is_empty() {
                break;
            }
            for a in w {
                d.emit_adt(a);
            }
        }
        let adts = std::mem::take(&mut d.adts);
        let types = std::mem::take(&mut d.types);
        let j = J::Obj(vec![
            ("crate", J::s(krate.clone())),
            ("roots", J::Arr(roots)),
            ("statics", J::Arr(statics)),
            ("impls", J::Arr(impls)),
            ("adts", J::Map(adts)),
            ("types", J::Arr(types)),
            ("fns", J::Map(fns)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(format!("{}/{}.json", out, krate), s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
