//! mirdump: a rustc driver that type-checks a crate exactly as cargo asked and
//! writes the resolved program (MIR of every body, ADTs, impls, signatures,
//! unsafety, statics, linked crates) as JSON.  It is injected through
//! RUSTC_WORKSPACE_WRAPPER; dependencies are compiled by the ordinary rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_lint_defs;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, Upcast};
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_span::Span;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: RefCell<BTreeMap<String, J>>,
    /// typing environment of the root whose instances are being dumped
    env: Cell<Option<(LocalDefId, ty::TypingEnv<'tcx>)>>,
    ids: RefCell<HashMap<(ty::Instance<'tcx>, Option<LocalDefId>), usize>>,
    queue: RefCell<VecDeque<(ty::Instance<'tcx>, LocalDefId, usize)>>,
    opaque: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    /// Give `inst` a body id when its MIR should be analysed (every local
    /// function, and generic/inline functions of core and alloc that the
    /// engine has no model for).
    fn enqueue(&self, inst: ty::Instance<'tcx>) -> Option<usize> {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        let (root, _) = self.env.get()?;
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    return None;
                }
                if !d.is_local() {
                    let k = tcx.crate_name(d.krate);
                    let k = k.as_str();
                    if !(k == "core" || k == "alloc") || !tcx.is_mir_available(d) {
                        return None;
                    }
                    let p = path(tcx, d);
                    if self.opaque.iter().any(|o| p.starts_with(o.as_str())) {
                        return None;
                    }
                    if !matches!(tcx.def_kind(d), DefKind::Closure) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                        return None;
                    }
                }
            }
            ty::InstanceKind::Shim(..) => {
                if !format!("{:?}", inst.def).contains("ClosureOnce") && !format!("{:?}", inst.def).contains("FnPtr") {
                    return None;
                }
            }
            _ => return None,
        }
        let key = (inst, if inst.args.has_non_region_param() { Some(root) } else { None });
        if let Some(i) = self.ids.borrow().get(&key) {
            return Some(*i);
        }
        let i = self.ids.borrow().len();
        self.ids.borrow_mut().insert(key, i);
        self.queue.borrow_mut().push_back((inst, root, i));
        Some(i)
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(
        ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
    ));
    // types declared inside bodies can share their printed path
    if d.is_local() && matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
        let mut p = d;
        while let Some(q) = tcx.opt_parent(p) {
            if matches!(tcx.def_kind(q), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                return format!("{s}#{}", d.index.as_u32());
            }
            p = q;
        }
    }
    s
}

fn tystr<T: std::fmt::Display>(t: T) -> String {
    ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(
        ty::print::with_no_trimmed_paths!(t.to_string())
    ))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s2 = s.source_callsite();
        let loc = sm.lookup_char_pos(s2.lo());
        let hi = sm.lookup_char_pos(s2.hi());
        J::A(vec![
            J::s(loc.file.name.prefer_local_unconditionally().to_string()),
            J::I(loc.line as i128),
            J::I(hi.line as i128),
            J::B(s.from_expansion()),
        ])
    }

    fn cst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::o(vec![("k", J::s("cparam")), ("n", J::s(p.name.to_string()))]),
            ty::ConstKind::Value(v) => {
                if let Some(s) = v.try_to_leaf() {
                    return J::o(vec![("k", J::s("cval")), ("v", J::I(s.to_bits_unchecked() as i128))]);
                }
                J::o(vec![("k", J::s("cother")), ("s", J::s(tystr(c)))])
            }
            _ => {
                // try to evaluate an alias constant (e.g. `32 + 16`)
                J::o(vec![("k", J::s("cother")), ("s", J::s(tystr(c)))])
            }
        }
    }

    fn adt(&self, def: ty::AdtDef<'tcx>) {
        let p = path(self.tcx, def.did());
        if self.adts.borrow().contains_key(&p) {
            return;
        }
        self.adts.borrow_mut().insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let d = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fs.push(J::o(vec![
                    ("n", J::s(f.name.to_string())),
                    ("vis", J::s(format!("{:?}", f.vis))),
                    ("pub", J::B(f.vis.is_public())),
                    ("ty", if def.did().is_local() { self.ty(t) } else { J::s(tystr(t)) }),
                ]));
            }
            vs.push(J::o(vec![
                ("n", J::s(v.name.to_string())),
                ("discr", J::I(d)),
                ("ctor", J::s(format!("{:?}", v.ctor_kind()))),
                ("fields", J::A(fs)),
            ]));
        }
        let local = def.did().as_local();
        let ev = tcx.effective_visibilities(());
        let j = J::o(vec![
            ("path", J::s(p.clone())),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(local.is_some())),
            ("reachable", J::B(local.map_or(false, |l| ev.is_reachable(l)))),
            ("exported", J::B(local.map_or(false, |l| ev.is_exported(l)))),
            ("nonexhaustive", J::B(def.is_variant_list_non_exhaustive())),
            ("variants", J::A(vs)),
            ("generics", self.generics(def.did())),
            ("auto", if local.is_some() { self.autos(def.did()) } else { J::Null }),
            ("span", if local.is_some() { self.span(tcx.def_span(def.did())) } else { J::Null }),
        ]);
        self.adts.borrow_mut().insert(p, j);
    }

    /// the auto traits a local type has whenever all its type parameters have them
    fn autos(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let args = self.root_args(d);
        let ty = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
        let own: Vec<ty::Clause<'tcx>> = tcx.param_env(d).caller_bounds().collect();
        let mut out = vec![];
        for (name, tr) in [
            ("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
            ("Sync", tcx.lang_items().sync_trait()),
            ("Unpin", tcx.lang_items().unpin_trait()),
            ("UnwindSafe", tcx.get_diagnostic_item(rustc_span::sym::unwind_safe_trait)),
            ("RefUnwindSafe", tcx.get_diagnostic_item(rustc_span::sym::ref_unwind_safe_trait)),
        ] {
            let Some(tr) = tr else { continue };
            let mut bounds = own.clone();
            for a in args.types() {
                if let ty::Param(_) = a.kind() {
                    bounds.push(ty::TraitRef::new(tcx, tr, [a]).upcast(tcx));
                }
            }
            let env = ty::ParamEnv::new(tcx, bounds);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let ok = infcx.type_implements_trait(tr, [ty], env).must_apply_modulo_regions();
            out.push((name, J::B(ok)));
        }
        J::o(out)
    }

    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut out = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            let k = match p.kind {
                ty::GenericParamDefKind::Lifetime => continue,
                ty::GenericParamDefKind::Type { .. } => "ty",
                ty::GenericParamDefKind::Const { .. } => "const",
            };
            out.push(J::o(vec![("n", J::s(p.name.to_string())), ("k", J::s(k))]));
        }
        J::A(out)
    }

    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a
            .iter()
            .filter_map(|x| match x.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(self.cst(c)),
                GenericArgKind::Lifetime(_) => None,
                #[allow(unreachable_patterns)]
                _ => None,
            })
            .collect())
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::o(vec![("k", J::s("prim")), ("n", J::s(tystr(t)))])
            }
            ty::Adt(def, args) => {
                self.adt(*def);
                J::o(vec![("k", J::s("adt")), ("p", J::s(path(tcx, def.did()))), ("a", self.args(args))])
            }
            ty::Array(e, n) => J::o(vec![("k", J::s("array")), ("t", self.ty(*e)), ("n", self.cst(*n))]),
            ty::Slice(e) => J::o(vec![("k", J::s("slice")), ("t", self.ty(*e))]),
            ty::Ref(_, e, m) => J::o(vec![("k", J::s("ref")), ("m", J::B(m.is_mut())), ("t", self.ty(*e))]),
            ty::RawPtr(e, m) => J::o(vec![("k", J::s("ptr")), ("m", J::B(m.is_mut())), ("t", self.ty(*e))]),
            ty::Tuple(ts) => J::o(vec![("k", J::s("tuple")), ("a", J::A(ts.iter().map(|x| self.ty(x)).collect()))]),
            ty::Param(p) => J::o(vec![("k", J::s("param")), ("n", J::s(p.name.to_string()))]),
            ty::FnDef(d, a) => {
                let args = a.skip_binder();
                J::o(vec![("k", J::s("fndef")), ("f", self.fnref(*d, args, None))])
            }
            ty::Closure(d, a) => J::o(vec![
                ("k", J::s("closure")),
                ("id", self.did(*d)),
                ("inst", self.enqueue(ty::Instance::new_raw(*d, a)).map_or(J::Null, |i| J::I(i as i128))),
            ]),
            ty::FnPtr(..) => J::o(vec![("k", J::s("fnptr")), ("s", J::s(tystr(t)))]),
            ty::Dynamic(..) => J::o(vec![("k", J::s("dyn")), ("s", J::s(tystr(t)))]),
            ty::Alias(..) => J::o(vec![("k", J::s("alias")), ("s", J::s(tystr(t)))]),
            _ => J::o(vec![("k", J::s("other")), ("s", J::s(tystr(t)))]),
        }
    }

    fn did(&self, d: DefId) -> J {
        J::s(format!("{}:{}", self.tcx.crate_name(d.krate), d.index.as_u32()))
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", self.did(d)),
            ("path", J::s(path(tcx, d))),
            ("name", J::s(tcx.opt_item_name(d).map_or(String::new(), |s| s.to_string()))),
            ("local", J::B(d.is_local())),
            ("args", self.args(args)),
            ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
        ];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            // constructor function of a tuple variant / struct
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            self.adt(tcx.adt_def(adt));
            o.push(("ctor", J::A(vec![J::s(path(tcx, adt)), J::s(var)])));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, t))));
            if args.len() > 0 {
                if let Some(t0) = args.types().next() {
                    o.push(("self", self.ty(t0)));
                }
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate(tcx, args).skip_norm_wip();
            o.push(("impl_self", self.ty(st)));
            if let Some(t) = tcx.impl_opt_trait_id(i) {
                o.push(("impl_trait", J::s(path(tcx, t))));
            }
        }
        let env = env.or(self.env.get().map(|e| e.1));
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(args)) {
                    let rd = inst.def_id();
                    if let ty::InstanceKind::Intrinsic(..) = inst.def {
                        o.push(("intrinsic", J::B(true)));
                    }
                    if rd != d {
                        let mut r = vec![("path", J::s(path(tcx, rd))), ("local", J::B(rd.is_local())), ("id", self.did(rd))];
                        if let ty::InstanceKind::Item(_) = inst.def {
                            r.push(("args", self.args(inst.args)));
                        } else {
                            r.push(("shim", J::s(format!("{:?}", inst.def))));
                        }
                        o.push(("res", J::o(r)));
                    }
                    if let Some(i) = self.enqueue(inst) {
                        o.push(("inst", J::I(i as i128)));
                    }
                }
            }
        }
        J::o(o)
    }

    fn bytes_of(&self, c: mir::ConstValue, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> Option<(Vec<u8>, bool)> {
        let tcx = self.tcx;
        let is_u8 = |t: Ty<'tcx>| matches!(t.kind(), ty::Uint(ty::UintTy::U8));
        match t.kind() {
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => c.try_get_slice_bytes_for_diagnostics(tcx).map(|b| (b.to_vec(), true)),
                ty::Slice(e) if is_u8(*e) => c.try_get_slice_bytes_for_diagnostics(tcx).map(|b| (b.to_vec(), false)),
                ty::Array(e, n) if is_u8(*e) => {
                    let n = n.try_to_target_usize(tcx)?;
                    let s = c.try_to_scalar()?;
                    let ptr = s.to_pointer(&tcx);
                    let (prov, off) = ptr.into_pointer_or_addr().ok()?.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(a) => {
                            let st = off.bytes() as usize;
                            Some((
                                a.inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize)
                                    .to_vec(),
                                false,
                            ))
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            ty::Array(e, n) if is_u8(*e) => {
                let n = n.try_to_target_usize(tcx)? as usize;
                match c {
                    mir::ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => {
                            let st = offset.bytes() as usize;
                            Some((
                                a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n).to_vec(),
                                false,
                            ))
                        }
                        _ => None,
                    },
                    mir::ConstValue::Scalar(s) => {
                        let b = s.try_to_scalar_int().ok()?;
                        let v = b.to_bits_unchecked();
                        Some((v.to_le_bytes()[..n].to_vec(), false))
                    }
                    mir::ConstValue::ZeroSized => Some((vec![], false)),
                    _ => None,
                }
            }
            _ => {
                let _ = env;
                None
            }
        }
    }

    fn constant(&self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>, span: Span) -> J {
        let t = c.ty();
        let mut o = vec![("o", J::s("const")), ("ty", self.ty(t))];
        if let ty::FnDef(d, a) = t.kind() {
            let args = a.skip_binder();
            o.push(("fn", self.fnref(*d, args, Some(env))));
            return J::o(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            o.push(("path", J::s(path(self.tcx, u.def))));
            o.push(("id", self.did(u.def)));
            o.push(("cargs", self.args(u.args)));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_u32() as i128)));
            }
            if let Some(tr) = self.tcx.trait_of_assoc(u.def) {
                o.push(("trait", J::s(path(self.tcx, tr))));
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            o.push(("tyconst", self.cst(*ct)));
        }
        if !c.has_non_region_param_pub() {
            if let Ok(v) = c.eval(self.tcx, env, span) {
                if let Some(s) = v.try_to_scalar_int() {
                    o.push(("bits", J::I(s.to_bits_unchecked() as i128)));
                }
                if let Some((b, is_str)) = self.bytes_of(v, t, env) {
                    o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    o.push(("is_str", J::B(is_str)));
                }
                if matches!(v, mir::ConstValue::ZeroSized) {
                    o.push(("zst", J::B(true)));
                }
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                        o.push(("static", J::s(path(self.tcx, d))));
                        o.push(("static_local", J::B(d.is_local())));
                        o.push(("static_mut", J::B(self.tcx.is_mutable_static(d))));
                    }
                }
            }
        }
        o.push(("s", J::s(tystr(c))));
        J::o(o)
    }

    fn operand(&self, op: &Operand<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("o", J::s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::o(vec![("o", J::s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.constant(&c.const_, env, c.span),
            Operand::RuntimeChecks(r) => J::o(vec![("o", J::s("rtchecks")), ("s", J::s(format!("{r:?}")))]),
        }
    }

    fn place(&self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::o(vec![("k", J::s("deref"))]),
                ProjectionElem::Field(f, fty) => {
                    let mut name = f.as_u32().to_string();
                    let mut adt = J::Null;
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        self.adt(*d);
                        adt = J::s(path(tcx, d.did()));
                        let v = match pt.variant_index {
                            Some(v) => Some(d.variant(v)),
                            None if d.is_struct() || d.is_union() => Some(d.non_enum_variant()),
                            None => None,
                        };
                        if let Some(v) = v {
                            name = v.fields[f].name.to_string();
                        }
                    }
                    J::o(vec![
                        ("k", J::s("field")),
                        ("i", J::I(f.as_u32() as i128)),
                        ("n", J::s(name)),
                        ("adt", adt),
                        ("ty", self.ty(fty)),
                    ])
                }
                ProjectionElem::Index(l) => J::o(vec![("k", J::s("index")), ("l", J::I(l.as_u32() as i128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::o(vec![
                    ("k", J::s("cindex")),
                    ("off", J::I(offset as i128)),
                    ("min", J::I(min_length as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::o(vec![
                    ("k", J::s("subslice")),
                    ("from", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    let mut name = v.as_u32().to_string();
                    let mut adt = J::Null;
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        self.adt(*d);
                        name = d.variant(v).name.to_string();
                        adt = J::s(path(tcx, d.did()));
                    }
                    J::o(vec![("k", J::s("downcast")), ("v", J::I(v.as_u32() as i128)), ("n", J::s(name)), ("adt", adt)])
                }
                _ => J::o(vec![("k", J::s("otherproj")), ("s", J::s(format!("{e:?}")))]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::o(vec![("l", J::I(p.local.as_u32() as i128)), ("pr", J::A(pr))])
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(o, body, env);
        match r {
            Rvalue::Use(o, ..) => J::o(vec![("r", J::s("use")), ("a", op(o))]),
            Rvalue::Repeat(o, n) => J::o(vec![("r", J::s("repeat")), ("a", op(o)), ("n", self.cst(*n))]),
            Rvalue::Ref(_, bk, p) => J::o(vec![
                ("r", J::s("ref")),
                ("m", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::o(vec![("r", J::s("ref")), ("m", J::B(m.is_mut())), ("p", self.place(p, body))])
            }
            Rvalue::ThreadLocalRef(d) => J::o(vec![("r", J::s("tls")), ("path", J::s(path(self.tcx, *d)))]),
            Rvalue::RawPtr(k, p) => J::o(vec![
                ("r", J::s("rawptr")),
                ("m", J::B(matches!(k, mir::RawPtrKind::Mut))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::Cast(k, o, t) => J::o(vec![
                ("r", J::s("cast")),
                ("ck", J::s(format!("{k:?}"))),
                ("a", op(o)),
                ("from", self.ty(o.ty(body, self.tcx))),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(b, x) => {
                let (a, c) = &**x;
                J::o(vec![
                    ("r", J::s("bin")),
                    ("op", J::s(format!("{b:?}"))),
                    ("a", op(a)),
                    ("b", op(c)),
                    ("ty", self.ty(a.ty(body, self.tcx))),
                ])
            }
            Rvalue::UnaryOp(u, o) => J::o(vec![
                ("r", J::s("un")),
                ("op", J::s(format!("{u:?}"))),
                ("a", op(o)),
                ("ty", self.ty(o.ty(body, self.tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let _ = self.ty(t);
                J::o(vec![("r", J::s("discr")), ("p", self.place(p, body)), ("ty", self.ty(t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| op(o)).collect());
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        J::o(vec![("r", J::s("agg")), ("k", J::s("array")), ("ty", self.ty(*t)), ("a", ops)])
                    }
                    mir::AggregateKind::Tuple => J::o(vec![("r", J::s("agg")), ("k", J::s("tuple")), ("a", ops)]),
                    mir::AggregateKind::Adt(d, v, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let var = def.variant(*v);
                        J::o(vec![
                            ("r", J::s("agg")),
                            ("k", J::s("adt")),
                            ("p", J::s(path(self.tcx, *d))),
                            ("v", J::s(var.name.to_string())),
                            ("enum", J::B(def.is_enum())),
                            ("targs", self.args(args)),
                            ("active", active.map_or(J::Null, |a| J::I(a.as_u32() as i128))),
                            ("fn", J::A(var.fields.iter().map(|f| J::s(f.name.to_string())).collect())),
                            ("a", ops),
                        ])
                    }
                    mir::AggregateKind::Closure(d, args) => J::o(vec![
                        ("r", J::s("agg")),
                        ("k", J::s("closure")),
                        ("id", self.did(*d)),
                        ("inst", self.enqueue(ty::Instance::new_raw(*d, args)).map_or(J::Null, |i| J::I(i as i128))),
                        ("a", ops),
                    ]),
                    _ => J::o(vec![("r", J::s("agg")), ("k", J::s("other")), ("a", ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::o(vec![
                ("r", J::s("use")),
                ("a", J::o(vec![("o", J::s("copy")), ("p", self.place(p, body))])),
            ]),
            Rvalue::WrapUnsafeBinder(o, _) => J::o(vec![("r", J::s("use")), ("a", op(o))]),
        }
    }

    fn body(&self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::o(vec![
                    ("ty", self.ty(d.ty)),
                    ("n", names.get(&l.as_u32()).map_or(J::Null, |s| J::s(s.clone()))),
                ])
            })
            .collect();
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        st.push(J::o(vec![
                            ("s", J::s("assign")),
                            ("p", self.place(p, body)),
                            ("rv", self.rvalue(r, body, env)),
                            ("span", self.span(s.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::o(vec![
                        ("s", J::s("setdiscr")),
                        ("p", self.place(place, body)),
                        ("v", J::I(variant_index.as_u32() as i128)),
                    ])),
                    StatementKind::Intrinsic(i) => {
                        st.push(J::o(vec![("s", J::s("intrinsic")), ("t", J::s(format!("{i:?}")))]))
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let bb = |x: &mir::BasicBlock| J::I(x.as_u32() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::o(vec![("t", J::s("goto")), ("to", bb(target))]),
                TerminatorKind::SwitchInt { discr, targets } => J::o(vec![
                    ("t", J::s("switch")),
                    ("d", self.operand(discr, body, env)),
                    ("ty", self.ty(discr.ty(body, tcx))),
                    (
                        "cases",
                        J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(&b)])).collect()),
                    ),
                    ("else", bb(&targets.otherwise())),
                ]),
                TerminatorKind::Return => J::o(vec![("t", J::s("return"))]),
                TerminatorKind::Unreachable => J::o(vec![("t", J::s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::o(vec![("t", J::s("resume"))])
                }
                TerminatorKind::Drop { place, target, .. } => J::o(vec![
                    ("t", J::s("drop")),
                    ("p", self.place(place, body)),
                    ("to", bb(target)),
                    ("ty", self.ty(place.ty(body, tcx).ty)),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => J::o(vec![
                    ("t", J::s("call")),
                    ("f", self.operand(func, body, env)),
                    ("a", J::A(args.iter().map(|a| self.operand(&a.node, body, env)).collect())),
                    ("aty", J::A(args.iter().map(|a| self.ty(a.node.ty(body, tcx))).collect())),
                    ("d", self.place(destination, body)),
                    ("dty", self.ty(destination.ty(body, tcx).ty)),
                    ("to", target.as_ref().map_or(J::Null, |x| bb(x))),
                ]),
                TerminatorKind::TailCall { .. } => J::o(vec![("t", J::s("tailcall"))]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                        mir::AssertKind::Overflow(b, a, c) => (format!("overflow:{b:?}"), vec![a, c]),
                        mir::AssertKind::OverflowNeg(a) => ("overflowneg".to_string(), vec![a]),
                        mir::AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![a]),
                        mir::AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![a]),
                        _ => ("other".to_string(), vec![]),
                    };
                    J::o(vec![
                        ("t", J::s("assert")),
                        ("c", self.operand(cond, body, env)),
                        ("e", J::B(*expected)),
                        ("k", J::s(k)),
                        ("ops", J::A(ops.into_iter().map(|o| self.operand(o, body, env)).collect())),
                        ("to", bb(target)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::o(vec![("t", J::s("goto")), ("to", bb(real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::o(vec![("t", J::s("goto")), ("to", bb(real_target))])
                }
                TerminatorKind::InlineAsm { .. } => J::o(vec![("t", J::s("asm"))]),
                _ => J::o(vec![("t", J::s("other")), ("s", J::s(format!("{:?}", t.kind)))]),
            };
            blocks.push(J::o(vec![
                ("st", J::A(st)),
                ("t", tj),
                ("cleanup", J::B(b.is_cleanup)),
                ("span", self.span(t.source_info.span)),
            ]));
        }
        J::o(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::I(l.as_u32() as i128))),
        ])
    }
}

impl<'tcx> Cx<'tcx> {
    /// Identity arguments, except that a parameter bounded by a local trait
    /// with exactly one (non-generic) local impl is instantiated with it.
    fn root_args(&self, d: DefId) -> ty::GenericArgsRef<'tcx> {
        let tcx = self.tcx;
        let clauses = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut sub: HashMap<u32, Ty<'tcx>> = HashMap::new();
        let keep = std::env::var_os("MIRDUMP_GENERIC").is_some();
        for (c, _) in clauses {
            if keep {
                break;
            }
            if let ty::ClauseKind::Trait(t) = c.skip_norm_wip().kind().skip_binder() {
                let tr = t.trait_ref.def_id;
                if let (true, ty::Param(p)) = (tr.is_local(), t.trait_ref.self_ty().kind()) {
                    if p.name.as_str() == "Self" {
                        continue;
                    }
                    let impls: Vec<DefId> = tcx.all_impls(tr).collect();
                    if impls.len() == 1 && impls[0].is_local() && tcx.generics_of(impls[0]).count() == 0 {
                        sub.insert(p.index, tcx.type_of(impls[0]).instantiate_identity().skip_norm_wip());
                    }
                }
            }
        }
        tcx.erase_and_anonymize_regions(ty::GenericArgs::for_item(tcx, d, |param, _| {
            if let Some(t) = sub.get(&param.index) {
                (*t).into()
            } else {
                tcx.mk_param_from_def(param)
            }
        }))
    }
}

trait HasParam {
    fn has_non_region_param_pub(&self) -> bool;
}
impl<'tcx> HasParam for mir::Const<'tcx> {
    fn has_non_region_param_pub(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_non_region_param()
    }
}

/// one line per exported item: what a dependent crate can name and rely on
fn api_of(tcx: TyCtxt<'_>, d: DefId, exported: bool, out: &mut Vec<String>) {
    let preds = |d: DefId| {
        let mut v: Vec<String> =
            tcx.clauses_of(d).instantiate_identity(tcx).into_iter().map(|(p, _)| tystr(p.skip_norm_wip())).collect();
        v.sort();
        v.join(", ")
    };
    match tcx.def_kind(d) {
        DefKind::Impl { .. } => {
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let Some(t) = tcx.impl_opt_trait_ref(d) {
                out.push(format!("impl {} for {} where {}", tystr(t.instantiate_identity().skip_norm_wip()), tystr(st), preds(d)));
            }
        }
        _ if !exported => {}
        DefKind::Fn | DefKind::AssocFn => {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            out.push(format!("fn {}: {} where {}", path(tcx, d), tystr(sig), preds(d)));
        }
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
            let def = tcx.adt_def(d);
            out.push(format!("type {} where {}", path(tcx, d), preds(d)));
            for v in def.variants() {
                for f in v.fields.iter() {
                    if def.is_enum() || f.vis.is_public() {
                        out.push(format!(
                            "field {}::{}::{}: {}",
                            path(tcx, d),
                            v.name,
                            f.name,
                            tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                        ));
                    }
                }
                if def.is_enum() {
                    out.push(format!("variant {}::{}", path(tcx, d), v.name));
                }
            }
        }
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
            out.push(format!("const {}: {}", path(tcx, d), tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
        }
        DefKind::Trait => {
            let its: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .map(|a| format!("{}{}", a.opt_name().map_or(String::new(), |s| s.to_string()), if a.defaultness(tcx).has_value() { "" } else { "!" }))
                .collect();
            out.push(format!("trait {} where {}", path(tcx, d), preds(d)));
            for i in its {
                out.push(format!("trait-item {}::{}", path(tcx, d), i));
            }
        }
        DefKind::Mod => {
            out.push(format!("mod {}", path(tcx, d)));
        }
        DefKind::TyAlias => {
            out.push(format!("alias {} = {}", path(tcx, d), tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
        }
        _ => {}
    }
    if let DefKind::Mod = tcx.def_kind(d) {
        if exported || d.is_crate_root() {
            for c in tcx.module_children_local(d.expect_local()) {
                if c.vis.is_public() {
                    out.push(format!("name {}::{} = {:?}", path(tcx, d), c.ident, c.res.opt_def_id().map(|x| path(tcx, x))));
                }
            }
        }
    }
}

struct UnsafeFinder<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    found: Vec<J>,
}
impl<'a, 'tcx> Visitor<'tcx> for UnsafeFinder<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.cx.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.found.push(J::o(vec![
                ("what", J::s(format!("unsafe block ({src:?})"))),
                ("span", self.cx.span(b.span)),
            ]));
        }
        intravisit::walk_block(self, b);
    }
}

/// a digest of the code of a body: no positions, no definition numbers
fn fingerprint<'tcx>(b: &mir::Body<'tcx>, prom: Option<&rustc_index::IndexVec<mir::Promoted, mir::Body<'tcx>>>) -> String {
    use std::fmt::Write;
    use std::hash::{Hash, Hasher};
    fn text(b: &mir::Body<'_>, s: &mut String) {
        for l in b.local_decls.iter() {
            let _ = write!(s, "{};", l.ty);
        }
        for bb in b.basic_blocks.iter() {
            for x in bb.statements.iter() {
                let _ = write!(s, "{:?};", x.kind);
            }
            let _ = write!(s, "{:?};;", bb.terminator().kind);
        }
    }
    let mut s = String::new();
    ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!({
        text(b, &mut s);
        for p in prom.into_iter().flat_map(|p| p.iter()) {
            text(p, &mut s);
        }
    })));
    // DefId(0:12 ~ krate[1a2b]::path) -> path
    let mut t = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("DefId(") {
        t.push_str(&rest[..i]);
        rest = &rest[i..];
        let j = rest.find(" ~ ").map_or(6, |j| j + 3);
        rest = &rest[j..];
        if let (Some(a), Some(z)) = (rest.find('['), rest.find(']')) {
            if a < z {
                t.push_str(&rest[..a]);
                rest = &rest[z + 1..];
            }
        }
    }
    t.push_str(rest);
    if std::env::var_os("MIRDUMP_BODYTEXT").is_some() {
        return t;
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    format!("{:016x}", h.finish())
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx {
            tcx,
            adts: RefCell::new(BTreeMap::new()),
            env: Cell::new(None),
            ids: RefCell::new(HashMap::new()),
            queue: RefCell::new(VecDeque::new()),
            opaque: std::env::var("MIRDUMP_OPAQUE").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|l| l.local_def_index);
        let light = std::env::var_os("MIRDUMP_LIGHT").is_some();
        let mut bodies = vec![];
        for l in keys {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let isconst = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if !isfn && !isconst {
                continue;
            }
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let (b, prom) = if isfn {
                (tcx.optimized_mir(d), Some(tcx.promoted_mir(d)))
            } else {
                (tcx.mir_for_ctfe(d), Some(tcx.promoted_mir(d)))
            };
            if light {
                bodies.push(J::A(vec![J::s(path(tcx, d)), J::s(fingerprint(b, prom))]));
                continue;
            }
            let mut o = vec![
                ("id", cx.did(d)),
                ("path", J::s(path(tcx, d))),
                ("name", J::s(tcx.opt_item_name(d).map_or(String::new(), |s| s.to_string()))),
                ("kind", J::s(format!("{kind:?}"))),
                ("isfn", J::B(isfn)),
                ("span", cx.span(tcx.def_span(d))),
                ("exported", J::B(ev.is_exported(l))),
                ("reachable", J::B(ev.is_reachable(l))),
                ("generics", cx.generics(d)),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("inputs", J::A(sig.inputs().iter().map(|t| cx.ty(*t)).collect())));
                o.push(("output", cx.ty(sig.output())));
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("constfn", J::B(tcx.is_const_fn(d))));
                o.push(("vis", J::B(tcx.visibility(d).is_public())));
                o.push(("derived", J::B(tcx.def_span(d).from_expansion())));
                let mut preds = vec![];
                for (p, _) in tcx.clauses_of(d).instantiate_identity(tcx) {
                    preds.push(J::s(tystr(p.skip_norm_wip())));
                }
                o.push(("preds", J::A(preds)));
                if let Some(i) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                    if let Some(t) = tcx.impl_opt_trait_id(i) {
                        o.push(("impl_trait", J::s(path(tcx, t))));
                    }
                }
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait", J::s(path(tcx, t))));
                }
            }
            if kind == DefKind::Closure {
                let p = tcx.typeck_root_def_id(d);
                o.push(("root", cx.did(p)));
            }
            let is_closure = matches!(kind, DefKind::Closure);
            if isfn && !is_closure {
                cx.env.set(Some((l, env)));
                let args = cx.root_args(d);
                if let Some(i) = cx.enqueue(ty::Instance::new_raw(d, args)) {
                    o.push(("inst", J::I(i as i128)));
                }
                cx.env.set(None);
            } else if !isfn {
                if matches!(kind, DefKind::Static { .. }) {
                    cx.env.set(Some((l, env)));
                }
                o.push(("body", cx.body(b, env)));
                if let Some(p) = prom {
                    o.push(("promoted", J::A(p.iter().map(|b| cx.body(b, env)).collect())));
                }
                cx.env.set(None);
            }
            fns.push(J::o(o));
        }
        let mut insts = vec![];
        loop {
            let n = cx.queue.borrow_mut().pop_front();
            let Some((inst, root, id)) = n else { break };
            let env = ty::TypingEnv::post_analysis(tcx, root.to_def_id());
            cx.env.set(Some((root, env)));
            let mut o = vec![
                ("i", J::I(id as i128)),
                ("path", J::s(path(tcx, inst.def_id()))),
                ("id", cx.did(inst.def_id())),
                ("local", J::B(inst.def_id().is_local())),
                ("args", cx.args(inst.args)),
                ("root", cx.did(root.to_def_id())),
                ("span", cx.span(tcx.def_span(inst.def_id()))),
                ("kind", J::s(match inst.def {
                    ty::InstanceKind::Item(d) => format!("{:?}", tcx.def_kind(d)),
                    o => format!("shim {o:?}"),
                })),
            ];
            let body = tcx.instance_mir(inst.def).clone();
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
                Ok(b) => {
                    o.push(("body", cx.body(&b, env)));
                }
                Err(_) => o.push(("error", J::s("normalization"))),
            }
            if let ty::InstanceKind::Item(d) = inst.def {
                if d.is_local() || tcx.is_mir_available(d) {
                    let mut ps = vec![];
                    for p in tcx.promoted_mir(d).iter() {
                        match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p.clone())) {
                            Ok(b) => ps.push(cx.body(&b, env)),
                            Err(_) => ps.push(J::Null),
                        }
                    }
                    o.push(("promoted", J::A(ps)));
                }
            }
            insts.push(J::o(o));
            cx.env.set(None);
        }
        // items
        let mut impls = vec![];
        let mut statics = vec![];
        let mut unsafes = UnsafeFinder { cx: &cx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut unsafes);
        let mut found = std::mem::take(&mut unsafes.found);
        let mut items = vec![];
        let mut api: Vec<String> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            api_of(tcx, d, ev.is_exported(id), &mut api);
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| t.instantiate_identity().skip_norm_wip());
                    impls.push(J::o(vec![
                        ("self", cx.ty(st)),
                        ("trait", tr.map_or(J::Null, |t| J::s(path(tcx, t.def_id)))),
                        ("traitref", tr.map_or(J::Null, |t| J::s(tystr(t)))),
                        ("span", cx.span(tcx.def_span(d))),
                        (
                            "items",
                            J::A(tcx
                                .associated_items(d)
                                .in_definition_order()
                                .map(|a| {
                                    J::o(vec![
                                        ("id", cx.did(a.def_id)),
                                        ("n", J::s(a.opt_name().map_or(String::new(), |s| s.to_string()))),
                                        ("kind", J::s(format!("{:?}", a.as_def_kind()))),
                                    ])
                                })
                                .collect()),
                        ),
                    ]));
                    if tr.is_some() && tcx.impl_trait_header(d).safety.is_unsafe() {
                        found.push(J::o(vec![
                            ("what", J::s("unsafe impl")),
                            ("trait", tr.map_or(J::Null, |t| J::s(path(tcx, t.def_id)))),
                            ("span", cx.span(tcx.def_span(d))),
                        ]));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    if tcx.codegen_fn_attrs(d).contains_extern_indicator() {
                        found.push(J::o(vec![("what", J::s("exported symbol")), ("span", cx.span(tcx.def_span(d)))]));
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, d);
                    statics.push(J::o(vec![
                        ("path", J::s(path(tcx, d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", cx.ty(t)),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("span", cx.span(tcx.def_span(d))),
                        ("tls", J::B(tcx.is_thread_local_static(d))),
                    ]));
                }
                DefKind::GlobalAsm => {
                    found.push(J::o(vec![("what", J::s("global assembly")), ("span", cx.span(tcx.def_span(d)))]))
                }
                DefKind::Union => {
                    found.push(J::o(vec![("what", J::s("union")), ("span", cx.span(tcx.def_span(d)))]));
                    cx.adt(tcx.adt_def(d))
                }
                DefKind::ForeignMod => {
                    found.push(J::o(vec![("what", J::s("extern block")), ("span", cx.span(tcx.def_span(d)))]))
                }
                DefKind::Struct | DefKind::Enum => cx.adt(tcx.adt_def(d)),
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    if sig.safety().is_unsafe() {
                        found.push(J::o(vec![("what", J::s("unsafe fn")), ("span", cx.span(tcx.def_span(d)))]));
                    }
                    if tcx.codegen_fn_attrs(d).contains_extern_indicator() {
                        found.push(J::o(vec![("what", J::s("exported symbol")), ("span", cx.span(tcx.def_span(d)))]));
                    }
                }
                _ => {}
            }
            if matches!(
                tcx.def_kind(d),
                DefKind::Struct
                    | DefKind::Enum
                    | DefKind::Fn
                    | DefKind::AssocFn
                    | DefKind::Trait
                    | DefKind::TyAlias
                    | DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::Static { .. }
                    | DefKind::Mod
                    | DefKind::Variant
                    | DefKind::Use
            ) {
                items.push(J::A(vec![
                    J::s(path(tcx, d)),
                    J::s(format!("{:?}", tcx.def_kind(d))),
                    J::B(ev.is_exported(id)),
                ]));
            }
        }
        let crates: Vec<J> =
            tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
        // crates named by `extern crate` items, including the injected prelude one
        let mut externs = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::ExternCrate = tcx.def_kind(id) {
                if let Some(c) = tcx.extern_mod_stmt_cnum(id) {
                    externs.push(J::s(tcx.crate_name(c).to_string()));
                }
            }
        }
        // lint level of unsafe_code at the crate root
        let root = rustc_hir::CRATE_HIR_ID;
        let lvl = tcx.lint_level_spec_at_node(rustc_lint_defs::builtin::UNSAFE_CODE, root);
        let j = J::o(vec![
            ("crate", J::s(krate.clone())),
            ("fns", J::A(fns)),
            ("insts", J::A(insts)),
            ("adts", J::A(cx.adts.borrow().values().cloned().collect())),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("unsafe", J::A(found)),
            ("items", J::A(items)),
            ("crates", J::A(crates)),
            ("api", J::A(api.into_iter().map(J::s).collect())),
            ("externs", J::A(externs)),
            ("bodies", J::A(bodies)),
            ("unsafe_code_level", J::s(format!("{:?}", lvl))),
            (
                "cfg",
                J::A(tcx
                    .sess
                    .config
                    .iter()
                    .map(|(k, v)| J::s(format!("{}{}", k, v.map_or(String::new(), |v| format!("={v}")))))
                    .collect()),
            ),
        ]);
        let p = format!("{}/{}.json", self.out, krate);
        std::fs::write(&p, j.render()).expect("write mirdump output");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirdump <rustc> <args...>
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_real = args.iter().any(|a| a == "--crate-name");
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() || true;
    match out {
        Some(out) if is_real && primary => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
            args.push("-Zinline-mir=no".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Zub-checks=no".into());
            if std::env::var("MIRDUMP_DEBUG_ASSERTIONS").map_or(false, |v| v == "off") {
                args.push("-Cdebug-assertions=off".into());
            }
            let mut cb = Cb { out };
            rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
        }
        _ => {
            let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
            std::process::exit(st.code().unwrap_or(1));
        }
    }
}

