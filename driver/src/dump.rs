use crate::json::J;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<J>,
    queue: Vec<(Instance, usize)>,
    local: String,
    bodies: usize,
}

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}
fn n(i: usize) -> J {
    J::Int(i as i128)
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let local = rustc_public::local_crate().name.to_string();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: vec![],
        local,
        bodies: 0,
    };
    cx.run()
}

/// crates whose bodies are dumped when their instances are reached
const STD: &[&str] = &["core", "alloc", "std"];
const FOLLOW: &[&str] = &["serde", "serde_core", "serde_json"];

impl<'tcx> Cx<'tcx> {
    fn run(&mut self) -> J {
        let mut roots = vec![];
        let mut generic = vec![];
        let krate = rustc_public::local_crate();
        let mut defs: Vec<FnDef> = krate.fn_defs();
        defs.sort_by_key(|d| d.name().to_string());
        let mut fns = vec![];
        for d in &defs {
            let did = internal(self.tcx, d.def_id());
            let gens = self.tcx.generics_of(did);
            let needs_ty = (0..gens.count()).any(|i| {
                !matches!(
                    gens.param_at(i, self.tcx).kind,
                    rustc_middle::ty::GenericParamDefKind::Lifetime
                )
            });
            if needs_ty {
                generic.push(*d);
            } else {
                let args = GenericArgs(
                    (0..gens.count())
                        .map(|_| GenericArgKind::Lifetime(erased()))
                        .collect(),
                );
                match Instance::resolve(*d, &args) {
                    Ok(i) => roots.push((d.name().to_string(), i)),
                    Err(_) => {}
                }
            }
            fns.push(self.fn_item(*d, needs_ty));
        }
        let mut root_out = vec![];
        for (name, i) in roots {
            let id = self.inst(i);
            root_out.push(obj(vec![("name", J::s(name)), ("inst", n(id))]));
        }
        let gen_roots = self.generic_roots(&generic);
        for (name, i) in gen_roots {
            let id = self.inst(i);
            root_out.push(obj(vec![
                ("name", J::s(name)),
                ("inst", n(id)),
                ("generic", J::Bool(true)),
            ]));
        }
        // trait impls of the local crate
        let mut impls = vec![];
        for im in rustc_public::local_crate().trait_impls() {
            let ti = im.trait_impl();
            let tr = &ti.value;
            let tname = tr.def_id.name().to_string();
            let st = tr.self_ty();
            let mut methods = vec![];
            let idid = internal(self.tcx, im.def_id());
            for a in self.tcx.associated_item_def_ids(idid) {
                methods.push(J::s(self.tcx.def_path_str(*a)));
            }
            let tyid = if has_param(st) { J::Null } else { n(self.ty(st)) };
            impls.push(obj(vec![
                ("trait", J::s(tname)),
                ("self", J::s(format!("{}", st))),
                ("ty", tyid),
                ("methods", J::Arr(methods)),
                ("derived", J::Bool(self.is_derived(idid))),
            ]));
        }
        while let Some((i, id)) = self.queue.pop() {
            self.do_inst(i, id);
        }
        // ADTs of the crate
        let mut adts = vec![];
        for a in rustc_public::local_crate().adts() {
            adts.push(self.adt_item(a));
        }
        while let Some((i, id)) = self.queue.pop() {
            self.do_inst(i, id);
        }
        let statics = rustc_public::local_crate()
            .statics()
            .iter()
            .map(|s| {
                let did = internal(self.tcx, s.def_id());
                obj(vec![
                    ("path", J::s(s.name().to_string())),
                    ("ty", J::s(format!("{}", s.ty()))),
                    ("mut", J::Bool(self.tcx.is_mutable_static(did))),
                    ("freeze", J::Bool(self.is_freeze(s.ty()))),
                ])
            })
            .collect();
        let items = self.items();
        let consts = self.consts();
        while let Some((i, id)) = self.queue.pop() {
            self.do_inst(i, id);
        }
        obj(vec![
            ("crate", J::s(self.local.clone())),
            ("bodies", n(self.bodies)),
            ("roots", J::Arr(root_out)),
            ("fns", J::Arr(fns)),
            ("impls", J::Arr(impls)),
            ("adts", J::Arr(adts)),
            ("statics", J::Arr(statics)),
            ("items", J::Arr(items)),
            ("consts", J::Arr(consts)),
            ("types", J::Arr(std::mem::take(&mut self.ty_out))),
            ("insts", J::Arr(std::mem::take(&mut self.inst_out))),
        ])
    }

    fn is_freeze(&self, ty: Ty) -> bool {
        let t = internal(self.tcx, ty);
        t.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
    }

    fn is_derived(&self, did: rustc_span::def_id::DefId) -> bool {
        self.tcx.is_automatically_derived(did)
    }

    /// every local item with its visibility
    /// the values of the crate's constants that hold texts
    fn consts(&mut self) -> Vec<J> {
        let mut out = vec![];
        for it in rustc_public::all_local_items() {
            if !matches!(it.kind(), rustc_public::ItemKind::Const | rustc_public::ItemKind::Static) || it.requires_monomorphization() {
                continue;
            }
            let t = it.ty();
            let ts = format!("{}", t);
            if !(ts.contains("str") && (ts.contains('[') || ts.contains("&"))) {
                continue;
            }
            if let Ok(i) = Instance::try_from(it) {
                let a = match it.kind() {
                    rustc_public::ItemKind::Static => rustc_public::mir::mono::StaticDef::try_from(it).ok().and_then(|s| s.eval_initializer().ok()),
                    _ => i.try_const_eval(t).ok(),
                };
                if let Some(a) = a {
                    let v = self.decode(&a, 0, t, 0);
                    out.push(obj(vec![("path", J::s(it.name().to_string())), ("value", v)]));
                }
            }
        }
        out
    }

    fn items(&self) -> Vec<J> {
        let mut out = vec![];
        let ev = self.tcx.effective_visibilities(());
        for ld in self.tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let kind = self.tcx.def_kind(did);
            use rustc_hir::def::DefKind::*;
            match kind {
                Mod | Struct | Enum | Union | Trait | TyAlias | Fn | Const { .. } | Static { .. }
                | AssocFn | AssocConst { .. } | Field | Macro(_) | Use => {}
                _ => continue,
            }
            let span = self.tcx.def_span(did);
            let loc = self.tcx.sess.source_map().lookup_char_pos(span.lo());
            let in_trait_impl = match kind {
                AssocFn => self
                    .tcx
                    .impl_of_assoc(did)
                    .map_or(false, |i| self.tcx.impl_opt_trait_id(i).is_some()),
                _ => false,
            };
            let vis = if in_trait_impl { "trait".to_string() } else {
                if self.tcx.visibility(did).is_public() { "pub".to_string() } else { "restricted".to_string() }
            };
            out.push(obj(vec![
                ("path", J::s(self.tcx.def_path_str(did))),
                ("kind", J::s(format!("{:?}", kind))),
                ("vis", J::s(vis)),
                ("reachable", J::Bool(ev.is_reachable(ld))),
                ("exported", J::Bool(ev.is_exported(ld))),
                ("macro", J::Bool(span.from_expansion())),
                ("loc", J::s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))),
            ]));
        }
        out
    }

    fn fn_item(&self, d: FnDef, generic: bool) -> J {
        let did = internal(self.tcx, d.def_id());
        let sig = self.tcx.fn_sig(did).skip_binder();
        let safe = sig.safety().is_safe();
        obj(vec![
            ("path", J::s(d.name().to_string())),
            ("sig", J::s(format!("{}", sig.skip_binder()))),
            ("generic", J::Bool(generic)),
            ("unsafe", J::Bool(!safe)),
            ("vis", J::Bool(self.tcx.visibility(did).is_public())),
        ])
    }

    fn adt_item(&mut self, a: AdtDef) -> J {
        let did = internal(self.tcx, a.def_id());
        let ev = self.tcx.effective_visibilities(());
        let ld = did.expect_local();
        let mut vs = vec![];
        for v in a.variants() {
            let mut fs = vec![];
            let iv = &self.tcx.adt_def(did).variants()[rustc_abi::VariantIdx::from_usize(vs.len())];
            for (fi, f) in v.fields().iter().enumerate() {
                let t = f.ty();
                let fdid = iv.fields[rustc_abi::FieldIdx::from_usize(fi)].did;
                fs.push(obj(vec![
                    ("name", J::s(f.name.to_string())),
                    ("tystr", J::s(format!("{}", t))),
                    ("pub", J::Bool(self.tcx.visibility(fdid).is_public())),
                    ("ty", if has_param(t) { J::Null } else { n(self.ty(t)) }),
                ]));
            }
            vs.push(obj(vec![
                ("name", J::s(v.name().to_string())),
                ("fields", J::Arr(fs)),
            ]));
        }
        obj(vec![
            ("path", J::s(a.name().to_string())),
            ("reachable", J::Bool(ev.is_reachable(ld))),
            ("pub", J::Bool(self.tcx.visibility(did).is_public())),
            ("non_exhaustive", J::Bool(self.tcx.adt_def(did).is_variant_list_non_exhaustive()
                || (a.kind() == AdtKind::Struct && self.tcx.adt_def(did).non_enum_variant().is_field_list_non_exhaustive()))),
            ("kind", J::s(format!("{:?}", a.kind()))),
            ("variants", J::Arr(vs)),
        ])
    }

    fn find_path(&self, krate: &str, path: &[&str]) -> Option<rustc_span::def_id::DefId> {
        for c in self.tcx.crates(()) {
            if self.tcx.crate_name(*c).as_str() != krate {
                continue;
            }
            let mut cur = c.as_def_id();
            let mut ok = true;
            for (i, p) in path.iter().enumerate() {
                let mut next = None;
                for ch in self.tcx.module_children(cur) {
                    if ch.ident.name.as_str() == *p {
                        if let Some(d) = ch.res.opt_def_id() {
                            use rustc_hir::def::DefKind::*;
                            let k = self.tcx.def_kind(d);
                            let last = i + 1 == path.len();
                            if (!last && matches!(k, Mod | Enum | Trait))
                                || (last && matches!(k, Struct | Enum | Trait | Fn))
                            {
                                next = Some(d);
                                break;
                            }
                        }
                    }
                }
                match next {
                    Some(d) => cur = d,
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Some(cur);
            }
        }
        None
    }

    fn adt_ty(
        &self,
        krate: &str,
        path: &[&str],
        targs: &[rustc_middle::ty::Ty<'tcx>],
    ) -> Option<rustc_middle::ty::Ty<'tcx>> {
        let did = self.find_path(krate, path)?;
        let tcx = self.tcx;
        let mut it = targs.iter();
        let args = rustc_middle::ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => it.next().copied().unwrap_or(tcx.types.unit).into(),
        });
        Some(rustc_middle::ty::Ty::new_adt(tcx, tcx.adt_def(did), args))
    }

    fn string_ty(&self) -> Option<rustc_middle::ty::Ty<'tcx>> {
        self.adt_ty("alloc", &["string", "String"], &[])
    }

    fn vec_ty(&self, e: rustc_middle::ty::Ty<'tcx>) -> Option<rustc_middle::ty::Ty<'tcx>> {
        let g = self.adt_ty("alloc", &["alloc", "Global"], &[])?;
        self.adt_ty("alloc", &["vec", "Vec"], &[e, g])
    }

    /// candidate types for the type parameters of generic local functions
    fn candidates(&self) -> Vec<rustc_middle::ty::Ty<'tcx>> {
        let tcx = self.tcx;
        let mut v = vec![];
        if let Some(s) = self.string_ty() {
            if let Some(vs) = self.vec_ty(s) {
                v.push(vs);
            }
            v.push(s);
        }
        v.push(rustc_middle::ty::Ty::new_imm_ref(
            tcx,
            tcx.lifetimes.re_erased,
            tcx.types.str_,
        ));
        // a serializer and a deserializer
        if let Some(vu) = self.vec_ty(tcx.types.u8) {
            let w = rustc_middle::ty::Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, vu);
            if let Some(cf) = self.adt_ty("serde_json", &["ser", "CompactFormatter"], &[]) {
                if let Some(s) = self.adt_ty("serde_json", &["ser", "Serializer"], &[w, cf]) {
                    v.push(rustc_middle::ty::Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, s));
                }
            }
        }
        if let Some(r) = self.adt_ty("serde_json", &["de", "StrRead"], &[]) {
            if let Some(d) = self.adt_ty("serde_json", &["de", "Deserializer"], &[r]) {
                v.push(rustc_middle::ty::Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, d));
            }
        }
        if let Some(e) = self.adt_ty("serde_json", &["error", "Error"], &[]) {
            v.push(e);
        }
        // what a deserializer hands to the visitor of a map, a sequence or an enum
        if let Some(r) = self.adt_ty("serde_json", &["de", "StrRead"], &[]) {
            for t in ["MapAccess", "SeqAccess", "EnumAccess"] {
                for k in ["serde_core", "serde"] {
                    if let Some(tr) = self.find_path(k, &["de", t]) {
                        for imp in tcx.all_impls(tr) {
                            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            if let rustc_middle::ty::TyKind::Adt(d, _) = st.kind() {
                                let name = tcx.def_path_str(d.did());
                                if tcx.crate_name(d.did().krate).as_str() == "serde_json" && name.starts_with("serde_json::de::") {
                                    let args = rustc_middle::ty::GenericArgs::for_item(tcx, d.did(), |p, _| match p.kind {
                                        rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                                        _ => r.into(),
                                    });
                                    v.push(rustc_middle::ty::Ty::new_adt(tcx, tcx.adt_def(d.did()), args));
                                }
                            }
                        }
                        break;
                    }
                }
            }
        }
        v.push(tcx.types.usize);
        v
    }

    /// Instantiates generic local functions with types that satisfy their bounds.
    fn generic_roots(&mut self, defs: &[FnDef]) -> Vec<(String, Instance)> {
        let tcx = self.tcx;
        let cands = self.candidates();
        let mut out = vec![];
        for d in defs {
            let did = internal(tcx, d.def_id());
            let gens = tcx.generics_of(did);
            let mut params = vec![];
            for i in 0..gens.count() {
                let p = gens.param_at(i, tcx);
                if matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Type { .. }) {
                    params.push(i);
                }
            }
            if params.len() > 3 {
                continue;
            }
            // try all tuples in order
            let mut idx = vec![0usize; params.len()];
            let mut found = 0;
            'outer: loop {
                let mut c = 0;
                let args = rustc_middle::ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    rustc_middle::ty::GenericParamDefKind::Type { .. } => {
                        let t = cands[idx[c]];
                        c += 1;
                        t.into()
                    }
                    rustc_middle::ty::GenericParamDefKind::Const { .. } => tcx.types.unit.into(),
                });
                let preds = tcx.clauses_of(did).instantiate(tcx, args);
                let preds: Vec<_> = preds
                    .clauses
                    .into_iter()
                    .map(|p| tcx.erase_and_anonymize_regions(p.skip_norm_wip()))
                    .collect();
                if !rustc_trait_sel_impossible(tcx, preds) {
                    let sargs = GenericArgs(
                        args.iter()
                            .map(|a| match a.kind() {
                                rustc_middle::ty::GenericArgKind::Type(t) => {
                                    GenericArgKind::Type(rustc_public::rustc_internal::stable(t))
                                }
                                _ => GenericArgKind::Lifetime(erased()),
                            })
                            .collect(),
                    );
                    if let Ok(i) = Instance::resolve(*d, &sargs) {
                        out.push((d.name().to_string(), i));
                        found += 1;
                    }
                }
                if found >= 2 {
                    break;
                }
                let mut k = 0;
                loop {
                    if k == idx.len() {
                        break 'outer;
                    }
                    idx[k] += 1;
                    if idx[k] < cands.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
            }
        }
        out
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(id) = self.insts.get(&i) {
            return *id;
        }
        let id = self.inst_out.len();
        self.insts.insert(i, id);
        self.inst_out.push(J::Null);
        self.queue.push((i, id));
        id
    }

    fn mentions_local(&self, args: &GenericArgs, depth: usize) -> bool {
        args.0.iter().any(|a| match a {
            GenericArgKind::Type(t) => self.ty_local(*t, depth),
            _ => false,
        })
    }

    fn ty_local(&self, t: Ty, depth: usize) -> bool {
        if depth > 6 {
            return false;
        }
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(d, a) => d.krate().is_local || self.mentions_local(&a, depth + 1),
                RigidTy::Closure(d, a) => d.krate().is_local || self.mentions_local(&a, depth + 1),
                RigidTy::FnDef(d, a) => d.krate().is_local || self.mentions_local(&a, depth + 1),
                RigidTy::Array(t, _)
                | RigidTy::Slice(t)
                | RigidTy::RawPtr(t, _)
                | RigidTy::Ref(_, t, _) => self.ty_local(t, depth + 1),
                RigidTy::Tuple(ts) => ts.iter().any(|t| self.ty_local(*t, depth + 1)),
                RigidTy::Dynamic(ps, _) => ps.iter().any(|p| match &p.value {
                    ExistentialPredicate::Trait(t) => t.def_id.krate().is_local,
                    _ => false,
                }),
                _ => false,
            },
            _ => false,
        }
    }

    fn do_inst(&mut self, i: Instance, id: usize) {
        let path = i.def.name().to_string();
        let did = internal(self.tcx, i.def.def_id());
        let krate = self.tcx.crate_name(did.krate).to_string();
        let local = did.is_local();
        let args = i.args();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let want = local
            || (STD.contains(&krate.as_str()) && std_inline(&path))
            || ((FOLLOW.contains(&krate.as_str()) || STD.contains(&krate.as_str()))
                && self.mentions_local(&args, 0));
        let mut o = vec![
            ("path", J::s(path)),
            ("full", J::s(i.name().to_string())),
            ("crate", J::s(krate)),
            ("local", J::Bool(local)),
            ("kind", J::s(kind)),
            ("args", self.args(&args)),
        ];
        if let Some(t) = self.tcx.impl_of_assoc(did).and_then(|im| self.tcx.impl_opt_trait_id(im)) {
            o.push(("trait", J::s(self.tcx.def_path_str(t))));
            o.push(("trait_item", J::s(self.tcx.item_name(did).to_string())));
        } else if let Some(t) = self.tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(self.tcx.def_path_str(t))));
            o.push(("trait_item", J::s(self.tcx.item_name(did).to_string())));
        }
        if want && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
            let is_drop = i.kind == InstanceKind::Shim && i.name().to_string().contains("drop_in_place");
            if !is_drop {
                if let Some(b) = i.body() {
                    self.bodies += 1;
                    let bj = self.body(&b);
                    o.push(("body", bj));
                }
            }
        }
        self.inst_out[id] = J::Obj(o);
    }

    fn span(&self, s: &Span) -> J {
        let l = s.get_lines();
        J::s(format!("{}:{}", s.get_filename(), l.start_line))
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(J::Arr(vec![n(l), J::s(v.name.to_string())]));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s) {
                    st.push(j);
                }
            }
            let t = self.term(&bb.terminator);
            blocks.push(obj(vec![("s", J::Arr(st)), ("t", t)]));
        }
        obj(vec![
            ("argc", n(b.arg_locals().len())),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("spread", b.spread_arg().map_or(J::Null, n)),
            ("span", self.span(&b.span)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn stmt(&mut self, s: &Statement) -> Option<J> {
        Some(match &s.kind {
            StatementKind::Assign(p, r) => J::Arr(vec![
                J::s("="),
                self.place(p),
                self.rvalue(r),
                self.span(&s.source_info.span),
            ]),
            StatementKind::SetDiscriminant { place, variant_index } => J::Arr(vec![
                J::s("setdisc"),
                self.place(place),
                J::s(format!("{:?}", variant_index)),
            ]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => return None,
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                J::Arr(vec![J::s("copy_nonoverlapping")])
            }
            _ => return None,
        })
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => J::Arr(vec![J::s("f"), n(*i), n(self.ty(*t))]),
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::Int(*offset as i128),
                    J::Int(*min_length as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("sub"),
                    J::Int(*from as i128),
                    J::Int(*to as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Downcast(v) => J::Arr(vec![
                    J::s("v"),
                    n(rustc_public_bridge::IndexedVal::to_index(v)),
                ]),
                ProjectionElem::OpaqueCast(t) => J::Arr(vec![J::s("oc"), n(self.ty(*t))]),
            });
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.konst(&c.const_);
                J::Arr(vec![J::s("k"), n(t), v])
            }
            Operand::RuntimeChecks(_) => J::Arr(vec![J::s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), pl])])
            }
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(*m == Mutability::Mut),
                self.place(p),
            ]),
            Rvalue::AddressOf(k, p) => J::Arr(vec![
                J::s("addr"),
                J::Bool(matches!(k, RawPtrKind::Mut)),
                self.place(p),
            ]),
            Rvalue::BinaryOp(op, a, b) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(a),
                self.operand(b),
            ]),
            Rvalue::CheckedBinaryOp(op, a, b) => J::Arr(vec![
                J::s("chk"),
                J::s(format!("{:?}", op)),
                self.operand(a),
                self.operand(b),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(a)])
            }
            Rvalue::Cast(k, o, t) => J::Arr(vec![
                J::s("cast"),
                J::s(format!("{:?}", k)),
                self.operand(o),
                n(self.ty(*t)),
            ]),
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("disc"), self.place(p)]),
            Rvalue::Len(p) => J::Arr(vec![J::s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => J::Arr(vec![
                J::s("repeat"),
                self.operand(o),
                c.eval_target_usize().map_or(J::Null, |x| J::Int(x as i128)),
            ]),
            Rvalue::ThreadLocalRef(c) => J::Arr(vec![J::s("tls"), J::s(c.name().to_string())]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match k {
                    AggregateKind::Array(t) => vec![J::s("array"), n(self.ty(*t))],
                    AggregateKind::Tuple => vec![J::s("tuple")],
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        vec![
                            J::s("adt"),
                            n(self.ty(t)),
                            n(rustc_public_bridge::IndexedVal::to_index(v)),
                            f.map_or(J::Null, n),
                        ]
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        vec![J::s("closure"), n(self.ty(t))]
                    }
                    AggregateKind::RawPtr(t, _) => vec![J::s("rawptr"), n(self.ty(*t))],
                    _ => vec![J::s("other")],
                };
                J::Arr(vec![J::s("agg"), J::Arr(kj), J::Arr(os)])
            }
        }
    }

    fn term(&mut self, t: &Terminator) -> J {
        let sp = self.span(&t.source_info.span);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target } => vec![J::s("goto"), n(*target)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets
                    .branches()
                    .map(|(v, b)| J::Arr(vec![J::Int(v as i128), n(b)]))
                    .collect();
                vec![J::s("switch"), self.operand(discr), J::Arr(br), n(targets.otherwise())]
            }
            TerminatorKind::Resume => vec![J::s("resume")],
            TerminatorKind::Abort => vec![J::s("abort")],
            TerminatorKind::Return => vec![J::s("return")],
            TerminatorKind::Unreachable => vec![J::s("unreachable")],
            TerminatorKind::Drop { place, target, .. } => {
                vec![J::s("drop"), self.place(place), n(*target)]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.callee(d, &a),
                        _ => self.operand(func),
                    },
                    _ => self.operand(func),
                };
                vec![
                    J::s("call"),
                    f,
                    J::Arr(args.iter().map(|a| self.operand(a)).collect()),
                    self.place(destination),
                    target.map_or(J::Null, n),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<&Operand>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                    AssertMessage::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                    AssertMessage::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                    AssertMessage::DivisionByZero(a) => ("divzero".into(), vec![a]),
                    AssertMessage::RemainderByZero(a) => ("remzero".into(), vec![a]),
                    _ => ("other".into(), vec![]),
                };
                let oj = ops.iter().map(|o| self.operand(o)).collect();
                vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::Bool(*expected),
                    J::s(k),
                    J::Arr(oj),
                    n(*target),
                ]
            }
            TerminatorKind::InlineAsm { .. } => vec![J::s("asm")],
        };
        v.push(sp);
        J::Arr(v)
    }

    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> J {
        let path = d.name().to_string();
        let did = internal(self.tcx, d.def_id());
        let tr = self.tcx.trait_of_assoc(did).map(|t| self.tcx.def_path_str(t));
        let mut o = vec![
            ("fn", J::s(path)),
            ("crate", J::s(self.tcx.crate_name(did.krate).to_string())),
            ("args", self.args(a)),
        ];
        if let Some(t) = tr {
            o.push(("trait", J::s(t)));
            o.push(("item", J::s(self.tcx.item_name(did).to_string())));
        }
        match Instance::resolve(d, a) {
            Ok(i) => {
                let id = self.inst(i);
                o.push(("inst", n(id)));
            }
            Err(_) => {}
        }
        J::Obj(o)
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        J::Arr(
            a.0.iter()
                .filter_map(|x| match x {
                    GenericArgKind::Type(t) => Some(n(self.ty(*t))),
                    GenericArgKind::Const(c) => {
                        Some(J::s(format!("const {}", c.eval_target_usize().map_or("?".into(), |x| x.to_string()))))
                    }
                    GenericArgKind::Lifetime(_) => None,
                })
                .collect(),
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let mut o = vec![("s", J::s(format!("{}", t)))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", J::s("bool"))),
                RigidTy::Char => o.push(("k", J::s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", J::s("int")));
                    o.push(("signed", J::Bool(true)));
                    o.push(("bits", n(i.num_bytes() * 8)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", J::s("int")));
                    o.push(("signed", J::Bool(false)));
                    o.push(("bits", n(i.num_bytes() * 8)));
                }
                RigidTy::Float(f) => {
                    o.push(("k", J::s("float")));
                    o.push(("name", J::s(format!("{:?}", f))));
                }
                RigidTy::Str => o.push(("k", J::s("str"))),
                RigidTy::Never => o.push(("k", J::s("never"))),
                RigidTy::Adt(d, a) => {
                    o.push(("k", J::s("adt")));
                    o.push(("path", J::s(d.name().to_string())));
                    o.push(("local", J::Bool(d.krate().is_local)));
                    o.push(("crate", J::s(d.krate().name.to_string())));
                    o.push(("akind", J::s(format!("{:?}", d.kind()))));
                    o.push(("args", self.args(&a)));
                    let deep = d.krate().is_local || adt_deep(&d.name().to_string());
                    if d.is_box() {
                        o.push(("box", J::Bool(true)));
                    }
                    if deep || d.kind() == AdtKind::Enum {
                        let mut vs = vec![];
                        for v in d.variants() {
                            let fs = v
                                .fields()
                                .iter()
                                .map(|f| {
                                    let ft = f.ty_with_args(&a);
                                    J::Arr(vec![J::s(f.name.to_string()), n(self.ty(ft))])
                                })
                                .collect();
                            let disc = if d.kind() == AdtKind::Enum {
                                J::Int(d.discriminant_for_variant(v.idx()).val as i128)
                            } else {
                                J::Null
                            };
                            vs.push(obj(vec![
                                ("name", J::s(v.name().to_string())),
                                ("disc", disc),
                                ("fields", J::Arr(fs)),
                            ]));
                        }
                        o.push(("variants", J::Arr(vs)));
                    }
                    let it = internal(self.tcx, t);
                    o.push(("needs_drop", J::Bool(it.needs_drop(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()))));
                }
                RigidTy::Array(e, c) => {
                    o.push(("k", J::s("array")));
                    o.push(("elem", n(self.ty(e))));
                    o.push(("len", c.eval_target_usize().map_or(J::Null, |x| J::Int(x as i128))));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", J::s("slice")));
                    o.push(("elem", n(self.ty(e))));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", J::s("ptr")));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                    o.push(("to", n(self.ty(e))));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", J::s("ref")));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                    o.push(("to", n(self.ty(e))));
                }
                RigidTy::Tuple(ts) => {
                    o.push(("k", J::s("tuple")));
                    let v = ts.iter().map(|t| n(self.ty(*t))).collect();
                    o.push(("elems", J::Arr(v)));
                }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", J::s("fndef")));
                    let c = self.callee(d, &a);
                    o.push(("callee", c));
                }
                RigidTy::FnPtr(_) => o.push(("k", J::s("fnptr"))),
                RigidTy::Closure(d, a) => {
                    o.push(("k", J::s("closure")));
                    o.push(("path", J::s(d.name().to_string())));
                    let kinds = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce];
                    for k in kinds {
                        if let Ok(i) = Instance::resolve_closure(d, &a, k.clone()) {
                            if i.kind == InstanceKind::Item {
                                let id = self.inst(i);
                                o.push(("inst", n(id)));
                                o.push(("ckind", J::s(format!("{:?}", k))));
                                break;
                            }
                        }
                    }
                }
                RigidTy::Dynamic(ps, _) => {
                    o.push(("k", J::s("dyn")));
                    let mut v = vec![];
                    for p in ps {
                        if let ExistentialPredicate::Trait(t) = &p.value {
                            v.push(J::s(t.def_id.name().to_string()));
                        }
                    }
                    o.push(("traits", J::Arr(v)));
                }
                _ => o.push(("k", J::s("other"))),
            },
            TyKind::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.clone())));
            }
            _ => o.push(("k", J::s("alias"))),
        }
        self.ty_out[id] = J::Obj(o);
        id
    }

    fn konst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                _ => obj(vec![("opaque", J::s("tyconst"))]),
            },
            ConstantKind::Unevaluated(_) => obj(vec![("opaque", J::s("unevaluated"))]),
            ConstantKind::Param(_) => obj(vec![("opaque", J::s("param"))]),
        }
    }

    fn zst(&mut self, t: Ty) -> J {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => obj(vec![("fnref", self.callee(d, &a))]),
            _ => obj(vec![("zst", n(self.ty(t)))]),
        }
    }

    fn opaque(&self, why: &str) -> J {
        obj(vec![("opaque", J::s(why))])
    }

    fn bytes(&self, a: &Allocation, off: usize, len: usize) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(len);
        for i in off..off + len {
            v.push((*a.bytes.get(i)?)?);
        }
        Some(v)
    }

    fn uint(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let b = self.bytes(a, off, len)?;
        let mut x = 0u128;
        for (i, y) in b.iter().enumerate() {
            x |= (*y as u128) << (8 * i);
        }
        Some(x)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 12 {
            return self.opaque("deep");
        }
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return self.opaque("nonrigid"),
        };
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(x) => obj(vec![("bool", J::Bool(x != 0))]),
                None => self.opaque("uninit"),
            },
            RigidTy::Char => match self.uint(a, off, 4) {
                Some(x) => obj(vec![("char", J::Int(x as i128))]),
                None => self.opaque("uninit"),
            },
            RigidTy::Uint(u) => match self.uint(a, off, u.num_bytes()) {
                Some(x) => obj(vec![("int", J::s(x.to_string()))]),
                None => self.opaque("uninit"),
            },
            RigidTy::Int(u) => match self.uint(a, off, u.num_bytes()) {
                Some(x) => {
                    let bits = u.num_bytes() * 8;
                    let v = if bits < 128 && (x >> (bits - 1)) & 1 == 1 {
                        x as i128 - (1i128 << bits)
                    } else {
                        x as i128
                    };
                    obj(vec![("int", J::s(v.to_string()))])
                }
                None => self.opaque("uninit"),
            },
            RigidTy::Float(f) => {
                let (len, is64) = match f {
                    FloatTy::F64 => (8, true),
                    FloatTy::F32 => (4, false),
                    _ => return self.opaque("float"),
                };
                match self.uint(a, off, len) {
                    Some(x) => {
                        let v = if is64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                        obj(vec![("float", J::s(format!("{:?}", v))), ("bits", n(len * 8))])
                    }
                    None => self.opaque("uninit"),
                }
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => self.decode_ptr(a, off, to, depth),
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                match prov {
                    Some((_, p)) => match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Function(i) => {
                            let id = self.inst(i);
                            obj(vec![("fnptr", n(id))])
                        }
                        _ => self.opaque("fnptr"),
                    },
                    None => self.opaque("fnptr"),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(t),
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return obj(vec![("unit", J::Null)]);
                }
                let offs = match self.offsets(t) {
                    Some(o) => o,
                    None => return self.opaque("layout"),
                };
                let v = ts
                    .iter()
                    .zip(offs)
                    .map(|(t, o)| self.decode(a, off + o, *t, depth + 1))
                    .collect();
                obj(vec![("tuple", J::Arr(v))])
            }
            RigidTy::Array(e, c) => {
                let len = c.eval_target_usize().unwrap_or(0) as usize;
                self.decode_seq(a, off, e, len, depth)
            }
            RigidTy::Adt(d, args) => self.decode_adt(a, off, t, d, &args, depth),
            _ => self.opaque("kind"),
        }
    }

    fn decode_seq(&mut self, a: &Allocation, off: usize, e: Ty, len: usize, depth: usize) -> J {
        let size = match e.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return self.opaque("layout"),
        };
        if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
            return match self.bytes(a, off, len) {
                Some(b) => obj(vec![(
                    "bytes",
                    J::Arr(b.into_iter().map(|x| J::Int(x as i128)).collect()),
                )]),
                None => self.opaque("uninit"),
            };
        }
        let v = (0..len)
            .map(|i| self.decode(a, off + i * size, e, depth + 1))
            .collect();
        obj(vec![("array", J::Arr(v)), ("ety", n(self.ty(e)))])
    }

    fn offsets(&self, t: Ty) -> Option<Vec<usize>> {
        let l = t.layout().ok()?.shape();
        match l.fields {
            rustc_public::abi::FieldsShape::Arbitrary { offsets } => {
                Some(offsets.iter().map(|o| o.bytes()).collect())
            }
            _ => None,
        }
    }

    fn decode_adt(&mut self, a: &Allocation, off: usize, t: Ty, d: AdtDef, args: &GenericArgs, depth: usize) -> J {
        use rustc_public::abi::*;
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return self.opaque("layout"),
        };
        let tid = self.ty(t);
        let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
            VariantsShape::Single { index } => {
                let o = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                    FieldsShape::Union(_) => return self.opaque("union"),
                    _ => vec![0],
                };
                (rustc_public_bridge::IndexedVal::to_index(index), o)
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let toff = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    Scalar::Initialized { value, .. } => value.clone(),
                    Scalar::Union { value } => value.clone(),
                };
                let size = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                let tagv = self.uint(a, off + toff, size);
                let vi = match tag_encoding {
                    TagEncoding::Direct => {
                        let tagv = match tagv { Some(x) => x, None => return self.opaque("uninit") };
                        let mut r = None;
                        for v in d.variants() {
                            let dv = d.discriminant_for_variant(v.idx()).val;
                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (size * 8)) - 1 };
                            if dv & mask == tagv {
                                r = Some(rustc_public_bridge::IndexedVal::to_index(&v.idx()));
                            }
                        }
                        match r { Some(x) => x, None => return self.opaque("tag") }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if has_prov {
                            rustc_public_bridge::IndexedVal::to_index(untagged_variant)
                        } else {
                            let tagv = match tagv { Some(x) => x, None => return self.opaque("uninit") };
                            let s = rustc_public_bridge::IndexedVal::to_index(niche_variants.start());
                            let e = rustc_public_bridge::IndexedVal::to_index(niche_variants.end());
                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (size * 8)) - 1 };
                            let rel = tagv.wrapping_sub(*niche_start) & mask;
                            if rel <= (e - s) as u128 { s + rel as usize } else { rustc_public_bridge::IndexedVal::to_index(untagged_variant) }
                        }
                    }
                };
                let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                (vi, offs)
            }
            VariantsShape::Empty => return self.opaque("empty"),
        };
        let v = match d.variants().into_iter().nth(vi) {
            Some(v) => v,
            None => return self.opaque("variant"),
        };
        let mut fs = vec![];
        for (i, f) in v.fields().iter().enumerate() {
            let ft = f.ty_with_args(args);
            let o = offs.get(i).copied().unwrap_or(0);
            fs.push(self.decode(a, off + o, ft, depth + 1));
        }
        obj(vec![("adt", n(tid)), ("variant", n(vi)), ("fields", J::Arr(fs))])
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, to: Ty, depth: usize) -> J {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let base = self.uint(a, off, 8).unwrap_or(0) as usize;
        let (fat, is_str, elem) = match to.kind() {
            TyKind::RigidTy(RigidTy::Str) => (true, true, None),
            TyKind::RigidTy(RigidTy::Slice(e)) => (true, false, Some(e)),
            TyKind::RigidTy(RigidTy::Dynamic(..)) => return self.opaque("dynptr"),
            _ => (false, false, None),
        };
        let alloc = match prov {
            Some(p) => match GlobalAlloc::from(p) {
                GlobalAlloc::Memory(m) => Some(m),
                GlobalAlloc::Static(s) => s.eval_initializer().ok(),
                _ => None,
            },
            None => None,
        };
        if fat {
            let len = match self.uint(a, off + 8, 8) {
                Some(x) => x as usize,
                None => return self.opaque("uninit"),
            };
            if is_str {
                if len == 0 {
                    return obj(vec![("str", J::s(""))]);
                }
                let m = match alloc { Some(m) => m, None => return self.opaque("ptr") };
                return match self.bytes(&m, base, len).and_then(|b| String::from_utf8(b).ok()) {
                    Some(s) => obj(vec![("str", J::s(s))]),
                    None => self.opaque("str"),
                };
            }
            let e = elem.unwrap();
            if len == 0 {
                return obj(vec![("ref", obj(vec![("array", J::Arr(vec![])), ("ety", n(self.ty(e)))]))]);
            }
            let m = match alloc { Some(m) => m, None => return self.opaque("ptr") };
            let v = self.decode_seq(&m, base, e, len, depth + 1);
            return obj(vec![("ref", v)]);
        }
        match alloc {
            Some(m) => {
                let v = self.decode(&m, base, to, depth + 1);
                obj(vec![("ref", v)])
            }
            None => match to.layout() {
                Ok(l) if l.shape().size.bytes() == 0 => {
                    let empty = Allocation {
                        bytes: vec![],
                        provenance: ProvenanceMap { ptrs: vec![] },
                        align: 1,
                        mutability: Mutability::Not,
                    };
                    let v = self.decode(&empty, 0, to, depth + 1);
                    obj(vec![("ref", v)])
                }
                _ => self.opaque("ptr"),
            },
        }
    }
}

fn erased() -> Region {
    Region { kind: RegionKind::ReErased }
}

fn rustc_trait_sel_impossible<'tcx>(
    tcx: TyCtxt<'tcx>,
    preds: Vec<rustc_middle::ty::Clause<'tcx>>,
) -> bool {
    rustc_trait_selection::traits::impossible_clauses(tcx, preds)
}

fn has_param(t: Ty) -> bool {
    fn args(a: &GenericArgs) -> bool {
        a.0.iter().any(|x| match x {
            GenericArgKind::Type(t) => has_param(*t),
            GenericArgKind::Const(c) => c.eval_target_usize().is_err(),
            _ => false,
        })
    }
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(_, a) | RigidTy::Closure(_, a) | RigidTy::FnDef(_, a) => args(&a),
            RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) => has_param(t),
            RigidTy::Tuple(ts) => ts.iter().any(|t| has_param(*t)),
            _ => false,
        },
        _ => true,
    }
}

fn adt_deep(p: &str) -> bool {
    p.starts_with("std::ops::Range")
        || p.starts_with("core::ops::Range")
        || p.contains("option::Option")
        || p.contains("result::Result")
        || p.contains("FlatMapSerializ")
        || p.contains("serde::__private")
        || p.contains("serde_core::private")
}

/// functions of the standard library whose bodies are small enough to be looked at directly
fn std_inline(p: &str) -> bool {
    const A: &[&str] = &[
        "option::Option", "result::Result", "std::cmp", "core::cmp", "std::convert", "core::convert",
        "std::ops::ControlFlow", "std::ops::Try", "ops::FromResidual", "std::bool", "core::bool",
        "std::ops::FnOnce", "std::ops::Fn", "std::default",
    ];
    A.iter().any(|a| p.contains(a))
}
