//! What the signatures reachable by users of a crate permit, as JSON.

use crate::esc;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, DefIndex, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{CastKind, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TyKind};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashSet;
use std::fmt::Write as _;

struct Api<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
    seen: HashSet<DefId>,
}

impl<'tcx> Api<'tcx> {
    fn region(&self, r: ty::Region<'tcx>) -> String {
        match r.kind() {
            ty::ReStatic => "static".into(),
            ty::ReErased => "erased".into(),
            ty::ReBound(_, b) => format!("b{}", b.var.as_usize()),
            ty::ReEarlyParam(p) => format!("e{}", p.index),
            k => format!("{:?}", k),
        }
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Ref(r, t, m) => format!("{{\"k\":\"ref\",\"r\":{},\"mut\":{},\"a\":[{}]}}", esc(&self.region(*r)), m.is_mut(), self.ty(*t)),
            TyKind::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"mut\":{},\"a\":[{}]}}", m.is_mut(), self.ty(*t)),
            TyKind::Slice(t) => format!("{{\"k\":\"slice\",\"a\":[{}]}}", self.ty(*t)),
            TyKind::Array(t, _) => format!("{{\"k\":\"array\",\"a\":[{}]}}", self.ty(*t)),
            TyKind::Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":[{}]}}", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(",")),
            TyKind::Adt(d, args) => {
                let mut regions = vec![];
                let mut types = vec![];
                for a in args.iter() {
                    match a.kind() {
                        GenericArgKind::Lifetime(r) => regions.push(esc(&self.region(r))),
                        GenericArgKind::Type(t) => types.push(self.ty(t)),
                        _ => {}
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"rs\":[{}],\"a\":[{}]}}",
                    esc(&self.tcx.def_path_str(d.did())),
                    regions.join(","),
                    types.join(",")
                )
            }
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"a\":[]}}", esc(p.name.as_str())),
            TyKind::Alias(..) => format!("{{\"k\":\"alias\",\"n\":{},\"a\":[]}}", esc(&t.to_string())),
            TyKind::Dynamic(_, r) => format!("{{\"k\":\"dyn\",\"n\":{},\"r\":{},\"a\":[]}}", esc(&t.to_string()), esc(&self.region(*r))),
            _ => format!("{{\"k\":\"prim\",\"n\":{},\"a\":[]}}", esc(&t.to_string())),
        }
    }

    /// The function's signature, with associated types resolved where they are known.
    fn sig(&self, id: DefId) -> ty::FnSig<'tcx> {
        let tcx = self.tcx;
        let s = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
        let s = s.skip_binder();
        s
    }

    fn resolve(&self, id: DefId, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, id);
        let e = tcx.erase_and_anonymize_regions(t);
        match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(e)) {
            Ok(t) => self.ty(t),
            Err(_) => self.ty(t),
        }
    }

    fn bounds(&self, id: DefId) -> String {
        let mut v = vec![];
        let mut cur = Some(id);
        while let Some(d) = cur {
            let p = self.tcx.explicit_clauses_of(d);
            for (c, _) in p.clauses {
                let k = c.kind().skip_binder();
                match k {
                    ty::ClauseKind::RegionOutlives(o) => {
                        v.push(format!("[\"region\",{},{}]", esc(&self.region(o.0)), esc(&self.region(o.1))));
                    }
                    ty::ClauseKind::Trait(t) => {
                        v.push(format!(
                            "[\"trait\",{},{}]",
                            esc(&t.self_ty().to_string()),
                            esc(&self.tcx.def_path_str(t.def_id()))
                        ));
                    }
                    _ => {}
                }
            }
            cur = p.parent;
        }
        format!("[{}]", v.join(","))
    }

    fn func(&mut self, id: DefId, owner: &str, via: &str) {
        if !self.seen.insert(id) {
            return;
        }
        let tcx = self.tcx;
        let s = self.sig(id);
        let mut o = String::new();
        let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(id));
        let _ = write!(
            o,
            "{{\"what\":\"fn\",\"owner\":{},\"via\":{},\"name\":{},\"safe\":{},\"site\":{}",
            esc(owner),
            esc(via),
            esc(tcx.item_name(id).as_str()),
            s.safety().is_safe(),
            esc(&span)
        );
        let ins: Vec<String> = s.inputs().iter().map(|t| self.ty(*t)).collect();
        let res: Vec<String> = s.inputs().iter().map(|t| self.resolve(id, *t)).collect();
        let _ = write!(o, ",\"in\":[{}],\"in_resolved\":[{}]", ins.join(","), res.join(","));
        let _ = write!(o, ",\"out\":{},\"out_resolved\":{}", self.ty(s.output()), self.resolve(id, s.output()));
        let _ = write!(o, ",\"bounds\":{}}}", self.bounds(id));
        self.out.push(o);
    }

    fn adt(&mut self, id: DefId, name: &str) {
        if !self.seen.insert(id) {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(id);
        let public: Vec<String> = if def.is_struct() {
            def.all_fields().filter(|f| f.vis.is_public()).map(|f| esc(f.name.as_str())).collect()
        } else {
            vec![]
        };
        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let env = tcx.param_env(id);
        let mut marks = vec![];
        for n in ["Send", "Sync"] {
            let tr = if n == "Send" { tcx.get_diagnostic_item(rustc_span::sym::Send) } else { tcx.lang_items().sync_trait() };
            let Some(tr) = tr else { continue };
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let yes = infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions();
            marks.push(format!("\"{}\":{}", n, yes));
        }
        let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(id));
        self.out.push(format!(
            "{{\"what\":\"type\",\"name\":{},\"path\":{},\"public_fields\":[{}],{},\"site\":{}}}",
            esc(name),
            esc(&tcx.def_path_str(id)),
            public.join(","),
            marks.join(","),
            esc(&span)
        ));
        for im in tcx.inherent_impls(id) {
            for it in tcx.associated_item_def_ids(*im) {
                if tcx.def_kind(*it) == DefKind::AssocFn && tcx.visibility(*it).is_public() {
                    self.func(*it, name, "");
                }
            }
        }
    }

    fn module(&mut self, m: DefId, path: &str) {
        if !self.seen.insert(m) {
            return;
        }
        let tcx = self.tcx;
        let children: Vec<(String, DefId, bool)> = if m.is_local() {
            tcx.module_children_local(m.expect_local())
                .iter()
                .filter_map(|c| match c.res {
                    Res::Def(_, d) => Some((c.ident.name.to_string(), d, c.vis.is_public())),
                    _ => None,
                })
                .collect()
        } else {
            tcx.module_children(m)
                .iter()
                .filter_map(|c| match c.res {
                    Res::Def(_, d) => Some((c.ident.name.to_string(), d, c.vis.is_public())),
                    _ => None,
                })
                .collect()
        };
        for (n, d, public) in children {
            if !public {
                continue;
            }
            match tcx.def_kind(d) {
                DefKind::Mod => self.module(d, &format!("{}::{}", path, n)),
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d, &n),
                DefKind::Fn => self.func(d, path, ""),
                DefKind::Trait => {
                    for it in tcx.associated_item_def_ids(d) {
                        if tcx.def_kind(*it) == DefKind::AssocFn {
                            self.func(*it, &n, "trait");
                        }
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.out.push(format!("{{\"what\":\"value\",\"name\":{},\"type\":{}}}", esc(&n), self.ty(t)));
                }
                _ => {}
            }
        }
    }

    fn writes(&self, t: Ty<'tcx>) -> Option<bool> {
        match t.kind() {
            TyKind::Ref(_, _, m) | TyKind::RawPtr(_, m) => Some(m.is_mut()),
            _ => None,
        }
    }

    fn cast(&mut self, id: DefId, span: rustc_span::Span) {
        let ins: Vec<String> = self.sig(id).inputs().iter().map(|t| self.ty(*t)).collect();
        self.out.push(format!(
            "{{\"what\":\"cast\",\"name\":{},\"in\":[{}],\"site\":{}}}",
            esc(&self.tcx.def_path_str(id)),
            ins.join(","),
            esc(&self.tcx.sess.source_map().span_to_diagnostic_string(span))
        ));
    }

    /// Casts of a pointer for reading into one for writing, in the bodies of a crate.
    fn casts(&mut self, ids: impl Iterator<Item = DefId>) {
        let tcx = self.tcx;
        let mut bodies = 0u64;
        for id in ids {
            if !tcx.is_mir_available(id) || tcx.is_constructor(id) {
                continue;
            }
            bodies += 1;
            let body = tcx.optimized_mir(id);
            for bb in body.basic_blocks.iter() {
                for st in &bb.statements {
                    let StatementKind::Assign(a) = &st.kind else { continue };
                    let Rvalue::Cast(kind, op, to) = &a.1 else { continue };
                    if self.writes(*to) != Some(true) {
                        continue;
                    }
                    let from = self.writes(op.ty(&body.local_decls, tcx));
                    if from == Some(false) || matches!(kind, CastKind::PointerWithExposedProvenance) {
                        self.cast(id, st.source_info.span);
                    }
                }
                if let Some(t) = &bb.terminator {
                    let TerminatorKind::Call { func, args, destination, .. } = &t.kind else { continue };
                    let TyKind::FnDef(f, _) = func.ty(&body.local_decls, tcx).kind() else { continue };
                    let from = args.first().and_then(|a| self.writes(a.node.ty(&body.local_decls, tcx)));
                    let to = self.writes(destination.ty(&body.local_decls, tcx).ty);
                    let lib = tcx.crate_name(f.krate);
                    if from == Some(false) && to == Some(true) && matches!(lib.as_str(), "core" | "std" | "alloc") {
                        self.cast(id, t.source_info.span);
                    }
                }
            }
        }
        self.out.push(format!("{{\"what\":\"bodies\",\"n\":{}}}", bodies));
    }
}

pub fn dump(tcx: TyCtxt<'_>, roots: &str, out: &str) {
    let mut all = vec![];
    for root in roots.split(',') {
        let (krate, module) = if let Some(m) = root.strip_prefix('.') {
            let r = LOCAL_CRATE.as_def_id();
            let d = tcx.module_children_local(r.expect_local()).iter().find(|c| c.ident.name.as_str() == m).and_then(|c| c.res.opt_def_id());
            (LOCAL_CRATE, d)
        } else {
            match tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == root) {
                Some(c) => (*c, Some(c.as_def_id())),
                None => (LOCAL_CRATE, None),
            }
        };
        let Some(module) = module else { continue };
        let mut a = Api { tcx, out: vec![], seen: Default::default() };
        a.module(module, root);
        for im in tcx.trait_impls_in_crate(krate) {
            let h = tcx.impl_trait_header(*im);
            let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
            let owner = tr.self_ty().to_string();
            let via = tr.print_only_trait_path().to_string();
            for it in tcx.associated_item_def_ids(*im) {
                if tcx.def_kind(*it) == DefKind::AssocFn {
                    a.func(*it, &owner, &via);
                }
            }
        }
        let ids: Vec<DefId> = if krate == LOCAL_CRATE {
            tcx.mir_keys(()).iter().map(|d| d.to_def_id()).collect()
        } else {
            (0..tcx.num_extern_def_ids(krate)).map(|i| DefId { krate, index: DefIndex::from_usize(i) }).collect()
        };
        a.casts(ids.into_iter().filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn)));
        all.push(format!("{{\"root\":{},\"items\":[{}]}}", esc(root), a.out.join(",")));
    }
    std::fs::write(out, format!("[{}]", all.join(","))).unwrap();
}
