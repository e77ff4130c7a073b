//! What is extracted from an analysed crate.
use crate::interp::{ty_str, Interp};
use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_middle::ty::{self, Instance, TyCtxt, TypingEnv};
use std::collections::HashSet;

pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<J> {
    let mut out = vec![];
    let mut it = Interp::new(tcx);
    if let Ok(o) = std::env::var("WFLOW_OPAQUE") {
        it.opaque = o.split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        let kind = tcx.def_kind(def);
        let name = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
        match kind {
            DefKind::Fn if name.starts_with("w_") => {
                if tcx.generics_of(def).requires_monomorphization(tcx) {
                    continue;
                }
                let inst = Instance::mono(tcx, def);
                out.push(it.run(inst, &name));
            }
            DefKind::Const { .. } if name.starts_with("C_") => {
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let t = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new(t));
                if let Ok(c) = tcx.const_eval_poly(def) {
                    let v = it.const_v(c, t);
                    out.push(J::o([("kind", J::s("const")), ("name", J::s(name)), ("ty", J::s(ty_str(t))), ("v", it.vj(&v, Some(t), 0))]));
                }
            }
            DefKind::TyAlias if name.starts_with("Ty_") => {
                let t = tcx.type_of(def).instantiate_identity();
                let t = match tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), t) {
                    Ok(t) => ty_str(t),
                    Err(_) => "<no such type>".to_string(),
                };
                out.push(J::o([("kind", J::s("type")), ("name", J::s(name)), ("ty", J::s(t))]));
            }
            _ => {}
        }
    }
    if std::env::var("WFLOW_INVENTORY").is_ok() {
        inventory(tcx, &mut out);
    }
    let fns = it.fns.iter().map(|(k, v)| (k.clone(), J::N(*v as i128))).collect();
    out.push(J::o([("kind", J::s("summary")), ("steps", J::N(it.steps as i128)), ("inlined", J::O(fns))]));
    out
}

fn interesting<'tcx>(s: &str) -> bool {
    s.contains("Quantity<") || s.ends_with("Quantity")
}

/// Every trait impl and every public function of the library crates that mentions `Quantity`.
fn inventory<'tcx>(tcx: TyCtxt<'tcx>, out: &mut Vec<J>) {
    let names = tcx.crates(()).iter().map(|&c| J::s(tcx.crate_name(c).to_string())).collect();
    out.push(J::o([("kind", J::s("crates")), ("names", J::A(names))]));
    for cnum in std::iter::once(rustc_hir::def_id::LOCAL_CRATE).chain(tcx.crates(()).iter().copied()) {
        let cname = tcx.crate_name(cnum).to_string();
        if cnum != rustc_hir::def_id::LOCAL_CRATE && !cname.starts_with("whippyunits") {
            continue;
        }
        for &id in tcx.trait_impls_in_crate(cnum) {
            let hdr = tcx.impl_trait_header(id);
            let tr = hdr.trait_ref.instantiate_identity().skip_norm_wip();
            let args: Vec<String> = tr.args.iter().map(|a| arg_str(a)).collect();
            let all = cnum == rustc_hir::def_id::LOCAL_CRATE || tcx.def_path_str(tr.def_id).contains("dimension_traits");
            if !all && !args.iter().any(|a| interesting(a)) {
                continue;
            }
            let mut assoc = vec![];
            for item in tcx.associated_items(id).in_definition_order() {
                if matches!(item.kind, ty::AssocKind::Type { .. }) {
                    let t = tcx.type_of(item.def_id).instantiate_identity().skip_norm_wip();
                    assoc.push((item.name().to_string(), J::s(ty_str(t))));
                }
            }
            let preds = tcx
                .clauses_of(id)
                .instantiate_identity(tcx).clauses.iter()
                .map(|p| J::s(ty::print::with_no_trimmed_paths!(format!("{}", p.as_ref().skip_norm_wip()))))
                .collect();
            let gens: Vec<J> = tcx.generics_of(id).own_params.iter().map(|p| J::s(p.name.to_string())).collect();
            out.push(J::o([
                ("kind", J::s("impl")),
                ("crate", J::s(cname.clone())),
                ("trait", J::s(tcx.def_path_str(tr.def_id))),
                ("args", J::A(args.into_iter().map(J::s).collect())),
                ("assoc", J::O(assoc)),
                ("preds", J::A(preds)),
                ("generics", J::A(gens)),
                ("negative", J::B(matches!(hdr.polarity, ty::ImplPolarity::Negative))),
            ]));
        }
        if cnum == rustc_hir::def_id::LOCAL_CRATE {
            continue;
        }
        let mut seen = HashSet::new();
        walk_mod(tcx, DefId { krate: cnum, index: rustc_hir::def_id::CRATE_DEF_INDEX }, cnum, &mut seen, out);
    }
}

fn arg_str<'tcx>(a: ty::GenericArg<'tcx>) -> String {
    match a.kind() {
        ty::GenericArgKind::Type(t) => ty_str(t),
        _ => ty::print::with_no_trimmed_paths!(format!("{a}")),
    }
}

fn fn_rec<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, out: &mut Vec<J>) {
    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
    let ins: Vec<String> = sig.inputs().iter().map(|t| ty_str(*t)).collect();
    let o = ty_str(sig.output());
    if !interesting(&o) && !ins.iter().any(|s| interesting(s)) {
        return;
    }
    out.push(J::o([
        ("kind", J::s("sig")),
        ("path", J::s(tcx.def_path_str(d))),
        ("in", J::A(ins.into_iter().map(J::s).collect())),
        ("out", J::s(o)),
        ("unsafe", J::B(sig.safety().is_unsafe())),
    ]));
}

fn walk_mod<'tcx>(tcx: TyCtxt<'tcx>, m: DefId, cnum: CrateNum, seen: &mut HashSet<DefId>, out: &mut Vec<J>) {
    if !seen.insert(m) {
        return;
    }
    for ch in tcx.module_children(m) {
        let Some(d) = ch.res.opt_def_id() else { continue };
        if d.krate != cnum || !ch.vis.is_public() {
            continue;
        }
        match tcx.def_kind(d) {
            DefKind::Mod => walk_mod(tcx, d, cnum, seen, out),
            DefKind::Fn => {
                if seen.insert(d) {
                    fn_rec(tcx, d, out)
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if !seen.insert(d) {
                    continue;
                }
                if matches!(tcx.def_kind(d), DefKind::Struct) && tcx.item_name(d).as_str() == "Quantity" {
                    let adt = tcx.adt_def(d);
                    let fs = adt
                        .non_enum_variant()
                        .fields
                        .iter()
                        .map(|f| {
                            J::o([
                                ("name", J::s(f.name.to_string())),
                                ("pub", J::B(f.vis.is_public())),
                                ("ty", J::s(ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                            ])
                        })
                        .collect();
                    out.push(J::o([("kind", J::s("struct")), ("path", J::s(tcx.def_path_str(d))), ("fields", J::A(fs))]));
                }
                for &i in tcx.inherent_impls(d) {
                    for item in tcx.associated_items(i).in_definition_order() {
                        if matches!(item.kind, ty::AssocKind::Fn { .. }) && tcx.visibility(item.def_id).is_public() {
                            fn_rec(tcx, item.def_id, out);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
