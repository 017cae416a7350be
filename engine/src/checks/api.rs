//! P10, the part that enumerates the API: nothing public makes, opens or
//! hands out the internals of the scanner context, and the seal is private.
use super::floor;
use crate::report::Report;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

pub fn check() -> Report {
    let mut r = Report::new("P10", "(1) each program that breaks a borrow, sealing or thread rule of the API is rejected by rustc with an error standing for that rule, and its twin that obeys the rule compiles; (2) no function of the library that outside code can call returns a scanner context or takes one apart, its fields are private, the reader trait has a supertrait outside code cannot name, and nothing is marked Send or Sync by hand");
    let Some(k) = rustc_public::external_crates().into_iter().find(|c| c.name == "yary") else { r.find("coverage:crate", "the library is not linked into the analysis roots"); return r };
    let name = |t: Ty| -> String { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string(), _ => String::new() } };
    fn mentions(t: Ty, n: &str, depth: u32) -> bool {
        if depth > 6 { return false }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => d.name().to_string().ends_with(n) || a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if mentions(*t, n, depth + 1))),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| mentions(*t, n, depth + 1)),
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => mentions(t, n, depth + 1),
            _ => false,
        }
    }
    let (mut fns, mut ctx) = (0u64, 0u64);
    let mut fields = 0u64;
    let mut seal = 0u64;
    rustc_middle::ty::tls::with(|tcx| {
        let public = |d: rustc_public::DefId| -> bool { tcx.visibility(rustc_internal::internal(tcx, d)).is_public() };
        let mut done = std::collections::HashSet::new();
        for f in k.fn_defs() {
            fns += 1;
            let sig = f.fn_sig();
            let sig = sig.skip_binder();
            let n = f.name().to_string();
            let did = rustc_internal::internal(tcx, f.def_id());
            // methods of trait implementations are as visible as the trait
            let of_trait = tcx.impl_of_assoc(did).map_or(false, |i| tcx.impl_is_of_trait(i));
            let vis = of_trait || public(f.def_id());
            for t in sig.inputs().iter().chain([&sig.output()]) {
                let (t0, kind) = match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, x, _)) => (x, 1), _ => (*t, 0) };
                let _ = kind;
                if name(t0).ends_with("reader::ReadContext") {
                    ctx += 1;
                    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t0.kind() {
                        for fd in tcx.adt_def(rustc_internal::internal(tcx, d.def_id())).all_fields() { if done.insert(fd.did) {
                            fields += 1;
                            r.ob(!fd.vis.is_public(), || format!("field:{}", fd.name), || format!("the scanner context's field {} is public", fd.name));
                        } }
                    }
                }
            }
            if !vis { continue }
            let out = sig.output();
            r.ob(!mentions(out, "reader::ReadContext", 0), || format!("makes:{}", n), || format!("{} is public and returns a scanner context", n));
            let takes = sig.inputs().iter().any(|t| mentions(*t, "reader::ReadContext", 0));
            if takes {
                for inner in ["scanner::Scanner", "queue::Queue", "scanner::entry::TokenEntry"] {
                    r.ob(!mentions(out, inner, 0), || format!("opens:{}:{}", n, inner), || format!("{} is public, takes a scanner context and hands out its {}", n, inner));
                }
            }
        }
        for t in tcx.all_traits_including_private() {
            if tcx.crate_name(t.krate).as_str() != "yary" { continue }
            let tn = tcx.def_path_str(t);
            if !tn.ends_with("reader::Read") { continue }
            seal += 1;
            let hidden = |d: rustc_span::def_id::DefId| -> bool {
                if tcx.crate_name(d.krate).as_str() != "yary" { return false }
                let mut x = d;
                loop {
                    if !tcx.visibility(x).is_public() { return true }
                    match tcx.opt_parent(x) { Some(p) if !p.is_crate_root() => x = p, _ => return false }
                }
            };
            let sealed = tcx.explicit_super_clauses_of(t).skip_binder().iter().any(|(c, _)| match c.as_trait_clause() {
                Some(c) => {
                    let d = c.def_id();
                    // outside code cannot name it: it, or a module around it, is private
                    // a blanket implementation gives the seal away
                    let blanket = tcx.all_impls(d).any(|i| matches!(tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty().kind(), rustc_middle::ty::TyKind::Param(_)));
                    hidden(d) && !blanket
                }
                None => false,
            });
            // or a required method with a type in its signature that outside code cannot name
            let named = tcx.associated_items(t).in_definition_order().any(|m| m.is_fn() && !m.defaultness(tcx).has_value()
                && tcx.fn_sig(m.def_id).skip_binder().skip_binder().inputs_and_output.iter().any(|t| t.walk().any(|g| match g.kind() { rustc_middle::ty::GenericArgKind::Type(t) => match t.kind() { rustc_middle::ty::TyKind::Adt(d, _) => hidden(d.did()), _ => false }, _ => false })));
            r.ob(sealed || named, || "seal".into(), || format!("{} has no supertrait that is hidden from outside code and implemented type by type", tn));
        }
        for t in [tcx.lang_items().sync_trait(), tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"))].into_iter().flatten() {
            for i in tcx.all_impls(t) {
                if tcx.crate_name(i.krate).as_str() == "yary" { r.find("send-sync", format!("hand written thread safety: {}", tcx.def_path_str(i))) } else { r.good() }
            }
        }
    });
    floor(&mut r, "functions mentioning the scanner context", ctx as usize, 1);
    floor(&mut r, "fields of the scanner context", fields as usize, 1);
    floor(&mut r, "reader traits", seal as usize, 1);
    r.num("library functions enumerated", fns);
    r.num("private context fields", fields);
    r
}
