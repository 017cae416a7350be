//! The monomorphic call graph reachable from the roots.
use crate::ai::strip_generics;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Debug)]
pub struct Edge { pub to: Instance, pub kind: &'static str, pub loc: String }

pub struct Program {
    pub insts: Vec<Instance>,
    pub names: HashMap<Instance, String>,
    pub edges: HashMap<Instance, Vec<Edge>>,
    pub nobody: BTreeMap<String, usize>,
    pub indirect: Vec<(Instance, String)>,
    pub unresolved: BTreeSet<String>,
    pub roots: Vec<Instance>,
    /// concrete types turned into trait objects
    pub unsized_: BTreeMap<String, (Ty, String)>,
    /// virtual call sites: (caller, method, generic arguments, location)
    pub virt: Vec<(Instance, FnDef, GenericArgs, String)>,
}

fn body_of(i: Instance) -> Option<Body> {
    let skip = matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) || (matches!(i.kind, InstanceKind::Item) && (i.is_foreign_item() || !i.has_body()));
    if skip { None } else { i.body() }
}
pub fn loc_of(s: &rustc_public::ty::Span) -> String {
    format!("{}:{}", crate::ai::short(&s.get_filename().to_string()), s.get_lines().start_line)
}

impl Program {
    pub fn build() -> Program {
        let mut p = Program { insts: vec![], names: HashMap::new(), edges: HashMap::new(), nobody: BTreeMap::new(), indirect: vec![], unresolved: BTreeSet::new(), roots: vec![], unsized_: BTreeMap::new(), virt: vec![] };
        let mut queue = VecDeque::new();
        for it in rustc_public::all_local_items() {
            if it.requires_monomorphization() { continue }
            if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue }
            if let Ok(i) = Instance::try_from(it) { p.roots.push(i); if p.add(i) { queue.push_back(i) } }
        }
        let mut vdone: BTreeSet<(usize, String)> = BTreeSet::new();
        loop {
        while let Some(i) = queue.pop_front() {
            let Some(body) = body_of(i) else { *p.nobody.entry(p.names[&i].clone()).or_default() += 1; continue };
            let mut out: Vec<Edge> = vec![];
            let mut push = |to: Instance, kind: &'static str, loc: String, p: &mut Program, queue: &mut VecDeque<Instance>| {
                if p.add(to) { queue.push_back(to) }
                out.push(Edge { to, kind, loc });
            };
            for b in &body.blocks {
                for s in &b.statements {
                    if let StatementKind::Assign(_, r) = &s.kind {
                        // function items and closures turned into pointers, and vtables
                        if let Rvalue::Cast(CastKind::PointerCoercion(pc), o, _) = r {
                            if let Ok(t) = o.ty(body.locals()) {
                                match (pc, t.kind()) {
                                    (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => if let Ok(c) = Instance::resolve_for_fn_ptr(d, &a) { push(c, "reify", loc_of(&s.source_info.span), &mut p, &mut queue) },
                                    (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => if let Ok(c) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { push(c, "reify", loc_of(&s.source_info.span), &mut p, &mut queue) },
                                    (PointerCoercion::Unsize, k) => if let StatementKind::Assign(_, Rvalue::Cast(_, _, to)) = &s.kind { if is_dyn(*to) { if let Some(t) = pointee(k) { p.unsized_.insert(format!("{}", t), (t, loc_of(&s.source_info.span))); } } },
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                match &b.terminator.kind {
                    TerminatorKind::Call { func, .. } => {
                        let ty = func.ty(body.locals()).unwrap();
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ty.kind() {
                            match Instance::resolve(d, &a) { Ok(c) if matches!(c.kind, InstanceKind::Virtual { .. }) => { p.virt.push((i, d, a.clone(), loc_of(&b.terminator.source_info.span))); push(c, "virtual", loc_of(&b.terminator.source_info.span), &mut p, &mut queue) } Ok(c) => push(c, "call", loc_of(&b.terminator.source_info.span), &mut p, &mut queue), Err(e) => { p.unresolved.insert(format!("{:?}", e)); } }
                        } else { p.indirect.push((i, loc_of(&b.terminator.source_info.span))) }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        let c = Instance::resolve_drop_in_place(place.ty(body.locals()).unwrap());
                        push(c, "drop", loc_of(&b.terminator.source_info.span), &mut p, &mut queue);
                    }
                    _ => {}
                }
            }
            p.edges.insert(i, out);
        }
        // virtual calls reach the method of every type that was made a trait object
        let us: Vec<(String, Ty)> = p.unsized_.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        for k in 0..p.virt.len() {
            for (n, t) in &us {
                if !vdone.insert((k, n.clone())) { continue }
                let (caller, d, a, loc) = p.virt[k].clone();
                if a.0.is_empty() { continue }
                let mut a = a;
                a.0[0] = GenericArgKind::Type(*t);
                if !implements(&p, d, *t) { continue }
                if let Ok(c) = Instance::resolve(d, &a) {
                    if p.add(c) { queue.push_back(c) }
                    p.edges.entry(caller).or_default().push(Edge { to: c, kind: "dyn", loc });
                }
            }
        }
        if queue.is_empty() { break }
        }
        p
    }
    fn add(&mut self, i: Instance) -> bool {
        if self.names.contains_key(&i) { return false }
        self.names.insert(i, strip_generics(&i.name().to_string()));
        self.insts.push(i);
        true
    }
    pub fn find(&self, suffix: &str) -> Vec<Instance> { self.insts.iter().filter(|i| self.names[i].ends_with(suffix)).cloned().collect() }
}

fn pointee(k: TyKind) -> Option<Ty> {
    match k {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => Some(*t), _ => None },
        _ => None,
    }
}
fn is_dyn(t: Ty) -> bool { matches!(pointee(t.kind()).map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Dynamic(..)))) }
/// Does the type implement the trait the method belongs to? (by name, over all trait impls)
fn implements(_p: &Program, d: FnDef, t: Ty) -> bool {
    // resolution of a method for a type that does not implement the trait would be an error
    // inside the compiler, so ask the type system first
    rustc_public_bridge_implements(d, t)
}
fn rustc_public_bridge_implements(d: FnDef, t: Ty) -> bool {
    use rustc_public::rustc_internal;
    rustc_middle::ty::tls::with(|tcx| {
        let did = rustc_internal::internal(tcx, d.def_id());
        let ty: rustc_middle::ty::Ty = rustc_internal::internal(tcx, t);
        match tcx.trait_of_assoc(did) {
            Some(tr) => {
                // only traits without further parameters can be made objects here
                if tcx.generics_of(tr).own_params.len() != 1 { return true }
                {
                    use rustc_infer::infer::TyCtxtInferExt;
                    use rustc_trait_selection::infer::InferCtxtExt;
                    let icx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
                    let ty = tcx.erase_and_anonymize_regions(ty);
                    icx.type_implements_trait(tr, [ty], rustc_middle::ty::ParamEnv::empty()).may_apply()
                }
            }
            None => false,
        }
    })
}
