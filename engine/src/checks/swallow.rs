//! P12: no failure is dropped on the floor.
use super::errors::is_failure;
use super::floor;
use crate::ai::*;
use crate::program::{loc_of, Program};
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

fn adt(t: Ty) -> Option<(AdtDef, GenericArgs)> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)), _ => None } }
fn failure(t: Ty) -> bool {
    if matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..))) { return false }
    if let Some((d, _)) = adt(t) { if d.name().to_string().ends_with("::FromUtf8Error") { return true } if d.is_box() { return false } }
    is_failure(t)
}
/// May a value of the type own a failure?
fn carries(t: Ty, depth: u32) -> bool {
    if depth > 6 { return false }
    if failure(t) { return true }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            if n.contains("PhantomData") { return false }
            if n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::") {
                return a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if carries(*t, depth + 1)));
            }
            d.kind() != AdtKind::Union && d.variants().iter().any(|v| v.fields().iter().any(|f| carries(f.ty_with_args(&a), depth + 1)))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| carries(*t, depth + 1)),
        _ => false,
    }
}
fn variant_carries(t: Ty, v: usize) -> bool {
    match adt(t) { Some((d, a)) => d.variants().get(v).map_or(false, |v| v.fields().iter().any(|f| carries(f.ty_with_args(&a), 0))), None => true }
}
/// A type with both a variant that owns a failure and one that does not.
fn enum_splits(t: Ty) -> bool { adt(t).map_or(false, |(d, _)| (0..d.num_variants()).any(|v| !variant_carries(t, v))) }
fn variant_name(t: Ty, v: usize) -> String { adt(t).and_then(|(d, _)| d.variants().get(v).map(|v| v.name().to_string())).unwrap_or_default() }

/// A place without dereferences.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Pl(usize, Vec<(u8, usize)>);
fn pl(p: &Place) -> Option<Pl> {
    let mut v = vec![];
    for e in &p.projection {
        match e {
            ProjectionElem::Field(i, _) => v.push((0, *i)),
            ProjectionElem::Downcast(i) => v.push((1, variant_index_u(i) as usize)),
            _ => return None,
        }
    }
    Some(Pl(p.local, v))
}
impl Pl {
    fn prefix_of(&self, o: &Pl) -> bool { self.0 == o.0 && o.1.len() >= self.1.len() && o.1[..self.1.len()] == self.1[..] }
    fn touches(&self, o: &Pl) -> bool { self.prefix_of(o) || o.prefix_of(self) }
}

/// What is known on a path.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct St {
    /// place owning an undelivered failure -> where it came from
    held: BTreeMap<Pl, (String, u8)>,
    /// local holding the discriminant of a place
    disc: BTreeMap<usize, Pl>,
    /// local holding a reference to a place
    refs: BTreeMap<usize, Pl>,
    /// option local: none means that the failure at the place is that of a character cut off
    alias: BTreeMap<usize, Pl>,
    /// locals that hold the place up to which the bytes are fine
    cuts: BTreeMap<usize, Pl>,
    /// boolean locals that are known
    consts: BTreeMap<usize, bool>,
    /// locals that own some other failure
    errs: BTreeSet<usize>,
    /// boolean local: true means (place, value of is_err)
    test: BTreeMap<usize, (Pl, u8)>,
}
// the kinds of test
const IS_ERR: u8 = 0;
const IS_OK: u8 = 1;
const INCOMPLETE: u8 = 2;
const COMPLETE: u8 = 3;
/// error_len() == None, as long as the other side is None
const LEN_EQ: u8 = 2;
const LEN_NE: u8 = 3;
// what is known of a failure
/// the bytes it is about were cut at it
const CUT: u8 = 1;
/// it is known to have happened
const FAILED: u8 = 2;

pub fn check(p: &Program) -> Report {
    let mut r = Report::new("P12", "path-sensitive dataflow over the MIR of every library function: from each call whose result can own a failure, and each failure passed in, the failure is followed through moves, matches, conversions and calls; on every path it ends in the returned value, in another function that answers for it, or in a panic. A request for more input (Extend) that is matched as such, and a character found to be cut off by the end of a chunk, are not failures. Whatever the owned reader holds back when its source is exhausted is reported");
    let mut fns = 0u64;
    let mut sources = 0u64;
    let mut seen = BTreeSet::new();
    let mut closures: Closures = HashMap::new();
    for i in &p.insts {
        if !p.names[i].contains("{closure") || !matches!(i.kind, InstanceKind::Item) { continue }
        if let Some(b) = i.body() { closures.entry(i.def.def_id()).or_insert((p.names[i].clone(), b)); }
    }
    for i in &p.insts {
        let n = p.names[i].clone();
        if !(is_yary(&n)) || !matches!(i.kind, InstanceKind::Item) { continue }
        let Some(b) = i.body() else { continue };
        // one instance per set of types
        if !seen.insert((n.clone(), b.locals().iter().map(|l| format!("{}", l.ty)).collect::<Vec<_>>())) { continue }
        let touches = b.locals().iter().any(|l| carries(l.ty, 0));
        if !touches { r.good(); fns += 1; continue }
        fns += 1;
        r.analysed.push(n.clone());
        sources += function(&closures, &mut r, &n, &b);
    }
    r.num("library functions", fns);
    r.num("places a failure enters a function", sources);
    floor(&mut r, "places a failure enters a function", sources as usize, 50);
    held_back(p, &mut r);
    r
}

/// The closures by definition.
type Closures = HashMap<rustc_public::DefId, (String, Body)>;

/// Does the closure deliver the failure it is called with?
fn closure_delivers(cl: &Closures, d: rustc_public::DefId) -> Result<(), String> {
    let Some((name, b)) = cl.get(&d) else { return Ok(()) };
    let mut bad = BTreeMap::new();
    for (k, l) in b.arg_locals().iter().enumerate().skip(1) {
        if !carries(l.ty, 0) { continue }
        let mut st = St::default();
        st.held.insert(Pl(k + 1, vec![]), ("its argument".into(), if failure(l.ty) { FAILED } else { 0 }));
        follow(cl, name, b, 0, st, &mut bad);
    }
    match bad.into_values().next() { Some(m) => Err(m), None => Ok(()) }
}

/// Follow one failure from where it enters the function until it is delivered.
/// Follow one failure from where it enters the function until it is delivered.
fn function(cl: &Closures, r: &mut Report, name: &str, b: &Body) -> u64 {
    let mut starts: Vec<(usize, St)> = vec![];
    // what a closure does with a failure is asked where the closure is handed one
    if carries(b.ret_local().ty, 0) && !name.contains("{closure") {
        for (k, l) in b.arg_locals().iter().enumerate() {
            if carries(l.ty, 0) {
                let mut st = St::default();
                st.held.insert(Pl(k + 1, vec![]), ("its argument".into(), if failure(l.ty) { FAILED } else { 0 }));
                starts.push((0, st));
            }
        }
    }
    for blk in &b.blocks {
        if let TerminatorKind::Call { func, destination, target: Some(target), .. } = &blk.terminator.kind {
            if !destination.ty(b.locals()).map_or(false, |t| carries(t, 0)) { continue }
            let (callee, _) = callee_of(b, func);
            let loc = loc_of(&blk.terminator.source_info.span);
            match pl(destination) {
                None => r.list("failures stored in memory", format!("{} ({})", name, loc)),
                Some(d) => { let mut st = St::default(); st.held.insert(d, (callee, 0)); starts.push((*target, st)) }
            }
        }
    }
    let n = starts.len() as u64;
    let mut bad: BTreeMap<String, String> = BTreeMap::new();
    for (bb, st) in starts {
        let before = bad.len();
        if !follow(cl, name, b, bb, st, &mut bad) { r.undecided(format!("size:{}", name), format!("{} has too many paths", name)); return n }
        r.obligations += 1;
        if bad.len() == before { r.discharged += 1 }
    }
    for (k, v) in bad { r.find(k, v) }
    n
}

fn callee_of(b: &Body, func: &Operand) -> (String, String) {
    match func.ty(b.locals()).ok().map(|t| t.kind()) {
        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
            let n = match Instance::resolve(d, &a) { Ok(i) => strip_generics(&i.name().to_string()), Err(_) => d.name().to_string() };
            let l = n.rsplit("::").next().unwrap_or("").to_string();
            (n, l)
        }
        _ => ("an indirect call".into(), String::new()),
    }
}

fn follow(cl: &Closures, name: &str, b: &Body, start: usize, st0: St, bad: &mut BTreeMap<String, String>) -> bool {
    let mut seen: HashSet<(usize, St)> = HashSet::new();
    let mut work = vec![(start, st0)];
    let mut steps = 0;
    'paths: while let Some((bb, mut st)) = work.pop() {
        if st.held.is_empty() { continue }
        if !seen.insert((bb, st.clone())) { continue }
        steps += 1;
        if steps > 40_000 { return false }
        let blk = &b.blocks[bb];
        for s in &blk.statements {
            let loc = loc_of(&s.source_info.span);
            match &s.kind {
                StatementKind::Assign(dst, rv) => assign(b, &mut st, dst, rv, &loc, name, bad),
                StatementKind::StorageDead(l) => { st.refs.remove(l); st.disc.remove(l); st.test.remove(l); }
                _ => {}
            }
            if st.held.is_empty() { continue 'paths }
        }
        let loc = loc_of(&blk.terminator.source_info.span);
        match &blk.terminator.kind {
            TerminatorKind::Goto { target } => work.push((*target, st)),
            TerminatorKind::Drop { target, .. } => work.push((*target, st)),
            TerminatorKind::Assert { target, .. } => work.push((*target, st)),
            TerminatorKind::Return => {
                for (h, (from, _)) in &st.held {
                    if h.0 == 0 { continue }
                    bad.entry(format!("return:{}:{}", name, from)).or_insert(format!("{} returns although the failure from {} was neither returned nor passed on ({})", name, from, loc));
                }
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let local = match discr { Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => Some(p.local), _ => None };
                let d = local.and_then(|l| st.disc.get(&l).cloned());
                let t = local.and_then(|l| st.test.get(&l).cloned());
                let vals: Vec<(u128, usize)> = targets.branches().collect();
                let mut push = |target: usize, f: &mut dyn FnMut(&mut St) -> bool| {
                    let mut s = st.clone();
                    if f(&mut s) { work.push((target, s)) }
                };
                if let Some(k) = local.and_then(|l| st.consts.get(&l).cloned()) {
                    let t = vals.iter().find(|v| v.0 == k as u128).map(|v| v.1).unwrap_or(targets.otherwise());
                    work.push((t, st));
                    continue;
                }
                match (d, t) {
                    (Some(p), _) => {
                        let ty = place_ty(b, &p);
                        for (v, target) in &vals { push(*target, &mut |s| refine(s, &p, ty, &[*v as usize])) }
                        let n = ty.and_then(adt).map_or(0, |(d, _)| d.num_variants());
                        let rest: Vec<usize> = (0..n).filter(|k| !vals.iter().any(|(v, _)| *v as usize == *k)).collect();
                        if !rest.is_empty() || n == 0 { push(targets.otherwise(), &mut |s| refine(s, &p, ty, &rest)) }
                    }
                    (None, Some((p, kind))) => {
                        for (v, target) in vals.iter().cloned().chain([(u128::MAX, targets.otherwise())]) {
                            let truth = if v == u128::MAX { vals.iter().any(|x| x.0 == 0) } else { v != 0 };
                            push(target, &mut |s| {
                                let clear = match kind { IS_ERR => !truth, IS_OK => truth, INCOMPLETE => truth, _ => !truth };
                                if clear { s.held.retain(|h, _| !h.touches(&p)) }
                                else if kind <= IS_OK { for (h, f) in s.held.iter_mut() { if h.touches(&p) { f.1 |= FAILED } } }
                                true
                            });
                        }
                    }
                    _ => for t in succs(&blk.terminator.kind) { push(t, &mut |_| true) },
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let (callee, last) = callee_of(b, func);
                let dty = destination.ty(b.locals()).ok();
                let out = dty.map_or(false, |t| carries(t, 0));
                let diverges = target.is_none();
                let mut about: Option<Pl> = None;
                for a in args {
                    if let Operand::Move(q) | Operand::Copy(q) = a {
                        // through a reference: the callee looks at it; if it answers with a failure, that stands for this one
                        let by_ref = if q.projection.is_empty() { st.refs.get(&q.local).cloned() } else { None };
                        if let Some(t) = by_ref {
                            about = about.or(Some(t.clone()));
                            if out { st.held.retain(|h, _| !h.touches(&t)) }
                            continue;
                        }
                        let Some(q) = resolve(&st, q) else { continue };
                        for (h, (from, _)) in st.held.clone() {
                            if !h.touches(&q) { continue }
                            if !place_ty(b, &q).map_or(true, |t| carries(t, 0)) { continue }
                            st.held.remove(&h);
                            let fine = out || diverges || matches!(&*last, "unwrap" | "expect" | "unwrap_none" | "expect_none" | "unwrap_failed");
                            for a in args {
                                let t = a.ty(b.locals()).ok();
                                if let Some(TyKind::RigidTy(RigidTy::Closure(d, _))) = t.map(|t| t.kind()) {
                                    if let Err(m) = closure_delivers(cl, d.def_id()) { bad.entry(format!("closure:{}:{}:{}", name, from, callee)).or_insert(format!("{} hands the failure from {} to {} with a closure that discards it: {} ({})", name, from, callee, m, loc)); }
                                }
                            }
                            if !fine { bad.entry(format!("absorbed:{}:{}:{}", name, from, callee)).or_insert(format!("{} hands the failure from {} to {}, which discards it ({})", name, from, callee, loc)); }
                        }
                    }
                }
                // a new validation of the bytes answers for an earlier look at them
                if last == "from_utf8" { st.held.retain(|h, f| !(f.1 & CUT == 0 && place_ty(b, h).map_or(false, |t| { let s = format!("{}", t); s.contains("Utf8Error") && !s.contains("FromUtf8Error") }))); }
                for a in args {
                    if let Operand::Move(q) | Operand::Copy(q) = a { if let Some(t) = st.cuts.get(&q.local).cloned() { for (h, f) in st.held.iter_mut() { if h.touches(&t) { f.1 |= CUT } } } }
                }
                let Some(target) = target else { continue };
                if let Some(d) = pl(destination) {
                    overwrite(&st, &d, name, &loc, bad);
                    st.held.retain(|h, _| !d.prefix_of(h));
                    kill(&mut st, d.0);
                    if let Some(t) = &about {
                        match &*last {
                            "is_err" => { st.test.insert(d.0, (t.clone(), IS_ERR)); }
                            "is_ok" => { st.test.insert(d.0, (t.clone(), IS_OK)); }
                            // the absence of an error length
                            "is_none" => { st.test.insert(d.0, (t.clone(), INCOMPLETE)); }
                            "is_some" => { st.test.insert(d.0, (t.clone(), COMPLETE)); }
                            // the option an error answers with stands for the error when it is looked at
                            "error_len" => { st.alias.insert(d.0, t.clone()); }
                            "valid_up_to" => { st.cuts.insert(d.0, t.clone()); }
                            "ne" => { st.test.insert(d.0, (t.clone(), LEN_NE)); }
                            "eq" => { st.test.insert(d.0, (t.clone(), LEN_EQ)); }
                            _ => {}
                        }
                    }
                }
                work.push((*target, st));
            }
            k => for t in succs(k) { work.push((t, st.clone())) },
        }
    }
    true
}

fn kill(st: &mut St, l: usize) {
    st.disc.remove(&l);
    st.refs.remove(&l);
    st.test.remove(&l);
    st.alias.remove(&l);
    st.errs.remove(&l);
    st.cuts.remove(&l);
    st.consts.remove(&l);
    st.disc.retain(|_, p| p.0 != l);
    st.refs.retain(|_, p| p.0 != l);
    st.test.retain(|_, p| p.0.0 != l);
}
fn overwrite(st: &St, d: &Pl, name: &str, loc: &str, bad: &mut BTreeMap<String, String>) {
    for (h, (from, _)) in &st.held {
        if d.prefix_of(h) { bad.entry(format!("overwritten:{}:{}", name, from)).or_insert(format!("{} overwrites the failure from {} ({})", name, from, loc)); }
    }
}
fn place_ty(b: &Body, p: &Pl) -> Option<Ty> {
    let mut t = b.locals()[p.0].ty;
    let mut var = 0usize;
    for (k, i) in &p.1 {
        if *k == 1 { var = *i; continue }
        t = match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => d.variants().get(var)?.fields().get(*i)?.ty_with_args(&a),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => *ts.get(*i)?,
            TyKind::RigidTy(RigidTy::Closure(_, a)) => match a.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(ts)) => *ts.get(*i)?, _ => return None }, _ => return None },
            _ => return None,
        };
        var = 0;
    }
    Some(t)
}
/// The place an operand denotes: behind a reference, the one referred to.
fn resolve(st: &St, q: &Place) -> Option<Pl> {
    if let Some(p) = pl(q) { return Some(p) }
    let k = q.projection.iter().position(|e| matches!(e, ProjectionElem::Deref))?;
    let head = pl(&Place { local: q.local, projection: q.projection[..k].to_vec() })?;
    // through a reference, or through the box that owns it
    if k == 0 { if let Some(t) = st.refs.get(&q.local) {
        let rest = Place { local: q.local, projection: q.projection[1..].to_vec() };
        return Some(match pl(&rest) { Some(r) => { let mut x = t.clone(); x.1.extend(r.1); x } None => t.clone() });
    } }
    if st.held.keys().any(|h| h.touches(&head)) { Some(head) } else { None }
}
/// The path on which place `p` is one of the variants.
fn refine(st: &mut St, p: &Pl, ty: Option<Ty>, vars: &[usize]) -> bool {
    let Some(ty) = ty else { return true };
    // the length of a failure: none means the input ends in the middle of a character
    // a failure that is nothing but a request
    let harmless = |v: &usize| if failure(ty) { variant_name(ty, *v) == "Extend" } else { !variant_carries(ty, *v) };
    if !vars.is_empty() && vars.iter().all(harmless) { st.held.retain(|h, _| !h.touches(p)) }
    else if !vars.iter().any(harmless) && !vars.is_empty() { for (h, f) in st.held.iter_mut() { if h.touches(p) { f.1 |= FAILED } } }
    // held under another variant: this path does not exist
    if vars.len() == 1 {
        let mut q = p.clone();
        q.1.push((1, vars[0]));
        if st.held.keys().any(|h| p.prefix_of(h) && h.1.len() > p.1.len() && !q.prefix_of(h)) { return false }
    }
    true
}
fn assign(b: &Body, st: &mut St, dst: &Place, rv: &Rvalue, loc: &str, name: &str, bad: &mut BTreeMap<String, String>) {
    let d = pl(dst);
    let mut moved: Vec<((String, u8), Vec<(u8, usize)>)> = vec![];
    let mut take = |st: &mut St, o: &Operand, pre: Vec<(u8, usize)>| {
        if let Operand::Move(q) | Operand::Copy(q) = o {
            let Some(q) = resolve(st, q) else { return };
            if !place_ty(b, &q).map_or(true, |t| carries(t, 0)) { return }
            for (h, f) in st.held.clone() {
                if q.prefix_of(&h) {
                    st.held.remove(&h);
                    let mut suf = pre.clone();
                    suf.extend(h.1[q.1.len()..].iter().cloned());
                    moved.push((f, suf));
                } else if h.prefix_of(&q) {
                    st.held.remove(&h);
                    moved.push((f, pre.clone()));
                }
            }
        }
    };
    let mut refd = None;
    let mut disc = None;
    let mut test = None;
    let mut alias = None;
    let mut konst = None;
    let mut cut = None;
    match rv {
        Rvalue::Use(Operand::Constant(c), ..) => if let Some(k) = super::errors::const_bool(c) { konst = Some(k) },
        Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..) => { cut = st.cuts.get(&q.local).cloned(); if q.projection.is_empty() { konst = st.consts.get(&q.local).cloned() } }
        Rvalue::UnaryOp(UnOp::Not, Operand::Copy(q) | Operand::Move(q)) if q.projection.is_empty() => konst = st.consts.get(&q.local).map(|k| !k),
        Rvalue::Aggregate(_, ops) => for o in ops { if let Operand::Copy(q) | Operand::Move(q) = o { if let Some(t) = st.cuts.get(&q.local) { cut = Some(t.clone()) } } },
        _ => {}
    }
    let whole = |o: &Operand| match o { Operand::Copy(q) | Operand::Move(q) if q.projection.is_empty() => Some(q.local), _ => None };
    match rv {
        Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _) => {
            if let Some(l) = whole(o) { refd = st.refs.get(&l).cloned(); test = st.test.get(&l).cloned(); disc = st.disc.get(&l).cloned(); alias = st.alias.get(&l).cloned() }
            // the pointer inside a box that owns the failure
            if let (Rvalue::Cast(..), Operand::Copy(q)) | (Rvalue::Use(..), Operand::Copy(q)) = (rv, o) {
                if let Some(q) = pl(q) {
                    let is_ptr = dst.ty(b.locals()).map_or(false, |t| matches!(t.kind(), TyKind::RigidTy(RigidTy::RawPtr(..))));
                    if is_ptr { if let Some(h) = st.held.keys().find(|h| h.prefix_of(&q)) { refd = Some(h.clone()) } }
                }
            }
            if refd.is_none() { take(st, o, vec![]) }
        }
        Rvalue::UnaryOp(UnOp::Not, o) => if let Some(l) = whole(o) { test = st.test.get(&l).cloned().map(|(p, k)| (p, k ^ 1)) },
        Rvalue::Aggregate(k, ops) => for (i, o) in ops.iter().enumerate() {
            let pre = match k {
                AggregateKind::Adt(d, v, ..) => { let mut x = vec![]; if d.kind() == AdtKind::Enum { x.push((1, variant_index_u(v) as usize)) } x.push((0, i)); x }
                _ => vec![(0, i)],
            };
            take(st, o, pre);
        },
        Rvalue::Ref(_, _, q) | Rvalue::AddressOf(_, q) => {
            refd = match pl(q) { Some(p) => Some(if p.1.is_empty() { st.alias.get(&p.0).cloned().unwrap_or(p) } else { p }), None => resolve(st, q) };
        }
        Rvalue::Discriminant(q) => match pl(q) {
            Some(p) if p.1.is_empty() && st.alias.contains_key(&p.0) => test = Some((st.alias[&p.0].clone(), COMPLETE)),
            _ => disc = resolve(st, q),
        },
        _ => {}
    }
    // another failure made in its place
    let dty = dst.ty(b.locals()).ok();
    let made = match rv {
        Rvalue::Aggregate(AggregateKind::Adt(..), _) => dty.map_or(false, failure),
        Rvalue::Use(Operand::Constant(..), ..) => dty.map_or(false, failure),
        _ => false,
    };
    if made { st.held.retain(|_, f| f.1 & FAILED == 0) }
    let dead = |p: &Pl, st: &St| !st.held.keys().any(|h| h.touches(p));
    match d {
        Some(d) => {
            // by another failure: that stands for this one
            let failing = match rv { Rvalue::Aggregate(AggregateKind::Adt(def, v, ..), _) => def.kind() == AdtKind::Enum && dty.map_or(false, |t| !failure(t) && variant_carries(t, variant_index_u(v) as usize) && enum_splits(t)), Rvalue::Use(o, ..) => made || whole(o).map_or(false, |l| st.errs.contains(&l)), _ => made };
            if !failing { overwrite(st, &d, name, loc, bad); }
            st.held.retain(|h, _| !d.prefix_of(h));
            if d.1.is_empty() { kill(st, d.0); if failing { st.errs.insert(d.0); } }
            for (f, suf) in moved { let mut h = d.clone(); h.1.extend(suf); st.held.insert(h, f); }
            if d.1.is_empty() {
                if let Some(x) = refd { if !dead(&x, st) { st.refs.insert(d.0, x); } }
                if let Some(x) = disc { if !dead(&x, st) { st.disc.insert(d.0, x); } }
                if let Some(x) = test { if !dead(&x.0, st) { st.test.insert(d.0, x); } }
                if let Some(x) = konst { st.consts.insert(d.0, x); }
                if let Some(x) = cut { st.cuts.insert(d.0, x); }
                if let Some(x) = alias { st.alias.insert(d.0, x); }
            }
        }
        // stored behind a reference: somebody keeps it
        None => {}
    }
}

/// When an owning reader's source is exhausted, nothing it read may be left over without an error.
fn held_back(p: &Program, r: &mut Report) {
    let (found, n) = super::buffers::held_back(p);
    for (k, v) in found { r.find(format!("held:{}", k), v) }
    for _ in 0..n { r.good() }
    r.num("exits of reading operations checked for bytes held back", n);
}
