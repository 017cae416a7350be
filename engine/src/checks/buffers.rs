//! P09: text handed out through a shared reference to an owning reader is
//! neither modified nor freed through one.
use super::floor;
use crate::ai::*;
use crate::program::{loc_of, Program};
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

fn adt(t: Ty) -> Option<(AdtDef, GenericArgs)> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)), _ => None } }
fn adt_name(t: Ty) -> String { adt(t).map(|(d, _)| d.name().to_string()).unwrap_or_default() }
fn is_ucell(t: Ty) -> bool { let n = adt_name(t); n == "std::cell::UnsafeCell" || n == "core::cell::UnsafeCell" }
/// Does a value of the type contain (not point to) an UnsafeCell written into a library type?
fn guarded(t: Ty, depth: u32) -> bool {
    if depth > 6 { return false }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            if n == "std::cell::UnsafeCell" || n == "core::cell::UnsafeCell" { return true }
            if !(n.starts_with("yary::") || d.krate().name == "yary") { return a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if guarded(*t, depth + 1))) && !n.contains("PhantomData") }
            d.variants().iter().any(|v| v.fields().iter().any(|f| guarded(f.ty_with_args(&a), depth + 1)))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| guarded(*t, depth + 1)),
        _ => false,
    }
}
fn shared_guarded(t: Ty) -> Option<Ty> {
    match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, Mutability::Not)) if guarded(t, 0) && adt_name(t).starts_with("yary::") => Some(t), _ => None }
}
/// A returned value through which the caller could modify the contents.
fn gives_mut(t: Ty, depth: u32) -> bool {
    if depth > 4 { return false }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) => true,
        TyKind::RigidTy(RigidTy::RawPtr(..)) => true,
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => is_ucell(t),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| gives_mut(*t, depth + 1)),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            if n.contains("NonNull") { return true }
            if n.starts_with("std::option") || n.starts_with("std::result") { return a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if gives_mut(*t, depth + 1))) }
            n.starts_with("yary::") && d.variants().iter().any(|v| v.fields().iter().any(|f| gives_mut(f.ty_with_args(&a), depth + 1)))
        }
        _ => false,
    }
}

/// A place inside the guarded contents that owns bytes, and the identity found there.
#[derive(Clone, Debug)]
struct Own { path: String, id: Id, len: Lin, vec: bool, when: Vec<(Id, u32)> }

fn owns(cx: &Cx, st: &State, v: &Val, path: String, when: Vec<(Id, u32)>, depth: u32, out: &mut Vec<Own>) {
    if depth > 10 { return }
    // the path starts anew inside the cell
    let v = match v {
        Val::Top(ty, o) => {
            if is_ucell(*ty) {
                let fs = cx.fields(*ty, 0);
                let t = *fs.last().unwrap();
                return owns(cx, st, &Val::Top(t, cx.id(IdKey::Field(*o, 0, 0))), format!("{}", short_ty(t)), when, depth + 1, out);
            }
            let x = cx.expand(v);
            if let Val::Top(ty, o) = &x {
                if cx.num_variants(*ty) > 1 {
                    for k in st.set_of(cx, cx.disc_id(*ty, *o)).iter() {
                        if let Val::Var(_, f) = cx.expand_var(*ty, *o, k as u32) {
                            let mut w = when.clone();
                            w.push((cx.disc_id(*ty, *o), k as u32));
                            for (i, x) in f.iter().enumerate() { owns(cx, st, x, format!("{}.v{}.{}", path, k, i), w.clone(), depth + 1, out) }
                        }
                    }
                }
                return;
            }
            x
        }
        v => v.clone(),
    };
    match &v {
        Val::Agg(a) => {
            for (i, x) in a.iter().enumerate() { owns(cx, st, x, format!("{}.{}", path, i), when.clone(), depth + 1, out) }
        }
        Val::Var(k, a) => for (i, x) in a.iter().enumerate() { owns(cx, st, x, format!("{}.v{}.{}", path, k, i), when.clone(), depth + 1, out) },
        Val::Obj(o) => match &**o {
            Obj::Str { id, len, .. } => out.push(Own { path, id: *id, len: len.clone(), vec: false, when }),
            Obj::Vec { base, elems, .. } => {
                if let Some((b, l)) = base { out.push(Own { path: path.clone(), id: *b, len: l.clone(), vec: true, when: when.clone() }) }
                for x in elems { owns(cx, st, x, path.clone(), when.clone(), depth + 1, out) }
            }
            _ => {}
        },
        _ => {}
    }
}
/// Inside concrete cell values the path must also restart at the UnsafeCell.
fn owns_cell(cx: &Cx, st: &State, v: &Val, ty: Ty, path: String, depth: u32, out: &mut Vec<Own>) {
    if depth > 10 { return }
    if let Val::Top(..) = v { return owns(cx, st, v, path, vec![], depth, out) }
    if is_ucell(ty) {
        let t = *cx.fields(ty, 0).last().unwrap();
        if let Val::Agg(a) = v { if let Some(x) = a.first() { return owns(cx, st, x, format!("{}", short_ty(t)), vec![], depth + 1, out) } }
        return;
    }
    if let Val::Agg(a) = v {
        let fs = cx.fields(ty, 0);
        for (i, x) in a.iter().enumerate() { if let Some(t) = fs.get(i) { owns_cell(cx, st, x, *t, format!("{}.{}", path, i), depth + 1, out) } }
        return;
    }
    owns(cx, st, v, path, vec![], depth, out)
}

/// The flags and the byte strings that are not text, anywhere in a value.
fn flags_and_bytes(cx: &Cx, st: &State, v: &Val, ty: Ty, path: String, depth: u32, flags: &mut Vec<(String, Val)>, bytes: &mut Vec<(String, Lin)>) {
    if depth > 8 { return }
    if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool)) { flags.push((path, cx.expand(v))); return }
    match cx.expand(v) {
        Val::Agg(a) => { let fs = cx.fields(ty, 0); for (i, x) in a.iter().enumerate() { if let Some(t) = fs.get(i) { flags_and_bytes(cx, st, x, *t, format!("{}.{}", path, i), depth + 1, flags, bytes) } } }
        Val::Obj(o) => if let Obj::Str { len, .. } = &*o { if !adt_name(ty).ends_with("String") { bytes.push((path, len.clone())) } },
        Val::Top(t, o) if cx.num_variants(t) == 1 => if let Val::Agg(a) = cx.expand_var(t, o, 0) { let fs = cx.fields(t, 0); for (i, x) in a.iter().enumerate() { if let Some(t) = fs.get(i) { flags_and_bytes(cx, st, x, *t, format!("{}.{}", path, i), depth + 1, flags, bytes) } } },
        _ => {}
    }
}

struct Sh {
    /// bytes that were read but are part of nothing although the source is exhausted
    held_back: RefCell<BTreeMap<String, String>>,
    held_checks: Cell<u64>,
    stubs: HashSet<Instance>,
    kept: RefCell<BTreeSet<String>>,
    found: RefCell<BTreeMap<String, String>>,
    undec: RefCell<BTreeMap<String, String>>,
    cell: Cell<CellId>,
    ty: Cell<Ty>,
    unit: RefCell<String>,
    checks: Cell<u64>,
    user: Cell<u64>,
}
struct H { sh: Rc<Sh> }

impl Sh {
    fn shared(&self) -> Root { Root::Cell(self.cell.get()) }
    fn pre(&self, cx: &Cx, st: &State) -> Vec<Own> {
        let mut o = vec![];
        if let v @ Val::Top(..) = st.ghost_get("pre") { owns(cx, st, &v, String::new(), vec![], 0, &mut o) }
        let k = self.kept.borrow();
        o.into_iter().filter(|x| k.contains(&x.path)).collect()
    }
    /// Every kept buffer of the state on entry is still there.
    fn check(&self, cx: &Cx, st: &State, what: &str) {
        let pre = self.pre(cx, st);
        let mut now = vec![];
        owns_cell(cx, st, &st.root_val(cx, self.shared()), self.ty.get(), String::new(), 0, &mut now);
        let leaked: Vec<Id> = st.trace.iter().filter(|t| t.0 == 9).filter_map(|t| if let Val::Int(l) = &t.1 { l.is_const().map(|k| k as Id) } else { None }).collect();
        for p in pre {
            if p.when.iter().any(|(d, k)| !st.set_of(cx, *d).has(*k as usize)) { continue }
            self.checks.set(self.checks.get() + 1);
            if st.prove_eq0(cx, &p.len) || leaked.contains(&p.id) { continue }
            let at: Vec<&Own> = now.iter().filter(|o| o.id == p.id && o.vec == p.vec).collect();
            if at.is_empty() {
                let u = self.unit.borrow().clone();
                let key = format!("lost:{}:{}:{}", u, p.path, what);
                if st.taint.is_empty() { self.found.borrow_mut().insert(key, format!("in {}, {}, the buffer{} held at {} on entry {} no longer held by the reader", u, what, if p.vec { "s" } else { "" }, p.path, if p.vec { "are" } else { "is" })); }
                else { self.undec.borrow_mut().insert(key, format!("in {}, {}: the buffer at {} could not be followed through {}", u, what, p.path, st.taint.iter().next().unwrap())); }
            }
            for o in at { self.kept.borrow_mut().insert(o.path.clone()); }
        }
    }
    /// Is the identity one of the kept buffers, or part of one?
    fn kept_id(&self, cx: &Cx, st: &State, id: Id) -> Option<String> {
        let pre = self.pre(cx, st);
        let mut i = id;
        loop {
            if let Some(p) = pre.iter().find(|p| p.id == i) { return Some(p.path.clone()) }
            let k = cx.ids.borrow()[i as usize].key.clone();
            i = match k { IdKey::Field(o, ..) | IdKey::Deref(o) | IdKey::Elem(o) | IdKey::Tail(o) => o, _ => return None };
        }
    }
    fn reaches(&self, cx: &Cx, st: &State, v: &Val, depth: u32, roots: &BTreeSet<Root>) -> bool {
        if depth > 6 { return false }
        match cx.expand(v) {
            Val::Ptr(p) => roots.contains(&p.root) || st.read(cx, p.root, &p.path).map_or(false, |x| self.reaches(cx, st, &x, depth + 1, roots)),
            Val::Agg(a) | Val::Var(_, a) => a.iter().any(|x| self.reaches(cx, st, x, depth + 1, roots)),
            _ => false,
        }
    }
    fn roots_in(&self, cx: &Cx, v: &Val, depth: u32, out: &mut BTreeSet<Root>) {
        if depth > 8 { return }
        match cx.expand(v) {
            Val::Ptr(p) => { out.insert(p.root); }
            Val::Agg(a) | Val::Var(_, a) => for x in a.iter() { self.roots_in(cx, x, depth + 1, out) },
            Val::Top(ty, o) if cx.num_variants(ty) > 1 => for k in 0..cx.num_variants(ty).min(8) { if let Val::Var(_, a) = cx.expand_var(ty, o, k as u32) { for x in a.iter() { self.roots_in(cx, x, depth + 1, out) } } },
            Val::Obj(o) => match &*o { Obj::Vec { elems, .. } => for x in elems { self.roots_in(cx, x, depth + 1, out) }, Obj::Other { vals, .. } => for x in vals { self.roots_in(cx, x, depth + 1, out) }, _ => {} },
            _ => {}
        }
    }
}

/// A call that runs code of the foreign byte source.
pub fn is_source_call(n: &str) -> bool {
    n.contains(" as std::io::Read>::") || n.contains(" as std::io::BufRead>::") || n.starts_with("std::io::Read::") || n.starts_with("std::io::copy") || n.starts_with("std::io::read_to_string") || n.starts_with("std::io::default_read") || n.contains("io::Read for ")
}
fn arg_is_mut(inst: Instance, k: usize) -> bool {
    match inst.ty().kind().fn_sig() { Some(s) => s.skip_binder().inputs().get(k).map_or(false, |t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) | TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)))), None => false }
}

impl Hooks for H {
    fn call(&self, cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        let sh = &self.sh;
        if sh.stubs.contains(&inst) {
            // a complete operation of its own: it is checked separately
            sh.check(cx, st, "before another operation on the shared reader");
            // from here on the name of the entry state stands for the current one: forget what was known about it
            let pre = st.ghost_get("pre");
            if let Val::Top(_, o) = &pre {
                let of_pre = |i: &Id| { let mut i = *i; loop { if i == *o { return true } i = match &cx.ids.borrow()[i as usize].key { IdKey::Fresh(_) => return false, IdKey::Field(x, ..) | IdKey::Deref(x) | IdKey::Disc(x) | IdKey::Len(x) | IdKey::Elem(x) | IdKey::Tail(x) | IdKey::Conv(x, _) => *x } } };
                Rc::make_mut(&mut st.dom).retain(|k, _| !of_pre(k));
                Rc::make_mut(&mut st.facts).retain(|l| !l.t.iter().any(|x| of_pre(&x.0)));
                Rc::make_mut(&mut st.heap).retain(|c, _| !matches!(&cx.cells.borrow()[*c as usize], CellInit::Top(_, i) if of_pre(i)));
            }
            if let Err(e) = st.write(cx, sh.shared(), &[], pre) { return Some(Err(e)) }
            for a in args.iter() { if let Val::Ptr(p) = a { if p.root != sh.shared() { cx.havoc_args(st, &[a.clone()]) } } }
            return Some(Ok(vec![(st.clone(), Val::Top(ret, cx.fresh("op")))]));
        }
        if is_source_call(name) {
            // foreign code runs: it may use the reader through another reference, or unwind
            sh.user.set(sh.user.get() + 1);
            sh.check(cx, st, "while the source is being read");
            let mut roots = BTreeSet::new();
            roots.insert(sh.shared());
            sh.roots_in(cx, &st.root_val(cx, sh.shared()), 0, &mut roots);
            if args.iter().any(|a| sh.reaches(cx, st, a, 0, &roots)) {
                let u = sh.unit.borrow().clone();
                sh.found.borrow_mut().insert(format!("alias:{}", u), format!("{} runs the source while holding a mutable reference into the reader the source may itself use", u));
            }
            for a in args.iter().skip(1) {
                if let Val::Ptr(p) = a {
                    if let Ok(v) = st.read(cx, p.root, &p.path) {
                        if let Val::Obj(o) = cx.expand(&v) { if let Obj::Str { id, .. } = &*o {
                            if let Some(k) = sh.kept_id(cx, st, *id) { let u = sh.unit.borrow().clone(); sh.found.borrow_mut().insert(format!("write:{}:{}", u, k), format!("{} reads into the buffer at {}, which was handed out", u, k)); }
                            let i = cx.fresh("read");
                            let nv = Val::obj(Obj::Str { len: Lin::sym(cx.len_id(i)), utf8: false, marks: vec![], src: None, id: i });
                            let _ = st.write(cx, p.root, &p.path, nv);
                        } }
                    }
                }
            }
            return Some(Ok(vec![(st.clone(), Val::Top(ret, cx.fresh("io")))]));
        }
        let std = !is_yary(name);
        if std {
            let last = name.rsplit("::").next().unwrap_or("");
            if name.starts_with("std::mem::forget") || last == "leak" {
                if let Some(Val::Obj(o)) = args.first().map(|a| cx.expand(a)) { if let Obj::Str { id, .. } | Obj::Vec { base: Some((id, _)), .. } = &*o { st.tr(9, Val::k(*id as i128)) } }
                if last == "leak" { return Some(Ok(vec![(st.clone(), Val::Top(ret, cx.fresh("leak")))])) }
                return None;
            }
            let moves = name.starts_with("std::mem::") || name.starts_with("core::mem::") || name.contains("option::Option") || name.contains("Option::");
            if !moves {
                // taking a buffer apart may move its text
                if matches!(last, "into_boxed_str" | "into_boxed_slice") {
                    if let Some(Val::Obj(o)) = args.first().map(|a| cx.expand(a)) { if let Obj::Str { id, .. } = &*o { if let Some(path) = sh.kept_id(cx, st, *id) {
                        let u = sh.unit.borrow().clone();
                        sh.found.borrow_mut().insert(format!("write:{}:{}:{}", u, path, last), format!("{} applies {} to the buffer at {}, which was handed out and may move ({})", u, name, path, cx.here()));
                    } } }
                }
                // whatever a kept buffer is put into is kept as well
                if matches!(last, "push" | "insert") && args.len() > 1 {
                    let id = match args.last().map(|a| cx.expand(a)) { Some(Val::Obj(o)) => match &*o { Obj::Str { id, .. } => Some(*id), _ => None }, _ => None };
                    if let (Some(id), Val::Ptr(p)) = (id, cx.expand(&args[0])) {
                        if sh.kept_id(cx, st, id).is_some() {
                            if let Ok(Val::Obj(o)) = st.read(cx, p.root, &p.path).map(|v| cx.expand(&v)) { if let Obj::Vec { base: Some((b, _)), .. } = &*o {
                                let mut pre = vec![];
                                if let v @ Val::Top(..) = st.ghost_get("pre") { owns(cx, st, &v, String::new(), vec![], 0, &mut pre) }
                                if let Some(x) = pre.iter().find(|x| x.id == *b) { sh.kept.borrow_mut().insert(x.path.clone()); }
                            } }
                        }
                    }
                }
                for (k, a) in args.iter().enumerate() {
                    if !arg_is_mut(inst, k) { continue }
                    let Val::Ptr(p) = cx.expand(a) else { continue };
                    let Ok(v) = st.read(cx, p.root, &p.path) else { continue };
                    let Val::Obj(o) = cx.expand(&v) else { continue };
                    let (id, vec) = match &*o { Obj::Str { id, .. } => (*id, false), Obj::Vec { base: Some((id, _)), .. } => (*id, true), _ => continue };
                    let Some(path) = sh.kept_id(cx, st, id) else { continue };
                    let grows = ["push", "reserve", "reserve_exact", "try_reserve", "insert", "shrink_to_fit", "append", "extend", "push_mut"];
                    if vec && k == 0 && grows.contains(&last) {
                        // whatever a kept buffer is put into is kept
                        if last == "insert" {
                            if let Obj::Vec { ty, base, elems } = &*o {
                                let mut e = elems.clone();
                                e.push(args[2].clone());
                                let nv = Val::obj(Obj::Vec { ty: *ty, base: base.clone(), elems: e });
                                if let Err(e) = st.write(cx, p.root, &p.path, nv) { return Some(Err(e)) }
                                return Some(Ok(vec![(st.clone(), Val::unit())]));
                            }
                        }
                        continue;
                    }
                    let u = sh.unit.borrow().clone();
                    sh.found.borrow_mut().insert(format!("write:{}:{}:{}", u, path, last), format!("{} applies {} to the buffer{} at {}, which {} handed out ({})", u, name, if vec { "s" } else { "" }, path, if vec { "were" } else { "was" }, cx.here()));
                }
            }
            return None;
        }
        // library code that has nothing to do with the reader
        let mut roots = BTreeSet::new();
        roots.insert(sh.shared());
        if name.contains("::scanner::") && !args.iter().any(|a| sh.reaches(cx, st, a, 0, &roots)) {
            cx.havoc_args(st, args);
            return Some(Ok(vec![(st.clone(), Val::Top(ret, cx.fresh("scan")))]));
        }
        None
    }
}

fn views(cx: &Cx, st: &State, v: &Val, depth: u32, out: &mut Vec<Id>) {
    if depth > 8 { return }
    match v {
        Val::View(w) => if let BufKind::Sym(i) = cx.bufs.borrow()[w.buf as usize].kind { out.push(i) },
        Val::BPtr(b, _) => if let BufKind::Sym(i) = cx.bufs.borrow()[*b as usize].kind { out.push(i) },
        Val::Agg(a) | Val::Var(_, a) => for x in a.iter() { views(cx, st, x, depth + 1, out) },
        Val::Ptr(p) => if let Ok(x) = st.read(cx, p.root, &p.path) {
            match cx.expand(&x) { Val::Obj(o) => if let Obj::Str { id, .. } = &*o { out.push(*id) }, Val::Agg(_) => {}, _ => {} }
        },
        Val::Obj(o) => if let Obj::Iter { view, .. } = &**o { if let BufKind::Sym(i) = cx.bufs.borrow()[view.buf as usize].kind { out.push(i) } },
        _ => {}
    }
}

pub fn check(p: &Program) -> Report { analyse(p).0 }
pub fn held_back(p: &Program) -> (BTreeMap<String, String>, u64) { let x = analyse(p); (x.1, x.2) }
fn analyse(p: &Program) -> (Report, BTreeMap<String, String>, u64) {
    let mut r = Report::new("P09", "(1) every raw pointer the library dereferences comes straight from UnsafeCell::get, it uses no other unsafe operation that could extend or forge a borrow, and marks nothing Send or Sync by hand; (2) abstract interpretation of every operation on a shared reference to an owning reader: each buffer whose text such an operation can hand out, and each buffer kept after that, is still held, unmodified, on every exit, before every nested operation and whenever foreign code runs, and foreign code never runs on a mutable reference into the reader");
    unsafe_uses(p, &mut r);

    // ---- units
    let mut units: Vec<(Instance, Vec<usize>, Ty)> = vec![];
    let mut set: HashSet<Instance> = HashSet::new();
    let mut touch: Vec<Instance> = vec![];
    // functions that reach UnsafeCell::get
    let mut reach: HashSet<Instance> = p.insts.iter().filter(|i| { let n = &p.names[*i]; n.contains("UnsafeCell") && (n.ends_with("::get") || n.ends_with("raw_get")) }).cloned().collect();
    loop {
        let mut grew = false;
        for i in &p.insts {
            if reach.contains(i) { continue }
            if p.edges.get(i).map_or(false, |e| e.iter().any(|e| reach.contains(&e.to))) { reach.insert(*i); grew = true; }
        }
        if !grew { break }
    }
    for i in &p.insts {
        let n = &p.names[i];
        if !is_yary(n) || !reach.contains(i) { continue }
        let Some(b) = i.body() else { continue };
        if p.edges.get(i).map_or(false, |e| e.iter().any(|e| p.names[&e.to].contains("UnsafeCell") && p.names[&e.to].ends_with("::get"))) { touch.push(*i) }
        let gs: Vec<(usize, Ty)> = b.arg_locals().iter().enumerate().filter_map(|(k, l)| shared_guarded(l.ty).map(|t| (k, t))).collect();
        if gs.len() != 1 { continue }
        if gives_mut(b.ret_local().ty, 0) { continue }
        if set.insert(*i) { units.push((*i, vec![gs[0].0], gs[0].1)) }
    }
    units.sort_by_key(|u| p.names[&u.0].clone());
    floor(&mut r, "operations on a shared owning reader", units.len(), 2);
    floor(&mut r, "functions that look inside the owning reader", touch.len(), 1);

    // operations that read from the source are analysed one at a time; the others are followed where they are called
    let mut reads: HashSet<Instance> = p.insts.iter().filter(|i| is_source_call(&p.names[*i])).cloned().collect();
    loop {
        let mut grew = false;
        for i in &p.insts {
            if reads.contains(i) { continue }
            if p.edges.get(i).map_or(false, |e| e.iter().any(|e| reads.contains(&e.to))) { reads.insert(*i); grew = true; }
        }
        if !grew { break }
    }
    let stubs: HashSet<Instance> = set.iter().filter(|i| reads.contains(*i)).cloned().collect();
    let sh = Rc::new(Sh { held_back: Default::default(), held_checks: Cell::new(0), stubs: stubs.clone(), kept: Default::default(), found: Default::default(), undec: Default::default(), cell: Cell::new(0), ty: Cell::new(units.first().map(|u| u.2).unwrap_or(Ty::new_tuple(&[]))), unit: Default::default(), checks: Cell::new(0), user: Cell::new(0) });
    let mut analysed: BTreeSet<String> = BTreeSet::new();
    let mut handed: BTreeSet<String> = BTreeSet::new();
    // repeat until the set of kept places is stable
    for round in 0..8 {
        let before = (sh.kept.borrow().len(), handed.len());
        sh.found.borrow_mut().clear();
        sh.undec.borrow_mut().clear();
        sh.held_back.borrow_mut().clear();
        sh.held_checks.set(0);
        sh.checks.set(0);
        sh.user.set(0);
        for (inst, ks, ty) in &units {
            let cx = Cx::new(Box::new(H { sh: sh.clone() }));
            cx.id_l(IdKey::Fresh(0), "zero".into());
            cx.budget.set(5_000_000);
            let mut st = State::new();
            let b = inst.body().unwrap();
            let pre = Val::Top(*ty, cx.fresh("reader"));
            let c = cx.cell_new(CellInit::Val(pre.clone()));
            st.ghost_set("pre", pre);
            st.ghost_set("root", Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }));
            sh.cell.set(c);
            sh.ty.set(*ty);
            *sh.unit.borrow_mut() = p.names[inst].clone();
            let args: Vec<Val> = b.arg_locals().iter().enumerate().map(|(k, l)| if k == ks[0] { Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }) } else { Val::Top(l.ty, cx.fresh("arg")) }).collect();
            match cx.run_fn(*inst, args, st) {
                Ok(v) => for (s, v) in &v {
                    sh.check(&cx, s, "on return");
                    if stubs.contains(inst) {
                        let err = match cx.expand(v) { Val::Var(1, _) => true, Val::Top(t, o) if cx.num_variants(t) > 1 => !s.set_of(&cx, cx.disc_id(t, o)).has(0), _ => false };
                        if !err {
                            let (mut fl, mut by) = (vec![], vec![]);
                            flags_and_bytes(&cx, s, &s.root_val(&cx, sh.shared()), *ty, String::new(), 0, &mut fl, &mut by);
                            // what was so on entry still is: nothing to show
                            let (mut fl0, mut by0) = (vec![], vec![]);
                            if let x @ Val::Top(..) = s.ghost_get("pre") { flags_and_bytes(&cx, s, &x, *ty, String::new(), 0, &mut fl0, &mut by0) }
                            for (fp, f) in &fl { for (bp, l) in &by {
                                if fl0.iter().any(|x| x.0 == *fp && format!("{:?}", x.1) == format!("{:?}", f)) && by0.iter().any(|x| x.0 == *bp && format!("{:?}", x.1) == format!("{:?}", l)) { continue }
                                sh.held_checks.set(sh.held_checks.get() + 1);
                                let on = match f { Val::Bool(c) => s.known(&cx, c) != Some(false), _ => true };
                                if !on { continue }
                                let empty = match f { Val::Bool(c) => s.assume(&cx, c, true).iter().all(|s| s.prove(&cx, &l.neg())), _ => s.prove(&cx, &l.neg()) };
                                if !empty { sh.held_back.borrow_mut().insert(format!("{}:{}:{}", p.names[inst], fp, bp), format!("{} may return successfully with the flag at {} set while bytes it read are still held back at {}", p.names[inst], fp, bp)); }
                            } }
                        }
                    }
                    let mut ids = vec![];
                    views(&cx, s, v, 0, &mut ids);
                    let mut pre = vec![];
                    if let x @ Val::Top(..) = s.ghost_get("pre") { owns(&cx, s, &x, String::new(), vec![], 0, &mut pre) }
                    for i in ids { if let Some(o) = pre.iter().find(|o| o.id == i) { handed.insert(o.path.clone()); sh.kept.borrow_mut().insert(o.path.clone()); } }
                },
                Err(e) => sh.undec.borrow_mut().insert(format!("run:{}", p.names[inst]), format!("{} could not be analysed ({})", p.names[inst], match e { Stop::Unsup(u) => u, _ => "fork".into() })).map_or((), |_| ()),
            }
            analysed.extend(cx.analysed.borrow().iter().cloned());
            for u in cx.unsup.borrow().keys() { if u.starts_with("loop ") { sh.undec.borrow_mut().insert(format!("lost:{}", u), format!("{}: paths were not followed to the end", u)); } }
            if std::env::var("YARY_VERBOSE").is_ok() && round == 0 { for u in cx.unsup.borrow().iter() { eprintln!("unsup {:?}", u) } }
        }
        if (sh.kept.borrow().len(), handed.len()) == before { break }
    }
    for t in &touch {
        let n = &p.names[t];
        if !analysed.contains(n) && !gives_mut(t.body().unwrap().ret_local().ty, 0) { r.undecided(format!("uncovered:{}", n), format!("{} looks inside the owning reader but is not reached from any operation on a shared reader", n)) }
    }
    for (k, v) in sh.found.borrow().iter() { r.find(k.clone(), v.clone()) }
    for (k, v) in sh.undec.borrow().iter() { r.undecided(k.clone(), v.clone()) }
    for _ in 0..sh.checks.get() { r.good() }
    floor(&mut r, "places text is handed out from", handed.len(), 1);
    r.num("operations on a shared reader", units.len() as u64);
    r.num("calls into foreign code", sh.user.get());
    r.num("kept places checked", sh.checks.get());
    for k in handed { r.list("text is handed out from", k) }
    for k in sh.kept.borrow().iter() { r.list("buffers are kept in", k.clone()) }
    r.analysed = analysed.into_iter().collect();
    let h = sh.held_back.borrow().clone();
    (r, h, sh.held_checks.get())
}

/// Unsafe operations in library code.
fn unsafe_uses(p: &Program, r: &mut Report) {
    let allowed = ["from_utf8_unchecked", "get_unchecked", "unreachable_unchecked", "assert_unchecked", "consume", "new_unchecked", "unwrap_unchecked", "from_u32_unchecked", "unchecked_add", "unchecked_sub", "to_int_unchecked", "get_unchecked_mut"];
    let (mut derefs, mut fns, mut calls) = (0u64, 0u64, 0u64);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut bodies: Vec<(String, Body)> = vec![];
    for i in &p.insts {
        let n = &p.names[i];
        if !is_yary(n) || !matches!(i.kind, InstanceKind::Item) { continue }
        if !seen.insert(n.clone()) { continue }
        if let Some(b) = i.body() { bodies.push((n.clone(), b)) }
    }
    for (n, b) in &bodies {
        fns += 1;
        // where does each local of raw pointer type come from?
        let from_cell = |l: usize| -> bool {
            let mut todo = vec![l];
            let mut done = BTreeSet::new();
            while let Some(l) = todo.pop() {
                if !done.insert(l) { continue }
                let mut any = false;
                for bb in &b.blocks {
                    for s in &bb.statements {
                        if let StatementKind::Assign(pl, rv) = &s.kind {
                            if pl.local != l || !pl.projection.is_empty() { continue }
                            any = true;
                            match rv {
                                Rvalue::Use(Operand::Copy(q) | Operand::Move(q), ..) | Rvalue::Cast(CastKind::PtrToPtr, Operand::Copy(q) | Operand::Move(q), _) if q.projection.is_empty() => todo.push(q.local),
                                // a Box is a pointer: the compiler takes it apart to dereference it
                                Rvalue::Cast(_, Operand::Copy(q) | Operand::Move(q), _) if !q.projection.is_empty() && from_box(b, q) => {}
                                _ => return false,
                            }
                        }
                    }
                    if let TerminatorKind::Call { func, destination, .. } = &bb.terminator.kind {
                        if destination.local == l && destination.projection.is_empty() {
                            any = true;
                            match func.ty(b.locals()).ok().map(|t| t.kind()) {
                                Some(TyKind::RigidTy(RigidTy::FnDef(d, _))) => { let n = d.name().to_string(); if !(n.contains("UnsafeCell") && (n.ends_with("::get") || n.ends_with("raw_get") || n.ends_with("get_mut"))) { return false } }
                                _ => return false,
                            }
                        }
                    }
                }
                if !any { return false }
            }
            true
        };
        let mut check_place = |pl: &Place, loc: String, r: &mut Report| {
            for (k, e) in pl.projection.iter().enumerate() {
                if !matches!(e, ProjectionElem::Deref) { continue }
                let base = Place { local: pl.local, projection: pl.projection[..k].to_vec() };
                let Ok(t) = base.ty(b.locals()) else { continue };
                match t.kind() {
                    TyKind::RigidTy(RigidTy::RawPtr(..)) => {
                        derefs += 1;
                        let ok = base.projection.is_empty() && from_cell(base.local);
                        r.ob(ok, || format!("deref:{}", n), || format!("{} dereferences a raw pointer that does not come straight from UnsafeCell::get ({})", n, loc));
                    }
                    _ => {}
                }
            }
        };
        for bb in &b.blocks {
            for s in &bb.statements {
                let loc = loc_of(&s.source_info.span);
                if let StatementKind::Assign(pl, rv) = &s.kind {
                    check_place(pl, loc.clone(), r);
                    let mut ops: Vec<Place> = vec![];
                    rv_places(rv, &mut ops);
                    for q in &ops { check_place(q, loc.clone(), r) }
                    if let Rvalue::Cast(CastKind::Transmute, Operand::Copy(q) | Operand::Move(q), to) = rv {
                        let from = q.ty(b.locals()).unwrap();
                        if !boxish(from) && !from_box(b, q) { r.ob(harmless(from) && harmless(*to), || format!("transmute:{}", n), || format!("{} transmutes {} to {} ({})", n, short_ty(from), short_ty(*to), loc)); }
                    }
                    for q in ops.iter().chain(std::iter::once(pl)) {
                        for k in 0..q.projection.len() {
                            if !matches!(q.projection[k], ProjectionElem::Field(..)) { continue }
                            let base = Place { local: q.local, projection: q.projection[..k].to_vec() };
                            if let Ok(t) = base.ty(b.locals()) { if let Some((d, _)) = adt(t) { if d.kind() == AdtKind::Union { r.ob(false, || format!("union:{}", n), || format!("{} uses a union ({})", n, loc)); } } }
                        }
                    }
                }
            }
            let loc = loc_of(&bb.terminator.source_info.span);
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator.kind {
                check_place(destination, loc.clone(), r);
                for a in args { if let Operand::Copy(q) | Operand::Move(q) = a { check_place(q, loc.clone(), r) } }
                let Ok(t) = func.ty(b.locals()) else { continue };
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
                    calls += 1;
                    let sig = d.fn_sig();
                    if matches!(sig.skip_binder().safety, Safety::Unsafe) {
                        let m = d.name().to_string();
                        let last = m.rsplit("::").next().unwrap_or("").to_string();
                        let fmt = m.contains("::fmt::") || m.contains("fmt::rt");
                        // library functions marked unsafe are analysed like any other
                        let own = m.starts_with("yary::");
                        r.ob(fmt || own || allowed.contains(&&*last), || format!("unsafe:{}:{}", n, m), || format!("{} calls unsafe {} ({})", n, m, loc));
                    }
                }
            }
        }
    }
    // hand written Send / Sync
    let bad = rustc_middle::ty::tls::with(|tcx| {
        let mut v: Vec<String> = vec![];
        let sync = tcx.lang_items().sync_trait();
        let send = tcx.get_diagnostic_item(rustc_public_sym("Send"));
        for t in [sync, send].into_iter().flatten() {
            for i in tcx.all_impls(t) {
                if tcx.crate_name(i.krate).as_str() == "yary" { v.push(tcx.def_path_str(i)) }
            }
        }
        (v, sync.is_some() as usize + send.is_some() as usize)
    });
    floor(r, "thread safety traits", bad.1, 2);
    r.ob(bad.0.is_empty(), || "send-sync".into(), || format!("hand written Send or Sync: {}", bad.0.join(", ")));
    r.num("library functions scanned for unsafe operations", fns);
    r.num("raw pointer dereferences", derefs);
    r.num("calls scanned", calls);
    floor(r, "raw pointer dereferences (the owning reader's)", derefs as usize, 1);
}
fn rustc_public_sym(s: &str) -> rustc_span::Symbol { rustc_span::Symbol::intern(s) }
fn from_box(b: &Body, q: &Place) -> bool {
    (0..q.projection.len()).any(|k| { let base = Place { local: q.local, projection: q.projection[..k].to_vec() }; base.ty(b.locals()).map_or(false, |t| t.kind().is_box()) })
}
fn boxish(t: Ty) -> bool { t.kind().is_box() || { let n = adt_name(t); n.contains("NonNull") || n.contains("Unique") } }
fn harmless(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Char | RigidTy::Bool | RigidTy::Array(..))) }
fn rv_places(r: &Rvalue, out: &mut Vec<Place>) {
    let mut op = |o: &Operand| if let Operand::Copy(p) | Operand::Move(p) = o { out.push(p.clone()) };
    match r {
        Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) => op(o),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { op(a); op(b) }
        Rvalue::Aggregate(_, v) => for o in v { op(o) },
        Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Len(p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) => out.push(p.clone()),
        _ => {}
    }
}
