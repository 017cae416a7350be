//! P14: the token queue is a stable priority queue on token positions.
use super::floor;
use crate::ai::*;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::collections::BTreeSet;

pub fn is_heap(name: &str) -> bool { name.contains("BinaryHeap") || name.contains("binary_heap") }

struct H;
impl Hooks for H {
    fn call(&self, cx: &Cx, st: &mut State, name: &str, _inst: Instance, args: &[Val], _ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        if name.contains("yary::") && !name.starts_with("std::") { return None }
        if is_heap(name) && name.ends_with("::push") {
            st.tr(1, args[1].clone());
            let _ = cx;
            return Some(Ok(vec![(st.clone(), Val::unit())]));
        }
        if is_heap(name) && name.ends_with("::pop") {
            let v = st.ghost_get("pop");
            return Some(Ok(vec![(st.clone(), if v == Val::Undef { Val::none() } else { Val::some(v) })]));
        }
        if is_heap(name) && (name.ends_with("::len") || name.ends_with("::is_empty") || name.ends_with("::reserve")) { return None }
        None
    }
}

fn cx() -> Cx { let cx = Cx::new(Box::new(H)); cx.id_l(IdKey::Fresh(0), "zero".into()); cx.budget.set(3_000_000); cx }
fn cell(cx: &Cx, v: Val) -> Val { let c = cx.cell_new(CellInit::Val(v)); Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }) }

pub fn check(p: &Program) -> Report {
    let mut r = Report::new("P14", "abstract interpretation of the queue's push and pop and of every comparison the heap performs on its elements: for two pushed tokens at symbolic positions the earlier position compares as first out, and at equal positions the one pushed first; pop returns the token that was pushed; nothing else adds, removes or reorders heap elements");
    let one = |suffix: &str| -> Option<Instance> { p.insts.iter().find(|i| { let n = &p.names[i]; n.starts_with("yary::") && n.ends_with(suffix) && tokenish(**i) }).cloned() };
    let (push, pop) = (one("::Queue::push"), one("::Queue::pop"));
    let pos = p.insts.iter().find(|i| p.names[i].starts_with("yary::") && p.names[i].ends_with("TokenEntry::read_at")).cloned();
    floor(&mut r, "queue push", push.is_some() as usize, 1);
    floor(&mut r, "queue pop", pop.is_some() as usize, 1);
    floor(&mut r, "token position accessor", pos.is_some() as usize, 1);
    let (Some(push), Some(pop), Some(pos)) = (push, pop, pos) else { return r };
    for i in [push, pop, pos] { r.analysed.push(p.names[&i].clone()) }

    // comparisons the heap makes on its elements
    let mut cmps: Vec<Instance> = vec![];
    let mut names = BTreeSet::new();
    for i in &p.insts {
        if !is_heap(&p.names[i]) || p.names[i].starts_with("yary::") { continue }
        for e in p.edges.get(i).map(|v| &v[..]).unwrap_or(&[]) {
            let n = &p.names[&e.to];
            if (n.contains("cmp::PartialOrd") || n.contains("cmp::Ord")) && n.contains("TokenEntry") && names.insert(n.clone()) { cmps.push(e.to); r.analysed.push(n.clone()) }
        }
    }
    floor(&mut r, "comparisons made by the heap", cmps.len(), 1);

    // ---- push two tokens, remember what the heap was given
    let (pb, qb) = (push.body().unwrap(), pop.body().unwrap());
    let (qt, et) = (deref_ty(pb.arg_locals()[0].ty), pb.arg_locals()[1].ty);
    let _ = qb;
    let orders = [("an earlier token pushed first", -1i128), ("a token at the same position pushed first", 0), ("a later token pushed first", 1)];
    for (what, ord) in orders {
        let cx = cx();
        let mut st = State::new();
        let q = cell(&cx, Val::Top(qt, cx.fresh("queue")));
        let (e1, e2) = (Val::Top(et, cx.fresh("first")), Val::Top(et, cx.fresh("second")));
        let mut at = vec![];
        for e in [&e1, &e2] {
            match cx.run_fn(pos, vec![cell(&cx, e.clone())], st.clone()) {
                Ok(v) if v.len() == 1 => match &v[0].1 { Val::Int(l) => at.push(l.clone()), x => { if let Val::Int(l) = cx.expand(x) { at.push(l) } } },
                _ => {}
            }
        }
        if at.len() != 2 { r.undecided("position", "the position of a token could not be evaluated"); return r }
        let d = at[0].sub(&at[1]);
        let ok = match ord { -1 => st.assume_ge0(&cx, &d.neg().addk(-1)), 0 => st.assume_ge0(&cx, &d) && st.assume_ge0(&cx, &d.neg()), _ => st.assume_ge0(&cx, &d.addk(-1)) };
        if !ok { r.undecided("assume", "positions"); return r }
        let mut sts = vec![st];
        for e in [&e1, &e2] {
            let mut n = vec![];
            for s in sts {
                match cx.run_fn(push, vec![q.clone(), e.clone()], s) { Ok(v) => n.extend(v.into_iter().map(|x| x.0)), Err(_) => { r.undecided("push", "Queue::push could not be analysed"); return r } }
            }
            sts = n;
        }
        for (u, _) in cx.unsup.borrow().iter() { r.undecided(format!("unsup:{}", u), format!("{} in Queue::push", u)) }
        r.ob(!sts.is_empty(), || "push:returns".into(), || "Queue::push never returns".into());
        for s in sts {
            let xs: Vec<Val> = s.trace.iter().filter(|t| t.0 == 1).map(|t| t.1.clone()).collect();
            if !r.ob(xs.len() == 2, || "push:once".into(), || format!("pushing two tokens handed {} elements to the heap", xs.len())) { continue }
            // the element pops back as the token
            for (x, e) in [(&xs[0], &e1), (&xs[1], &e2)] {
                let mut s2 = s.clone();
                s2.ghost_set("pop", x.clone());
                match cx.run_fn(pop, vec![q.clone()], s2) {
                    Ok(v) => for (_, v) in &v {
                        let same = match v { Val::Var(1, a) => same(&cx, &a[0], e), _ => false };
                        r.ob(same, || "pop:identity".into(), || format!("Queue::pop returns {} for the element pushed for {}", show(&cx, v), show(&cx, e)));
                    },
                    Err(_) => r.undecided("pop", "Queue::pop could not be analysed"),
                }
            }
            for c in &cmps {
                let n = p.names[c].clone();
                let method = n.rsplit("::").next().unwrap_or("").to_string();
                for (a, b, first) in [(&xs[0], &xs[1], ord <= 0), (&xs[1], &xs[0], ord > 0)] {
                    // first: `a` must leave the (max) heap before `b`
                    let mut s2 = s.clone();
                    let (pa, pb2) = (cell(&cx, a.clone()), cell(&cx, b.clone()));
                    s2.trace = Default::default();
                    let by_value = c.body().map_or(false, |b| !matches!(b.arg_locals()[0].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..))));
                    let args = if by_value { vec![a.clone(), b.clone()] } else { vec![pa, pb2] };
                    match cx.run_fn(*c, args, s2) {
                        Ok(v) => {
                            r.ob(!v.is_empty(), || format!("cmp:{}", method), || format!("{} does not return", n));
                            for (s3, v) in &v {
                                let want = match method.as_str() { "lt" | "le" => Some(!first), "gt" | "ge" => Some(first), _ => None };
                                let good = match (want, method.as_str()) {
                                    (Some(w), _) => match cx.expand(v) { Val::Bool(c) => s3.known(&cx, &c) == Some(w), _ => false },
                                    (None, "cmp") => ordering(v) == Some(if first { 2 } else { 0 }),
                                    (None, "partial_cmp") => match v { Val::Var(1, a) => ordering(&a[0]) == Some(if first { 2 } else { 0 }), _ => false },
                                    (None, "max") => same(&cx, v, if first { a } else { b }),
                                    _ => { r.undecided(format!("cmp:{}", n), format!("unknown comparison {}", n)); continue }
                                };
                                r.ob(good, || format!("order:{}:{}", method, what), || format!("with {}, {} does not order the queue by position and arrival (got {})", what, n, show(&cx, v)));
                            }
                        }
                        Err(_) => r.undecided(format!("cmp:{}", n), format!("{} could not be analysed", n)),
                    }
                }
            }
            for (u, _) in cx.unsup.borrow().iter() { r.undecided(format!("unsup:{}", u), format!("{} while comparing", u)) }
        }
    }
    // ---- nothing else changes the heap
    let allowed = ["push", "pop", "len", "is_empty", "peek", "reserve", "capacity", "iter", "new", "default", "with_capacity", "drop", "fmt", "clone", "clear", "drop_in_place", "into_iter"];
    let order_keeping = ["into_sorted_vec", "from", "take"];
    let mut calls = 0;
    for i in &p.insts {
        let n = &p.names[i];
        if !is_yary(n) || is_heap(n) { continue }
        for e in p.edges.get(i).map(|v| &v[..]).unwrap_or(&[]) {
            let m = &p.names[&e.to];
            if !is_heap(m) || is_yary(m) { continue }
            calls += 1;
            let f = m.rsplit("::").next().unwrap_or("");
            r.ob(allowed.contains(&f) || order_keeping.contains(&f) || e.kind == "drop", || format!("heap:{}:{}", n, f), || format!("{} changes the heap through {} ({})", n, m, e.loc));
        }
    }
    r.num("heap operations in library code", calls);
    r.num("heap comparisons", cmps.len() as u64);
    r
}

fn ordering(v: &Val) -> Option<u32> { match v { Val::Var(k, _) => Some(*k), _ => None } }
fn tokenish(i: Instance) -> bool { format!("{:?}", i.args()).contains("TokenEntry") || i.name().to_string().contains("TokenEntry") || true }
fn deref_ty(t: Ty) -> Ty { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => t, _ => t } }
fn same(cx: &Cx, a: &Val, b: &Val) -> bool {
    if a == b { return true }
    match (cx.expand(a), cx.expand(b)) {
        (Val::Agg(x), Val::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(cx, x, y)),
        (Val::Var(i, x), Val::Var(j, y)) => i == j && x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(cx, x, y)),
        (x, y) => x == y,
    }
}
