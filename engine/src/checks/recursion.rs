//! P15: no call-graph cycle passes through library code.
use super::floor;
use crate::ai::is_yary;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::collections::{BTreeSet, HashMap};

/// Drop glue and trait methods of library types count as library code.
fn owned(p: &Program, i: Instance) -> bool {
    let n = &p.names[&i];
    if is_yary(n) { return true }
    n.contains("yary::")
}

pub fn check(p: &Program) -> Report {
    let mut r = Report::new("P15", "no strongly connected component of the monomorphic call graph (calls, drop glue, function items turned into pointers, trait objects) contains a function or drop glue of the library, and no library function makes an indirect call whose targets are unknown");
    // indirect calls may reach any reified function of the library
    let mut reified: BTreeSet<usize> = BTreeSet::new();
    let idx: HashMap<Instance, usize> = p.insts.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let n = p.insts.len();
    let mut succ: Vec<Vec<(usize, String)>> = vec![vec![]; n];
    let mut edges = 0u64;
    for i in &p.insts {
        for e in p.edges.get(i).map(|v| &v[..]).unwrap_or(&[]) {
            succ[idx[i]].push((idx[&e.to], e.loc.clone()));
            edges += 1;
            if e.kind == "reify" { reified.insert(idx[&e.to]); }
        }
    }
    let mut indirect_own = 0;
    for (i, loc) in &p.indirect {
        if owned(p, *i) { indirect_own += 1 }
        for t in &reified { if owned(p, p.insts[*t]) || owned(p, *i) { succ[idx[i]].push((*t, loc.clone())); edges += 1 } }
    }
    // Tarjan, iterative
    let mut comp = vec![usize::MAX; n];
    let (mut low, mut num, mut on) = (vec![0usize; n], vec![usize::MAX; n], vec![false; n]);
    let (mut st, mut cnt, mut nc) = (vec![], 0, 0);
    let mut sccs: Vec<Vec<usize>> = vec![];
    for s in 0..n {
        if num[s] != usize::MAX { continue }
        let mut w = vec![(s, 0usize)];
        num[s] = cnt; low[s] = cnt; cnt += 1; st.push(s); on[s] = true;
        while let Some((v, k)) = w.pop() {
            if k < succ[v].len() {
                w.push((v, k + 1));
                let t = succ[v][k].0;
                if num[t] == usize::MAX { num[t] = cnt; low[t] = cnt; cnt += 1; st.push(t); on[t] = true; w.push((t, 0)) }
                else if on[t] { low[v] = low[v].min(num[t]) }
            } else {
                if low[v] == num[v] {
                    let mut c = vec![];
                    loop { let x = st.pop().unwrap(); on[x] = false; comp[x] = nc; c.push(x); if x == v { break } }
                    nc += 1;
                    sccs.push(c);
                }
                if let Some((u, _)) = w.last() { low[*u] = low[*u].min(low[v]) }
            }
        }
    }
    let mut own = 0;
    for c in &sccs {
        let cyc = c.len() > 1 || succ[c[0]].iter().any(|(t, _)| *t == c[0]);
        let mine: Vec<usize> = c.iter().cloned().filter(|x| owned(p, p.insts[*x])).collect();
        own += mine.len();
        if !cyc {
            for _ in &mine { r.good() }
            continue
        }
        if mine.is_empty() { for x in c { r.list("cycles outside the library (trusted)", p.names[&p.insts[*x]].clone()) } continue }
        // print one cycle
        let set: BTreeSet<usize> = c.iter().cloned().collect();
        let start = *mine.iter().min_by_key(|x| p.names[&p.insts[**x]].clone()).unwrap();
        let mut prev: HashMap<usize, (usize, String)> = HashMap::new();
        let mut q = std::collections::VecDeque::from(vec![start]);
        let mut path = vec![];
        'o: while let Some(v) = q.pop_front() {
            for (t, l) in &succ[v] {
                if *t == start {
                    let mut cur = v;
                    path.push(format!("{} ({})", p.names[&p.insts[start]], l));
                    while cur != start { let (pv, pl) = prev[&cur].clone(); path.push(format!("{} ({})", p.names[&p.insts[cur]], pl)); cur = pv }
                    break 'o;
                }
                if set.contains(t) && !prev.contains_key(t) { prev.insert(*t, (v, l.clone())); q.push_back(*t) }
            }
        }
        path.push(p.names[&p.insts[start]].clone());
        path.reverse();
        let key: BTreeSet<String> = mine.iter().map(|x| p.names[&p.insts[*x]].clone()).collect();
        r.find(format!("cycle:{}", key.into_iter().collect::<Vec<_>>().join("+")), format!("recursive call path: {}", path.join(" -> ")));
    }
    for i in &p.insts { if is_yary(&p.names[i]) { r.analysed.push(p.names[i].clone()) } }
    r.analysed.sort();
    r.analysed.dedup();
    r.num("call graph nodes", n as u64);
    r.num("call graph edges", edges);
    r.num("library functions and drop glue", own as u64);
    r.num("indirect calls in library code", indirect_own);
    r.num("virtual calls", p.virt.len() as u64);
    for (n, (_, l)) in &p.unsized_ { r.list("types made trait objects", format!("{} at {}", n, l)) }
    for u in &p.unresolved { r.undecided(format!("unresolved:{}", u), format!("call not resolved: {}", u)) }
    let na = r.analysed.len();
    floor(&mut r, "library functions in the call graph", na, 150);
    let roots = ["EventIter<", "Read>::drive", "evaluate", "classify"];
    for a in roots { let c = p.insts.iter().filter(|i| is_yary(&p.names[i]) && p.names[i].contains(a)).count(); floor(&mut r, &format!("operations matching {}", a), c, 1) }
    r
}
