//! Abstract execution of monomorphised MIR.
use super::join;
use super::lin::*;
use super::models;
use super::state::*;
use super::value::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use super::fx::Map as HashMap;
use std::collections::BTreeMap;
use std::rc::Rc;

pub enum Loc {
    Mem(Root, Vec<Pe>),
    Byte(BufId, Lin),
    Slice(View),
}

pub fn strip_generics(name: &str) -> String {
    // remove turbofish ::<...>
    let b = name.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"::<") && !b[i..].starts_with(b"::<impl") {
            let mut d = 0;
            i += 2;
            while i < b.len() {
                match b[i] { b'<' => d += 1, b'>' if i > 0 && b[i - 1] == b'-' => {}, b'>' => { d -= 1; if d == 0 { i += 1; break } } _ => {} }
                i += 1;
            }
        } else { out.push(b[i] as char); i += 1 }
    }
    out
}

impl Cx {
    pub fn name(&self, i: Instance) -> Rc<str> {
        if let Some(n) = self.names.borrow().get(&i) { return n.clone() }
        let n: Rc<str> = Rc::from(strip_generics(&i.name().to_string()));
        self.names.borrow_mut().insert(i, n.clone());
        n
    }
    pub fn body(&self, i: Instance) -> Option<Rc<Body1>> {
        if let Some(b) = self.bodies.borrow().get(&i) { return b.clone() }
        let skip = match i.kind {
            InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => true,
            InstanceKind::Item => i.is_foreign_item() || !i.has_body(),
            InstanceKind::Shim => false,
        };
        let b = if skip { None } else { i.body().map(|b| Rc::new(self.prep(i, b))) };
        self.bodies.borrow_mut().insert(i, b.clone());
        b
    }
    fn prep(&self, inst: Instance, body: Body) -> Body1 {
        let n = body.blocks.len();
        let succ: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
        // reverse post order
        let mut order = vec![];
        let mut state = vec![0u8; n];
        let mut stack = vec![(0usize, 0usize)];
        state[0] = 1;
        while let Some((b, i)) = stack.pop() {
            if i < succ[b].len() {
                stack.push((b, i + 1));
                let s = succ[b][i];
                if state[s] == 0 { state[s] = 1; stack.push((s, 0)) }
            } else { order.push(b) }
        }
        order.reverse();
        let mut rpo = vec![usize::MAX; n];
        for (i, b) in order.iter().enumerate() { rpo[*b] = i }
        let mut preds = vec![vec![]; n];
        let mut heads = vec![false; n];
        for &b in &order { for &s in &succ[b] { preds[s].push(b); if rpo[s] <= rpo[b] { heads[s] = true } } }
        // liveness
        let nl = body.locals().len();
        let mut borrowed = vec![false; nl];
        let mut kill = vec![vec![false; nl]; n];
        let mut use_ = vec![vec![false; nl]; n];
        for &b in &order {
            let bb = &body.blocks[b];
            let mut events: Vec<(usize, bool)> = vec![]; // (local, is_use)
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        rv_uses(r, &mut |l| events.push((l, true)), &mut |l| borrowed[l] = true);
                        place_ev(p, &mut events);
                    }
                    StatementKind::SetDiscriminant { place, .. } => events.push((place.local, true)),
                    StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => events.push((*l, false)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => op_use(o, &mut |l| events.push((l, true))),
                    _ => {}
                }
            }
            match &bb.terminator.kind {
                TerminatorKind::SwitchInt { discr, .. } => op_use(discr, &mut |l| events.push((l, true))),
                TerminatorKind::Return => events.push((0, true)),
                TerminatorKind::Drop { place, .. } => events.push((place.local, true)),
                TerminatorKind::Call { func, args, destination, .. } => {
                    op_use(func, &mut |l| events.push((l, true)));
                    for a in args { op_use(a, &mut |l| events.push((l, true))) }
                    place_ev(destination, &mut events);
                }
                TerminatorKind::Assert { cond, .. } => op_use(cond, &mut |l| events.push((l, true))),
                _ => {}
            }
            for (l, u) in events { if u { if !kill[b][l] { use_[b][l] = true } } else { kill[b][l] = true } }
        }
        let mut live = vec![vec![false; nl]; n];
        loop {
            let mut ch = false;
            for &b in order.iter().rev() {
                for l in 0..nl {
                    let out = succ[b].iter().any(|s| live[*s][l]);
                    let v = use_[b][l] || (out && !kill[b][l]);
                    if v != live[b][l] { live[b][l] = v; ch = true }
                }
            }
            if !ch { break }
        }
        Body1 { inst, name: self.name(inst).to_string(), body, rpo, order, preds, heads, live, borrowed }
    }
}

fn place_ev(p: &Place, ev: &mut Vec<(usize, bool)>) {
    for e in &p.projection { if let ProjectionElem::Index(l) = e { ev.push((*l, true)) } }
    if p.projection.is_empty() { ev.push((p.local, false)) } else { ev.push((p.local, true)) }
}
fn pl_use(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection { if let ProjectionElem::Index(l) = e { f(*l) } }
}
fn op_use(o: &Operand, f: &mut dyn FnMut(usize)) { match o { Operand::Copy(p) | Operand::Move(p) => pl_use(p, f), _ => {} } }
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(usize), bor: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => {
            pl_use(p, f);
            if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) { bor(p.local) }
        }
        Rvalue::Aggregate(_, os) => for o in os { op_use(o, f) },
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { op_use(a, f); op_use(b, f) }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) => op_use(o, f),
        Rvalue::Use(o, _) => op_use(o, f),
        Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => pl_use(p, f),
        _ => {}
    }
}
pub fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => { let mut v = targets.all_targets(); v.dedup(); v }
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

pub struct Frame<'a> { pub cx: &'a Cx, pub b: Rc<Body1> }

impl Cx {
    pub fn own_func(&self) -> String {
        // innermost yary function on the call stack
        let cs = self.callstack.borrow();
        for n in cs.iter().rev() { if is_yary(n) { return n.to_string() } }
        cs.last().map(|s| s.to_string()).unwrap_or_default()
    }
    pub fn here(&self) -> String { self.curloc.borrow().clone() }

    /// Run a function on abstract arguments.
    pub fn run_fn(&self, inst: Instance, args: Vec<Val>, mut st: State) -> R<Vec<(State, Val)>> {
        let Some(b) = self.body(inst) else { return Err(Stop::Unsup(format!("no body: {}", self.name(inst)))) };
        if self.callstack.borrow().len() > 60 { return Err(Stop::Unsup("call depth".into())) }
        let mut locals = vec![Val::Undef; b.body.locals().len()];
        let nargs = b.body.arg_locals().len();
        let mut args = args;
        if args.len() != nargs {
            // closure bodies take their arguments untupled
            if let Some(last) = args.pop() {
                let last = self.expand(&last);
                match last { Val::Agg(a) => args.extend(a.iter().cloned()), Val::Zst | Val::Undef => {}, o => args.push(o) }
            }
        }
        if args.len() != nargs { return Err(Stop::Unsup(format!("arity {} {} vs {}", b.name, args.len(), nargs))) }
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a }
        st.frames.push(Rc::new(locals));
        self.callstack.borrow_mut().push(Rc::from(b.name.as_str()));
        if is_yary(&b.name) { self.analysed.borrow_mut().insert(b.name.clone()); }
        let s0 = self.steps.get();
        let saved = self.curloc.borrow().clone();
        let r = self.run_body(&b, st);
        *self.curloc.borrow_mut() = saved;
        self.callstack.borrow_mut().pop();
        if let Ok(v) = &r {
            let mut fsx = self.fnstats.borrow_mut();
            let e = fsx.entry(b.name.clone()).or_default();
            e.0 += 1; e.1 += self.steps.get() - s0; e.2 = e.2.max(v.len() as u64);
        }
        r
    }

    fn run_body(&self, b: &Rc<Body1>, st: State) -> R<Vec<(State, Val)>> {
        let fr = Frame { cx: self, b: b.clone() };
        let depth = st.frames.len() - 1;
        let mut pending: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        let mut heads: HashMap<usize, Vec<(u64, State, u32)>> = HashMap::default();
        let mut rets: Vec<(State, Val)> = vec![];
        pending.insert(0, vec![st]);
        while let Some((ri, mut states)) = pending.pop_first() {
            let bb = b.order[ri];
            for s in states.iter_mut() {
                let f = Rc::make_mut(&mut s.frames[depth]);
                for (l, v) in f.iter_mut().enumerate() { if !b.live[bb][l] && !b.borrowed[l] && l != 0 { *v = Val::Undef } }
                if !b.live[bb][0] && !b.borrowed[0] { f[0] = Val::Undef }
            }
            if b.heads[bb] {
                let tbl = heads.entry(bb).or_default();
                let mut next = vec![];
                states.retain_mut(|s| self.hooks.on_head(self, s, &b.name, bb));
                for s in states { if let Some(n) = join::head_add(self, tbl, s) { next.push(n) } }
                states = next;
                if self.trace && heads[&bb].len() > 30 {
                    let tb = &heads[&bb];
                    let mut w = 0;
                    for i in 0..tb.len() { for k in 0..i { if tb[i].0 == tb[k].0 && w < 3 { w += 1; eprintln!("   WHYNOT {}", join::why_not(self, &tb[k].1, &tb[i].1)) } } }
                    self.splits(&tb.iter().map(|x| &x.1).collect::<Vec<_>>());
                }
                if self.trace { eprintln!("head {} bb{} classes {} new {} ids {}", b.name, bb, heads[&bb].len(), states.len(), self.ids.borrow().len()) }
                if self.debug { eprintln!("  {}head {} bb{} classes {} new {}", "  ".repeat(depth), b.name, bb, heads[&bb].len(), states.len()) }
                if heads[&bb].len() > 400 { return Err(Stop::Unsup(format!("too many classes at loop head of {}", b.name))) }
            } else if b.preds[bb].len() > 1 && states.len() > 1 {
                let n = states.len();
                states = join::merge_list(self, states, self.lim.get());
                if self.trace && n > 40 { eprintln!("merge {} bb{} {} -> {}", b.name, bb, n, states.len()) }
            }
            for s in states {
                let mut work = vec![(s, 0usize)];
                while let Some((mut s, mut i)) = work.pop() {
                    let bbd = &b.body.blocks[bb];
                    let mut dead = false;
                    while i < bbd.statements.len() {
                        self.steps.set(self.steps.get() + 1);
                        match fr.stmt(&mut s, &bbd.statements[i]) {
                            Ok(()) => i += 1,
                            Err(Stop::Fork(alts)) => { for a in alts { work.push((a, i)) } dead = true; break }
                            Err(Stop::Dead) => { dead = true; break }
                            Err(Stop::Panic(p)) => { let _ = p; dead = true; break }
                            Err(Stop::Unsup(u)) => {
                                if !is_yary(&b.name) { return Err(Stop::Unsup(u)) }
                                self.note_unsup(&format!("{}: {}", b.name, u), &mut s);
                                // havoc the destination
                                if let StatementKind::Assign(p, _) = &bbd.statements[i].kind { fr.havoc_place(&mut s, p) }
                                i += 1;
                            }
                        }
                    }
                    if dead { continue }
                    self.steps.set(self.steps.get() + 1);
                    if self.steps.get() > self.budget.get() { return Err(Stop::Unsup("budget exhausted".into())) }
                    match fr.term(s, bb, &mut rets) {
                        Ok(v) => for (t, s) in v { pending.entry(b.rpo[t]).or_default().push(s) },
                        Err(Stop::Fork(alts)) => for a in alts { work.push((a, bbd.statements.len())) },
                        Err(Stop::Dead) | Err(Stop::Panic(_)) => {}
                        Err(Stop::Unsup(u)) => return Err(Stop::Unsup(u)),
                    }
                }
            }
        }
        // merge returns
        let hooks = &self.hooks;
        let want = hooks.want_return(&b.name);
        let mut out = vec![];
        let rets: Vec<(State, Val)> = if self.splitbools.get() { rets.into_iter().flat_map(|(s, v)| match &v {
            Val::Bool(c) if !matches!(c, Cond::K(_)) => [true, false].iter().flat_map(|b| s.assume(self, c, *b).into_iter().map(move |s| (s, Val::Bool(Cond::K(*b))))).collect::<Vec<_>>(),
            _ => vec![(s, v)] }).collect() } else { rets };
        for (mut s, v) in rets {
            if want { hooks.on_return(self, &mut s, &b.name, &v) }
            let v = if self.tabulate.get() { hooks.forget(self, b.body.locals()[0].ty, v) } else { v };
            s.frames.pop();
            s.frames.push(Rc::new(vec![v]));
            out.push(s);
        }
        let n = out.len();
        let out = if self.tabints.get() && n > 1 && int_dom(b.body.locals()[0].ty).is_some() { self.tabulated_int(out) } else { out };
        let out = if self.tabulate.get() && n > 2 { self.tabulated(out, b.body.locals()[0].ty) } else { out };
        let out = join::merge_list(self, out, self.lim.get());
        if self.trace && out.len() > 100 { self.splits(&out.iter().collect::<Vec<_>>()) }
        if self.trace && n > 20 { eprintln!("return {} {} -> {}", b.name, n, out.len()) }
        Ok(out.into_iter().map(|mut s| { let f = s.frames.pop().unwrap(); (s, f[0].clone()) }).collect())
    }

    /// Debugging: what tells states apart.
    fn splits(&self, v: &[&State]) {
        let mut m: std::collections::BTreeMap<String, std::collections::BTreeMap<u64, (usize, String)>> = Default::default();
        for s in v {
            for (d, f) in s.frames.iter().enumerate() { for (i, v) in f.iter().enumerate() { m.entry(format!("frame {} local {}", d, i)).or_default().entry(join::skel_val(self, s, v)).or_insert((0, format!("{:?}", v))).0 += 1; } }
            for (c, v) in s.heap.iter() { m.entry(format!("heap {}", c)).or_default().entry(join::skel_val(self, s, v)).or_insert((0, format!("{:?}", v))).0 += 1; }
            for (c, v) in s.ghost.iter() { m.entry(format!("ghost {}", c)).or_default().entry(join::skel_val(self, s, v)).or_insert((0, format!("{:?}", v))).0 += 1; }
            m.entry("hooks".into()).or_default().entry(self.hooks.skeleton(self, s)).or_insert((0, String::new())).0 += 1;
        }
        for (k, v) in m { if v.len() > 1 { eprintln!("   SPLIT {} {}: {}", k, v.len(), v.values().take(30).map(|x| format!("{} {}", x.0, x.1.chars().take(700).collect::<String>())).collect::<Vec<_>>().join("\n        ")) } }
    }
    /// Outcomes that differ in one symbol's domain and in the variant of a fieldless enum returned become one.
    fn tabulated(&self, v: Vec<State>, ty: Ty) -> Vec<State> {
        let nv = self.num_variants(ty);
        if nv < 2 || nv > 200 || (0..nv).any(|i| !self.fields(ty, i as u32).is_empty()) { return v }
        if self.discr_table(ty).iter().take(nv).enumerate().any(|(i, d)| *d != i as i128) { return v }
        struct G { st: State, sym: Option<Id>, dom: Set, tab: Vec<i128>, first: i128 }
        let mut out: Vec<State> = vec![];
        let mut gs: Vec<G> = vec![];
        'n: for mut s in v {
            let k = match &s.frames.last().unwrap()[0] { Val::Var(k, a) if a.is_empty() => *k as i128, _ => { out.push(s); continue } };
            join::gc(self, &mut s);
            *Rc::make_mut(s.frames.last_mut().unwrap()) = vec![Val::Undef];
            for g in gs.iter_mut() {
                if !join::same_but_dom(&g.st, &s) { continue }
                let keys: std::collections::BTreeSet<Id> = g.st.dom.keys().chain(s.dom.keys()).cloned().collect();
                let diff: Vec<Id> = keys.into_iter().filter(|i| Some(*i) != g.sym && g.st.domain(self, *i) != s.domain(self, *i)).collect();
                let sym = match (g.sym, &diff[..]) { (Some(i), []) => i, (None, [i]) => *i, _ => continue };
                let (Dom::S(x), Dom::S(y)) = (if g.sym.is_some() { Dom::S(g.dom.clone()) } else { g.st.domain(self, sym) }, s.domain(self, sym)) else { continue };
                if !x.and(&y).is_empty() { continue }
                if g.sym.is_none() { g.tab = vec![0; 256]; for i in x.iter() { g.tab[i] = g.first } }
                for i in y.iter() { g.tab[i] = k }
                g.sym = Some(sym);
                g.dom = x.or(&y);
                continue 'n;
            }
            gs.push(G { st: s, sym: None, dom: Set::empty(), tab: vec![], first: k });
        }
        for mut g in gs {
            let v = match g.sym { None => Val::var(g.first as u32, vec![]), Some(i) => { g.st.set_dom(i, Dom::S(g.dom)); Val::Tab(i, Rc::new(g.tab)) } };
            *Rc::make_mut(g.st.frames.last_mut().unwrap()) = vec![v];
            out.push(g.st);
        }
        out
    }

    /// The same for outcomes whose returned number is a function of the one byte they differ in.
    fn tabulated_int(&self, v: Vec<State>) -> Vec<State> {
        let mut out: Vec<(State, Val)> = vec![];
        'n: for mut s in v {
            let val = s.frames.last().unwrap()[0].clone();
            if !matches!(val, Val::Int(_) | Val::Tab(..) | Val::Bool(Cond::K(_) | Cond::In(..))) { out.push((s, val)); continue }
            *Rc::make_mut(s.frames.last_mut().unwrap()) = vec![Val::Undef];
            for (g, gv) in out.iter_mut() {
                if !join::same_but_dom(g, &s) { continue }
                let keys: std::collections::BTreeSet<Id> = g.dom.keys().chain(s.dom.keys()).cloned().collect();
                let diff: Vec<Id> = keys.into_iter().filter(|i| g.domain(self, *i) != s.domain(self, *i)).collect();
                let [i] = diff[..] else { continue };
                let (Dom::S(x), Dom::S(y)) = (g.domain(self, i), s.domain(self, i)) else { continue };
                if !x.and(&y).is_empty() { continue }
                let f = |st: &State, v: &Val| -> Option<Rc<Vec<i128>>> { match as_const(self, st, v) { Some(k) => Some(Rc::new(vec![k; 256])), None => as_tab(self, st, v).filter(|t| t.0 == i).map(|t| t.1) } };
                let (Some(a), Some(b)) = (f(g, gv), f(&s, &val)) else { continue };
                let d = x.or(&y);
                let t: Vec<i128> = (0..256).map(|k| if x.has(k) { a[k] } else if y.has(k) { b[k] } else { 0 }).collect();
                g.set_dom(i, Dom::S(d.clone()));
                *gv = if let Val::Bool(_) = gv { Val::Bool(Cond::In(i, Set::from_fn(|k| d.has(k) && t[k] != 0))) } else { simp_tab(&d, i, t) };
                continue 'n;
            }
            out.push((s, val));
        }
        out.into_iter().map(|(mut s, v)| { *Rc::make_mut(s.frames.last_mut().unwrap()) = vec![v]; s }).collect()
    }

    pub fn note_unsup(&self, what: &str, st: &mut State) {
        *self.unsup.borrow_mut().entry(what.to_string()).or_default() += 1;
        Rc::make_mut(&mut st.taint).insert(what.to_string());
    }

    /// Call an instance: hooks, models, then the body; unknown callees havoc.
    /// A struct or variant constructor used as a function value.
    fn ctor(&self, inst: Instance, name: &str, args: &[Val], ret: Ty) -> Option<Val> {
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = ret.kind() else { return None };
        let TyKind::RigidTy(RigidTy::FnDef(..)) = inst.ty().kind() else { return None };
        let dn = d.trimmed_name();
        let last = name.rsplit("::").next()?;
        let base = dn.rsplit("::").next()?;
        match d.kind() {
            AdtKind::Struct if last == base => Some(Val::agg(args.to_vec())),
            AdtKind::Enum => {
                let i = d.variants().iter().position(|v| v.name() == last)?;
                let v = d.variants()[i];
                if v.fields().len() != args.len() || !name.ends_with(&format!("{}::{}", base, last)) { return None }
                Some(Val::Var(i as u32, std::rc::Rc::new(args.to_vec())))
            }
            _ => None,
        }
    }
    pub fn call(&self, mut st: State, inst: Instance, args: Vec<Val>, ret: Ty) -> R<Vec<(State, Val)>> {
        let name = self.name(inst);
        if let Some(r) = self.hooks.call(self, &mut st, &name, inst, &args, ret) { return r }
        if let Some(r) = models::call(self, &mut st, &name, inst, &args, ret) { return r }
        if self.body(inst).is_some() {
            let unsup0 = st.clone();
            match self.run_fn(inst, args.clone(), st) {
                Err(Stop::Unsup(u)) => {
                    if u.starts_with("budget") { return Err(Stop::Unsup(u)) }
                    // drop the frames the failed run left behind
                    let mut st = unsup0;
                    self.note_unsup(&format!("{} ({})", name, u), &mut st);
                    self.havoc_args(&mut st, &args);
                    let v = Val::Top(ret, self.fresh("havoc"));
                    Ok(vec![(st, v)])
                }
                r => r,
            }
        } else if let Some(v) = self.ctor(inst, &name, &args, ret) {
            Ok(vec![(st, v)])
        } else {
            self.note_unsup(&format!("{} (no body)", name), &mut st);
            self.havoc_args(&mut st, &args);
            let v = Val::Top(ret, self.fresh("havoc"));
            Ok(vec![(st, v)])
        }
    }
    /// Forget everything reachable through pointer arguments.
    pub fn havoc_args(&self, st: &mut State, args: &[Val]) {
        for a in args {
            if let Val::Ptr(p) = a {
                if let Ok(v) = st.read(self, p.root, &p.path) {
                    let nv = self.havoc_val(&v);
                    let _ = st.write(self, p.root, &p.path, nv);
                }
            }
        }
    }
    fn havoc_val(&self, v: &Val) -> Val {
        match v {
            Val::Int(_) | Val::Tab(..) => Val::Int(Lin::sym(self.fresh("havoc"))),
            Val::Bool(_) => Val::Bool(Cond::In(self.fresh_dom("havoc", Dom::S(Set::upto(2))), Set::one(1))),
            Val::Top(t, _) => Val::Top(*t, self.fresh("havoc")),
            Val::Agg(a) => Val::agg(a.iter().map(|x| self.havoc_val(x)).collect()),
            Val::Obj(o) => match &**o {
                Obj::Vec { ty, .. } | Obj::Map { ty, .. } | Obj::Heap { ty, .. } => Val::Top(*ty, self.fresh("havoc")),
                _ => v.clone(),
            },
            _ => v.clone(),
        }
    }
}

pub fn is_yary(n: &str) -> bool { n.starts_with("yary::") || n.starts_with("<yary::") || n.contains(" for yary::") || (n.starts_with('<') && n.contains("yary::") && !n.starts_with("<std") && !n.starts_with("<core") && !n.starts_with("<alloc") && n.contains(" as yary::")) || n.starts_with("<&yary::") || n.starts_with("<&mut yary::") }

impl<'a> Frame<'a> {
    fn locals(&self) -> &[LocalDecl] { self.b.body.locals() }

    pub fn havoc_place(&self, st: &mut State, p: &Place) {
        if let (Ok(ty), Ok(l)) = (p.ty(self.locals()), self.place(st, p)) {
            let v = Val::Top(ty, self.cx.fresh("havoc"));
            if let Loc::Mem(r, path) = l { let _ = st.write(self.cx, r, &path, v); }
        }
    }

    pub fn place(&self, st: &mut State, p: &Place) -> R<Loc> {
        let d = st.depth();
        let mut loc = Loc::Mem(Root::Local(d, p.local as u32), vec![]);
        for e in &p.projection {
            loc = match (loc, e) {
                (loc, ProjectionElem::Deref) => {
                    let v = self.read_loc(st, &loc)?;
                    self.deref(&v)?
                }
                (Loc::Mem(r, mut path), ProjectionElem::Field(i, _)) => {
                    path.push(Pe::F(*i as u32));
                    Loc::Mem(r, path)
                }
                (Loc::Mem(r, mut path), ProjectionElem::Downcast(v)) => {
                    path.push(Pe::V(variant_index(v)));
                    Loc::Mem(r, path)
                }
                (Loc::Slice(v), ProjectionElem::ConstantIndex { offset, from_end, .. }) => {
                    let pos = if *from_end { v.e.addk(-(*offset as i128)) } else { v.s.addk(*offset as i128) };
                    Loc::Byte(v.buf, pos)
                }
                (Loc::Slice(v), ProjectionElem::Subslice { from, to, from_end }) => {
                    let s = v.s.addk(*from as i128);
                    let e = if *from_end { v.e.addk(-(*to as i128)) } else { v.s.addk(*to as i128) };
                    Loc::Slice(View { buf: v.buf, s, e })
                }
                (Loc::Slice(v), ProjectionElem::Index(l)) => {
                    let i = st.root_val(self.cx, Root::Local(d, *l as u32));
                    let i = self.lin(st, &i)?;
                    Loc::Byte(v.buf, v.s.add(&i))
                }
                (Loc::Mem(r, mut path), ProjectionElem::ConstantIndex { offset, from_end, .. }) => {
                    let v = st.read(self.cx, r, &path)?;
                    let v = self.cx.expand(&v);
                    match &v {
                        Val::Agg(a) => {
                            let k = if *from_end { a.len() as u64 - offset } else { *offset };
                            path.push(Pe::F(k as u32));
                            Loc::Mem(r, path)
                        }
                        Val::Obj(o) => if let Obj::Vec { elems, base: None, .. } = &**o {
                            let k = if *from_end { elems.len() as u64 - offset } else { *offset };
                            path.push(Pe::E(k as u32));
                            Loc::Mem(r, path)
                        } else { return Err(Stop::Unsup("index into vec".into())) },
                        _ => return Err(Stop::Unsup("constant index".into())),
                    }
                }
                (Loc::Mem(r, mut path), ProjectionElem::Index(l)) => {
                    let i = st.root_val(self.cx, Root::Local(d, *l as u32));
                    let i = self.lin(st, &i)?;
                    let i = st.norm(self.cx, &i);
                    let v = st.read(self.cx, r, &path)?;
                    match (&self.cx.expand(&v), i.is_const()) {
                        (Val::Agg(a), Some(k)) if k >= 0 && (k as usize) < a.len() => { path.push(Pe::F(k as u32)); Loc::Mem(r, path) }
                        (Val::Agg(a), None) if a.len() <= 8 => {
                            for k in 0..a.len() as i128 { st.decide(self.cx, &Cond::Eq0(i.addk(-k)))?; }
                            return Err(Stop::Dead);
                        }
                        _ => return Err(Stop::Unsup("index".into())),
                    }
                }
                (l, ProjectionElem::OpaqueCast(_)) => l,
                (Loc::Mem(..), ProjectionElem::Subslice { .. }) => return Err(Stop::Unsup("subslice of array".into())),
                (Loc::Slice(v), ProjectionElem::Field(..)) => Loc::Slice(v),
                _ => return Err(Stop::Unsup("projection".into())),
            }
        }
        Ok(loc)
    }
    pub fn deref(&self, v: &Val) -> R<Loc> {
        match self.cx.expand(v) {
            Val::Ptr(p) => Ok(Loc::Mem(p.root, p.path)),
            Val::View(v) => Ok(Loc::Slice(v)),
            Val::BPtr(b, p) => Ok(Loc::Byte(b, p)),
            Val::Agg(a) if a.len() >= 1 => self.deref(&a[0]), // Box / Unique / NonNull
            o => Err(Stop::Unsup(format!("deref of {:?}", o))),
        }
    }
    pub fn read_loc(&self, st: &mut State, l: &Loc) -> R<Val> {
        match l {
            Loc::Mem(r, p) => st.read(self.cx, *r, p),
            Loc::Byte(b, p) => Ok(st.byte_at(self.cx, *b, p)),
            Loc::Slice(v) => Ok(Val::View(v.clone())),
        }
    }
    pub fn operand(&self, st: &mut State, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.place(st, p)?;
                self.read_loc(st, &l)
            }
            Operand::Constant(c) => self.cx.constant(&c.const_),
            Operand::RuntimeChecks(_) => Ok(Val::b(false)),
        }
    }
    pub fn lin(&self, st: &mut State, v: &Val) -> R<Lin> { to_lin(self.cx, st, v) }

    pub fn stmt(&self, st: &mut State, s: &Statement) -> R<()> {
        if self.cx.quiet.get() == 0 && is_yary(&self.b.name) {
            let li = s.source_info.span.get_lines();
            *self.cx.curloc.borrow_mut() = format!("{}:{}", short(&s.source_info.span.get_filename().to_string()), li.start_line);
        }
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let v = self.rvalue(st, r, p)?;
                let l = self.place(st, p)?;
                match l {
                    Loc::Mem(root, path) => st.write(self.cx, root, &path, v),
                    Loc::Byte(..) => Err(Stop::Unsup("write to byte".into())),
                    Loc::Slice(_) => Err(Stop::Unsup("write to slice".into())),
                }
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ty = place.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                let l = self.place(st, place)?;
                let k = variant_index_u(variant_index);
                let n = self.cx.fields(ty, k).len();
                if let Loc::Mem(r, p) = l { st.write(self.cx, r, &p, Val::var(k, vec![Val::Undef; n])) } else { Err(Stop::Unsup("setdisc".into())) }
            }
            StatementKind::StorageDead(l) => { st.set_local(*l, Val::Undef); Ok(()) }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let v = self.operand(st, o)?;
                let c = to_cond(self.cx, st, &v)?;
                let alts = st.assume(self.cx, &c, true);
                match alts.len() { 0 => Err(Stop::Dead), 1 => { *st = alts.into_iter().next().unwrap(); Ok(()) } _ => Ok(()) }
            }
            _ => Ok(()),
        }
    }

    fn op_ty(&self, o: &Operand) -> R<Ty> { o.ty(self.locals()).map_err(|_| Stop::Unsup("operand type".into())) }

    pub fn rvalue(&self, st: &mut State, r: &Rvalue, dest: &Place) -> R<Val> {
        let cx = self.cx;
        match r {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => { let l = self.place(st, p)?; self.read_loc(st, &l) }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                Ok(match self.place(st, p)? {
                    Loc::Mem(root, path) => Val::Ptr(Ptr { root, path }),
                    Loc::Byte(b, p) => Val::BPtr(b, p),
                    Loc::Slice(v) => Val::View(v),
                })
            }
            Rvalue::Aggregate(k, os) => {
                let mut vs = vec![];
                for o in os { vs.push(self.operand(st, o)?) }
                Ok(match k {
                    AggregateKind::Adt(d, v, _, _, f) => {
                        if d.kind() == AdtKind::Union {
                            let i = f.unwrap_or(0);
                            let mut a = vec![Val::Undef; i + 1];
                            a[i] = vs.pop().unwrap_or(Val::Undef);
                            return Ok(Val::agg(a));
                        }
                        if d.kind() == AdtKind::Enum { Val::var(variant_index_u(v), vs) } else { Val::agg(vs) }
                    }
                    AggregateKind::RawPtr(..) => {
                        // (data pointer, metadata)
                        match (&vs[0], &vs[1]) {
                            (Val::BPtr(b, p), m) => { let n = to_lin(cx, st, m)?; Val::View(View { buf: *b, s: p.clone(), e: p.add(&n) }) }
                            (v, _) => v.clone(),
                        }
                    }
                    _ => Val::agg(vs),
                })
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ty = self.op_ty(a)?;
                let (va, vb) = (self.operand(st, a)?, self.operand(st, b)?);
                binop(cx, st, *op, &va, &vb, ty)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ty = self.op_ty(a)?;
                let (va, vb) = (self.operand(st, a)?, self.operand(st, b)?);
                let (v, o) = checked(cx, st, *op, &va, &vb, ty)?;
                Ok(Val::agg(vec![v, Val::Bool(o)]))
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                match op {
                    UnOp::Not => {
                        let ty = self.op_ty(o)?;
                        if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool)) { return Ok(Val::Bool(to_cond(cx, st, &v)?.not())) }
                        let d = int_dom(ty).ok_or(Stop::Unsup("not".into()))?;
                        let signed = d.min() < 0;
                        let hi = d.max();
                        if let Val::Tab(i, t) = &v { return Ok(Val::Tab(*i, Rc::new(t.iter().map(|x| hi - x).collect()))) }
                        let l = to_lin(cx, st, &v)?;
                        if signed { return Ok(Val::Int(l.neg().addk(-1))) }
                        Ok(Val::Int(Lin::k(hi).sub(&l)))
                    }
                    UnOp::Neg => { let l = to_lin(cx, st, &v)?; Ok(Val::Int(l.neg())) }
                    UnOp::PtrMetadata => match cx.expand(&v) {
                        Val::View(v) => Ok(Val::Int(v.len())),
                        Val::Ptr(p) => {
                            let x = st.read(cx, p.root, &p.path)?;
                            match cx.expand(&x) {
                                Val::Obj(o) => match &*o { Obj::Vec { base, elems, .. } => Ok(Val::Int(vec_len(base, elems))), _ => Err(Stop::Unsup("metadata".into())) },
                                Val::Agg(a) => Ok(Val::k(a.len() as i128)),
                                _ => Err(Stop::Unsup("metadata".into())),
                            }
                        }
                        _ => Err(Stop::Unsup("metadata".into())),
                    },
                }
            }
            Rvalue::Len(p) => {
                let l = self.place(st, p)?;
                match l {
                    Loc::Slice(v) => Ok(Val::Int(v.len())),
                    Loc::Mem(r, path) => {
                        let x = st.read(cx, r, &path)?;
                        match cx.expand(&x) {
                            Val::Obj(o) => match &*o { Obj::Vec { base, elems, .. } => Ok(Val::Int(vec_len(base, elems))), _ => Err(Stop::Unsup("len".into())) },
                            Val::Agg(a) => Ok(Val::k(a.len() as i128)),
                            _ => Err(Stop::Unsup("len".into())),
                        }
                    }
                    _ => Err(Stop::Unsup("len".into())),
                }
            }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                let l = self.place(st, p)?;
                let v = self.read_loc(st, &l)?;
                discriminant(cx, st, &v, ty)
            }
            Rvalue::Cast(k, o, ty) => {
                let from = self.op_ty(o)?;
                let v = self.operand(st, o)?;
                cast(cx, st, k, v, from, *ty)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let n = n.eval_target_usize().map_err(|_| Stop::Unsup("repeat".into()))?;
                if n <= 64 { return Ok(Val::agg(vec![v; n as usize])) }
                let ty = dest.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                Ok(Val::Top(ty, cx.fresh("array")))
            }
            Rvalue::ThreadLocalRef(_) => Err(Stop::Unsup("thread local".into())),
        }
    }

    /// Execute a terminator: successors with states.
    pub fn term(&self, mut st: State, bb: usize, rets: &mut Vec<(State, Val)>) -> R<Vec<(usize, State)>> {
        let cx = self.cx;
        let t = &self.b.body.blocks[bb].terminator;
        if is_yary(&self.b.name) {
            let li = t.source_info.span.get_lines();
            *cx.curloc.borrow_mut() = format!("{}:{}", short(&t.source_info.span.get_filename().to_string()), li.start_line);
        }
        match &t.kind {
            TerminatorKind::Goto { target } => Ok(vec![(*target, st)]),
            TerminatorKind::Return => {
                let v = st.root_val(cx, Root::Local(st.depth(), 0));
                rets.push((st, v));
                Ok(vec![])
            }
            TerminatorKind::Unreachable => {
                Err(Stop::Dead)
            }
            TerminatorKind::Resume | TerminatorKind::Abort => Err(Stop::Dead),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                let _ = ty;
                Ok(vec![(*target, st)])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&mut st, discr)?;
                let v = cx.expand(&v);
                let mut out = vec![];
                match v {
                    Val::Bool(c) => {
                        let b = st.decide(cx, &c)?;
                        let want = b as u128;
                        let t = targets.branches().find(|(v, _)| *v == want).map(|x| x.1).unwrap_or(targets.otherwise());
                        out.push((t, st));
                    }
                    Val::Tab(i, tab) => {
                        let d = st.set_of(cx, i);
                        let mut groups: BTreeMap<usize, Set> = BTreeMap::new();
                        for x in d.iter() {
                            let val = tab[x];
                            let t = targets.branches().find(|(v, _)| *v as i128 == val || sx(*v) == val).map(|b| b.1).unwrap_or(targets.otherwise());
                            groups.entry(t).or_insert(Set::empty()).add(x);
                        }
                        for (t, s) in groups { let mut n = st.clone(); if n.assume_in(cx, i, &s) { out.push((t, n)) } }
                    }
                    Val::Int(l) => {
                        let l = st.norm(cx, &l);
                        if let Some(k) = l.is_const() {
                            let t = targets.branches().find(|(v, _)| *v as i128 == k || sx(*v) == k).map(|b| b.1).unwrap_or(targets.otherwise());
                            return Ok(vec![(t, st)]);
                        }
                        if let Some((i, k)) = l.as_sym_off() {
                            if let Dom::S(d) = st.domain(cx, i) {
                                let mut groups: BTreeMap<usize, Set> = BTreeMap::new();
                                for x in d.iter() {
                                    let val = x as i128 + k;
                                    let t = targets.branches().find(|(v, _)| *v as i128 == val).map(|b| b.1).unwrap_or(targets.otherwise());
                                    groups.entry(t).or_insert(Set::empty()).add(x);
                                }
                                for (t, s) in groups { let mut n = st.clone(); if n.assume_in(cx, i, &s) { out.push((t, n)) } }
                                return Ok(out);
                            }
                        }
                        let mut rest = vec![st];
                        for (v, t) in targets.branches() {
                            let c = Cond::Eq0(l.addk(-(v as i128)));
                            let mut nrest = vec![];
                            for s in rest {
                                for n in s.assume(cx, &c, true) { out.push((t, n)) }
                                nrest.extend(s.assume(cx, &c, false));
                            }
                            rest = nrest;
                        }
                        for s in rest { out.push((targets.otherwise(), s)) }
                    }
                    Val::Undef | Val::Top(..) => {
                        cx.note_unsup(&format!("{}: switch on unknown", self.b.name), &mut st);
                        for t in succs(&t.kind) { out.push((t, st.clone())) }
                    }
                    o => return Err(Stop::Unsup(format!("switch on {:?}", o))),
                }
                // unreachable targets
                out.retain(|(t, _)| !matches!(self.b.body.blocks[*t].terminator.kind, TerminatorKind::Unreachable) || !self.b.body.blocks[*t].statements.is_empty());
                Ok(out)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&mut st, cond)?;
                let c = to_cond(cx, &mut st, &v)?;
                let c = if *expected { c } else { c.not() };
                cx.oblig.set(cx.oblig.get() + 1);
                let fname = cx.own_func();
                let what = assert_what(msg);
                cx.sites.borrow_mut().insert(format!("{}|{}|bb{}", self.b.name, what, bb));
                if st.known(cx, &c) == Some(true) { return Ok(vec![(*target, st)]) }
                let bad = st.assume(cx, &c, false);
                if !bad.is_empty() {
                    if st.taint.is_empty() { cx.alarm("panic", &fname, &what, &cx.here()); if cx.debug { eprintln!("ALARM {} {} cond {:?}\n{}", fname, what, c, dump(cx, &bad[0])) } }
                    else { cx.alarm("inconclusive", &fname, &what, &cx.here()) }
                }
                Ok(st.assume(cx, &c, true).into_iter().map(|s| (*target, s)).collect())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(func)?;
                let mut vals = vec![];
                for a in args { vals.push(self.operand(&mut st, a)?) }
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) { Ok(i) => i, Err(_) => return Err(Stop::Unsup("resolve".into())) },
                    _ => match self.operand(&mut st, func)? {
                        Val::Fn(i) => i,
                        _ => {
                            cx.note_unsup(&format!("{}: indirect call", self.b.name), &mut st);
                            cx.havoc_args(&mut st, &vals);
                            let ty = destination.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                            let l = self.place(&mut st, destination)?;
                            if let Loc::Mem(r, p) = l { st.write(cx, r, &p, Val::Top(ty, cx.fresh("indirect")))? }
                            return Ok(target.iter().map(|t| (*t, st.clone())).collect());
                        }
                    },
                };
                // closure bodies take their arguments untupled
                if matches!(inst.kind, InstanceKind::Item) && vals.len() == 2 && matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) {
                    let last = cx.expand(&vals[1]);
                    match last { Val::Agg(a) => { vals.pop(); vals.extend(a.iter().cloned()) } Val::Zst | Val::Undef => { vals.pop(); } _ => {} }
                }
                let rty = destination.ty(self.locals()).map_err(|_| Stop::Unsup("ty".into()))?;
                let depth = st.frames.len();
                // drop caller temporaries that die here
                if let Some(t) = target {
                    let d = st.frames.len() - 1;
                    let dest = destination.local;
                    let f = Rc::make_mut(&mut st.frames[d]);
                    for (l, v) in f.iter_mut().enumerate() {
                        if !self.b.live[*t][l] && !self.b.borrowed[l] && l != dest { *v = Val::Undef }
                    }
                    // note: a Fork below re-executes with the original operands gone, so keep a copy
                }
                let st0 = st;
                let r = cx.call(st0, inst, vals.clone(), rty);
                let r = match r {
                    Err(Stop::Fork(alts)) => {
                        // re-run the call itself on every alternative (operands are already evaluated)
                        let mut out = vec![];
                        let mut work: Vec<State> = alts;
                        let mut fuel = 4000;
                        while let Some(s) = work.pop() {
                            fuel -= 1;
                            if fuel == 0 { return Err(Stop::Unsup("fork loop".into())) }
                            match cx.call(s, inst, vals.clone(), rty) {
                                Ok(v) => out.extend(v),
                                Err(Stop::Fork(a)) => work.extend(a),
                                Err(Stop::Dead) | Err(Stop::Panic(_)) => {}
                                Err(e) => return Err(e),
                            }
                        }
                        out
                    }
                    Err(Stop::Dead) | Err(Stop::Panic(_)) => vec![],
                    Err(e) => return Err(e),
                    Ok(v) => v,
                };
                let mut out = vec![];
                for (mut s, v) in r {
                    debug_assert_eq!(s.frames.len(), depth);
                    let Some(t) = target else { continue };
                    let l = self.place(&mut s, destination)?;
                    match l {
                        Loc::Mem(root, path) => s.write(cx, root, &path, v)?,
                        _ => return Err(Stop::Unsup("call dest".into())),
                    }
                    out.push((*t, s));
                }
                Ok(out)
            }
            TerminatorKind::InlineAsm { .. } => Err(Stop::Unsup("asm".into())),
        }
    }
}

fn sx(v: u128) -> i128 {
    // branch values of signed discriminants are stored zero extended (8..64 bit)
    for b in [8u32, 16, 32, 64] {
        if v >= (1u128 << (b - 1)) && v < (1u128 << b) { return v as i128 - (1i128 << b) }
    }
    v as i128
}

pub fn variant_index(v: &VariantIdx) -> u32 { variant_index_u(v) }
pub fn variant_index_u(v: &VariantIdx) -> u32 {
    // VariantIdx is an index newtype without a public accessor other than Debug/Index
    use rustc_public_bridge::IndexedVal;
    v.to_index() as u32
}

pub fn short(f: &str) -> String { match f.find("/src/") { Some(i) => f[i + 1..].to_string(), None => f.to_string() } }

pub fn assert_what(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(op, ..) => format!("arithmetic overflow in {:?}", op),
        AssertMessage::OverflowNeg(_) => "negation overflow".into(),
        AssertMessage::DivisionByZero(_) => "division by zero".into(),
        AssertMessage::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

pub fn vec_len(base: &Option<(Id, Lin)>, elems: &[Val]) -> Lin {
    match base { Some((_, l)) => l.addk(elems.len() as i128), None => Lin::k(elems.len() as i128) }
}

pub fn to_lin(cx: &Cx, st: &mut State, v: &Val) -> R<Lin> {
    match cx.expand(v) {
        Val::Int(l) => Ok(st.norm(cx, &l)),
        Val::Tab(i, t) => {
            let d = st.set_of(cx, i);
            let mut vals: Vec<i128> = d.iter().map(|x| t[x]).collect();
            let first = d.min().unwrap_or(0);
            let off = t[first] - first as i128;
            if d.iter().all(|x| t[x] == x as i128 + off) { return Ok(st.norm(cx, &Lin::sym(i).addk(off))) }
            vals.sort(); vals.dedup();
            if vals.len() == 1 { return Ok(Lin::k(vals[0])) }
            if vals.len() <= 5 {
                let mut alts = vec![];
                for v in &vals {
                    let mut n = st.clone();
                    let s = Set::from_fn(|x| d.has(x) && t[x] == *v);
                    if n.assume_in(cx, i, &s) { alts.push(n) }
                }
                return Err(Stop::Fork(alts));
            }
            let u: Vec<i128> = (0..256).map(|x| if d.has(x) { t[x] } else { 0 }).collect();
            Ok(tab_lin(cx, i, &d, &u))
        }
        Val::Bool(c) => { let b = st.decide(cx, &c)?; Ok(Lin::k(b as i128)) }
        Val::Agg(a) if a.len() == 1 => to_lin(cx, st, &a[0]),
        o => Err(Stop::Unsup(format!("not an integer: {:?}", o))),
    }
}

pub fn to_cond(cx: &Cx, st: &mut State, v: &Val) -> R<Cond> {
    match cx.expand(v) {
        Val::Bool(c) => Ok(c),
        Val::Tab(i, t) => Ok(Cond::In(i, Set::from_fn(|x| t[x] != 0))),
        Val::Int(l) => {
            let l = st.norm(cx, &l);
            if let Some(k) = l.is_const() { return Ok(Cond::K(k != 0)) }
            if let Some(i) = l.as_sym() { if let Dom::S(_) = st.domain(cx, i) { return Ok(Cond::In(i, Set::one(0).not())) } }
            Ok(Cond::Eq0(l).not())
        }
        o => Err(Stop::Unsup(format!("not a bool: {:?}", o))),
    }
}

pub fn discriminant(cx: &Cx, st: &mut State, v: &Val, ty: Ty) -> R<Val> {
    match v {
        Val::Var(i, _) => {
            let t = cx.discr_table(ty);
            Ok(Val::k(*t.get(*i as usize).unwrap_or(&(*i as i128))))
        }
        Val::Top(t, o) => {
            if cx.num_variants(*t) <= 1 { return Ok(Val::k(0)) }
            let tab = cx.discr_table(*t);
            let d = cx.disc_id(*t, *o);
            let s = st.set_of(cx, d);
            if let Some(x) = s.single() { return Ok(Val::k(tab[x])) }
            Ok(Val::Tab(d, Rc::new(tab)))
        }
        // the variant of a fieldless enum that depends on a symbol
        Val::Tab(..) | Val::Int(_) => Ok(v.clone()),
        // newtype wrappers around non null values modelled by their payload
        _ => Err(Stop::Unsup(format!("discriminant of {:?}", v))),
    }
}

/// A value as a function of one finite symbol.
fn as_tab(cx: &Cx, st: &State, v: &Val) -> Option<(Id, Rc<Vec<i128>>)> {
    match cx.expand(v) {
        Val::Tab(i, t) => Some((i, t)),
        Val::Int(l) => {
            let l = st.norm(cx, &l);
            if l.t.len() == 1 {
                let (i, c) = l.t[0];
                if let Some((j, t)) = cx.tabdef.borrow().get(&i) { if let Dom::S(_) = st.domain(cx, *j) { return Some((*j, Rc::new((0..256).map(|x| c * t[x] + l.k).collect()))) } }
                if let Dom::S(_) = st.domain(cx, i) { return Some((i, Rc::new((0..256).map(|x| c * x + l.k).collect()))) }
            }
            None
        }
        Val::Bool(Cond::In(i, s)) => Some((i, Rc::new((0..256).map(|x| s.has(x) as i128).collect()))),
        _ => None,
    }
}
fn as_const(cx: &Cx, st: &State, v: &Val) -> Option<i128> {
    match cx.expand(v) {
        Val::Int(l) => st.norm(cx, &l).is_const(),
        Val::Bool(Cond::K(b)) => Some(b as i128),
        Val::Tab(i, t) => { let d = st.set_of(cx, i); let mut it = d.iter().map(|x| t[x]); let f = it.next()?; if it.all(|x| x == f) { Some(f) } else { None } }
        _ => None,
    }
}

fn bits_of(ty: Ty) -> u32 {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Bool) => 1,
        TyKind::RigidTy(RigidTy::Uint(u)) => (u.num_bytes() * 8) as u32,
        TyKind::RigidTy(RigidTy::Int(u)) => (u.num_bytes() * 8) as u32,
        TyKind::RigidTy(RigidTy::Char) => 32,
        _ => 64,
    }
}
pub fn wrap(x: i128, ty: Ty) -> i128 {
    let b = bits_of(ty);
    if b >= 120 { return x }
    let m = 1i128 << b;
    let r = x.rem_euclid(m);
    let signed = int_dom(ty).map(|d| d.min() < 0).unwrap_or(false);
    if signed && r >= m / 2 { r - m } else { r }
}

fn int_op(op: BinOp, a: i128, b: i128, ty: Ty) -> Option<i128> {
    Some(match op {
        BinOp::Add | BinOp::AddUnchecked => wrap(a + b, ty),
        BinOp::Sub | BinOp::SubUnchecked => wrap(a - b, ty),
        BinOp::Mul | BinOp::MulUnchecked => wrap(a.checked_mul(b)?, ty),
        BinOp::Div => if b == 0 { return None } else { a / b },
        BinOp::Rem => if b == 0 { return None } else { a % b },
        BinOp::BitXor => wrap(a ^ b, ty),
        BinOp::BitAnd => a & b,
        BinOp::BitOr => a | b,
        BinOp::Shl | BinOp::ShlUnchecked => wrap(a.checked_shl(b as u32 % bits_of(ty))?, ty),
        BinOp::Shr | BinOp::ShrUnchecked => a >> (b as u32 % bits_of(ty)),
        _ => return None,
    })
}

pub fn binop(cx: &Cx, st: &mut State, op: BinOp, a: &Val, b: &Val, ty: Ty) -> R<Val> {
    use BinOp::*;
    match op {
        Eq | Ne | Lt | Le | Gt | Ge => return compare(cx, st, op, a, b).map(Val::Bool),
        Cmp => {
            let lt = compare(cx, st, Lt, a, b)?;
            if st.decide(cx, &lt)? { return Ok(Val::var(0, vec![])) }
            let eq = compare(cx, st, Eq, a, b)?;
            if st.decide(cx, &eq)? { return Ok(Val::var(1, vec![])) }
            return Ok(Val::var(2, vec![]));
        }
        Offset => return Err(Stop::Unsup("pointer offset".into())),
        _ => {}
    }
    let is_bool = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool));
    if is_bool {
        let (ca, cb) = (to_cond(cx, st, a)?, to_cond(cx, st, b)?);
        return Ok(Val::Bool(match op {
            BitAnd => ca.and(cb),
            BitOr => ca.or(cb),
            BitXor => match (ca, cb) { (Cond::K(x), c) | (c, Cond::K(x)) => if x { c.not() } else { c }, (x, y) => { let v = st.decide(cx, &x)?; if v { y.not() } else { y } } },
            _ => return Err(Stop::Unsup("bool op".into())),
        }));
    }
    if let (Some(x), Some(y)) = (as_const(cx, st, a), as_const(cx, st, b)) {
        if let Some(r) = int_op(op, x, y, ty) { return Ok(Val::k(r)) }
    }
    // functions of one finite symbol
    let (ta, tb) = (as_tab(cx, st, a), as_tab(cx, st, b));
    let fin = match (&ta, &tb) {
        (Some((i, t)), None) => as_const(cx, st, b).map(|k| (*i, t.clone(), Rc::new(vec![k; 256]))),
        (None, Some((i, t))) => as_const(cx, st, a).map(|k| (*i, Rc::new(vec![k; 256]), t.clone())),
        (Some((i, t)), Some((j, u))) if i == j => Some((*i, t.clone(), u.clone())),
        (Some((i, t)), Some((j, u))) => {
            if let Some(k) = as_const(cx, st, b) { let _ = (j, u); Some((*i, t.clone(), Rc::new(vec![k; 256]))) } else { None }
        }
        _ => None,
    };
    if let Some((i, t, u)) = fin {
        let d = st.set_of(cx, i);
        let mut out = vec![0; 256];
        let mut ok = true;
        for x in d.iter() { match int_op(op, t[x], u[x], ty) { Some(r) => out[x] = r, None => { ok = false; break } } }
        if ok { return Ok(simp_tab(&d, i, out)) }
    }
    let (la, lb) = (to_lin(cx, st, a)?, to_lin(cx, st, b)?);
    let dom = int_dom(ty).unwrap_or(Dom::R(NEG_INF, POS_INF));
    let fits = |st: &State, l: &Lin| st.min(cx, l) >= dom.min() && st.max(cx, l) <= dom.max();
    let usz = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)));
    match op {
        Add | AddUnchecked => { let r = la.add(&lb); if usz || fits(st, &r) { return Ok(Val::Int(r)) } }
        Sub | SubUnchecked => { let r = la.sub(&lb); if (usz && st.prove(cx, &r)) || fits(st, &r) { return Ok(Val::Int(r)) } }
        Mul | MulUnchecked => {
            let r = match (la.is_const(), lb.is_const()) { (Some(k), _) => Some(lb.scale(k)), (_, Some(k)) => Some(la.scale(k)), _ => None };
            if let Some(r) = r { if fits(st, &r) { return Ok(Val::Int(r)) } }
        }
        Shl | ShlUnchecked => if let Some(k) = lb.is_const() {
            if (0..60).contains(&k) { let r = la.scale(1 << k); if fits(st, &r) { return Ok(Val::Int(r)) } }
        },
        Shr | ShrUnchecked => if let Some(k) = lb.is_const() {
            let (mn, mx) = (st.min(cx, &la), st.max(cx, &la));
            if mn >= 0 && mx < POS_INF { return Ok(Val::Int(Lin::sym(cx.fresh_dom("shr", small_dom(mn >> k, mx >> k))))) }
        },
        Div => if let Some(k) = lb.is_const() { if k > 0 {
            let (mn, mx) = (st.min(cx, &la), st.max(cx, &la));
            if mn >= 0 && mx < POS_INF { return Ok(Val::Int(Lin::sym(cx.fresh_dom("div", Dom::R(mn / k, mx / k))))) }
        } },
        Rem => if let Some(k) = lb.is_const() { if k > 0 && st.min(cx, &la) >= 0 { return Ok(Val::Int(Lin::sym(cx.fresh_dom("rem", Dom::R(0, k - 1))))) } },
        BitAnd => {
            for (l, m) in [(&la, &lb), (&lb, &la)] {
                // a mask that keeps every bit the value can have
                if let Some(m) = m.is_const() { if m > 0 && (m + 1) & m == 0 && st.min(cx, l) >= 0 && st.max(cx, l) <= m { return Ok(Val::Int(l.clone())) } }
                if let (Some(m), true) = (m.is_const(), l.t.len() == 2) { if let Some(v) = masked(cx, st, l, m)? { return Ok(v) } }
                if let (Some(s), Some(m)) = (l.as_sym(), m.is_const()) {
                    if m >= 0 && m.count_ones() <= 32 {
                        // sum of bit symbols
                        let full = st.domain(cx, s);
                        let mut r = Lin::k(0);
                        let mut n = 0;
                        for b in 0..64 {
                            if m >> b & 1 == 1 && full.max() >> b > 0 {
                                n += 1;
                                r = r.add(&Lin::sym(bit(cx, s, b)).scale(1 << b));
                            }
                        }
                        if n <= 12 { return Ok(Val::Int(r)) }
                        return Ok(Val::Int(Lin::sym(cx.fresh_dom("and", Dom::R(0, m.min(full.max()))))));
                    }
                }
                if let Some(m) = m.is_const() { if m >= 0 && st.min(cx, l) >= 0 { return Ok(Val::Int(Lin::sym(cx.fresh_dom("and", small_dom(0, m))))) } }
            }
        }
        BitOr => {
            // disjoint bits
            for (h, l) in [(&la, &lb), (&lb, &la)] {
                let (mn, mx) = (st.min(cx, l), st.max(cx, l));
                if mn < 0 || mx >= 1 << 60 || st.min(cx, h) < 0 { continue }
                let m = 1i128 << (128 - mx.leading_zeros());
                if h.k % m == 0 && h.t.iter().all(|x| x.1 % m == 0) { return Ok(Val::Int(h.add(l))) }
            }
            for (l, m) in [(&la, &lb), (&lb, &la)] {
                if let (Some(s), Some(m)) = (l.as_sym(), m.is_const()) {
                    if m >= 0 && m.count_ones() <= 12 {
                        let mut r = l.addk(m);
                        for b in 0..64 { if m >> b & 1 == 1 { r = r.sub(&Lin::sym(bit(cx, s, b)).scale(1 << b)) } }
                        return Ok(Val::Int(r));
                    }
                }
            }
            let (mx, my) = (st.max(cx, &la), st.max(cx, &lb));
            if st.min(cx, &la) >= 0 && st.min(cx, &lb) >= 0 && mx < POS_INF && my < POS_INF {
                let hi = ((1i128 << (128 - (mx.max(my)).leading_zeros())) - 1).max(0);
                return Ok(Val::Int(Lin::sym(cx.fresh_dom("or", Dom::R(st.min(cx, &la).max(st.min(cx, &lb)), hi)))));
            }
        }
        _ => {}
    }
    Ok(Val::Int(Lin::sym(cx.fresh_dom("arith", dom_r(&dom)))))
}
/// A mask applied to a number put together from two independent digits.
fn masked(cx: &Cx, st: &mut State, l: &Lin, m: i128) -> R<Option<Val>> {
    let mut t = l.t.clone();
    t.sort_by_key(|x| x.1);
    let (lo, hi) = (t[0], t[1]);
    if lo.1 <= 0 || m < 0 { return Ok(None) }
    let kl = l.k.rem_euclid(hi.1);
    let fits = |kl: i128| { let low = Lin { k: kl, t: vec![lo] }; st.min(cx, &low) >= 0 && st.max(cx, &low) < hi.1 };
    let Some(kl) = [kl, kl - hi.1].into_iter().find(|k| fits(*k)) else { return Ok(None) };
    let kh = l.k - kl;
    if hi.1.count_ones() != 1 || st.min(cx, &Lin { k: kh, t: vec![hi] }) < 0 { return Ok(None) }
    let tab = |st: &State, (s, c): (Id, i128), k: i128, m: i128| -> Option<(Set, Id, Vec<i128>)> {
        let def = cx.tabdef.borrow().get(&s).cloned();
        let (i, t) = match def { Some((i, t)) => (i, t), None => (s, Rc::new((0..256).collect::<Vec<i128>>())) };
        match st.domain(cx, i) { Dom::S(d) => Some((d, i, (0..256).map(|x| (c * t[x] + k) & m).collect())), _ => None }
    };
    let (mh, ml) = (m & !(hi.1 - 1), m & (hi.1 - 1));
    let (Some((dh, ih, th)), Some((dl, il, tl))) = (tab(st, hi, kh, mh), tab(st, lo, kl, ml)) else { return Ok(None) };
    let (h, l) = (simp_tab(&dh, ih, th.clone()), simp_tab(&dl, il, tl.clone()));
    let k = |v: &Val| match v { Val::Int(l) => l.is_const(), _ => None };
    Ok(Some(match (k(&h), k(&l)) {
        (Some(a), Some(b)) => Val::k(a + b),
        (Some(a), None) => simp_tab(&dl, il, tl.iter().map(|x| x + a).collect()),
        (None, Some(b)) => simp_tab(&dh, ih, th.iter().map(|x| x + b).collect()),
        (None, None) => {
            let mut vals: Vec<i128> = dh.iter().map(|x| th[x]).collect();
            vals.sort(); vals.dedup();
            let mut alts = vec![];
            for v in vals {
                let mut n = st.clone();
                if n.assume_in(cx, ih, &Set::from_fn(|x| dh.has(x) && th[x] == v)) { alts.push(n) }
            }
            return Err(Stop::Fork(alts));
        }
    }))
}
fn dom_r(d: &Dom) -> Dom { d.clone() }
fn small_dom(a: i128, b: i128) -> Dom { if a >= 0 && b < 256 { Dom::S(Set::range(a as usize, b as usize)) } else { Dom::R(a, b) } }
fn bit(cx: &Cx, s: Id, b: u32) -> Id {
    const N: [&str; 64] = ["bit0","bit1","bit2","bit3","bit4","bit5","bit6","bit7","bit8","bit9","bit10","bit11","bit12","bit13","bit14","bit15","bit16","bit17","bit18","bit19","bit20","bit21","bit22","bit23","bit24","bit25","bit26","bit27","bit28","bit29","bit30","bit31","bit32","bit33","bit34","bit35","bit36","bit37","bit38","bit39","bit40","bit41","bit42","bit43","bit44","bit45","bit46","bit47","bit48","bit49","bit50","bit51","bit52","bit53","bit54","bit55","bit56","bit57","bit58","bit59","bit60","bit61","bit62","bit63"];
    let i = cx.id(IdKey::Conv(s, N[b as usize]));
    cx.set_dom0(i, Dom::S(Set::upto(2)));
    i
}
/// One symbol for one function of one byte, up to scale and offset.
pub fn tab_lin(cx: &Cx, i: Id, d: &Set, t: &[i128]) -> Lin {
    let min = d.iter().map(|x| t[x]).min().unwrap_or(0);
    let mut g: i128 = 0;
    for x in d.iter() { let (mut a, mut b) = (g, t[x] - min); while b != 0 { (a, b) = (b, a % b) } g = a }
    let g = g.max(1);
    let u: Vec<i128> = (0..256).map(|x| if d.has(x) { (t[x] - min) / g } else { 0 }).collect();
    let known = cx.tabs.borrow().get(&(i, u.clone())).cloned();
    let id = match known { Some(k) => k, None => {
        let max = u.iter().max().cloned().unwrap_or(0);
        let id = cx.fresh_dom("tab", if max < 256 { Dom::S(Set::from_fn(|v| d.iter().any(|x| u[x] == v as i128))) } else { Dom::R(0, max) });
        cx.tabs.borrow_mut().insert((i, u.clone()), id);
        cx.tabdef.borrow_mut().insert(id, (i, Rc::new(u)));
        id
    } };
    Lin::sym(id).scale(g).addk(min)
}
fn simp_tab(d: &Set, i: Id, out: Vec<i128>) -> Val {
    let f = d.min().unwrap_or(0);
    if d.iter().all(|x| out[x] == out[f]) { return Val::k(out[f]) }
    let off = out[f] - f as i128;
    if d.iter().all(|x| out[x] == x as i128 + off) { return Val::Int(Lin::sym(i).addk(off)) }
    Val::Tab(i, Rc::new(out))
}

pub fn checked(cx: &Cx, st: &mut State, op: BinOp, a: &Val, b: &Val, ty: Ty) -> R<(Val, Cond)> {
    let dom = int_dom(ty).ok_or(Stop::Unsup("checked".into()))?;
    let usz = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize | UintTy::U64)));
    if matches!(op, BinOp::Shl | BinOp::Shr) {
        let lb = to_lin(cx, st, b)?;
        let n = bits_of(ty) as i128;
        let v = binop(cx, st, op, a, b, ty)?;
        return Ok((v, Cond::Ge0(lb.addk(-n))));
    }
    // exact on finite symbols
    if let (Some((i, t)), Some(k)) = (as_tab(cx, st, a), as_const(cx, st, b)) {
        let d = st.set_of(cx, i);
        let ex = |x: usize| match op { BinOp::Add => t[x] + k, BinOp::Sub => t[x] - k, BinOp::Mul => t[x] * k, _ => 0 };
        let bad = Set::from_fn(|x| d.has(x) && (ex(x) < dom.min() || ex(x) > dom.max()));
        let out: Vec<i128> = (0..256).map(|x| if d.has(x) { ex(x) } else { 0 }).collect();
        return Ok((simp_tab(&d, i, out), if bad.is_empty() { Cond::K(false) } else { Cond::In(i, bad) }));
    }
    let (la, lb) = (to_lin(cx, st, a)?, to_lin(cx, st, b)?);
    let r = match op {
        BinOp::Add => Some(la.add(&lb)),
        BinOp::Sub => Some(la.sub(&lb)),
        BinOp::Mul => match (la.is_const(), lb.is_const()) { (Some(k), _) => Some(lb.scale(k)), (_, Some(k)) => Some(la.scale(k)), _ => None },
        _ => None,
    };
    match r {
        Some(r) => {
            let mut ov = Cond::K(false);
            let unb_low = op != BinOp::Sub && st.min(cx, &la) >= 0 && st.min(cx, &lb) >= 0;
            if !unb_low && !st.prove(cx, &r.addk(-dom.min())) { ov = ov.or(Cond::Ge0(r.addk(-dom.min())).not()) }
            // positions, lengths and counters of a 64 bit machine cannot overflow upwards
            if !usz && !st.prove(cx, &Lin::k(dom.max()).sub(&r)) { ov = ov.or(Cond::Ge0(Lin::k(dom.max()).sub(&r)).not()) }
            Ok((Val::Int(r), ov))
        }
        None => {
            // product of two unknowns
            let (a0, a1, b0, b1) = (st.min(cx, &la), st.max(cx, &la), st.min(cx, &lb), st.max(cx, &lb));
            let lo = if a0 >= 0 && b0 >= 0 { a0 * b0 } else { NEG_INF };
            let hi = if a1 < POS_INF && b1 < POS_INF && a0 >= 0 && b0 >= 0 { a1.saturating_mul(b1) } else { POS_INF };
            let id = cx.fresh_dom("mul", Dom::R(lo.max(dom.min()), hi.min(dom.max())));
            let ov = if lo >= dom.min() && (hi <= dom.max() || usz) { Cond::K(false) } else { Cond::In(cx.fresh_dom("ovf", Dom::S(Set::upto(2))), Set::one(1)) };
            Ok((Val::Int(Lin::sym(id)), ov))
        }
    }
}

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }

pub fn lin_cond_eq(l: Lin) -> Cond {
    if let Some(k) = l.is_const() { return Cond::K(k == 0) }
    let g = l.t.iter().fold(0, |g, x| gcd(g, x.1));
    if g > 1 {
        if l.k % g != 0 { return Cond::K(false) }
        return Cond::Eq0(Lin { k: l.k / g, t: l.t.iter().map(|(s, c)| (*s, c / g)).collect() });
    }
    Cond::Eq0(l)
}
pub fn lin_cond_ge(l: Lin) -> Cond {
    if let Some(k) = l.is_const() { return Cond::K(k >= 0) }
    let g = l.t.iter().fold(0, |g, x| gcd(g, x.1));
    if g > 1 { return Cond::Ge0(Lin { k: l.k.div_euclid(g), t: l.t.iter().map(|(s, c)| (*s, c / g)).collect() }) }
    Cond::Ge0(l)
}

pub fn compare(cx: &Cx, st: &mut State, op: BinOp, a: &Val, b: &Val) -> R<Cond> {
    use BinOp::*;
    let (a, b) = (cx.expand(a), cx.expand(b));
    if let (Val::Bool(x), Val::Bool(y)) = (&a, &b) {
        return Ok(match (op, x, y) {
            (Eq, Cond::K(k), c) | (Eq, c, Cond::K(k)) => if *k { c.clone() } else { c.clone().not() },
            (Ne, Cond::K(k), c) | (Ne, c, Cond::K(k)) => if *k { c.clone().not() } else { c.clone() },
            (Eq | Ne, x, y) => { let v = st.decide(cx, x)?; if v == (op == Eq) { y.clone() } else { y.clone().not() } }
            _ => return Err(Stop::Unsup("bool order".into())),
        });
    }
    let f = |x: i128, y: i128| match op { Eq => x == y, Ne => x != y, Lt => x < y, Le => x <= y, Gt => x > y, Ge => x >= y, _ => false };
    let (ta, tb) = (as_tab(cx, st, &a), as_tab(cx, st, &b));
    match (&ta, &tb) {
        (Some((i, t)), _) if as_const(cx, st, &b).is_some() => {
            let k = as_const(cx, st, &b).unwrap();
            return Ok(mk_in(cx, st, *i, Set::from_fn(|x| f(t[x], k))));
        }
        (_, Some((i, t))) if as_const(cx, st, &a).is_some() => {
            let k = as_const(cx, st, &a).unwrap();
            return Ok(mk_in(cx, st, *i, Set::from_fn(|x| f(k, t[x]))));
        }
        (Some((i, t)), Some((j, u))) if i == j => return Ok(mk_in(cx, st, *i, Set::from_fn(|x| f(t[x], u[x])))),
        _ => {}
    }
    match (&a, &b) {
        (Val::Int(_) | Val::Tab(..), Val::Int(_) | Val::Tab(..)) => {
            // two finite non identical symbols with non affine tables: fork happens in to_lin
            let (x, y) = (to_lin(cx, st, &a)?, to_lin(cx, st, &b)?);
            let c = match op {
                Eq => lin_cond_eq(x.sub(&y)),
                Ne => lin_cond_eq(x.sub(&y)).not(),
                Lt => lin_cond_ge(y.sub(&x).addk(-1)),
                Le => lin_cond_ge(y.sub(&x)),
                Gt => lin_cond_ge(x.sub(&y).addk(-1)),
                Ge => lin_cond_ge(x.sub(&y)),
                _ => unreachable!(),
            };
            // settled now, while what is known about the operands is at hand
            Ok(match st.known(cx, &c) { Some(b) => Cond::K(b), None => c })
        }
        (Val::Ptr(x), Val::Ptr(y)) if matches!(op, Eq | Ne) => {
            if x == y { return Ok(Cond::K(op == Eq)) }
            Ok(Cond::In(cx.fresh_dom("ptreq", Dom::S(Set::upto(2))), Set::one(1)))
        }
        (Val::BPtr(x, p), Val::BPtr(y, q)) if x == y => Ok(match op { Eq => lin_cond_eq(p.sub(q)), Ne => lin_cond_eq(p.sub(q)).not(), Lt => lin_cond_ge(q.sub(p).addk(-1)), Le => lin_cond_ge(q.sub(p)), Gt => lin_cond_ge(p.sub(q).addk(-1)), _ => lin_cond_ge(p.sub(q)) }),
        _ => Err(Stop::Unsup(format!("compare {:?} {:?}", a, b))),
    }
}
fn mk_in(cx: &Cx, st: &State, i: Id, s: Set) -> Cond {
    let d = st.set_of(cx, i);
    if d.subset(&s) { return Cond::K(true) }
    if d.and(&s).is_empty() { return Cond::K(false) }
    Cond::In(i, s)
}

pub fn cast(cx: &Cx, st: &mut State, k: &CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
    match k {
        CastKind::IntToInt => {
            let v = cx.expand(&v);
            // field-less enum to integer
            if let Val::Var(..) = v { return discriminant(cx, st, &v, from) }
            if let Val::Top(t, _) = v { if cx.num_variants(t) > 1 { return discriminant(cx, st, &v, from) } }
            let d = int_dom(to).ok_or(Stop::Unsup("cast".into()))?;
            if let Some((i, t)) = as_tab(cx, st, &v) {
                let dd = st.set_of(cx, i);
                let out: Vec<i128> = (0..256).map(|x| if dd.has(x) { wrap(t[x], to) } else { 0 }).collect();
                return Ok(simp_tab(&dd, i, out));
            }
            let l = to_lin(cx, st, &v)?;
            if let Some(k) = l.is_const() { return Ok(Val::k(wrap(k, to))) }
            if st.min(cx, &l) >= d.min() && st.max(cx, &l) <= d.max() { return Ok(Val::Int(l)) }
            if st.prove(cx, &l.addk(-d.min())) && st.prove(cx, &Lin::k(d.max()).sub(&l)) { return Ok(Val::Int(l)) }
            Ok(Val::Int(Lin::sym(cx.fresh_dom("cast", d))))
        }
        CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match from.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve_for_fn_ptr(d, &a).map(Val::Fn).map_err(|_| Stop::Unsup("reify".into())),
            _ => Err(Stop::Unsup("reify".into())),
        },
        CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match from.kind() {
            TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map(Val::Fn).map_err(|_| Stop::Unsup("closure fn".into())),
            _ => Err(Stop::Unsup("closure fn".into())),
        },
        CastKind::PointerCoercion(_) | CastKind::PtrToPtr | CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype | CastKind::FnPtrToPtr => {
            if let CastKind::Transmute = k {
                if let Some(d) = int_dom(to) {
                    if let Ok(l) = to_lin(cx, st, &v) { if st.min(cx, &l) >= d.min() && st.max(cx, &l) <= d.max() { return Ok(Val::Int(l)) } }
                    if from.kind().is_integral() || from.kind().is_char() { return Ok(Val::Int(Lin::sym(cx.fresh_dom("transmute", d)))) }
                }
            }
            Ok(v)
        }
        _ => Err(Stop::Unsup(format!("cast {:?}", k))),
    }
}

// ---- constants ---------------------------------------------------------
impl Cx {
    pub fn constant(&self, c: &MirConst) -> R<Val> {
        match c.kind() {
            ConstantKind::ZeroSized => Ok(zst(c.ty())),
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0),
                TyConstKind::ZSTValue(ty) => Ok(zst(*ty)),
                _ => Err(Stop::Unsup("const".into())),
            },
            _ => Err(Stop::Unsup("constant kind".into())),
        }
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> R<u128> {
        let mut v = 0u128;
        for i in 0..n { match a.bytes.get(off + i) { Some(Some(b)) => v |= (*b as u128) << (8 * i), _ => return Err(Stop::Unsup("uninit const".into())) } }
        Ok(v)
    }
    pub fn decode(&self, ty: Ty, a: &Allocation, off: usize) -> R<Val> {
        if let Some(d) = int_dom(ty) {
            let n = (bits_of(ty) / 8).max(1) as usize;
            let v = self.rd(a, off, n)?;
            if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool)) { return Ok(Val::b(v != 0)) }
            let v = v as i128;
            let v = if d.min() < 0 { wrap(v, ty) } else { v };
            return Ok(Val::k(v));
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    // zero sized / dangling
                    if is_bytes(t) { return Ok(Val::View(self.const_view(&[]))) }
                    let c = self.cell_new(CellInit::Val(zst(t)));
                    return Ok(Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }));
                };
                let inner = self.rd(a, off, 8)? as usize;
                let ga = GlobalAlloc::from(prov.0);
                match ga {
                    GlobalAlloc::Memory(m) => {
                        if is_bytes(t) {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            let bytes: Vec<u8> = m.bytes[inner..inner + n].iter().map(|b| b.unwrap_or(0)).collect();
                            return Ok(Val::View(self.const_view(&bytes)));
                        }
                        if let TyKind::RigidTy(RigidTy::Array(e, n)) = t.kind() {
                            if is_u8(e) {
                                let n = n.eval_target_usize().unwrap_or(0) as usize;
                                let bytes: Vec<u8> = m.bytes[inner..inner + n].iter().map(|b| b.unwrap_or(0)).collect();
                                return Ok(Val::View(self.const_view(&bytes)));
                            }
                        }
                        if let TyKind::RigidTy(RigidTy::Slice(e)) = t.kind() {
                            let n = self.rd(a, off + 8, 8)? as usize;
                            let sz = e.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..n { v.push(self.decode(e, &m, inner + i * sz)?) }
                            let c = self.cell_new(CellInit::Val(Val::agg(v)));
                            return Ok(Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }));
                        }
                        if inner == 0 { if let Some(c) = self.constcache.borrow().get(&(prov.0, t)) { return Ok(Val::Ptr(Ptr { root: Root::Cell(*c), path: vec![] })) } }
                        let v = self.decode(t, &m, inner)?;
                        let c = self.cell_new(CellInit::Val(v));
                        if inner == 0 { self.constcache.borrow_mut().insert((prov.0, t), c); }
                        Ok(Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }))
                    }
                    GlobalAlloc::Static(s) => {
                        if let Ok(m) = s.eval_initializer() {
                            if let Ok(v) = self.decode(t, &m, inner) {
                                let c = self.cell_new(CellInit::Val(v));
                                return Ok(Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }));
                            }
                        }
                        Err(Stop::Unsup("static".into()))
                    }
                    _ => Err(Stop::Unsup("const pointer".into())),
                }
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return Err(Stop::Unsup("fn ptr".into())) };
                match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => Ok(Val::Fn(i)), _ => Err(Stop::Unsup("fn ptr".into())) }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let sh = ty.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape();
                let offs = field_offs(&sh.fields);
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { v.push(self.decode(*t, a, off + offs.get(i).cloned().unwrap_or(0))?) }
                Ok(Val::agg(v))
            }
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape().size.bytes();
                if n > 300 { return Err(Stop::Unsup("big array".into())) }
                let mut v = vec![];
                for i in 0..n { v.push(self.decode(e, a, off + i * sz)?) }
                Ok(Val::agg(v))
            }
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                use rustc_public::abi::*;
                let sh = ty.layout().map_err(|_| Stop::Unsup("layout".into()))?.shape();
                match d.kind() {
                    AdtKind::Struct => {
                        let name = d.name().to_string();
                        match std_kind(&name) {
                            StdKind::Vec => {
                                // constant vectors are empty
                                if let Some(GenericArgKind::Type(t)) = args.0.first() { if is_u8(*t) {
                                    return Ok(models::new_str(self, false));
                                } }
                                return Ok(Val::obj(Obj::Vec { ty, base: None, elems: vec![] }));
                            }
                            StdKind::Str => return Ok(models::new_str(self, true)),
                            _ => {}
                        }
                        let offs = field_offs(&sh.fields);
                        let mut v = vec![];
                        for (i, t) in self.fields(ty, 0).iter().enumerate() { v.push(self.decode(*t, a, off + offs.get(i).cloned().unwrap_or(0))?) }
                        Ok(Val::agg(v))
                    }
                    AdtKind::Enum => {
                        let vi: u32 = match &sh.variants {
                            VariantsShape::Empty => return Err(Stop::Unsup("empty enum".into())),
                            VariantsShape::Single { index } => variant_index_u(index),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = field_offs(&sh.fields).get(*tag_field).cloned().unwrap_or(0);
                                let tsz = scalar_size(tag);
                                let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                match tag_encoding {
                                    TagEncoding::Direct => {
                                        let t = self.rd(a, off + toff, tsz)? as i128;
                                        let tab = self.discr_table(ty);
                                        let m = if tsz >= 16 { i128::MAX } else { (1i128 << (tsz * 8)) - 1 };
                                        match (0..variants.len()).find(|i| tab[*i] & m == t) { Some(i) => i as u32, None => return Err(Stop::Unsup("tag".into())) }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if has_ptr { variant_index_u(untagged_variant) } else {
                                            let t = self.rd(a, off + toff, tsz)?;
                                            let s = variant_index_u(niche_variants.start()) as u128;
                                            let e = variant_index_u(niche_variants.end()) as u128;
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = t.wrapping_sub(*niche_start) & mask;
                                            if rel <= e - s { (s + rel) as u32 } else { variant_index_u(untagged_variant) }
                                        }
                                    }
                                }
                            }
                        };
                        let offs: Vec<usize> = match &sh.variants {
                            VariantsShape::Multiple { variants, .. } => variants[vi as usize].offsets.iter().map(|x| x.bytes()).collect(),
                            _ => field_offs(&sh.fields),
                        };
                        let mut v = vec![];
                        for (i, t) in self.fields(ty, vi).iter().enumerate() { v.push(self.decode(*t, a, off + offs.get(i).cloned().unwrap_or(0))?) }
                        Ok(Val::var(vi, v))
                    }
                    AdtKind::Union => Err(Stop::Unsup("union const".into())),
                }
            }
            TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::FnDef(..)) => Ok(zst(ty)),
            _ => Err(Stop::Unsup(format!("const of type {:?}", ty))),
        }
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::*;
    let p = match s { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
        Primitive::Float { length } => match length { FloatLength::F16 => 2, FloatLength::F32 => 4, FloatLength::F64 => 8, _ => 16 },
    }
}
fn field_offs(f: &rustc_public::abi::FieldsShape) -> Vec<usize> {
    use rustc_public::abi::FieldsShape;
    match f { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![0] }
}

pub fn zst(ty: Ty) -> Val {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Tuple(_)) | TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => {
            if let TyKind::RigidTy(RigidTy::Adt(d, a)) = ty.kind() {
                if d.kind() == AdtKind::Enum { return Val::var(0, vec![]) }
                return Val::agg(d.variants()[0].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect());
            }
            if let TyKind::RigidTy(RigidTy::Tuple(t)) = ty.kind() { return Val::agg(t.iter().map(|t| zst(*t)).collect()) }
            Val::agg(vec![])
        }
        _ => Val::Zst,
    }
}

pub fn show(cx: &Cx, v: &Val) -> String {
    match v {
        Val::Top(t, o) => format!("?{}<{}>", cx.describe(*o), short_ty(*t)),
        Val::Agg(a) => format!("({})", a.iter().map(|x| show(cx, x)).collect::<Vec<_>>().join(", ")),
        Val::Var(i, a) => format!("#{}({})", i, a.iter().map(|x| show(cx, x)).collect::<Vec<_>>().join(", ")),
        Val::Int(l) => format!("{:?}", l),
        Val::Bool(c) => format!("{:?}", c),
        Val::View(w) => { let b = &cx.bufs.borrow()[w.buf as usize]; match &b.kind { BufKind::Const(c) => format!("{:?}[{:?}..{:?}]", String::from_utf8_lossy(c), w.s, w.e), BufKind::Sym(o) => format!("view({})[{:?}..{:?}]", cx.describe(*o), w.s, w.e) } }
        Val::Ptr(p) => format!("&{:?}{:?}", p.root, p.path),
        Val::Obj(o) => match &**o {
            Obj::Vec { base, elems, .. } => format!("vec({:?}; {})", base, elems.iter().map(|x| show(cx, x)).collect::<Vec<_>>().join(", ")),
            Obj::Str { len, src, utf8, id, .. } => format!("str#{}(len {:?} utf8 {} src {:?})", id, len, utf8, src),
            Obj::Map { base, log, .. } => format!("map({}; {})", cx.describe(*base), log.iter().map(|(k, a, b)| format!("{} {}={}", k, show(cx, a), show(cx, b))).collect::<Vec<_>>().join(", ")),
            o => format!("{:?}", o),
        },
        Val::Tab(i, _) => format!("tab(s{})", i),
        o => format!("{:?}", o),
    }
}
pub fn short_ty(t: Ty) -> String { let s = format!("{}", t); if s.len() > 40 { s[..40].to_string() } else { s } }

pub fn dump(cx: &Cx, s: &State) -> String {
    let mut o = String::new();
    for (i, f) in s.frames.iter().enumerate() {
        for (l, v) in f.iter().enumerate() { if *v != Val::Undef { o += &format!("   f{}._{} = {}\n", i, l, show(cx, v)) } }
    }
    for (c, v) in s.heap.iter() { o += &format!("   cell{} = {}\n", c, show(cx, v)) }
    for (k, v) in s.ghost.iter() { o += &format!("   ghost {} = {}\n", k, show(cx, v)) }
    o += &format!("   facts {:?}\n   tape {:?}\n   bnd {:?}\n   dom {:?}\n   taint {:?}\n", s.facts, s.tape, s.bnd, s.dom, s.taint);
    o
}
