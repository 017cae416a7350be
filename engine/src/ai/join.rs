//! Joining, widening, subsumption and garbage collection of states.
use super::lin::*;
use super::state::*;
use super::value::*;
use rustc_public::ty::Ty;
use super::fx::{Fx, Map as HashMap, Set as HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---------------------------------------------------------------- traversal
pub fn walk(v: &Val, f: &mut dyn FnMut(&Val)) {
    f(v);
    match v {
        Val::Agg(a) | Val::Var(_, a) => for x in a.iter() { walk(x, f) },
        Val::Obj(o) => match &**o {
            Obj::Vec { elems, .. } => for x in elems { walk(x, f) },
            Obj::Map { log, .. } => for (_, a, b) in log { walk(a, f); walk(b, f) },
            Obj::Other { vals, .. } => for x in vals { walk(x, f) },
            _ => {}
        },
        _ => {}
    }
}
fn cond_ids(c: &Cond, f: &mut dyn FnMut(Id)) {
    match c {
        Cond::In(i, _) => f(*i),
        Cond::Ge0(l) | Cond::Eq0(l) => for (s, _) in &l.t { f(*s) },
        Cond::Not(c) => cond_ids(c, f),
        Cond::And(a, b) | Cond::Or(a, b) => { cond_ids(a, f); cond_ids(b, f) }
        Cond::K(_) => {}
    }
}
pub fn val_ids(v: &Val, f: &mut dyn FnMut(Id, bool)) {
    // second argument: the id is the root of an unknown value
    walk(v, &mut |x| match x {
        Val::Top(_, o) => f(*o, true),
        Val::Int(l) => for (s, _) in &l.t { f(*s, false) },
        Val::Tab(i, _) => f(*i, false),
        Val::Bool(c) => cond_ids(c, &mut |i| f(i, false)),
        Val::View(w) => for (s, _) in w.s.t.iter().chain(w.e.t.iter()) { f(*s, false) },
        Val::BPtr(_, p) => for (s, _) in p.t.iter() { f(*s, false) },
        Val::Obj(o) => match &**o {
            Obj::Vec { base, .. } => if let Some((i, l)) = base { f(*i, true); for (s, _) in &l.t { f(*s, false) } },
            Obj::Str { len, marks, src, id, .. } => {
                f(*id, true);
                for (s, _) in len.t.iter() { f(*s, false) }
                for m in marks { for (s, _) in m.t.iter() { f(*s, false) } }
                if let Some(w) = src { for (s, _) in w.s.t.iter().chain(w.e.t.iter()) { f(*s, false) } }
            }
            Obj::Map { base, .. } => f(*base, true),
            Obj::Heap { id, len, .. } => { f(*id, true); for (s, _) in &len.t { f(*s, false) } }
            Obj::Iter { view, base, .. } => for (s, _) in view.s.t.iter().chain(view.e.t.iter()).chain(base.t.iter()) { f(*s, false) },
            Obj::Other { .. } => {}
        },
        _ => {}
    })
}
pub fn state_vals<'a>(s: &'a State) -> impl Iterator<Item = &'a Val> + 'a {
    s.frames.iter().flat_map(|f| f.iter()).chain(s.heap.values()).chain(s.ghost.values()).chain(s.trace.iter().map(|x| &x.1))
}

struct Live { ids: HashSet<Id>, roots: HashSet<Id>, bufs: HashSet<BufId>, pos: Vec<(BufId, Lin)> }

fn reachable_cells(cx: &Cx, s: &State) -> BTreeSet<CellId> {
    let mut seen = BTreeSet::new();
    let mut work: Vec<CellId> = vec![];
    let push = |v: &Val, work: &mut Vec<CellId>| walk(v, &mut |x| if let Val::Ptr(Ptr { root: Root::Cell(c), .. }) = x { work.push(*c) });
    for v in s.frames.iter().flat_map(|f| f.iter()).chain(s.ghost.values()).chain(s.trace.iter().map(|x| &x.1)) { push(v, &mut work) }
    // cells hanging off unknown references are reachable through their id
    let mut tops: HashSet<Id> = HashSet::default();
    for v in state_vals(s) { walk(v, &mut |x| if let Val::Top(_, o) = x { tops.insert(*o); }) }
    for c in s.heap.keys() {
        let keep = match &cx.cells.borrow()[*c as usize] { CellInit::Top(_, i) => { let ids = cx.ids.borrow(); let mut k = *i; let mut r = false; loop { if tops.contains(&k) { r = true; break } match parent(&ids[k as usize].key) { Some(p) => k = p, None => break } } r } _ => false };
        if keep { work.push(*c) }
    }
    while let Some(c) = work.pop() {
        if seen.insert(c) { if let Some(v) = s.heap.get(&c) { push(v, &mut work) } }
    }
    seen
}
fn parent(k: &IdKey) -> Option<Id> {
    match k { IdKey::Field(o, ..) | IdKey::Deref(o) | IdKey::Disc(o) | IdKey::Len(o) | IdKey::Elem(o) | IdKey::Tail(o) | IdKey::Conv(o, _) => Some(*o), IdKey::Fresh(_) => None }
}

fn live(cx: &Cx, s: &State) -> Live {
    let mut l = Live { ids: HashSet::default(), roots: HashSet::default(), bufs: HashSet::default(), pos: vec![] };
    for v in state_vals(s) {
        val_ids(v, &mut |i, r| { l.ids.insert(i); if r { l.roots.insert(i); } });
        walk(v, &mut |x| match x {
            Val::View(w) => { l.bufs.insert(w.buf); l.pos.push((w.buf, w.s.clone())); l.pos.push((w.buf, w.e.clone())) }
            Val::BPtr(b, p) => { l.bufs.insert(*b); l.pos.push((*b, p.clone())) }
            Val::Obj(o) => match &**o { Obj::Iter { view: w, .. } | Obj::Str { src: Some(w), .. } => { l.bufs.insert(w.buf); l.pos.push((w.buf, w.s.clone())); l.pos.push((w.buf, w.e.clone())) } _ => {} },
            _ => {}
        });
    }
    // the content of an unknown Cow is a part of the Cow
    let cows = cx.cows.borrow();
    let owners: Vec<Id> = { let ids = cx.ids.borrow(); l.roots.iter().filter_map(|i| match &ids[*i as usize].key { IdKey::Field(o, _, 0) if cows.contains(o) => Some(*o), _ => None }).collect() };
    l.roots.extend(owners);
    // texts of live values
    let texts: HashSet<BufId> = s.tape.keys().map(|k| k.0).chain(s.bnd.iter().map(|k| k.0)).filter(|b| !l.bufs.contains(b)).collect();
    for b in texts {
        let sym = match &cx.bufs.borrow()[b as usize].kind { BufKind::Sym(i) => Some(*i), _ => None };
        if sym.map_or(false, |i| is_live(cx, &l, i)) { l.bufs.insert(b); let e = cx.bufs.borrow()[b as usize].end.clone(); l.pos.push((b, Lin::k(0))); l.pos.push((b, e)) }
    }
    for b in &l.bufs { for (s, _) in &cx.bufs.borrow()[*b as usize].end.t { l.ids.insert(*s); } }
    l.pos.sort(); l.pos.dedup();
    l
}
fn is_live(cx: &Cx, l: &Live, i: Id) -> bool {
    if l.ids.contains(&i) { return true }
    let ids = cx.ids.borrow();
    let mut k = i;
    while let Some(p) = parent(&ids[k as usize].key) { if l.roots.contains(&p) { return true } k = p }
    false
}

/// Remove everything that no live value mentions.
pub fn gc(cx: &Cx, s: &mut State) {
    if cx.debug { let c = |v: &Val| { let mut n = 0; walk(v, &mut |_| n += 1); n };
        let f: Vec<usize> = s.frames.iter().map(|f| f.iter().map(c).sum::<usize>()).collect();
        eprintln!("GCS frames {:?} heap {}:{} ghost {} trace {} dom {} facts {} tape {}", f, s.heap.len(), s.heap.values().map(c).sum::<usize>(), s.ghost.values().map(c).sum::<usize>(), s.trace.len(), s.dom.len(), s.facts.len(), s.tape.len()); }
    let rc = reachable_cells(cx, s);
    if s.heap.keys().any(|c| !rc.contains(c)) { Rc::make_mut(&mut s.heap).retain(|c, _| rc.contains(c)) }
    let mut l = live(cx, s);
    // tape entries near live positions
    let near = |b: BufId, p: &Lin, l: &Live| l.pos.iter().any(|(bb, q)| *bb == b && matches!(p.sub(q).is_const(), Some(k) if (-4..=8).contains(&k)));
    if s.tape.iter().any(|((b, p), _)| !near(*b, p, &l)) { Rc::make_mut(&mut s.tape).retain(|(b, p), _| near(*b, p, &l)) }
    for (_, i) in s.tape.iter() { l.ids.insert(*i); }
    // boundaries: keep when all symbols are live
    let ok = |b: BufId, p: &Lin, l: &Live| l.bufs.contains(&b) && p.t.iter().all(|(s, _)| is_live(cx, l, *s));
    if s.bnd.iter().any(|(b, p)| !ok(*b, p, &l)) { Rc::make_mut(&mut s.bnd).retain(|(b, p)| ok(*b, p, &l)) }
    // facts: eliminate dead symbols
    let mut dead: Vec<Id> = s.facts.iter().flat_map(|f| f.t.iter().map(|x| x.0)).filter(|i| !is_live(cx, &l, *i)).collect();
    dead.sort(); dead.dedup();
    if !dead.is_empty() {
        let mut fs: Vec<Lin> = (*s.facts).clone();
        for d in dead {
            let (with, without): (Vec<Lin>, Vec<Lin>) = fs.into_iter().partition(|f| f.t.iter().any(|x| x.0 == d));
            fs = without;
            // interval bounds of d as facts
            let mut pos = vec![];
            let mut neg = vec![];
            for f in with { let c = f.t.iter().find(|x| x.0 == d).unwrap().1; if c == 1 { pos.push(f) } else if c == -1 { neg.push(f) } }
            let dm = s.domain(cx, d);
            if dm.min() > NEG_INF { pos.push(Lin::sym(d).addk(-dm.min())) }
            if dm.max() < (1i128 << 62) { neg.push(Lin::k(dm.max()).sub(&Lin::sym(d))) }
            for p in &pos { for n in &neg {
                let r = p.add(n);
                if r.t.len() >= 2 && r.t.len() <= 3 && fs.len() < 60 && s.min(cx, &r) < 0 && !fs.contains(&r) { fs.push(r) }
            } }
        }
        s.facts = Rc::new(fs);
    }
    let keep: BTreeSet<Id> = s.facts.iter().flat_map(|f| f.t.iter().map(|x| x.0)).chain(s.bnd.iter().flat_map(|b| b.1.t.iter().map(|x| x.0))).collect();
    if s.dom.keys().any(|i| !keep.contains(i) && !is_live(cx, &l, *i)) {
        Rc::make_mut(&mut s.dom).retain(|i, _| keep.contains(i) || is_live(cx, &l, *i))
    }
}

// ---------------------------------------------------------------- skeleton
fn sk(cx: &Cx, st: &State, v: &Val, h: &mut Fx) {
    match v {
        Val::Undef => 0u8.hash(h),
        Val::Top(t, o) => {
            if cx.num_variants(*t) > 1 && std_kind_ty(*t) {
                if let Some(x) = st.set_of(cx, cx.disc_id(*t, *o)).single() {
                    let e = cx.expand_var(*t, *o, x as u32);
                    return sk(cx, st, &e, h);
                }
            }
            match int_dom(*t) { Some(Dom::S(d)) if d == Set::upto(2) => 4u8.hash(h), Some(_) => 2u8.hash(h), None => { 1u8.hash(h); t.hash(h) } }
        }
        Val::Int(_) | Val::Tab(..) => 2u8.hash(h),
        Val::Bool(Cond::K(b)) => { 3u8.hash(h); b.hash(h) }
        Val::Bool(c) => { match st.known_quick(cx, c) { Some(b) => { 3u8.hash(h); b.hash(h) } None => 4u8.hash(h) } }
        Val::Agg(a) => { 5u8.hash(h); a.len().hash(h); for x in a.iter() { sk(cx, st, x, h) } }
        Val::Var(i, a) => { 6u8.hash(h); i.hash(h); for x in a.iter() { sk(cx, st, x, h) } }
        Val::Ptr(p) => { 7u8.hash(h); p.hash(h) }
        Val::View(w) => { 8u8.hash(h); w.buf.hash(h) }
        Val::BPtr(b, _) => { 9u8.hash(h); b.hash(h) }
        Val::Fn(i) => { 10u8.hash(h); i.hash(h) }
        Val::Zst => 11u8.hash(h),
        Val::Obj(o) => { 12u8.hash(h); match &**o {
            Obj::Vec { .. } => 1u8.hash(h),
            Obj::Str { utf8, .. } => { 2u8.hash(h); utf8.hash(h) }
            Obj::Map { .. } => 3u8.hash(h),
            Obj::Heap { .. } => 4u8.hash(h),
            Obj::Iter { kind, view, .. } => { 5u8.hash(h); kind.hash(h); view.buf.hash(h) }
            Obj::Other { tag, vals, .. } => { 6u8.hash(h); tag.hash(h); for x in vals { sk(cx, st, x, h) } }
        } }
    }
}
fn std_kind_ty(_t: Ty) -> bool { true }
impl State {
    pub fn known_quick(&self, cx: &Cx, c: &Cond) -> Option<bool> {
        match c {
            Cond::K(b) => Some(*b),
            Cond::In(i, s) => { let d = self.set_of(cx, *i); if d.subset(s) { Some(true) } else if d.and(s).is_empty() { Some(false) } else { None } }
            _ => None,
        }
    }
}
pub fn skel_val(cx: &Cx, s: &State, v: &Val) -> u64 { let mut h = Fx::new(); sk(cx, s, v, &mut h); h.finish() }
pub fn skeleton(cx: &Cx, s: &State) -> u64 {
    let mut h = Fx::new();
    for f in &s.frames { for v in f.iter() { sk(cx, s, v, &mut h) } }
    for (c, v) in s.heap.iter() { c.hash(&mut h); sk(cx, s, v, &mut h) }
    for (c, v) in s.ghost.iter() { c.hash(&mut h); sk(cx, s, v, &mut h) }
    s.trace.len().hash(&mut h);
    for (t, v) in s.trace.iter() { t.hash(&mut h); sk(cx, s, v, &mut h) }
    cx.hooks.skeleton(cx, s).hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- join
struct J<'a> {
    cx: &'a Cx,
    a: &'a State,
    b: &'a State,
    wide: u32,
    ts: Vec<(Id, Lin, Lin)>,            // new symbol, its value in a and b
    tops: HashMap<(Id, Id), Id>,
    bytes: HashMap<(Id, Id), Id>,
    dom: BTreeMap<Id, Dom>,
    tape: Vec<((BufId, Lin), Id, Id)>,   // bytes of joined texts
    changed: bool,                       // lost information with respect to a
    bad: bool,
    intrace: bool,
}

impl<'a> J<'a> {
    fn finite(&self, s: &State, l: &Lin) -> Option<(Id, Set)> {
        match s.norm(self.cx, l).as_sym() { Some(i) => match s.domain(self.cx, i) { Dom::S(x) => Some((i, x)), _ => None }, None => None }
    }
    fn lin(&mut self, la: &Lin, lb: &Lin) -> Lin {
        let (a, b) = (self.a.norm(self.cx, la), self.b.norm(self.cx, lb));
        if a == b { return a }
        if self.cx.tabints.get() { if let Some(l) = self.by_byte(&a, &b) { self.changed = true; return l } }
        // finite symbols
        let fa = self.finite(self.a, &a);
        let fb = self.finite(self.b, &b);
        let small = |l: &Lin| l.is_const().filter(|k| (0..256).contains(k)).map(|k| Set::one(k as usize));
        let sa = fa.clone().map(|x| x.1).or_else(|| if fb.is_some() { small(&a) } else { None });
        let sb = fb.clone().map(|x| x.1).or_else(|| if fa.is_some() { small(&b) } else { None });
        if let (Some(sa), Some(sb)) = (sa, sb) {
            if let (Some((ia, _)), Some((ib, _))) = (&fa, &fb) {
                if let Some(t) = self.bytes.get(&(*ia, *ib)) { return Lin::sym(*t) }
            }
            let u = sa.or(&sb);
            if u != sa { self.changed = true }
            let t = self.cx.fresh_dom("j", Dom::S(u));
            if let (Some((ia, _)), Some((ib, _))) = (&fa, &fb) { self.bytes.insert((*ia, *ib), t); }
            self.ts.push((t, a.clone(), b.clone()));
            return Lin::sym(t);
        }
        for (t, ta, tb) in &self.ts {
            let da = a.sub(ta);
            if da == b.sub(tb) && self.shared(&da) && !matches!(self.dom.get(t), Some(Dom::S(_))) {
                return Lin::sym(*t).add(&da);
            }
        }
        let t = self.cx.fresh("j");
        let (amin, amax) = (self.a.min(self.cx, &a), self.a.max(self.cx, &a));
        let (bmin, bmax) = (self.b.min(self.cx, &b), self.b.max(self.cx, &b));
        // relational bounds against constants
        let mut lo = amin.min(bmin);
        let mut hi = amax.max(bmax);
        if self.wide > 0 {
            if bmin < amin { lo = if bmin >= 0 && self.wide < 6 { if bmin >= 1 && amin > 1 { 1 } else { 0 } } else if bmin >= 0 { 0 } else if bmin >= -1 && self.wide < 6 { -1 } else { NEG_INF } }
            if bmax > amax { hi = if self.wide < 3 && bmax <= 4 { 4 } else if self.wide < 4 && bmax <= 16 { 16 } else { POS_INF } }
        }
        self.dom.insert(t, Dom::R(lo, hi));
        self.changed = true;
        self.ts.push((t, a, b));
        Lin::sym(t)
    }
    fn shared(&self, _l: &Lin) -> bool { true }
    /// Two numbers that differ in how they depend on one byte, which has different values on the two sides:
    /// one function of that byte.
    fn by_byte(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        let cx = self.cx;
        let common: Vec<(Id, i128)> = a.t.iter().filter(|t| b.t.contains(t)).cloned().collect();
        let rest = |l: &Lin| -> Vec<(Id, i128)> { l.t.iter().filter(|t| !common.contains(t)).cloned().collect() };
        let (ra, rb) = (rest(a), rest(b));
        let def = |s: Id| -> (Id, Rc<Vec<i128>>) { cx.tabdef.borrow().get(&s).cloned().unwrap_or_else(|| (s, Rc::new((0..256).collect()))) };
        let mut ids: Vec<Id> = ra.iter().chain(rb.iter()).map(|t| def(t.0).0).collect();
        ids.sort(); ids.dedup();
        if ids.is_empty() && a.k != b.k && self.intrace {
            // constants: the byte they stand for shows in the domains
            let tape: std::collections::BTreeSet<Id> = self.a.tape.values().filter(|i| self.b.tape.values().any(|j| j == *i)).cloned().collect();
            for i in tape {
                if let (Dom::S(x), Dom::S(y)) = (self.a.domain(cx, i), self.b.domain(cx, i)) { if !x.is_empty() && !y.is_empty() && x.and(&y).is_empty() { ids.push(i) } }
            }
        }
        let [i] = ids[..] else { return None };
        let (Dom::S(da), Dom::S(db)) = (self.a.domain(cx, i), self.b.domain(cx, i)) else { return None };
        if da.is_empty() || db.is_empty() { return None }
        let f = |r: &[(Id, i128)], k: i128, x: usize| -> i128 { k + r.iter().map(|(s, c)| c * def(*s).1[x]).sum::<i128>() };
        if da.and(&db).iter().any(|x| f(&ra, a.k, x) != f(&rb, b.k, x)) { return None }
        let t: Vec<i128> = (0..256).map(|x| if da.has(x) { f(&ra, a.k, x) } else if db.has(x) { f(&rb, b.k, x) } else { 0 }).collect();
        let d = da.or(&db);
        let first = d.min()?;
        let mut l = Lin { k: 0, t: common };
        let off = t[first] - first as i128;
        if d.iter().all(|x| t[x] == x as i128 + off) { l = l.add(&Lin::sym(i).addk(off)); return Some(l) }
        l = l.add(&crate::ai::tab_lin(cx, i, &d, &t));
        Some(l)
    }
    fn top(&mut self, ty: Ty, a: Id, b: Id) -> Val {
        if a == b { return Val::Top(ty, a) }
        let cx = self.cx;
        if int_dom(ty).is_some() {
            let (x, y) = (cx.expand(&Val::Top(ty, a)), cx.expand(&Val::Top(ty, b)));
            return self.val(&x, &y);
        }
        if let Some(t) = self.tops.get(&(a, b)) { return Val::Top(ty, *t) }
        // parts of two unknowns that are joined are parts of the joined one
        let (mut ra, mut rb, mut path) = (a, b, vec![]);
        {
            let ids = cx.ids.borrow();
            loop {
                let (ka, kb) = (&ids[ra as usize].key, &ids[rb as usize].key);
                let (Some(pa), Some(pb)) = (parent(ka), parent(kb)) else { break };
                if pa == pb || !same_step(ka, kb) { break }
                path.push(ka.clone());
                (ra, rb) = (pa, pb);
            }
        }
        path.reverse();
        let rt = match self.tops.get(&(ra, rb)) { Some(t) => *t, None => { let t = cx.fresh("jt"); self.tops.insert((ra, rb), t); t } };
        let t = rebuild(cx, rt, &path);
        self.tops.insert((a, b), t);
        self.changed = true;
        if cx.num_variants(ty) > 1 {
            let d = self.a.set_of(cx, cx.disc_id(ty, a)).or(&self.b.set_of(cx, cx.disc_id(ty, b)));
            let di = cx.disc_id(ty, t);
            self.dom.insert(di, Dom::S(d));
        }
        // what is known about parts of the unknown values
        let part = |root: Id, i: Id| -> Option<Vec<IdKey>> {
            let ids = cx.ids.borrow();
            let (mut k, mut path) = (i, vec![]);
            while k != root { let key = ids[k as usize].key.clone(); match parent(&key) { Some(p) => { path.push(key); k = p } None => return None } }
            if path.is_empty() { None } else { path.reverse(); Some(path) }
        };
        let parts: Vec<(Id, Vec<IdKey>)> = self.a.dom.keys().filter_map(|i| part(a, *i).map(|p| (*i, p))).collect();
        for (i, path) in parts {
            let j = rebuild(cx, b, &path);
            let t2 = rebuild(cx, t, &path);
            let d0 = cx.dom0(i);
            cx.set_dom0(t2, d0.clone());
            cx.set_dom0(j, d0);
            let u = self.a.domain(cx, i).union(&self.b.domain(cx, j));
            self.dom.insert(t2, u);
        }
        // and about the bytes of their texts
        for ((bf, p), sa) in self.a.tape.iter() {
            if p.is_const().is_none() { continue }
            let (sym, utf8) = { let bs = cx.bufs.borrow(); let x = &bs[*bf as usize]; (match x.kind { BufKind::Sym(i) => i, _ => continue }, x.utf8) };
            let Some(path) = part(a, sym) else { continue };
            let other = cx.buf_sym(rebuild(cx, b, &path), utf8);
            let Some(sb) = self.b.tape.get(&(other, p.clone())) else { continue };
            self.tape.push(((cx.buf_sym(rebuild(cx, t, &path), utf8), p.clone()), *sa, *sb));
        }
        // length of unknown vectors
        let (la, lb) = (cx.id(IdKey::Len(a)), cx.id(IdKey::Len(b)));
        let (da, db) = (self.a.domain(cx, la), self.b.domain(cx, lb));
        if da.max() < (1 << 62) || db.max() < (1 << 62) || da.min() > 0 || db.min() > 0 {
            let lt = cx.len_id(t);
            self.dom.insert(lt, da.union(&db));
        }
        Val::Top(ty, t)
    }
    fn cond(&mut self, a: &Cond, b: &Cond) -> Val {
        if a == b { return Val::Bool(a.clone()) }
        // booleans that are functions of finite symbols
        if let (Cond::In(i, s), Cond::In(j, t)) = (a, b) {
            if s == t {
                let l = self.lin(&Lin::sym(*i), &Lin::sym(*j));
                if let Some(k) = l.as_sym() { return Val::Bool(Cond::In(k, s.clone())) }
            }
        }
        if let (Some(x), Some(y)) = (self.a.known_quick(self.cx, a), self.b.known_quick(self.cx, b)) { if x == y { return Val::b(x) } }
        self.changed = true;
        Val::Bool(Cond::In(self.cx.fresh_dom("jb", Dom::S(Set::upto(2))), Set::one(1)))
    }
    fn view(&mut self, a: &View, b: &View) -> View {
        if a.buf != b.buf { self.bad = true }
        View { buf: a.buf, s: self.lin(&a.s, &b.s), e: self.lin(&a.e, &b.e) }
    }
    fn vals(&mut self, a: &[Val], b: &[Val]) -> Vec<Val> {
        if a.len() != b.len() { self.bad = true; return a.to_vec() }
        a.iter().zip(b.iter()).map(|(x, y)| self.val(x, y)).collect()
    }
    fn val(&mut self, a: &Val, b: &Val) -> Val {
        let cx = self.cx;
        match (a, b) {
            (Val::Undef, _) | (_, Val::Undef) => Val::Undef,
            (Val::Top(t, i), Val::Top(u, j)) if t == u => self.top(*t, *i, *j),
            (Val::Top(t, i), Val::Var(k, ys)) => {
                let e = cx.expand_var(*t, *i, *k);
                if let Val::Var(_, xs) = e { let xs = xs.clone(); return Val::var(*k, self.vals(&xs, ys)) }
                self.bad = true; Val::Undef
            }
            (Val::Var(k, xs), Val::Top(t, j)) => {
                let e = cx.expand_var(*t, *j, *k);
                if let Val::Var(_, ys) = e { let ys = ys.clone(); return Val::var(*k, self.vals(xs, &ys)) }
                self.bad = true; Val::Undef
            }
            (Val::Int(x), Val::Int(y)) => Val::Int(self.lin(x, y)),
            (Val::Tab(i, t), Val::Tab(j, u)) => {
                if i == j && t == u { return a.clone() }
                if t == u { if let Some(k) = self.lin(&Lin::sym(*i), &Lin::sym(*j)).as_sym() { return Val::Tab(k, t.clone()) } }
                self.tabjoin(a, b)
            }
            (Val::Tab(..), Val::Int(_)) | (Val::Int(_), Val::Tab(..)) => self.tabjoin(a, b),
            (Val::Bool(x), Val::Bool(y)) => self.cond(x, y),
            (Val::Agg(x), Val::Agg(y)) => if Rc::ptr_eq(x, y) && !has_ids(a) { a.clone() } else { Val::agg(self.vals(x, y)) },
            (Val::Var(i, x), Val::Var(j, y)) => { if i != j { self.bad = true; return Val::Undef } Val::var(*i, self.vals(x, y)) }
            (Val::Ptr(p), Val::Ptr(q)) => { if p != q { self.bad = true } a.clone() }
            (Val::View(x), Val::View(y)) => Val::View(self.view(x, y)),
            (Val::BPtr(x, p), Val::BPtr(y, q)) => { if x != y { self.bad = true } Val::BPtr(*x, self.lin(p, q)) }
            (Val::Fn(x), Val::Fn(y)) => { if x != y { self.bad = true } a.clone() }
            (Val::Zst, Val::Zst) => Val::Zst,
            (Val::Obj(x), Val::Obj(y)) => self.obj(x, y),
            (Val::Top(..), _) | (_, Val::Top(..)) => {
                let (x, y) = (cx.expand(a), cx.expand(b));
                if matches!(x, Val::Top(..)) || matches!(y, Val::Top(..)) { self.bad = true; return Val::Undef }
                self.val(&x, &y)
            }
            _ => { self.bad = true; Val::Undef }
        }
    }
    fn tabjoin(&mut self, a: &Val, b: &Val) -> Val {
        if self.cx.tabints.get() {
            let (mut x, mut y) = (self.a.clone(), self.b.clone());
            if let (Ok(la), Ok(lb)) = (crate::ai::to_lin(self.cx, &mut x, a), crate::ai::to_lin(self.cx, &mut y, b)) { return Val::Int(self.lin(&la, &lb)) }
        }
        let r = |s: &State, v: &Val| -> (i128, i128) { match v {
            Val::Int(l) => (s.min(self.cx, l), s.max(self.cx, l)),
            Val::Tab(i, t) => { let d = s.set_of(self.cx, *i); (d.iter().map(|x| t[x]).min().unwrap_or(0), d.iter().map(|x| t[x]).max().unwrap_or(0)) }
            _ => (NEG_INF, POS_INF) } };
        let ((a0, a1), (b0, b1)) = (r(self.a, a), r(self.b, b));
        self.changed = true;
        Val::Int(Lin::sym(self.cx.fresh_dom("jtab", Dom::R(a0.min(b0), a1.max(b1)))))
    }
    fn obj(&mut self, a: &Rc<Obj>, b: &Rc<Obj>) -> Val {
        let cx = self.cx;
        match (&**a, &**b) {
            (Obj::Vec { ty, base: ba, elems: ea }, Obj::Vec { base: bb, elems: eb, .. }) => {
                let samebase = match (ba, bb) { (None, None) => true, (Some((i, _)), Some((j, _))) => i == j, _ => false };
                if samebase && ea.len() == eb.len() && { let mut h = (Fx::new(), Fx::new()); for x in ea { sk(cx, self.a, x, &mut h.0) } for x in eb { sk(cx, self.b, x, &mut h.1) } h.0.finish() == h.1.finish() } {
                    let base = match (ba, bb) { (Some((i, l)), Some((_, m))) => Some((*i, self.lin(l, m))), _ => None };
                    return Val::obj(Obj::Vec { ty: *ty, base, elems: self.vals(ea, eb) });
                }
                // keep a common suffix (top of stack) when the shapes agree
                let mut keep = 0;
                while keep < ea.len() && keep < eb.len() && keep < 2 {
                    let (x, y) = (&ea[ea.len() - 1 - keep], &eb[eb.len() - 1 - keep]);
                    let mut h = (Fx::new(), Fx::new());
                    sk(cx, self.a, x, &mut h.0); sk(cx, self.b, y, &mut h.1);
                    if h.0.finish() != h.1.finish() { break }
                    keep += 1;
                }
                let suf = self.vals(&ea[ea.len() - keep..].to_vec(), &eb[eb.len() - keep..].to_vec());
                let (la, lb) = (super::exec::vec_len(ba, &ea[..ea.len() - keep]), super::exec::vec_len(bb, &eb[..eb.len() - keep]));
                let l = self.lin(&la, &lb);
                // the same pair of bases maps to the same fresh base
                let key = (ba.as_ref().map(|x| x.0).unwrap_or(u32::MAX), bb.as_ref().map(|x| x.0).unwrap_or(u32::MAX));
                let t = match self.tops.get(&key) { Some(t) => *t, None => { let t = cx.fresh("jvec"); self.tops.insert(key, t); t } };
                // an already generalised base that only lost elements stays comparable
                self.changed = true;
                Val::obj(Obj::Vec { ty: *ty, base: Some((t, l)), elems: suf })
            }
            (Obj::Str { len: la, utf8: ua, marks: ma, src: sa, id: ia }, Obj::Str { len: lb, utf8: ub, marks: mb, src: sb, id: ib }) => {
                if ia == ib && la == lb && ma == mb { return Val::Obj(a.clone()) }
                let len = self.lin(la, lb);
                let mut marks = vec![];
                for m in ma { for n in mb {
                    let (x, y) = (self.a.norm(cx, m), self.b.norm(cx, n));
                    let j = if x == y { Some(x) } else { self.ts.iter().find_map(|(t, ta, tb)| { let da = x.sub(ta); if da == y.sub(tb) && da.is_const().is_some() { Some(Lin::sym(*t).add(&da)) } else { None } }) };
                    if let Some(j) = j { if !marks.contains(&j) { marks.push(j) } }
                } }
                if marks.len() < ma.len() { self.changed = true }
                let src = if sa == sb { sa.clone() } else { None };
                let id = if ia == ib { *ia } else { let k = (*ia, *ib); match self.tops.get(&k) { Some(t) => *t, None => { let t = cx.fresh("jstr"); self.tops.insert(k, t); t } } };
                Val::obj(Obj::Str { len, utf8: *ua && *ub, marks, src, id })
            }
            (Obj::Map { ty, base: x, log: la }, Obj::Map { base: y, log: lb, .. }) => {
                if x == y && la == lb { return Val::Obj(a.clone()) }
                self.changed = true;
                let k = (*x, *y);
                let t = match self.tops.get(&k) { Some(t) => *t, None => { let t = cx.fresh("jmap"); self.tops.insert(k, t); t } };
                Val::obj(Obj::Map { ty: *ty, base: t, log: vec![] })
            }
            (Obj::Heap { ty, id: x, len: la }, Obj::Heap { id: y, len: lb, .. }) => {
                let len = self.lin(la, lb);
                let id = if x == y { *x } else { let k = (*x, *y); match self.tops.get(&k) { Some(t) => *t, None => { let t = cx.fresh("jheap"); self.tops.insert(k, t); t } } };
                Val::obj(Obj::Heap { ty: *ty, id, len })
            }
            (Obj::Iter { kind, view: x, base: p }, Obj::Iter { kind: k2, view: y, base: q }) => {
                if kind != k2 { self.bad = true }
                Val::obj(Obj::Iter { kind: *kind, view: self.view(x, y), base: self.lin(p, q) })
            }
            (Obj::Other { tag, ty, vals: x }, Obj::Other { vals: y, .. }) => Val::obj(Obj::Other { tag, ty: *ty, vals: self.vals(x, y) }),
            _ => { self.bad = true; Val::Undef }
        }
    }
}
/// The id reached from another root by the same steps.
fn rebuild(cx: &Cx, root: Id, path: &[IdKey]) -> Id {
    let mut k = root;
    for x in path {
        k = cx.id(match x { IdKey::Field(_, v, f) => IdKey::Field(k, *v, *f), IdKey::Deref(_) => IdKey::Deref(k), IdKey::Disc(_) => IdKey::Disc(k), IdKey::Len(_) => IdKey::Len(k), IdKey::Elem(_) => IdKey::Elem(k), IdKey::Tail(_) => IdKey::Tail(k), IdKey::Conv(_, s) => IdKey::Conv(k, s), IdKey::Fresh(_) => unreachable!() });
    }
    k
}
fn same_step(a: &IdKey, b: &IdKey) -> bool {
    match (a, b) {
        (IdKey::Field(_, v, f), IdKey::Field(_, w, g)) => v == w && f == g,
        (IdKey::Conv(_, s), IdKey::Conv(_, t)) => s == t,
        (IdKey::Fresh(_), _) => false,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
fn has_ids(v: &Val) -> bool { let mut r = false; val_ids(v, &mut |_, _| r = true); r }

/// Debugging: which parts of two states cannot be joined.
pub fn why_not(cx: &Cx, a: &State, b: &State) -> String {
    let mut out = String::new();
    let mut t = |n: String, x: &Val, y: &Val| {
        let mut j = J { cx, a, b, wide: 0, ts: vec![], tops: HashMap::default(), bytes: HashMap::default(), dom: BTreeMap::new(), tape: vec![], changed: false, bad: false, intrace: false };
        j.val(x, y);
        if j.bad { out.push_str(&format!("{}: {:.3000?} || {:.3000?}\n", n, x, y)) }
    };
    for (d, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() { for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() { t(format!("frame {} local {}", d, i), x, y) } }
    let keys: BTreeSet<CellId> = a.heap.keys().chain(b.heap.keys()).cloned().collect();
    for c in keys { t(format!("cell {}", c), &a.root_val(cx, Root::Cell(c)), &b.root_val(cx, Root::Cell(c))) }
    for (k, v) in a.ghost.iter() { t(format!("ghost {}", k), v, &b.ghost_get(k)) }
    out
}

/// Debugging: which parts of a state do not cover another's.
pub fn why_not_sub(cx: &Cx, a: &State, b: &State) -> String {
    let mut out = String::new();
    let mut m = M { cx, a, b, s: HashMap::default(), t: HashMap::default(), later: vec![], bufs: BTreeSet::new() };
    let mut t = |n: String, x: &Val, y: &Val| { if !m.val(x, y) { out.push_str(&format!("{}: {:.3000?} || {:.3000?}\n", n, x, y)) } };
    for (d, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() { for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() { t(format!("frame {} local {}", d, i), x, y) } }
    let keys: BTreeSet<CellId> = a.heap.keys().chain(b.heap.keys()).cloned().collect();
    for c in keys { t(format!("cell {}", c), &a.root_val(cx, Root::Cell(c)), &b.root_val(cx, Root::Cell(c))) }
    for (k, v) in a.ghost.iter() { t(format!("ghost {}", k), v, &b.ghost_get(k)) }
    out
}

/// Anti-unification of two states with the same skeleton.
/// Returns (joined, changed-with-respect-to-a).
pub fn join(cx: &Cx, a: &State, b: &State, wide: u32) -> Option<(State, bool)> {
    cx.joins.set(cx.joins.get() + 1);
    let mut j = J { cx, a, b, wide, ts: vec![], tops: HashMap::default(), bytes: HashMap::default(), dom: BTreeMap::new(), tape: vec![], changed: false, bad: false, intrace: false };
    if a.frames.len() != b.frames.len() || a.trace.len() != b.trace.len() { return None }
    let mut r = State::new();
    for (x, y) in a.frames.iter().zip(b.frames.iter()) { r.frames.push(Rc::new(j.vals(x, y))) }
    let keys: BTreeSet<CellId> = a.heap.keys().chain(b.heap.keys()).cloned().collect();
    let mut heap = BTreeMap::new();
    for c in keys { let v = j.val(&a.root_val(cx, Root::Cell(c)), &b.root_val(cx, Root::Cell(c))); heap.insert(c, v); }
    let gk: BTreeSet<&'static str> = a.ghost.keys().chain(b.ghost.keys()).cloned().collect();
    let mut ghost = BTreeMap::new();
    for k in gk { let v = j.val(&a.ghost_get(k), &b.ghost_get(k)); ghost.insert(k, v); }
    let mut trace = vec![];
    j.intrace = true;
    for ((t, x), (u, y)) in a.trace.iter().zip(b.trace.iter()) { if t != u { return None } trace.push((*t, j.val(x, y))) }
    j.intrace = false;
    if j.bad { return None }
    r.heap = Rc::new(heap); r.ghost = Rc::new(ghost); r.trace = Rc::new(trace);
    let mut taint = (*a.taint).clone(); taint.extend(b.taint.iter().cloned());
    r.taint = Rc::new(taint);
    // domains of ids kept from both
    let mut dom = j.dom.clone();
    for i in a.dom.keys().chain(b.dom.keys()) {
        if dom.contains_key(i) { continue }
        let (x, y) = (a.domain(cx, *i), b.domain(cx, *i));
        let mut u = x.union(&y);
        if wide > 0 { if let (Dom::R(a0, a1), Dom::R(b0, b1)) = (&x, &y) { let d0 = cx.dom0(*i); u = Dom::R(if b0 < a0 { d0.min() } else { *a0 }, if b1 > a1 { d0.max() } else { *a1 }) } }
        if u != x { j.changed = true }
        dom.insert(*i, u);
    }
    r.dom = Rc::new(dom);
    // mapping of joined symbols into a and b
    let ts = j.ts.clone();
    let into = |l: &Lin, which: bool| l.map(&mut |s| ts.iter().find(|t| t.0 == s).map(|t| if which { t.2.clone() } else { t.1.clone() }));
    // symbols of a rewritten into joined symbols
    let inv = |l: &Lin, which: bool, other: &State| -> Option<Lin> {
        let mut ok = true;
        let _ = other;
        let r = l.map(&mut |s| {
            for (t, x, y) in &ts {
                let z = if which { y } else { x };
                if let Some((i, k)) = z.as_sym_off() { if i == s { return Some(Lin::sym(*t).addk(-k)) } }
            }
            None
        });
        // remaining symbols must mean the same thing in both states
        for (s, _) in &r.t { if ts.iter().any(|t| t.0 == *s) { continue } let _ = s; ok &= true }
        if ok { Some(r) } else { None }
    };
    let mut facts: Vec<Lin> = vec![];
    let add = |l: Lin, facts: &mut Vec<Lin>, r: &State| { if l.t.len() >= 2 && l.t.len() <= 4 && !facts.contains(&l) && r.min(cx, &l) < 0 { facts.push(l) } };
    for f in a.facts.iter() {
        let mut kept = false;
        if let Some(g) = inv(f, false, b) { if a.prove(cx, &into(&g, false)) && b.prove(cx, &into(&g, true)) { add(g, &mut facts, &r); kept = true } }
        if !kept { j.changed = true }
    }
    // under widening a weaker form of a bound is not kept: it may weaken for ever
    for f in b.facts.iter().filter(|_| wide < 4) { if let Some(g) = inv(f, true, a) { if a.prove(cx, &into(&g, false)) && b.prove(cx, &into(&g, true)) { add(g, &mut facts, &r) } } }
    // pairwise bounds among the new symbols, buffer ends and zero-based symbols in use
    let rl = live(cx, &r);
    let mut anchors: Vec<Lin> = vec![];
    for bf in &rl.bufs { anchors.push(cx.bufs.borrow()[*bf as usize].end.clone()) }
    for (_, p) in &rl.pos { if !anchors.contains(p) && anchors.len() < 24 { anchors.push(p.clone()) } }
    for (_, v) in r.ghost.iter() { if let Val::Int(l) = v { if !anchors.contains(l) && l.t.len() > 0 { anchors.push(l.clone()) } } }
    let rset: Vec<Lin> = ts.iter().filter(|t| !matches!(r.domain(cx, t.0), Dom::S(_))).map(|t| Lin::sym(t.0)).take(24).collect();
    for u in &rset {
        for v in rset.iter().chain(anchors.iter()) {
            if u == v { continue }
            for d in [u.sub(v), v.sub(u)] {
                if d.t.len() < 2 { continue }
                let (da, db) = (a.norm(cx, &into(&d, false)), b.norm(cx, &into(&d, true)));
                match (da.is_const(), db.is_const()) {
                    (Some(x), Some(y)) => {
                        // lower bound min(x, y)
                        if wide == 0 || x <= y { add(d.addk(-x.min(y)), &mut facts, &r) }
                        else if y >= 0 { add(d.clone(), &mut facts, &r) }
                    }
                    _ => {
                        for c in [4i128, 3, 2, 1, 0, -1] {
                            let g = d.addk(-c);
                            if a.prove(cx, &into(&g, false)) && b.prove(cx, &into(&g, true)) { add(g, &mut facts, &r); break }
                        }
                    }
                }
            }
        }
    }
    r.facts = Rc::new(facts);
    // tape
    let mut tape = BTreeMap::new();
    for ((bf, p), sa) in a.tape.iter() {
        let mut cands = vec![];
        if let Some(q) = inv(p, false, b) { cands.push(q) }
        for (t, x, _) in &ts { if let Some(k) = p.sub(x).is_const() { cands.push(Lin::sym(*t).addk(k)) } }
        let mut done = false;
        for q in cands {
            if into(&q, false) != *p { continue }
            let pb = b.norm(cx, &into(&q, true));
            if let Some(sb) = b.tape.get(&(*bf, pb)) {
                if tape.contains_key(&(*bf, q.clone())) { done = true; continue }
                let t = if sa == sb { *sa } else if let Some(t) = j.bytes.get(&(*sa, *sb)) { *t } else {
                    let u = a.set_of(cx, *sa).or(&b.set_of(cx, *sb));
                    if u != a.set_of(cx, *sa) { j.changed = true }
                    let t = cx.fresh_dom("jbyte", Dom::S(u));
                    j.bytes.insert((*sa, *sb), t);
                    t
                };
                tape.insert((*bf, q), t);
                done = true;
            }
        }
        if !done { j.changed = true }
    }
    for (k, sa, sb) in j.tape.clone() {
        if tape.contains_key(&k) { continue }
        let t = match j.bytes.get(&(sa, sb)) { Some(t) => *t, None => {
            let t = if sa == sb { sa } else { cx.fresh_dom("jbyte", Dom::S(a.set_of(cx, sa).or(&b.set_of(cx, sb)))) };
            j.bytes.insert((sa, sb), t);
            t
        } };
        tape.insert(k, t);
    }
    r.tape = Rc::new(tape);
    // boundaries
    let mut bnd = BTreeSet::new();
    for (bf, p) in a.bnd.iter().chain(b.bnd.iter()) {
        for which in [false, true] {
            if let Some(q) = inv(p, which, b) {
                let (pa, pb) = (into(&q, false), into(&q, true));
                if a.is_boundary(cx, *bf, &pa) && b.is_boundary(cx, *bf, &pb) { bnd.insert((*bf, q)); }
            }
        }
    }
    for (bf, p) in &rl.pos {
        if p.t.is_empty() || bnd.contains(&(*bf, p.clone())) { continue }
        if a.is_boundary(cx, *bf, &into(p, false)) && b.is_boundary(cx, *bf, &into(p, true)) { bnd.insert((*bf, p.clone())); }
    }
    for (t, x, y) in &ts {
        if matches!(r.domain(cx, *t), Dom::S(_)) { continue }
        for bf in &rl.bufs {
            let l = Lin::sym(*t);
            if bnd.contains(&(*bf, l.clone())) { continue }
            if a.is_boundary(cx, *bf, x) && b.is_boundary(cx, *bf, y) { bnd.insert((*bf, l)); }
        }
    }
    r.bnd = Rc::new(bnd);
    Some((r, j.changed))
}

// ---------------------------------------------------------------- subsumption
/// Does `a` cover `b`? (there is a renaming of a's symbols making every
/// constraint of `a` provable in `b`)
pub fn subsumes(cx: &Cx, a: &State, b: &State) -> bool {
    let mut m = M { cx, a, b, s: HashMap::default(), t: HashMap::default(), later: vec![], bufs: BTreeSet::new() };
    if a.frames.len() != b.frames.len() || a.trace.len() != b.trace.len() { return false }
    if !b.taint.is_subset(&a.taint) { return false }
    for (x, y) in a.frames.iter().zip(b.frames.iter()) { for (v, w) in x.iter().zip(y.iter()) { if !m.val(v, w) { return false } } }
    let keys: BTreeSet<CellId> = a.heap.keys().chain(b.heap.keys()).cloned().collect();
    for c in keys { if !m.val(&a.root_val(cx, Root::Cell(c)), &b.root_val(cx, Root::Cell(c))) { return false } }
    for (k, v) in a.ghost.iter() { if !m.val(v, &b.ghost_get(k)) { return false } }
    for ((t, x), (u, y)) in a.trace.iter().zip(b.trace.iter()) { if t != u || !m.val(x, y) { return false } }
    // deferred equalities
    let mut later = std::mem::take(&mut m.later);
    let mut progress = true;
    while progress && !later.is_empty() {
        progress = false;
        let mut rest = vec![];
        for (x, y) in later {
            match m.try_lin(&x, &y) { Some(true) => progress = true, Some(false) => return false, None => rest.push((x, y)) }
        }
        later = rest;
    }
    for (x, _) in &later { for (s, _) in &x.t { m.s.entry(*s).or_insert(Lin::sym(*s)); } }
    for (x, y) in &later { if m.try_lin(x, y) != Some(true) { return false } }
    // ends of buffers keep their identity
    let mut sigma = m.s.clone();
    // tape binds byte symbols
    for ((bf, p), sa) in a.tape.iter() {
        let q = p.map(&mut |s| sigma.get(&s).cloned());
        let q = b.norm(cx, &q);
        let bf = &m.map_buf(*bf);
        match b.tape.get(&(*bf, q.clone())) {
            Some(sb) => {
                if !b.set_of(cx, *sb).subset(&a.set_of(cx, *sa)) { return false }
                if let Some(x) = sigma.get(sa) { if *x != Lin::sym(*sb) { return false } } else { sigma.insert(*sa, Lin::sym(*sb)); }
            }
            None => {
                // harmless when the entry carries no information
                let d = a.set_of(cx, *sa);
                let mut bb = b.clone();
                match bb.byte_at(cx, *bf, &q) { Val::Int(l) => match l.as_sym() { Some(i) => { if !bb.set_of(cx, i).subset(&d) || sigma.contains_key(sa) { return false } 
                    // existence of the byte must be known in b as well
                    let end = cx.bufs.borrow()[*bf as usize].end.clone();
                    if !b.prove(cx, &end.sub(&q).addk(-1)) { return false } } None => return false }, _ => return false }
            }
        }
    }
    for (i, d) in a.dom.iter() {
        match sigma.get(i) {
            Some(l) => {
                let l = b.norm(cx, l);
                match d {
                    Dom::S(s) => match l.as_sym() { Some(k) => if !b.set_of(cx, k).subset(s) { return false }, None => match l.is_const() { Some(k) => if !(0..256).contains(&k) || !s.has(k as usize) { return false }, None => return false } },
                    Dom::R(lo, hi) => {
                        if *lo > NEG_INF && !b.prove(cx, &l.addk(-lo)) { return false }
                        if *hi < POS_INF && !b.prove(cx, &Lin::k(*hi).sub(&l)) { return false }
                    }
                }
            }
            None => {
                // discriminants and fields of matched unknown values
                if let Some(k) = m.map_id(*i) { if !b.domain(cx, k).subset(d) && b.domain(cx, k) != *d { return false } sigma.insert(*i, Lin::sym(k)); }
            }
        }
    }
    // symbols without an explicit domain entry in a are constrained by their default only
    for (i, l) in sigma.clone() {
        if a.dom.contains_key(&i) { continue }
        let d = cx.dom0(i);
        let l = b.norm(cx, &l);
        match &d {
            Dom::S(s) => match l.as_sym() { Some(k) => if !b.set_of(cx, k).subset(s) { return false }, None => match l.is_const() { Some(k) => if !(0..256).contains(&k) || !s.has(k as usize) { return false }, None => return false } },
            Dom::R(lo, hi) => {
                if *lo > NEG_INF && b.min(cx, &l) < *lo && !b.prove(cx, &l.addk(-lo)) { return false }
                if *hi < (1i128 << 62) && b.max(cx, &l) > *hi && !b.prove(cx, &Lin::k(*hi).sub(&l)) { return false }
            }
        }
    }
    for f in a.facts.iter() {
        let g = f.map(&mut |s| sigma.get(&s).cloned());
        if !b.prove(cx, &g) { return false }
    }
    for (bf, p) in a.bnd.iter() {
        let q = p.map(&mut |s| sigma.get(&s).cloned());
        if !b.is_boundary(cx, m.map_buf(*bf), &q) { return false }
    }
    // a text that is looked at is the text of the same value in both
    for bf in std::mem::take(&mut m.bufs) { if m.map_buf(bf) != bf { return false } }
    true
}
struct M<'a> { bufs: BTreeSet<BufId>, cx: &'a Cx, a: &'a State, b: &'a State, s: HashMap<Id, Lin>, t: HashMap<Id, Id>, later: Vec<(Lin, Lin)> }
impl<'a> M<'a> {
    fn map_buf(&self, b: BufId) -> BufId {
        let (sym, utf8) = { let bs = self.cx.bufs.borrow(); let x = &bs[b as usize]; (match x.kind { BufKind::Sym(i) => i, _ => return b }, x.utf8) };
        match self.map_id(sym) { Some(k) if k != sym => self.cx.buf_sym(k, utf8), _ => b }
    }
    fn map_id(&self, i: Id) -> Option<Id> {
        if let Some(x) = self.t.get(&i) { return Some(*x) }
        let key = self.cx.ids.borrow()[i as usize].key.clone();
        let p = parent(&key)?;
        let q = self.map_id(p)?;
        let nk = match key {
            IdKey::Field(_, v, f) => IdKey::Field(q, v, f), IdKey::Deref(_) => IdKey::Deref(q), IdKey::Disc(_) => IdKey::Disc(q), IdKey::Len(_) => IdKey::Len(q),
            IdKey::Elem(_) => IdKey::Elem(q), IdKey::Tail(_) => IdKey::Tail(q), IdKey::Conv(_, s) => IdKey::Conv(q, s), IdKey::Fresh(_) => return None,
        };
        let n = self.cx.id(nk);
        let d = self.cx.ids.borrow()[i as usize].dom.clone();
        if let Some(d) = d { self.cx.set_dom0(n, d) }
        Some(n)
    }
    fn try_lin(&mut self, x: &Lin, y: &Lin) -> Option<bool> {
        // x over a, y over b
        let mut unb: Vec<(Id, i128)> = vec![];
        let mut r = Lin::k(x.k);
        for (s, c) in &x.t { match self.s.get(s) { Some(l) => r = r.comb(*c, l), None => unb.push((*s, *c)) } }
        if unb.is_empty() { return Some(self.b.prove_eq0(self.cx, &r.sub(y))) }
        if unb.len() == 1 && unb[0].1.abs() == 1 {
            let v = y.sub(&r).scale(unb[0].1);
            self.s.insert(unb[0].0, v);
            return Some(true);
        }
        None
    }
    fn lin(&mut self, x: &Lin, y: &Lin) -> bool {
        let x = self.a.norm(self.cx, x);
        let y = self.b.norm(self.cx, y);
        match self.try_lin(&x, &y) { Some(b) => b, None => { self.later.push((x, y)); true } }
    }
    fn top(&mut self, ty: Ty, i: Id, j: Id) -> bool {
        let cx = self.cx;
        if int_dom(ty).is_some() { let (x, y) = (cx.expand(&Val::Top(ty, i)), cx.expand(&Val::Top(ty, j))); return self.val(&x, &y) }
        match self.t.get(&i) { Some(k) => { if *k != j { return false } } None => { self.t.insert(i, j); } }
        if cx.num_variants(ty) > 1 {
            let (da, db) = (self.a.set_of(cx, cx.disc_id(ty, i)), self.b.set_of(cx, cx.disc_id(ty, j)));
            if !db.subset(&da) { return false }
        }
        true
    }
    fn vals(&mut self, a: &[Val], b: &[Val]) -> bool { a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| self.val(x, y)) }
    fn val(&mut self, a: &Val, b: &Val) -> bool {
        let cx = self.cx;
        match (a, b) {
            (Val::Undef, _) => true,
            (_, Val::Undef) => false,
            (Val::Top(t, i), Val::Top(u, j)) => t == u && self.top(*t, *i, *j),
            (Val::Top(t, i), Val::Var(k, ys)) => {
                let d = self.a.set_of(cx, cx.disc_id(*t, *i));
                if d.single() != Some(*k as usize) { return false }
                match cx.expand_var(*t, *i, *k) { Val::Var(_, xs) => self.vals(&xs, ys), _ => false }
            }
            (Val::Var(k, xs), Val::Top(t, j)) => {
                let d = self.b.set_of(cx, cx.disc_id(*t, *j));
                if d.single() != Some(*k as usize) { return false }
                match cx.expand_var(*t, *j, *k) { Val::Var(_, ys) => self.vals(xs, &ys), _ => false }
            }
            (Val::Int(x), Val::Int(y)) => self.lin(x, y),
            (Val::Tab(i, t), Val::Tab(j, u)) => { if t == u { return self.lin(&Lin::sym(*i), &Lin::sym(*j)) } false }
            (Val::Int(x), Val::Tab(j, u)) => match self.a.norm(cx, x).as_sym() { Some(i) if !self.s.contains_key(&i) => { let d = self.a.domain(cx, i); let s = self.b.set_of(cx, *j); let r = s.iter().all(|k| u[k] >= d.min() && u[k] <= d.max()); r } _ => false },
            (Val::Bool(x), Val::Bool(y)) => {
                if x == y { match x { Cond::K(_) => return true, _ => {} } }
                match (x, y) {
                    (Cond::In(i, s), Cond::In(j, t)) if s == t => self.lin(&Lin::sym(*i), &Lin::sym(*j)),
                    (Cond::In(i, s), y) if *s == Set::one(1) && !self.s.contains_key(i) && self.a.set_of(cx, *i) == Set::upto(2) => { let _ = y; true }
                    (x, y) => match (self.a.known_quick(cx, x), self.b.known_quick(cx, y)) { (Some(p), Some(q)) => p == q, _ => false },
                }
            }
            (Val::Agg(x), Val::Agg(y)) => self.vals(x, y),
            (Val::Var(i, x), Val::Var(j, y)) => i == j && self.vals(x, y),
            (Val::Ptr(p), Val::Ptr(q)) => p == q,
            (Val::View(x), Val::View(y)) => x.buf == y.buf && { self.bufs.insert(x.buf); true } && self.lin(&x.s, &y.s) && self.lin(&x.e, &y.e),
            (Val::BPtr(x, p), Val::BPtr(y, q)) => x == y && { self.bufs.insert(*x); true } && self.lin(p, q),
            (Val::Fn(x), Val::Fn(y)) => x == y,
            (Val::Zst, Val::Zst) => true,
            (Val::Obj(x), Val::Obj(y)) => match (&**x, &**y) {
                (Obj::Vec { base: ba, elems: ea, .. }, Obj::Vec { base: bb, elems: eb, .. }) => {
                    match (ba, bb) {
                        (None, None) => ea.len() == eb.len() && self.vals(ea, eb),
                        (Some((i, l)), Some((j, m))) if ea.len() == eb.len() => {
                            match self.t.get(i) { Some(k) => if k != j { return false }, None => { self.t.insert(*i, *j); } }
                            self.lin(l, m) && self.vals(ea, eb)
                        }
                        // generalised base absorbs surplus elements of b
                        (Some((i, l)), bb) if eb.len() >= ea.len() => {
                            if !matches!(cx.ids.borrow()[*i as usize].label.as_str(), "jvec") { return false }
                            let extra = eb.len() - ea.len();
                            let len_b = super::exec::vec_len(bb, &eb[..extra]);
                            self.lin(l, &len_b) && self.vals(ea, &eb[extra..])
                        }
                        _ => false,
                    }
                }
                (Obj::Str { len: l, utf8: u, marks: ma, src: sa, id: i }, Obj::Str { len: m, utf8: v, marks: mb, src: sb, id: j }) => {
                    if *u && !*v { return false }
                    if !self.lin(l, m) { return false }
                    match self.t.get(i) { Some(k) => if k != j { return false }, None => { self.t.insert(*i, *j); } }
                    if let Some(s) = sa { match sb { Some(t) => if s.buf != t.buf || !self.lin(&s.s, &t.s) || !self.lin(&s.e, &t.e) { return false }, None => return false } }
                    // marks of a must be marks of b (under the renaming found so far)
                    for x in ma {
                        let r = self.a.norm(cx, x).map(&mut |s| self.s.get(&s).cloned());
                        if !mb.iter().any(|y| self.b.prove_eq0(cx, &r.sub(y))) { return false }
                    }
                    true
                }
                (Obj::Map { base: i, log: la, .. }, Obj::Map { base: j, log: lb, .. }) => {
                    match self.t.get(i) { Some(k) => if k != j { return false }, None => { self.t.insert(*i, *j); } }
                    if cx.ids.borrow()[*i as usize].label == "jmap" && la.is_empty() { return true }
                    la.len() == lb.len() && la.iter().zip(lb.iter()).all(|(x, y)| x.0 == y.0 && self.val(&x.1, &y.1) && self.val(&x.2, &y.2))
                }
                (Obj::Heap { id: i, len: l, .. }, Obj::Heap { id: j, len: m, .. }) => {
                    match self.t.get(i) { Some(k) => if k != j { return false }, None => { self.t.insert(*i, *j); } }
                    self.lin(l, m)
                }
                (Obj::Iter { kind: k1, view: x, base: p }, Obj::Iter { kind: k2, view: y, base: q }) => k1 == k2 && x.buf == y.buf && self.lin(&x.s, &y.s) && self.lin(&x.e, &y.e) && self.lin(p, q),
                (Obj::Other { tag: t, vals: x, .. }, Obj::Other { tag: u, vals: y, .. }) => t == u && self.vals(x, y),
                _ => false,
            },
            (Val::Top(..), _) | (_, Val::Top(..)) => {
                let (x, y) = (cx.expand(a), cx.expand(b));
                !matches!(x, Val::Top(..)) && !matches!(y, Val::Top(..)) && self.val(&x, &y)
            }
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- merging
/// Exact merge: states that only differ in the domain of one symbol.
fn lossless(cx: &Cx, v: Vec<State>) -> Vec<State> {
    let mut out: Vec<State> = vec![];
    let mut buckets: HashMap<u64, Vec<usize>> = HashMap::default();
    'n: for s in v {
        let b = buckets.entry(cx.hooks.skeleton(cx, &s)).or_default();
        for oi in b.iter() {
            let o = &mut out[*oi];
            if same_but_dom(o, &s) {
                let keys: BTreeSet<Id> = o.dom.keys().chain(s.dom.keys()).cloned().collect();
                let diff: Vec<Id> = keys.into_iter().filter(|i| o.domain(cx, *i) != s.domain(cx, *i)).collect();
                if diff.is_empty() { continue 'n }
                if diff.iter().all(|i| s.domain(cx, *i).subset(&o.domain(cx, *i))) { continue 'n }
                if diff.iter().all(|i| o.domain(cx, *i).subset(&s.domain(cx, *i))) { *o = s; continue 'n }
                if diff.len() == 1 {
                    let (x, y) = (o.domain(cx, diff[0]), s.domain(cx, diff[0]));
                    let ok = match (&x, &y) { (Dom::S(_), Dom::S(_)) => true, _ => x.max() + 1 >= y.min() && y.max() + 1 >= x.min() };
                    if ok { o.set_dom(diff[0], x.union(&y)); continue 'n }
                }
            }
        }
        b.push(out.len());
        out.push(s);
    }
    out
}
pub fn same_but_dom(a: &State, b: &State) -> bool {
    a.frames == b.frames && a.heap == b.heap && a.facts == b.facts && a.tape == b.tape && a.bnd == b.bnd && a.ghost == b.ghost && a.trace == b.trace && a.taint == b.taint
}

pub fn merge_list(cx: &Cx, mut v: Vec<State>, lim: usize) -> Vec<State> {
    if v.len() <= 1 { return v }
    for s in v.iter_mut() { gc(cx, s) }
    loop {
        let n = v.len();
        v = lossless(cx, v);
        if v.len() == n || v.len() == 1 { break }
    }
    if v.len() == 1 { return v }
    // group by skeleton; subsumption, then lossy joins beyond the limit
    let mut groups: BTreeMap<u64, Vec<State>> = BTreeMap::new();
    let mut order = vec![];
    for s in v { let k = skeleton(cx, &s); if !groups.contains_key(&k) { order.push(k) } groups.entry(k).or_default().push(s) }
    let mut out = vec![];
    for k in order {
        let g = groups.remove(&k).unwrap();
        let mut acc: Vec<State> = vec![];
        for s in g {
            if acc.iter().any(|o| subsumes(cx, o, &s)) { continue }
            acc.retain(|o| !subsumes(cx, &s, o));
            acc.push(s);
        }
        while acc.len() > lim {
            let x = acc.pop().unwrap();
            let y = acc.pop().unwrap();
            match join(cx, &y, &x, 0) {
                Some((mut j, _)) => { gc(cx, &mut j); acc.retain(|o| !subsumes(cx, &j, o)); acc.push(j) }
                None => { acc.push(y); acc.push(x); break }
            }
        }
        out.extend(acc);
    }
    out
}

/// Add a state to a loop head; returns the state to (re)explore, if any.
pub fn head_add(cx: &Cx, tbl: &mut Vec<(u64, State, u32)>, mut s: State) -> Option<State> {
    gc(cx, &mut s);
    let k = skeleton(cx, &s);
    for (kk, old, n) in tbl.iter_mut() {
        if *kk != k { continue }
        if subsumes(cx, old, &s) { return None }
        *n += 1;
        let wide = if *n > 2 { *n - 2 } else { 0 };
        if let Some((mut j, _)) = join(cx, old, &s, wide) {
            gc(cx, &mut j);
            if *n > 40 { *cx.unsup.borrow_mut().entry(format!("loop did not converge {:?}", cx.callstack.borrow().last())).or_default() += 1; if cx.debug { eprintln!("NOCONV {:?} {}\nOLD {}\nNEW {}\nJOIN {}", cx.callstack.borrow().last(), why_not_sub(cx, old, &s), crate::ai::dump(cx, old), crate::ai::dump(cx, &s), crate::ai::dump(cx, &j)) } return None }
            *old = j.clone();
            return Some(j);
        }
    }
    if tbl.iter().filter(|x| x.0 == k).count() > 64 { *cx.unsup.borrow_mut().entry(format!("loop class limit {:?}", cx.callstack.borrow().last())).or_default() += 1; return None }
    tbl.push((k, s.clone(), 0));
    Some(s)
}
