//! P01, P02, P03, P04, P05 and P17: the event iterator is interpreted
//! abstractly from every reachable parser configuration, against the event
//! grammar and against the reference token productions.
use super::floor;
use super::grammar::*;
use crate::ai::models::{alloc_cell, as_view};
use crate::ai::*;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

fn adt(t: Ty) -> Option<(AdtDef, GenericArgs)> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)), _ => None } }
pub fn adt_name(t: Ty) -> std::rc::Rc<str> { crate::ai::state::info(t).name.clone() }
pub fn ty_args(t: Ty) -> Vec<Ty> { adt(t).map(|(_, a)| a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect()).unwrap_or_default() }
pub fn vname(t: Ty, v: u32) -> String { adt(t).and_then(|(d, _)| d.variants().get(v as usize).map(|v| v.name().to_string())).unwrap_or_default() }
fn is_option(t: Ty) -> bool { adt_name(t).ends_with("option::Option") }

/// A parser value with everything the properties do not depend on left out.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Canon { Top(Ty), Int(i128), Bool(bool), Agg(Ty, Vec<Canon>), Var(Ty, u32, Vec<Canon>), Peek(Ty, Option<(u32, bool)>), Stack(Ty), Map(Ty), Ref(Ty, Box<Canon>), Zst }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum H { Node(usize), Elem(usize), Bottom }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Cfg {
    os: Vec<u8>, h: H, cur: bool, lazy: bool, fetched: bool, touched: bool, eaten: bool,
    pend: Vec<u32>, linked: bool, ref_err: bool, over: bool,
    drive_err: bool, dry: bool,
    anchors: u8, tags: u8, aliases: u8, scalars: u8, tagdirs: u8, verdirs: u8,
    dir: u8,      // current %TAG: 0 nothing yet, 2 looked up and missing, 3 looked up and present, 4 inserted
    eof: bool, exposed: u8, fresh: bool, hit: bool, taglook: u8, def: [u8; 2], alien: bool, lost: bool, copy: u8, spin: u8,
}

/// The kinds of the lookahead token are kept apart: everything else being equal they are explored together.
struct Node { canon: Canon, os: Vec<u8>, pend: Vec<u32>, dry: bool, mask: u32 }
/// Take out (or put in) the kinds of the lookahead token.
fn peeked(c: &mut Canon, with: u32) -> u32 {
    match c {
        Canon::Peek(_, Some((m, _))) => std::mem::replace(m, with),
        Canon::Agg(_, v) | Canon::Var(_, _, v) => v.iter_mut().fold(0, |a, x| a | peeked(x, with)),
        Canon::Ref(_, x) => peeked(x, with),
        _ => 0,
    }
}

fn names(m: u32) -> String {
    let v: Vec<&str> = (0..KINDS.len()).filter(|i| m >> i & 1 > 0).map(|i| KINDS[i]).collect();
    if v.len() == KINDS.len() { "any token".into() } else if v.len() > 6 { let w: Vec<&str> = (0..KINDS.len()).filter(|i| m >> i & 1 == 0).map(|i| KINDS[i]).collect(); format!("any token but {}", w.join(" or ")) } else { v.join(" or ") }
}


#[derive(Default)]
struct Sh {
    prop: &'static str, mode_r: bool,
    cfgs: Vec<Cfg>, cfgidx: HashMap<Cfg, usize>,
    elems: Vec<(Canon, Vec<u8>)>, elemidx: HashMap<(Canon, Vec<u8>), usize>,
    nodes: Vec<Node>, nodeidx: HashMap<(Canon, Vec<u8>, Vec<u32>, bool), usize>,
    below: BTreeMap<H, BTreeSet<H>>,
    incl: BTreeMap<H, BTreeSet<H>>,               // what lies below the first lies below the second too
    only: BTreeMap<H, (BTreeSet<H>, BTreeSet<H>)>, // in a repeated run: new entries, entries with something new below
    looked: BTreeMap<(usize, H), BTreeSet<H>>,    // what a configuration has found below an entry so far
    running: usize,
    deps: BTreeSet<H>,
    entry_ty: Option<Ty>, token_ty: Option<Ty>, tok_path: (u32, u32), // field of the entry, variant holding a token
    lazy_variant: Option<u32>,
    kinds: Vec<u8>, // token variant -> kind
    stack_ty: Option<Ty>,
    finds: BTreeMap<(&'static str, String), String>,
    fetches: u64, drives: u64, lookups: u64, inserts: u64,
    node_label: String,
    grown: Vec<H>,
}
impl Sh {
    fn intern(&mut self, c: Cfg) -> usize {
        if let Some(i) = self.cfgidx.get(&c) { return *i }
        self.cfgs.push(c.clone());
        self.cfgidx.insert(c, self.cfgs.len() - 1);
        self.cfgs.len() - 1
    }
    fn cfg(&self, st: &State) -> Cfg { match st.ghost_get("cfg") { Val::Int(l) => self.cfgs[l.is_const().unwrap() as usize].clone(), _ => panic!("no configuration") } }
    fn put(&mut self, st: &mut State, mut c: Cfg) {
        // only what the property at hand looks at tells configurations apart
        let p = self.prop;
        if p != "P03" { c.spin = 0; c.eaten = false; c.exposed = 0 }
        if !matches!(p, "P03" | "P05") { c.touched = false; c.fetched = false }
        if p != "P05" { c.drive_err = false; c.dry = false; c.eof = false }
        if p != "P04" { c.anchors = 0; c.aliases = 0 }
        if !matches!(p, "P04" | "P05") { c.scalars = 0 }
        if p == "P05" { c.scalars = c.scalars.min(1) }
        if !matches!(p, "P04" | "P05" | "P17") { c.tags = 0 } else if p != "P04" { c.tags = c.tags.min(1) }
        if p != "P17" { c.verdirs = 0; c.def = [0, 0]; c.alien = false; c.lost = false; c.copy = 0; c.tagdirs = 0 }
        if !matches!(p, "P05" | "P17") { c.dir = 0; c.hit = false; c.taglook = 0 }
        let i = self.intern(c); st.ghost_set("cfg", Val::k(i as i128))
    }
    /// The kinds the current token can still have.
    fn mask(&self, cx: &Cx, st: &State) -> u32 {
        let tok = st.ghost_get("tok");
        let m = field(cx, &tok, 0, self.tok_path.0 as usize);
        let Val::Top(mt, mo) = &m else { return 0 };
        if cx.num_variants(*mt) > 1 && self.lazy_variant.is_some() && st.set_of(cx, cx.disc_id(*mt, *mo)).single() == self.lazy_variant.map(|x| x as usize) { return 1 << k::SCALAR }
        let t = field(cx, &m, self.tok_path.1, 0);
        let Val::Top(tt, to) = &t else { return 0 };
        st.set_of(cx, cx.disc_id(*tt, *to)).iter().filter_map(|v| self.kinds.get(v)).filter(|k| **k != NONE).fold(0, |a, k| a | 1 << k)
    }
    /// The kind of the current token, where it is known.
    fn single(&self, cx: &Cx, st: &State, c: &Cfg) -> u8 { if !c.cur { return NONE } let m = self.mask(cx, st); if m.count_ones() == 1 { m.trailing_zeros() as u8 } else { NONE } }
    fn narrow(&self, cx: &Cx, st: &mut State, mask: u32) -> bool {
        let tok = st.ghost_get("tok");
        let m = field(cx, &tok, 0, self.tok_path.0 as usize);
        let Val::Top(mt, mo) = &m else { return false };
        if cx.num_variants(*mt) > 1 && self.lazy_variant.is_some() && st.set_of(cx, cx.disc_id(*mt, *mo)).single() == self.lazy_variant.map(|x| x as usize) { return mask >> k::SCALAR & 1 > 0 }
        let t = field(cx, &m, self.tok_path.1, 0);
        let Val::Top(tt, to) = &t else { return false };
        let mut set = Set::empty();
        for (v, k) in self.kinds.iter().enumerate() { if *k != NONE && mask >> k & 1 > 0 { set = set.or(&Set::one(v)) } }
        st.assume_in(cx, cx.disc_id(*tt, *to), &set)
    }
    /// Settle which of the kinds of interest the current token has.
    fn settle(&self, cx: &Cx, st: &State, kinds: &[u8]) -> R<u32> {
        let m = self.mask(cx, st);
        if m == 0 { return Err(Stop::Dead) }
        let mut parts: Vec<u32> = kinds.iter().map(|k| 1 << k).filter(|b| m & b > 0).collect();
        let rest = m & !parts.iter().fold(0, |a, b| a | b);
        if rest > 0 { parts.push(rest) }
        if parts.len() == 1 { return Ok(m) }
        let mut alts = vec![];
        for p in parts { let mut n = st.clone(); if self.narrow(cx, &mut n, p) { alts.push(n) } }
        Err(Stop::Fork(alts))
    }
    /// One step of the reference on what is known about the next token.
    fn ref_step(&mut self, cx: &Cx, st: &State, c: &Cfg) -> R<(Step, bool, Vec<u8>)> {
        let tok = c.pend.first().copied();
        let Some(m) = tok else { let mut os = c.os.clone(); let (s, e) = step(&mut os, None); return Ok((s, e, os)) };
        let now = c.pend.len() == 1 && c.linked;
        let m = if now { self.mask(cx, st) } else { m };
        let mut groups: Vec<(Step, bool, Vec<u8>, u32)> = vec![];
        for k in 0..KINDS.len() as u8 {
            if m >> k & 1 == 0 { continue }
            let mut os = c.os.clone();
            let (s, e) = step(&mut os, Some(k));
            match groups.iter_mut().find(|g| g.0 == s && g.1 == e && g.2 == os) { Some(g) => g.3 |= 1 << k, None => groups.push((s, e, os, 1 << k)) }
        }
        if groups.is_empty() { return Err(Stop::Dead) }
        if groups.len() == 1 { let g = groups.pop().unwrap(); return Ok((g.0, g.1, g.2)) }
        let mut alts = vec![];
        for g in groups {
            let mut n = st.clone();
            if now && !self.narrow(cx, &mut n, g.3) { continue }
            let mut d = c.clone();
            d.pend[0] = g.3;
            alts.push((n, d));
        }
        Err(Stop::Fork(alts.into_iter().map(|(mut n, d)| { self.put(&mut n, d); n }).collect()))
    }
    /// What lies below an entry. A repeated run of a configuration only follows what is new, or has
    /// something new below it.
    fn below_of(&mut self, h: H, fresh: bool) -> Vec<(H, bool)> {
        if h == H::Bottom { return vec![] }
        self.deps.insert(h);
        let all: BTreeSet<H> = self.below.get(&h).cloned().unwrap_or_default();
        let seen = self.looked.entry((self.running, h)).or_default();
        let old = self.only.get(&h);
        let r = match old {
            Some(o) if !fresh => all.iter().filter(|x| o.0.contains(x) || o.1.contains(x)).map(|x| (*x, o.0.contains(x))).collect(),
            None if !fresh => all.iter().map(|x| (*x, true)).collect(),
            _ => all.iter().map(|x| (*x, true)).collect(),
        };
        seen.extend(all);
        r
    }
    /// What a configuration that ran before has not seen yet below the entries it looked below: what is new
    /// there, and what has something new below it.
    fn unseen(&self, n: usize) -> BTreeMap<H, (BTreeSet<H>, BTreeSet<H>)> {
        let mut r: BTreeMap<H, (BTreeSet<H>, BTreeSet<H>)> = BTreeMap::new();
        let hs: Vec<(H, &BTreeSet<H>)> = self.looked.range((n, H::Node(0))..).take_while(|(k, _)| k.0 == n).map(|(k, v)| (k.1, v)).collect();
        for (h, seen) in &hs { r.insert(*h, (self.below.get(h).map(|b| b.difference(seen).cloned().collect()).unwrap_or_default(), BTreeSet::new())); }
        loop {
            let dirty: BTreeSet<H> = r.iter().filter(|(_, v)| !v.0.is_empty() || !v.1.is_empty()).map(|(k, _)| *k).collect();
            let mut more = false;
            for (h, seen) in &hs { let e = r.get_mut(h).unwrap(); for x in *seen { if dirty.contains(x) && e.1.insert(*x) { more = true } } }
            if !more { return r }
        }
    }
    fn include(&mut self, h: H, add: &BTreeSet<H>) {
        let e = self.below.entry(h).or_default();
        let k = e.len();
        e.extend(add.iter().cloned());
        if e.len() == k { return }
        self.grown.push(h);
        for t in self.incl.get(&h).cloned().unwrap_or_default() { let b = self.below[&h].clone(); self.include(t, &b) }
    }
    fn subset(&mut self, a: H, b: H) {
        if a == b { return }
        self.incl.entry(a).or_default().insert(b);
        let v = self.below.get(&a).cloned().unwrap_or_default();
        self.include(b, &v)
    }
    fn find(&mut self, prop: &'static str, key: impl Into<String>, msg: impl Into<String>) {
        self.finds.entry((prop, key.into())).or_insert(msg.into());
    }
}

struct Hk(Rc<RefCell<Sh>>);

// ---- typed access to values
pub fn var_of(cx: &Cx, st: &State, v: &Val) -> R<u32> {
    match v {
        Val::Var(k, _) => Ok(*k),
        Val::Top(t, o) => {
            if cx.num_variants(*t) <= 1 { return Ok(0) }
            let d = cx.disc_id(*t, *o);
            let s = st.set_of(cx, d);
            if let Some(x) = s.single() { return Ok(x as u32) }
            let mut alts = vec![];
            for x in s.iter() { let mut n = st.clone(); if n.assume_in(cx, d, &Set::one(x)) { alts.push(n) } }
            if alts.is_empty() { return Err(Stop::Dead) }
            Err(Stop::Fork(alts))
        }
        o => Err(Stop::Unsup(format!("variant of {:?}", o))),
    }
}
pub fn field(cx: &Cx, v: &Val, variant: u32, i: usize) -> Val {
    match v {
        Val::Var(_, a) | Val::Agg(a) => a.get(i).cloned().unwrap_or(Val::Undef),
        Val::Top(t, o) => {
            let x = if cx.num_variants(*t) > 1 { cx.expand_var(*t, *o, variant) } else { cx.expand(v) };
            match x { Val::Var(_, a) | Val::Agg(a) => a.get(i).cloned().unwrap_or(Val::Undef), _ => Val::Undef }
        }
        _ => Val::Undef,
    }
}
/// Index of the (first) field of a struct or variant whose type passes the test.
pub fn fidx(cx: &Cx, t: Ty, variant: u32, f: impl Fn(Ty) -> bool) -> Option<usize> { cx.fields(t, variant).iter().position(|x| f(*x)) }

/// Same contents: identical unknowns, or text that is the same range of the same buffer.
pub fn content_eq(cx: &Cx, st: &State, a: &Val, b: &Val) -> bool {
    if a == b { return true }
    if let (Some(u), Some(w)) = (crate::ai::models::cow_text(cx, a), crate::ai::models::cow_text(cx, b)) { return u.buf == w.buf }
    let one = |v: &Val| -> Val { match v { Val::Top(..) => match var_of(cx, st, v) { Ok(k) => if let Val::Top(t, o) = v { if cx.num_variants(*t) > 1 { return cx.expand_var(*t, *o, k) } else { cx.expand(v) } } else { v.clone() }, Err(_) => v.clone() }, _ => v.clone() } };
    let (x, y) = (one(a), one(b));
    if x == y { return true }
    // text
    let text = |v: &Val| -> Option<View> {
        if let Some(w) = crate::ai::models::cow_text(cx, v) { return Some(w) }
        let inner = match v { Val::Var(_, f) if f.len() == 1 => f[0].clone(), v => v.clone() };
        let mut s = st.clone();
        match &inner {
            Val::Obj(o) => match &**o { Obj::Str { src: Some(w), .. } => Some(w.clone()), Obj::Str { len, id, utf8, .. } => { let b = cx.buf(BufKind::Sym(*id), len.clone(), *utf8); Some(View { buf: b, s: Lin::k(0), e: len.clone() }) } _ => None },
            Val::Top(..) | Val::View(_) | Val::Ptr(_) => match cx.expand(&inner) { Val::Obj(o) => match &*o { Obj::Str { src: Some(w), .. } => Some(w.clone()), _ => None }, _ => as_view(cx, &mut s, &inner).ok() },
            _ => None,
        }
    };
    if let (Some(u), Some(w)) = (text(&x), text(&y)) {
        return u.buf == w.buf && st.norm(cx, &u.s) == st.norm(cx, &w.s) && st.norm(cx, &u.e) == st.norm(cx, &w.e);
    }
    let fields = |v: &Val| match v { Val::Var(k, f) => Some((*k, f.clone())), Val::Agg(f) => Some((u32::MAX, f.clone())), _ => None };
    match (fields(&x), fields(&y)) {
        (Some((i, f)), Some((j, g))) => i == j && f.len() == g.len() && f.iter().zip(g.iter()).all(|(p, q)| content_eq(cx, st, p, q)),
        _ => match (&x, &y) {
            (Val::Ptr(p), _) => match st.read(cx, p.root, &p.path) { Ok(v) => content_eq(cx, st, &v, &y), _ => false },
            (_, Val::Ptr(p)) => match st.read(cx, p.root, &p.path) { Ok(v) => content_eq(cx, st, &x, &v), _ => false },
            (Val::Int(l), Val::Int(m)) => st.norm(cx, l) == st.norm(cx, m),
            (Val::Int(l), Val::Top(..)) | (Val::Top(..), Val::Int(l)) => { let t = if let Val::Top(..) = x { &x } else { &y }; match cx.expand(t) { Val::Int(m) => st.norm(cx, l) == st.norm(cx, &m), _ => false } }
            _ => false,
        },
    }
}
/// Does the value hold the given contents somewhere inside?
fn contains(cx: &Cx, st: &State, hay: &Val, needle: &Val, depth: u32) -> bool {
    if content_eq(cx, st, hay, needle) { return true }
    if depth > 6 { return false }
    match hay {
        Val::Var(_, f) | Val::Agg(f) => f.iter().any(|x| contains(cx, st, x, needle, depth + 1)),
        Val::Ptr(p) => st.read(cx, p.root, &p.path).map_or(false, |v| contains(cx, st, &v, needle, depth + 1)),
        _ => false,
    }
}
/// The constant bytes of a text value.
fn const_text(cx: &Cx, st: &State, v: &Val) -> Option<Vec<u8>> {
    let inner = match v { Val::Var(_, f) if f.len() == 1 => f[0].clone(), v => v.clone() };
    let mut s = st.clone();
    let w = match &inner { Val::Obj(o) => match &**o { Obj::Str { src: Some(w), .. } => w.clone(), _ => return None }, _ => as_view(cx, &mut s, &inner).ok()? };
    let b = cx.bufs.borrow()[w.buf as usize].clone();
    if let BufKind::Const(c) = b.kind { let (x, y) = (st.norm(cx, &w.s).is_const()?, st.norm(cx, &w.e).is_const()?); return c.get(x as usize..y as usize).map(|s| s.to_vec()) }
    None
}

const DEFAULTS: [(&[u8], &[u8]); 2] = [(b"!", b"!"), (b"!!", b"tag:yaml.org,2002:")];
fn default_of(cx: &Cx, st: &State, key: &Val) -> Option<usize> { let k = const_text(cx, st, key)?; DEFAULTS.iter().position(|d| d.0 == &k[..]) }

fn id_active(cx: &Cx) -> Id { cx.id_l(IdKey::Conv(0, "active"), "active".into()) }
fn id_empty(cx: &Cx) -> Id { cx.id_l(IdKey::Conv(0, "emptymap"), "emptymap".into()) }
fn id_stack(cx: &Cx) -> Id { cx.id_l(IdKey::Conv(0, "stack"), "stack".into()) }

impl Sh {
    /// A new token of one of the given kinds.
    fn token(&mut self, cx: &Cx, st: &mut State, mask: u32, lazy: bool, at: Option<Val>) -> Option<Val> {
        let et = self.entry_ty?;
        let v = at.unwrap_or_else(|| Val::Top(et, cx.fresh("token")));
        let m = field(cx, &v, 0, self.tok_path.0 as usize);
        let Val::Top(mt, mo) = &m else { return None };
        let mv = if lazy { self.lazy_variant? } else { self.tok_path.1 };
        if cx.num_variants(*mt) > 1 && !st.assume_in(cx, cx.disc_id(*mt, *mo), &Set::one(mv as usize)) { return None }
        st.ghost_set("tok", v.clone());
        if !lazy && !self.narrow(cx, st, mask) { return None }
        Some(v)
    }
    /// The payload of a token value, in order.
    fn payload(&self, cx: &Cx, tok: &Val, kind: u8, lazy: bool) -> Vec<Val> {
        let m = field(cx, tok, 0, self.tok_path.0 as usize);
        if lazy { return vec![field(cx, &m, self.lazy_variant.unwrap_or(1), 0)] }
        let t = field(cx, &m, self.tok_path.1, 0);
        let Some(var) = self.kinds.iter().position(|k| *k == kind) else { return vec![] };
        let n = cx.fields(self.token_ty.unwrap(), var as u32).len();
        (0..n).map(|i| field(cx, &t, var as u32, i)).collect()
    }
    /// The current token has been taken from the reader for good.
    fn consume(&mut self, cx: &Cx, st: &mut State, c: &mut Cfg) -> R<()> {
        if !c.cur { return Ok(()) }
        let m = match self.prop {
            "P04" => self.settle(cx, st, &[k::ANCHOR, k::TAG, k::ALIAS, k::SCALAR])?,
            "P17" => self.settle(cx, st, &[k::TAG, k::VERSION, k::TAGDIR])?,
            "P05" => self.settle(cx, st, &[k::TAG, k::TAGDIR, k::SCALAR])?,
            _ => 0,
        };
        c.cur = false;
        c.eaten = true;
        let tok = st.ghost_get("tok");
        let sat = |x: u8| (x + 1).min(2);
        let kind = if m.count_ones() == 1 { m.trailing_zeros() as u8 } else { return Ok(()) };
        let p = Val::agg(self.payload(cx, &tok, kind, c.lazy));
        match kind {
            k::ANCHOR => { c.anchors = sat(c.anchors); st.ghost_set("anchor", p) }
            k::TAG => { c.tags = sat(c.tags); st.ghost_set("tag", p) }
            k::ALIAS => { c.aliases = sat(c.aliases); st.ghost_set("alias", p) }
            k::SCALAR => { c.scalars = sat(c.scalars); st.ghost_set("scalar", p) }
            k::VERSION => { c.verdirs = sat(c.verdirs); st.ghost_set("ver", p) }
            k::TAGDIR => { c.tagdirs = 1; if c.dir != 4 && !c.hit { c.lost = true } c.dir = 0 }
            _ => {}
        }
        Ok(())
    }
    fn stack_ptr(&self, cx: &Cx, st: &State) -> Option<Ptr> {
        let Val::Ptr(p) = st.ghost_get("it") else { return None };
        fn go(cx: &Cx, st: &State, p: &Ptr, ty: Ty, d: u32) -> Option<Ptr> {
            if d > 8 { return None }
            match st.read(cx, p.root, &p.path).ok()? {
                Val::Obj(o) => match &*o { Obj::Vec { ty: t, .. } if *t == ty => Some(p.clone()), _ => None },
                Val::Agg(a) => (0..a.len()).find_map(|i| { let mut q = p.clone(); q.path.push(Pe::F(i as u32)); match &a[i] { Val::Agg(_) | Val::Var(..) | Val::Obj(_) | Val::Ptr(_) => go(cx, st, &q, ty, d + 1), _ => None } }),
                Val::Var(v, a) => (0..a.len()).find_map(|i| { let mut q = p.clone(); q.path.push(Pe::V(v)); q.path.push(Pe::F(i as u32)); match &a[i] { Val::Agg(_) | Val::Var(..) | Val::Obj(_) | Val::Ptr(_) => go(cx, st, &q, ty, d + 1), _ => None } }),
                Val::Ptr(q) => go(cx, st, &q, ty, d + 1),
                _ => None,
            }
        }
        go(cx, st, &p, self.stack_ty?, 0)
    }
    /// Make the element below the known part of the state stack known.
    fn expose(&mut self, cx: &Cx, st: &State, c: &Cfg) -> R<Vec<State>> {
        let Some(p) = self.stack_ptr(cx, st) else { return Err(Stop::Unsup("the state stack was not found".into())) };
        let v = st.read(cx, p.root, &p.path)?;
        let Val::Obj(o) = &v else { return Err(Stop::Unsup("state stack".into())) };
        let Obj::Vec { ty, elems, .. } = &**o else { return Err(Stop::Unsup("state stack".into())) };
        let mut out = vec![];
        for (h, new) in self.below_of(c.h, c.fresh) {
            let mut n = st.clone();
            let mut c = c.clone();
            c.h = h;
            c.fresh |= new;
            match h {
                H::Bottom => n.write(cx, p.root, &p.path, Val::obj(Obj::Vec { ty: *ty, base: None, elems: elems.clone() }))?,
                H::Elem(i) => {
                    let (cn, chunk) = self.elems[i].clone();
                    let e = self.build(cx, &mut n, &cn)?;
                    let mut es = vec![e];
                    es.extend(elems.iter().cloned());
                    let len = Lin::sym(cx.fresh_dom("stacklen", Dom::R(0, i32::MAX as i128)));
                    n.write(cx, p.root, &p.path, Val::obj(Obj::Vec { ty: *ty, base: Some((id_stack(cx), len)), elems: es }))?;
                    c.exposed += 1;
                    let mut os = chunk;
                    os.extend(c.os.iter());
                    c.os = os;
                }
                H::Node(_) => continue,
            }
            self.put(&mut n, c);
            out.push(n);
        }
        Ok(out)
    }
    /// Let the reference take the steps the tokens seen so far decide.
    fn advance(&mut self, cx: &Cx, st: State) -> R<Vec<State>> {
        let mut out = vec![];
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            let mut c = self.cfg(&st);
            let mut fuel = 50;
            loop {
                fuel -= 1;
                if fuel == 0 { return Err(Stop::Unsup("reference loops".into())) }
                if c.ref_err { break }
                if c.os.is_empty() {
                    if c.h == H::Bottom { c.ref_err = true; break }
                    self.put(&mut st, c.clone());
                    let v = self.expose(cx, &st, &c)?;
                    work.extend(v);
                    fuel = -1;
                    break;
                }
                match self.ref_step(cx, &st, &c) {
                    Ok((Step::Silent, eat, os)) => { c.os = os; if eat { c.pend.remove(0); } }
                    Ok((Step::Error, ..)) => { c.ref_err = true; break }
                    Ok(_) => break,
                    Err(Stop::Fork(v)) => { work.extend(v); fuel = -1; break }
                    Err(Stop::Dead) => { fuel = -1; break }
                    Err(e) => return Err(e),
                }
            }
            if fuel == -1 { continue }
            self.put(&mut st, c);
            out.push(st);
        }
        Ok(out)
    }
    fn build(&mut self, cx: &Cx, st: &mut State, c: &Canon) -> R<Val> {
        Ok(match c {
            Canon::Top(t) => Val::Top(*t, cx.fresh("any")),
            Canon::Int(i) => Val::k(*i),
            Canon::Bool(b) => Val::b(*b),
            Canon::Zst => Val::Zst,
            Canon::Agg(_, v) => { let mut r = vec![]; for x in v { r.push(self.build(cx, st, x)?) } Val::agg(r) }
            Canon::Var(_, k, v) => { let mut r = vec![]; for x in v { r.push(self.build(cx, st, x)?) } Val::var(*k, r) }
            Canon::Peek(_, None) => Val::none(),
            Canon::Peek(_, Some((mask, lazy))) => Val::some(self.token(cx, st, *mask, *lazy, None).ok_or(Stop::Unsup("token".into()))?),
            Canon::Stack(t) => { let len = Lin::sym(cx.fresh_dom("stacklen", Dom::R(0, i32::MAX as i128))); Val::obj(Obj::Vec { ty: *t, base: Some((id_stack(cx), len)), elems: vec![] }) }
            Canon::Map(t) => Val::obj(Obj::Map { ty: *t, base: id_active(cx), log: vec![] }),
            Canon::Ref(_, x) => { let v = self.build(cx, st, x)?; alloc_cell(cx, st, v) }
        })
    }
    fn canon(&self, cx: &Cx, st: &mut State, ty: Ty, v: &Val) -> R<Canon> {
        let n = adt_name(ty);
        if n.contains("::scanner::") || Some(ty) == self.entry_ty { return Ok(Canon::Top(ty)) }
        if is_option(ty) && ty_args(ty).first().copied() == self.entry_ty && self.entry_ty.is_some() {
            return Ok(match var_of(cx, st, v)? {
                0 => Canon::Peek(ty, None),
                _ => {
                    let t = field(cx, v, 1, 0);
                    let m = field(cx, &t, 0, self.tok_path.0 as usize);
                    let mv = var_of(cx, st, &m)?;
                    if mv != self.tok_path.1 { return Ok(Canon::Peek(ty, Some((1 << k::SCALAR, true)))) }
                    let x = field(cx, &m, mv, 0);
                    let mask = match &x {
                        Val::Var(kv, _) => 1 << self.kinds[*kv as usize],
                        Val::Top(tt, to) => st.set_of(cx, cx.disc_id(*tt, *to)).iter().filter_map(|v| self.kinds.get(v)).filter(|k| **k != NONE).fold(0u32, |a, k| a | 1 << k),
                        _ => return Err(Stop::Unsup("lookahead token".into())),
                    };
                    if mask == 0 { return Err(Stop::Dead) }
                    Canon::Peek(ty, Some((mask, false)))
                }
            });
        }
        if Some(ty) == self.stack_ty { return Ok(Canon::Stack(ty)) }
        match v {
            Val::Obj(o) => Ok(match &**o { Obj::Map { .. } => Canon::Map(ty), _ => Canon::Top(ty) }),
            Val::Int(l) => {
                let l = st.norm(cx, l);
                if let Some(x) = l.is_const() { return Ok(Canon::Int(x)) }
                if let Some((i, _)) = l.as_sym_off() { if let Dom::S(d) = st.domain(cx, i) { if d.iter().count() <= 4 {
                    let mut alts = vec![];
                    for x in d.iter() { let mut s = st.clone(); if s.assume_in(cx, i, &Set::one(x)) { alts.push(s) } }
                    return Err(Stop::Fork(alts));
                } } }
                Ok(Canon::Top(ty))
            }
            Val::Tab(i, t) => {
                let d = st.set_of(cx, *i);
                if let Some(x) = d.single() { return Ok(Canon::Int(t[x])) }
                if d.iter().count() > 4 { return Ok(Canon::Top(ty)) }
                let mut alts = vec![];
                for x in d.iter() { let mut s = st.clone(); if s.assume_in(cx, *i, &Set::one(x)) { alts.push(s) } }
                Err(Stop::Fork(alts))
            }
            Val::Bool(c) => Ok(Canon::Bool(st.decide(cx, c)?)),
            Val::Zst => Ok(Canon::Zst),
            Val::Agg(a) => {
                let fs = cx.fields(ty, 0);
                if fs.len() != a.len() { return Ok(Canon::Top(ty)) }
                let mut r = vec![];
                for (x, t) in a.iter().zip(fs.iter()) { r.push(self.canon(cx, st, *t, x)?) }
                Ok(Canon::Agg(ty, r))
            }
            Val::Var(k, a) => {
                let fs = cx.fields(ty, *k);
                let mut r = vec![];
                for (x, t) in a.iter().zip(fs.iter()) { r.push(self.canon(cx, st, *t, x)?) }
                Ok(Canon::Var(ty, *k, r))
            }
            Val::Ptr(p) => {
                let Some(t) = (match ty.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(t), _ => None }) else { return Ok(Canon::Top(ty)) };
                let x = st.read(cx, p.root, &p.path)?;
                if let Val::Top(..) = x { return Ok(Canon::Top(ty)) }
                Ok(Canon::Ref(ty, Box::new(self.canon(cx, st, t, &x)?)))
            }
            Val::Top(t, o) => {
                if cx.num_variants(*t) > 1 && n.contains("::event::") { let k = var_of(cx, st, v)?; let x = cx.expand_var(*t, *o, k); return self.canon(cx, st, ty, &x) }
                if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Bool)) { if let Val::Bool(c) = cx.expand(v) { if let Some(b) = st.known(cx, &c) { return Ok(Canon::Bool(b)) } } }
                if std_kind_of_ty(ty) == StdKind::Map { return Ok(Canon::Map(ty)) }
                Ok(Canon::Top(ty))
            }
            _ => Ok(Canon::Top(ty)),
        }
    }
    fn node(&mut self, mut canon: Canon, os: Vec<u8>, mut pend: Vec<u32>, linked: bool, dry: bool) -> (usize, bool) {
        let mask = peeked(&mut canon, 0);
        if linked && mask != 0 { if let Some(x) = pend.last_mut() { *x = 0 } }
        let key = (canon, os, pend, dry);
        if let Some(i) = self.nodeidx.get(&key) { let n = &mut self.nodes[*i]; let grew = mask & !n.mask != 0; n.mask |= mask; return (*i, grew) }
        let (canon, os, pend, dry) = key.clone();
        self.nodes.push(Node { canon, os, pend, dry, mask });
        self.nodeidx.insert(key, self.nodes.len() - 1);
        (self.nodes.len() - 1, true)
    }
    fn elem(&mut self, canon: Canon, os: Vec<u8>) -> usize {
        let key = (canon, os);
        if let Some(i) = self.elemidx.get(&key) { return *i }
        self.elems.push(key.clone());
        self.elemidx.insert(key, self.elems.len() - 1);
        self.elems.len() - 1
    }
}
fn std_kind_of_ty(t: Ty) -> StdKind { crate::ai::models::std_kind_of(t) }

/// Short description of a configuration, for messages and keys.
fn label(c: &Canon) -> String {
    fn go(c: &Canon, out: &mut Vec<String>) {
        match c {
            Canon::Var(t, v, f) if adt_name(*t).contains("::event::") => {
                let mut s = vname(*t, *v);
                let ints: Vec<String> = { let mut r = vec![]; fn ints(c: &Canon, r: &mut Vec<String>) { match c { Canon::Int(i) => r.push(i.to_string()), Canon::Agg(_, v) => v.iter().for_each(|x| ints(x, r)), _ => {} } } f.iter().for_each(|x| ints(x, &mut r)); r };
                if !ints.is_empty() { s += &format!("({})", ints.join(",")) }
                out.push(s)
            }
            Canon::Agg(_, v) | Canon::Var(_, _, v) => v.iter().for_each(|x| go(x, out)),
            Canon::Ref(_, x) => go(x, out),
            Canon::Peek(_, Some(_)) => out.push("looking ahead".into()),
            _ => {}
        }
    }
    let mut o = vec![];
    go(c, &mut o);
    o.join(" ")
}

fn find_heap(cx: &Cx, st: &State, p: &Ptr, d: u32) -> Option<Ptr> {
    if d > 5 { return None }
    let v = st.read(cx, p.root, &p.path).ok()?;
    if let Val::Top(t, _) = &v { if adt_name(*t).contains("::scanner::") { return None } }
    match cx.expand(&v) {
        Val::Obj(o) => match &*o { Obj::Heap { .. } => Some(p.clone()), _ => None },
        Val::Agg(a) => (0..a.len()).find_map(|i| { let mut q = p.clone(); q.path.push(Pe::F(i as u32)); find_heap(cx, st, &q, d + 1) }),
        Val::Ptr(q) => find_heap(cx, st, &q, d + 1),
        _ => None,
    }
}
/// Spell out the token queue inside an unknown reader.
fn settle_heap(cx: &Cx, st: &mut State, p: &Ptr, d: u32) {
    if d > 8 { return }
    let Ok(v) = st.read(cx, p.root, &p.path) else { return };
    if let Val::Top(t, _) = &v { let n = adt_name(*t); if n.contains("::scanner::") || is_option(*t) || cx.num_variants(*t) > 1 { return } }
    match cx.expand(&v) {
        e @ Val::Obj(_) => { if matches!(&e, Val::Obj(o) if matches!(&**o, Obj::Heap { .. })) { let _ = st.write(cx, p.root, &p.path, e); } }
        e @ Val::Agg(_) => {
            let Val::Agg(a) = &e else { return };
            if find_heap(cx, st, p, 0).is_none() { return }
            if matches!(v, Val::Top(..)) { let _ = st.write(cx, p.root, &p.path, e.clone()); }
            for i in 0..a.len() { let mut q = p.clone(); q.path.push(Pe::F(i as u32)); settle_heap(cx, st, &q, d + 1) }
        }
        Val::Ptr(q) => settle_heap(cx, st, &q, d + 1),
        _ => {}
    }
}
/// The token inside a popped queue element.
fn find_entry(cx: &Cx, v: &Val, et: Ty, d: u32) -> Option<Val> {
    if d > 5 { return None }
    if let Val::Top(t, _) = v { if *t == et { return Some(v.clone()) } }
    match cx.expand(v) { Val::Agg(a) => a.iter().find_map(|x| find_entry(cx, x, et, d + 1)), Val::Var(_, a) => a.iter().find_map(|x| find_entry(cx, x, et, d + 1)), _ => None }
}
pub fn holds_ty(cx: &Cx, t: Ty, x: Ty, d: u32) -> bool {
    if t == x { return true }
    if d > 5 { return false }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(..)) => { if ty_args(t).iter().any(|a| holds_ty(cx, *a, x, d + 1)) { return true } (0..cx.num_variants(t)).any(|v| cx.fields(t, v as u32).iter().any(|f| holds_ty(cx, *f, x, d + 1))) }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|a| holds_ty(cx, *a, x, d + 1)),
        _ => false,
    }
}

/// The map under construction has all its entries.
fn complete(c: &Cfg) -> bool { c.def.iter().all(|d| matches!(d, 1 | 3)) }

enum Key { Dir, Tag, Default(usize), Iter(Id), Other }

/// Errors are errors; and only some properties look at what an event carries.
fn forget(cx: &Cx, ty: Ty, v: Val, payload: bool, tags: bool, inside: bool) -> Val {
    let n = adt_name(ty);
    match &v {
        Val::Var(k, f) => {
            let args = ty_args(ty);
            if n.ends_with("result::Result") && f.len() == 1 && args.len() == 2 {
                return if *k == 1 { Val::var(1, vec![Val::Top(args[1], cx.fresh("error"))]) } else { Val::var(0, vec![forget(cx, args[0], f[0].clone(), payload, tags, inside)]) };
            }
            if is_option(ty) && f.len() == 1 && args.len() == 1 && !inside { return Val::var(*k, vec![forget(cx, args[0], f[0].clone(), payload, tags, inside)]) }
            if payload && n.starts_with("yary::event::") && EVENTS.iter().all(|e| (0..cx.num_variants(ty)).any(|k| vname(ty, k as u32) == *e)) {
                let ts = cx.fields(ty, *k);
                return Val::var(*k, f.iter().zip(ts.iter()).map(|(x, t)| forget(cx, *t, x.clone(), payload, tags, true)).collect());
            }
            if inside && tags && is_option(ty) && ty_args(ty).first().map_or(false, |a| matches!(a.kind(), TyKind::RigidTy(RigidTy::Tuple(_)))) { return v }
            if inside && !n.ends_with("::NodeKind") { return Val::Top(ty, cx.fresh("payload")) }
            v
        }
        Val::Agg(a) if n.starts_with("yary::event::") => {
            let ts = cx.fields(ty, 0);
            if a.len() != ts.len() { return v }
            Val::agg(a.iter().zip(ts.iter()).map(|(x, t)| forget(cx, *t, x.clone(), payload, tags, inside)).collect())
        }
        Val::Obj(_) if inside => Val::Top(ty, cx.fresh("payload")),
        _ => v,
    }
}
impl Hooks for Hk {
    fn forget(&self, cx: &Cx, ty: Ty, v: Val) -> Val { let q = self.0.borrow().prop; forget(cx, ty, v, !matches!(q, "P04" | "P17"), q == "P05", false) }
    fn skeleton(&self, cx: &Cx, st: &State) -> u64 { match st.ghost.get("cfg") { Some(Val::Int(l)) => { let sh = self.0.borrow(); let m = if st.ghost.contains_key("tok") { sh.mask(cx, st) } else { 0 }; l.is_const().unwrap_or(0) as u64 | (m as u64) << 32 } _ => 0 } }
    fn on_head(&self, _cx: &Cx, st: &mut State, name: &str, _bb: usize) -> bool {
        if !is_yary(name) || st.ghost.get("cfg").is_none() { return true }
        let mut sh = self.0.borrow_mut();
        let mut c = sh.cfg(st);
        if sh.prop != "P03" { return true }
        c.spin += 1;
        if c.spin > 12 {
            let l = sh.node_label.clone();
            sh.find("P03", format!("spin:{}:{}", name.rsplit("::").next().unwrap_or(""), l), format!("{} goes round without reading a token in configuration {}", name, l));
            return false;
        }
        sh.put(st, c);
        true
    }
    fn call(&self, cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        if st.ghost.get("cfg").is_none() { return None }
        // ---- the reader produces tokens
        if name.ends_with("Read>::drive") && name.contains("yary::") { return Some(self.drive(cx, st, inst, args, ret)) }
        if name.contains("BinaryHeap") && name.ends_with("::pop") { return Some(self.fetch(cx, st, args, ret)) }
        // ---- the state stack
        if !is_yary(name) && !args.is_empty() {
            let last = name.rsplit("::").next().unwrap_or("");
            if !matches!(last, "push" | "reserve" | "replace" | "take" | "swap" | "drop" | "push_mut" | "clone") {
                if let Val::Ptr(p) = &args[0] {
                    if let Ok(Val::Obj(o)) = st.read(cx, p.root, &p.path) {
                        if let Obj::Vec { base: Some((b, _)), elems, .. } = &*o {
                            if *b == id_stack(cx) && elems.is_empty() {
                                let mut sh = self.0.borrow_mut();
                                let c = sh.cfg(st);
                                return Some(match sh.expose(cx, st, &c) { Ok(v) => if v.is_empty() { Err(Stop::Dead) } else { Err(Stop::Fork(v)) }, Err(e) => Err(e) });
                            }
                        }
                    }
                }
            }
        }
        // ---- which error it is does not matter
        if name.contains("::From<") && name.ends_with("::from") && args.len() == 1 && is_yary(&name.replace('<', "")) && adt_name(ret).starts_with("yary::") && adt_name(ret).ends_with("Error") {
            return Some(Ok(vec![(st.clone(), Val::Top(ret, cx.fresh("error")))]));
        }
        // ---- directive maps
        if name.contains("collections::HashMap") || name.contains("hash_map::") || name.contains("hash::map::") || (args.first().map_or(false, |a| matches!(a, Val::Obj(o) if matches!(&**o, Obj::Other { tag: "mapiter" | "mapmap", .. })))) {
            return self.map(cx, st, name, args, ret);
        }
        None
    }
}

impl Hk {
    fn drive(&self, cx: &Cx, st: &mut State, inst: Instance, args: &[Val], ret: Ty) -> R<Vec<(State, Val)>> {
        let mut sh = self.0.borrow_mut();
        sh.drives += 1;
        let mut heap = None;
        let ctx_ty = cx.body(inst).and_then(|b| b.body.arg_locals().get(1).map(|l| l.ty));
        let ctx = cx.expand(&args[1]);
        let Val::Agg(fs) = &ctx else { return Err(Stop::Unsup("read context".into())) };
        let tys = ctx_ty.map(|t| cx.fields(t, 0)).unwrap_or_default();
        for (i, f) in fs.iter().enumerate() {
            if let Val::Ptr(p) = cx.expand(f) {
                if let Some(h) = find_heap(cx, st, &p, 0) { heap = Some(h); continue }
                let t = tys.get(i).and_then(|t| match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(t), _ => None });
                if let Some(t) = t { st.write(cx, p.root, &p.path, Val::Top(t, cx.fresh("driven")))? }
            }
        }
        let Some(h) = heap else { return Err(Stop::Unsup("token queue not found".into())) };
        let hv = cx.expand(&st.read(cx, h.root, &h.path)?);
        let Val::Obj(o) = &hv else { return Err(Stop::Unsup("token queue".into())) };
        let Obj::Heap { ty, id, len } = &**o else { return Err(Stop::Unsup("token queue".into())) };
        let mut c = sh.cfg(st);
        c.touched = true;
        let mut out = vec![];
        // nothing new
        let mut a = st.clone();
        let mut ca = c.clone();
        ca.dry = true;
        a.write(cx, h.root, &h.path, Val::obj(Obj::Heap { ty: *ty, id: *id, len: len.clone() }))?;
        sh.put(&mut a, ca);
        out.push((a, Val::ok(Val::unit())));
        // new tokens
        let mut b = st.clone();
        let mut cb = c.clone();
        cb.dry = false;
        let l = Lin::sym(cx.fresh_dom("queued", Dom::R(0, i64::MAX as i128)));
        if b.assume_ge0(cx, &l.sub(len).addk(-1)) {
            b.write(cx, h.root, &h.path, Val::obj(Obj::Heap { ty: *ty, id: cx.fresh("heap"), len: l }))?;
            sh.put(&mut b, cb);
            out.push((b, Val::ok(Val::unit())));
        }
        // failure
        let mut e = st.clone();
        c.drive_err = true;
        sh.put(&mut e, c);
        out.push((e, Val::err(crate::ai::models::err_payload(cx, ret))));
        Ok(out)
    }
    fn fetch(&self, cx: &Cx, st: &mut State, args: &[Val], ret: Ty) -> R<Vec<(State, Val)>> {
        let mut sh = self.0.borrow_mut();
        let Some(et) = sh.entry_ty else { return Err(Stop::Unsup("token type".into())) };
        let item = *ty_args(ret).first().ok_or(Stop::Unsup("queue item".into()))?;
        let Val::Ptr(p) = cx.expand(&args[0]) else { return Err(Stop::Unsup("queue".into())) };
        let hv = cx.expand(&st.read(cx, p.root, &p.path)?);
        let Val::Obj(o) = &hv else { return Err(Stop::Unsup("queue".into())) };
        let Obj::Heap { ty, len, .. } = &**o else { return Err(Stop::Unsup("queue".into())) };
        let more = st.decide(cx, &lin_cond_ge(len.addk(-1)))?;
        let mut c = sh.cfg(st);
        c.touched = true;
        if !more { c.eof = true; sh.put(st, c); return Ok(vec![(st.clone(), Val::none())]) }
        sh.fetches += 1;
        sh.consume(cx, st, &mut c)?;
        if c.linked { let m = sh.mask(cx, st); if let Some(x) = c.pend.last_mut() { *x = m } }
        st.write(cx, p.root, &p.path, Val::obj(Obj::Heap { ty: *ty, id: cx.fresh("heap"), len: len.addk(-1) }))?;
        c.fetched = true;
        c.spin = 0;
        let mut out = vec![];
        let all = (1u32 << KINDS.len()) - 1;
        for lz in [false, true] {
            if lz && sh.lazy_variant.is_none() { continue }
            let mut n = st.clone();
            let v = Val::Top(item, cx.fresh("popped"));
            let Some(tok) = find_entry(cx, &v, et, 0) else { return Err(Stop::Unsup("no token in the queue item".into())) };
            let mask = if lz { 1 << k::SCALAR } else { all };
            let Some(_) = sh.token(cx, &mut n, mask, lz, Some(tok)) else { continue };
            let mut c = c.clone();
            c.cur = true;
            c.lazy = lz;
            if sh.mode_r {
                c.pend.push(mask);
                c.linked = true;
                if c.pend.len() > 5 { c.over = true; c.pend.truncate(5) }
            }
            sh.put(&mut n, c);
            if sh.mode_r { for s in sh.advance(cx, n)? { out.push((s, Val::some(v.clone()))) } } else { out.push((n, Val::some(v))) }
        }
        Ok(out)
    }

    fn classify(&self, cx: &Cx, st: &State, c: &Cfg, key: &Val) -> Key {
        let sh = self.0.borrow();
        let key = match cx.expand(key) { Val::Ptr(p) => st.read(cx, p.root, &p.path).unwrap_or(Val::Undef), v => v };
        let cur = sh.single(cx, st, c);
        if cur == k::TAGDIR || cur == k::TAG {
            let tok = st.ghost_get("tok");
            let p = sh.payload(cx, &tok, cur, c.lazy);
            if let Some(h) = p.first() { if content_eq(cx, st, &key, h) { return if cur == k::TAGDIR { Key::Dir } else { Key::Tag } } }
        }
        if c.tags > 0 { if let Val::Agg(a) = st.ghost_get("tag") { if a.first().map_or(false, |h| content_eq(cx, st, &key, h)) { return Key::Tag } } }
        if let Some(i) = default_of(cx, st, &key) { return Key::Default(i) }
        if let Some(b) = iter_item(cx, st, &key, "itkey") { return Key::Iter(b) }
        Key::Other
    }
    /// A lookup: forks on presence and records what it was about.
    fn look(&self, cx: &Cx, st: &State, which: u8, key: &Val) -> Vec<(State, bool)> {
        let mut c = self.0.borrow().cfg(st);
        let kk = self.classify(cx, st, &c, key);
        self.0.borrow_mut().lookups += 1;
        let mut out = vec![];
        for present in [false, true] {
            let mut n = st.clone();
            let mut d = c.clone();
            match (&kk, which) {
                (Key::Dir, 1) => {
                    if d.def != [0, 0] { d.alien = true }
                    match d.dir { 2 if present => continue, 3 | 4 if !present => continue, _ => {} }
                    if d.dir == 0 { d.dir = if present { 3 } else { 2 } }
                    if present && d.dir == 3 { d.hit = true }
                }
                (Key::Tag, 0) => { match d.taglook { 1 if !present => continue, 2 if present => continue, _ => {} } d.taglook = if present { 1 } else { 2 } }
                (Key::Default(i), 1) => { match d.def[*i] { 1 | 3 if !present => continue, 2 if present => continue, 0 => d.def[*i] = if present { 1 } else { 2 }, _ => {} } }
                _ => {}
            }
            self.0.borrow_mut().put(&mut n, d);
            out.push((n, present));
        }
        let _ = &mut c;
        out
    }
    /// An insertion into a map; returns whether the key was present.
    fn insert(&self, cx: &Cx, st: &State, p: &Ptr, which: u8, key: &Val, val: &Val) -> R<Vec<(State, bool)>> {
        self.0.borrow_mut().inserts += 1;
        let c = self.0.borrow().cfg(st);
        let kk = self.classify(cx, st, &c, key);
        let mut st = st.clone();
        if which != 1 {
            // some other map (the active one) changes
            let v = st.read(cx, p.root, &p.path)?;
            if let Val::Obj(o) = cx.expand(&v) { if let Obj::Map { ty, base, .. } = &*o {
                let copying = matches!(cx.ids.borrow()[*base as usize].key, IdKey::Conv(_, "copying"));
                if let (Key::Iter(b), true) = (&kk, copying) {
                    if *base == cx.id(IdKey::Conv(*b, "copying")) && iter_item(cx, &st, val, "itval") == Some(*b) {
                        let mut d = c.clone();
                        if d.copy == 1 { d.copy = 2 } else { d.copy = 4 }
                        self.0.borrow_mut().put(&mut st, d);
                        return Ok(vec![(st, false)]);
                    }
                }
                st.write(cx, p.root, &p.path, Val::obj(Obj::Map { ty: *ty, base: cx.fresh("changed"), log: vec![] }))?;
            } }
            let mut t = st.clone();
            let _ = &mut t;
            return Ok(vec![(st, false), (t, true)]);
        }
        let mut out = vec![];
        match kk {
            Key::Dir => {
                let ok = { let sh = self.0.borrow(); let tok = st.ghost_get("tok"); sh.payload(cx, &tok, k::TAGDIR, false).get(1).map_or(false, |v| content_eq(cx, &st, val, v)) };
                for present in [false, true] {
                    let mut d = c.clone();
                    if !ok || d.def != [0, 0] { d.alien = true }
                    match d.dir { 0 => if present { d.hit = true }, 2 => if present { continue }, 3 => if !present { continue }, _ => {} }
                    d.dir = 4;
                    let mut n = st.clone();
                    self.0.borrow_mut().put(&mut n, d);
                    out.push((n, present));
                }
            }
            Key::Default(i) => {
                let mut d = c.clone();
                let ok = const_text(cx, &st, val).map_or(false, |v| v == DEFAULTS[i].1);
                if d.def[i] != 2 || !ok { d.alien = true }
                d.def[i] = 3;
                self.0.borrow_mut().put(&mut st, d);
                out.push((st, false));
            }
            Key::Iter(b) if iter_item(cx, &st, val, "itval") == Some(b) && c.copy == 1 => {
                // the first item copied out of another map
                let v = st.read(cx, p.root, &p.path)?;
                if let Val::Obj(o) = cx.expand(&v) { if let Obj::Map { ty, .. } = &*o { st.write(cx, p.root, &p.path, Val::obj(Obj::Map { ty: *ty, base: cx.id(IdKey::Conv(b, "copying")), log: vec![] }))? } }
                let mut d = c.clone();
                d.copy = 2;
                self.0.borrow_mut().put(&mut st, d);
                out.push((st, false));
            }
            _ => {
                let mut d = c.clone();
                d.alien = true;
                self.0.borrow_mut().put(&mut st, d);
                out.push((st.clone(), false));
                out.push((st, true));
            }
        }
        Ok(out)
    }
    fn map(&self, cx: &Cx, st: &mut State, name: &str, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        let last = name.rsplit("::").next().unwrap_or("");
        // the map an argument points at: 0 the active one, 1 one built from nothing, 2 any other
        let which = |cx: &Cx, v: &Val| -> Option<(Ptr, u8)> {
            let Val::Ptr(p) = cx.expand(v) else { return None };
            let mut p = p;
            for _ in 0..3 {
                match cx.expand(&st.read(cx, p.root, &p.path).ok()?) {
                    Val::Obj(o) => { if let Obj::Map { base, .. } = &*o { return Some((p, if *base == id_active(cx) { 0 } else if *base == id_empty(cx) { 1 } else { 2 })) } return None }
                    Val::Ptr(q) => p = q,
                    _ => return None,
                }
            }
            None
        };
        let elem = |t: Ty| ty_args(t).first().copied();
        match last {
            "get" | "get_mut" | "contains_key" | "get_key_value" if args.len() == 2 => {
                let (_, w) = which(cx, &args[0])?;
                let mut out = vec![];
                for (s, present) in self.look(cx, st, w, &args[1]) {
                    let v = if last == "contains_key" { Val::b(present) } else if !present { Val::none() } else { Val::some(Val::Top(elem(ret)?, cx.fresh("mapval"))) };
                    out.push((s, v));
                }
                Some(Ok(out))
            }
            "insert" if args.len() == 3 => {
                let (p, w) = which(cx, &args[0])?;
                Some(self.insert(cx, st, &p, w, &args[1], &args[2]).map(|v| v.into_iter().map(|(s, present)| (s, if present { Val::some(Val::Top(elem(ret).unwrap_or(ret), cx.fresh("displaced"))) } else { Val::none() })).collect()))
            }
            "entry" if args.len() == 2 => {
                let (p, w) = which(cx, &args[0])?;
                let mut out = vec![];
                for (s, present) in self.look(cx, st, w, &args[1]) {
                    let o = Val::obj(Obj::Other { tag: if present { "occupied" } else { "vacant" }, ty: ret, vals: vec![Val::Ptr(p.clone()), args[1].clone()] });
                    out.push((s, Val::var(!present as u32, vec![o])));
                }
                Some(Ok(out))
            }
            "or_insert" | "or_insert_with" | "or_default" | "insert" | "or_insert_with_key" | "insert_entry" => {
                let (present, o) = match cx.expand(&args[0]) {
                    Val::Var(k, f) => (k == 0, f.first()?.clone()),
                    v @ Val::Obj(_) => (false, v),
                    Val::Ptr(p) => (true, st.read(cx, p.root, &p.path).ok()?),
                    _ => return None,
                };
                let Val::Obj(o) = &o else { return None };
                let Obj::Other { tag, vals, .. } = &**o else { return None };
                if !matches!(*tag, "occupied" | "vacant") { return None }
                let r = Val::Top(ret, cx.fresh("slot"));
                let _ = present;
                if *tag == "occupied" {
                    if last == "insert" { let mut c = self.0.borrow().cfg(st); c.alien = true; self.0.borrow_mut().put(st, c); }
                    return Some(Ok(vec![(st.clone(), r)]));
                }
                let (p, w) = which(cx, &vals[0])?;
                let val = if last == "or_insert_with" || last == "or_insert_with_key" { Val::Undef } else { args.get(1).cloned().unwrap_or(Val::Undef) };
                Some(self.insert(cx, st, &p, w, &vals[1], &val).map(|v| v.into_iter().map(|(s, _)| (s, r.clone())).collect()))
            }
            "clone" => {
                let v = match cx.expand(&args[0]) { Val::Ptr(p) => cx.expand(&st.read(cx, p.root, &p.path).ok()?), v => v };
                let Val::Obj(o) = &v else { return None };
                let Obj::Map { base, .. } = &**o else { return None };
                let nb = if complete(&self.0.borrow().cfg(st)) { cx.id(IdKey::Conv(*base, "mapped")) } else { cx.fresh("incomplete") };
                Some(Ok(vec![(st.clone(), Val::obj(Obj::Map { ty: ret, base: nb, log: vec![] }))]))
            }
            "iter" | "into_iter" => {
                let v = match cx.expand(&args[0]) { Val::Ptr(p) => cx.expand(&st.read(cx, p.root, &p.path).ok()?), v => v };
                if let Val::Obj(o) = &v { if let Obj::Map { .. } = &**o {
                    let mut c = self.0.borrow().cfg(st);
                    if c.copy == 0 { c.copy = 2 } else if c.copy != 2 { c.copy = 4 }
                    // an ongoing copy is tracked from the first item on
                    self.0.borrow_mut().put(st, c);
                    return Some(Ok(vec![(st.clone(), Val::obj(Obj::Other { tag: "mapiter", ty: ret, vals: vec![v.clone()] }))]));
                } if let Obj::Other { tag: "mapiter", .. } = &**o { return Some(Ok(vec![(st.clone(), v.clone())])) } }
                None
            }
            "next" => {
                let Val::Ptr(p) = cx.expand(&args[0]) else { return None };
                let Val::Obj(o) = st.read(cx, p.root, &p.path).ok()? else { return None };
                let Obj::Other { tag: "mapiter", vals, .. } = &*o else { return None };
                let Val::Obj(m) = &vals[0] else { return None };
                let Obj::Map { base, .. } = &**m else { return None };
                let pair = elem(ret)?;
                let TyKind::RigidTy(RigidTy::Tuple(ts)) = pair.kind() else { return None };
                if ts.len() != 2 { return None }
                let mut c = self.0.borrow().cfg(st);
                // an item not copied before the next one is asked for is lost
                if c.copy == 1 { c.copy = 4 }
                let mut out = vec![];
                let mut a = st.clone();
                self.0.borrow_mut().put(&mut a, c.clone());
                out.push((a, Val::none()));
                let mut b = st.clone();
                if c.copy == 2 { c.copy = 1 }
                self.0.borrow_mut().put(&mut b, c);
                let kv: Vec<Val> = ts.iter().enumerate().map(|(i, t)| Val::Top(*t, cx.id(IdKey::Conv(*base, if i == 0 { "itkey" } else { "itval" })))).collect();
                out.push((b, Val::some(Val::agg(kv))));
                Some(Ok(out))
            }
            "collect" | "from_iter" if std_kind_of_ty(ret) == StdKind::Map => {
                let Val::Obj(o) = cx.expand(&args[0]) else { return None };
                let Obj::Other { tag, vals, .. } = &*o else { return None };
                if *tag != "mapmap" { return None }
                let Val::Obj(m) = &vals[0] else { return None };
                let Obj::Map { base, ty, .. } = &**m else { return None };
                // does the closure copy the pair?
                let ts = ty_args(*ty);
                let mut good = false;
                if ts.len() >= 2 {
                    let mut s = st.clone();
                    let kc = alloc_cell(cx, &mut s, Val::Top(ts[0], cx.fresh("mapkey")));
                    let vc = alloc_cell(cx, &mut s, Val::Top(ts[1], cx.fresh("mapvalue")));
                    s.ghost_set("pairkey", kc.clone());
                    s.ghost_set("pairval", vc.clone());
                    let inst = match vals.get(2) { Some(Val::Top(t, _)) => crate::ai::models::callable(*t), _ => None };
                    good = self.copies(cx, s, &vals[1], &inst, kc, vc).unwrap_or(false);
                }
                good &= complete(&self.0.borrow().cfg(st));
                let nb = if good { cx.id(IdKey::Conv(*base, "mapped")) } else { cx.fresh("rewritten") };
                Some(Ok(vec![(st.clone(), Val::obj(Obj::Map { ty: ret, base: nb, log: vec![] }))]))
            }
            _ => None,
        }
    }
    fn copies(&self, cx: &Cx, st: State, f: &Val, inst: &Option<Instance>, kc: Val, vc: Val) -> R<bool> {
        let i = match (f, inst) { (Val::Fn(i), _) => *i, (_, Some(i)) => *i, _ => return Ok(false) };
        let pair = Val::agg(vec![kc.clone(), vc.clone()]);
        let nargs = cx.body(i).map(|b| b.body.arg_locals().len()).unwrap_or(0);
        let mut st = st;
        let args = if nargs == 1 && matches!(f, Val::Fn(_) | Val::Zst) { vec![pair] } else {
            let c = alloc_cell(cx, &mut st, f.clone());
            st.ghost_set("clos", c.clone());
            vec![c, pair]
        };
        let mut work = vec![st];
        let mut ok = true;
        let mut n = 0;
        let mut fuel = 40;
        while let Some(s) = work.pop() {
            fuel -= 1;
            if fuel == 0 { return Ok(false) }
            let ret = cx.body(i).map(|b| b.body.locals()[0].ty).ok_or(Stop::Dead)?;
            match cx.call(s, i, args.clone(), ret) {
                Ok(rs) => for (s, v) in rs {
                    n += 1;
                    let (Val::Ptr(kp), Val::Ptr(vp)) = (&kc, &vc) else { return Ok(false) };
                    let (k0, v0) = (s.read(cx, kp.root, &kp.path)?, s.read(cx, vp.root, &vp.path)?);
                    match &v { Val::Agg(a) if a.len() == 2 => ok &= content_eq(cx, &s, &a[0], &k0) && content_eq(cx, &s, &a[1], &v0), _ => ok = false }
                    if std::env::var("YARY_VERBOSE").is_ok() && !ok { eprintln!("copy: {} from {} {}", show(cx, &v), show(cx, &k0), show(cx, &v0)) }
                },
                Err(Stop::Fork(a)) => work.extend(a),
                Err(Stop::Dead) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(ok && n > 0)
    }
}
/// Is the value (a copy of) the item an iteration over a map yields?
fn iter_item(cx: &Cx, st: &State, v: &Val, tag: &'static str) -> Option<Id> {
    // the item is a reference to the map's content, derived from Conv(base, tag)
    let ids = cx.ids.borrow();
    let find = |mut i: Id| -> Option<Id> {
        loop {
            match &ids[i as usize].key {
                IdKey::Conv(b, t) if *t == tag => return Some(*b),
                IdKey::Field(o, ..) | IdKey::Deref(o) | IdKey::Len(o) | IdKey::Disc(o) => i = *o,
                _ => return None,
            }
        }
    };
    let inner = match v { Val::Var(_, f) if f.len() == 1 => f[0].clone(), v => v.clone() };
    match &inner {
        Val::Top(_, o) => find(*o),
        Val::Obj(o) => match &**o { Obj::Str { src: Some(w), .. } => match &cx.bufs.borrow()[w.buf as usize].kind { BufKind::Sym(o) => find(*o), _ => None }, Obj::Str { id, .. } => find(*id), _ => None },
        Val::View(w) => match &cx.bufs.borrow()[w.buf as usize].kind { BufKind::Sym(o) => find(*o), _ => None },
        Val::Ptr(p) => { let v = st.read(cx, p.root, &p.path).ok()?; drop(ids); match v { Val::Ptr(_) => None, v => iter_item(cx, st, &v, tag) } }
        _ => None,
    }
}

// ---- what the parser is made of
fn collect_types(cx: &Cx, t: Ty, out: &mut Vec<Ty>) {
    if out.contains(&t) || out.len() > 2000 { return }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            out.push(t);
            let n = d.name().to_string();
            for a in ty_args(t) { collect_types(cx, a, out) }
            if n.starts_with("yary::") || is_option(t) { for v in 0..cx.num_variants(t).max(1) { for f in cx.fields(t, v as u32).iter() { collect_types(cx, *f, out) } } }
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().for_each(|t| collect_types(cx, *t, out)),
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) | TyKind::RigidTy(RigidTy::Array(t, _)) => collect_types(cx, t, out),
        _ => {}
    }
}
impl Sh {
    /// Find the token, queue entry and state stack types below the iterator.
    fn discover(&mut self, cx: &Cx, it: Ty) -> Result<(), String> {
        let mut ts = vec![];
        collect_types(cx, it, &mut ts);
        let names = |t: Ty| -> Vec<String> { adt(t).map(|(d, _)| d.variants().iter().map(|v| v.name().to_string()).collect()).unwrap_or_default() };
        let tok = ts.iter().copied().find(|t| { let v = names(*t); cx.fields(*t, 0).len() == 1 && v.len() >= KINDS.len() && KINDS.iter().all(|k| v.iter().any(|x| x == k)) });
        let Some(tok) = tok else { return Err("no token type with the documented kinds".into()) };
        self.token_ty = Some(tok);
        self.kinds = names(tok).iter().map(|n| KINDS.iter().position(|k| k == n).map(|k| k as u8).unwrap_or(NONE)).collect();
        for t in ts.iter().copied().filter(|t| is_option(*t)) {
            let Some(x) = ty_args(t).first().copied() else { continue };
            if !adt_name(x).starts_with("yary::") { continue }
            for (i, f) in cx.fields(x, 0).iter().enumerate() {
                let vs = names(*f).len();
                if vs < 1 || vs > 2 { continue }
                for v in 0..vs as u32 {
                    if cx.fields(*f, v).first().copied() == Some(tok) {
                        self.entry_ty = Some(x);
                        self.tok_path = (i as u32, v);
                        self.lazy_variant = if vs == 2 { Some(1 - v) } else { None };
                    }
                }
            }
        }
        if self.entry_ty.is_none() { return Err("the reader has no one-token lookahead slot".into()) }
        let stacks: Vec<Ty> = ts.iter().copied().filter(|t| adt_name(*t).ends_with("vec::Vec") && ty_args(*t).first().map_or(false, |e| { let n = adt_name(*e); n.starts_with("yary::event") && cx.num_variants(*e) > 1 })).collect();
        if stacks.len() != 1 { return Err(format!("{} candidates for the parser's state stack", stacks.len())) }
        self.stack_ty = Some(stacks[0]);
        Ok(())
    }
}

/// What a finished call produced, as far as the properties care.
struct Ev { ev: u8, kind: Option<String>, anchor: Option<Option<Val>>, tag: Option<Option<Val>>, scalar: Option<Val>, alias: Option<Val>, implicit: Option<bool>, dirs: Option<(Val, Vec<Val>)> }

impl Sh {
    fn event(&self, cx: &Cx, st: &State, t: Ty, v: &Val) -> R<Ev> {
        let mut e = Ev { ev: NONE, kind: None, anchor: None, tag: None, scalar: None, alias: None, implicit: None, dirs: None };
        // the payload is the field with a variant per event
        let data = |t: Ty| -> bool { EVENTS.iter().all(|n| (0..cx.num_variants(t)).any(|k| vname(t, k as u32) == *n)) };
        let Some(i) = fidx(cx, t, 0, data) else { return Err(Stop::Unsup("the event has no kinds".into())) };
        let dt = cx.fields(t, 0)[i];
        let d = field(cx, v, 0, i);
        let k = var_of(cx, st, &d)?;
        let n = vname(dt, k);
        e.ev = EVENTS.iter().position(|x| *x == n).map(|x| x as u8).unwrap_or(NONE);
        let fs = cx.fields(dt, k);
        let Some(pt) = fs.first().copied() else { return Ok(e) };
        let p = field(cx, &d, k, 0);
        let ft = cx.fields(pt, 0);
        let deep = matches!(self.prop, "P04" | "P17");
        for (i, t) in ft.iter().enumerate() {
            let x = field(cx, &p, 0, i);
            let n = adt_name(*t);
            let opt_of = |f: &dyn Fn(Ty) -> bool| is_option(*t) && ty_args(*t).first().map_or(false, |a| f(*a));
            if n.ends_with("::NodeKind") { let k = var_of(cx, st, &x)?; e.kind = Some(vname(*t, k)) }
            else if deep && opt_of(&|a| matches!(a.kind(), TyKind::RigidTy(RigidTy::Tuple(_)))) { e.tag = Some(if var_of(cx, st, &x)? == 0 { None } else { Some(field(cx, &x, 1, 0)) }) }
            else if deep && opt_of(&|a| adt_name(a).ends_with("borrow::Cow")) { e.anchor = Some(if var_of(cx, st, &x)? == 0 { None } else { Some(field(cx, &x, 1, 0)) }) }
            else if n.ends_with("borrow::Cow") && e.ev == e::ALIAS { e.alias = Some(x) }
            else if matches!(t.kind(), TyKind::RigidTy(RigidTy::Bool)) { if let Val::Bool(c) = cx.expand(&x) { let mut s = st.clone(); e.implicit = Some(s.decide(cx, &c)?) } }
            else if e.ev == e::SCALAR && n.starts_with("yary::") { e.scalar = Some(x) }
            else if e.ev == e::DOC_START && n.starts_with("yary::") {
                let mut m = Val::Undef;
                let mut ver = vec![];
                for (j, u) in cx.fields(*t, 0).iter().enumerate() {
                    let y = field(cx, &x, 0, j);
                    if std_kind_of_ty(*u) == StdKind::Map { m = cx.expand(&y) } else { ver = (0..cx.fields(*u, 0).len()).map(|q| field(cx, &y, 0, q)).collect() }
                }
                e.dirs = Some((m, ver));
            }
        }
        Ok(e)
    }
}

struct Edge { from: usize, to: usize, eaten: bool, delta: i32 }
pub struct Outcome { sh: Rc<RefCell<Sh>>, edges: Vec<Edge>, judged: BTreeMap<&'static str, u64>, runs: u64, exits: u64, events: BTreeMap<String, u64>, pub undecided: BTreeMap<String, String>, analysed: BTreeSet<String>, steps: u64 }

fn map_base(cx: &Cx, v: &Val) -> Option<(Id, usize)> { match v { Val::Obj(o) => match &**o { Obj::Map { base, log, .. } => Some((*base, log.len())), _ => None }, _ => None } }

pub fn explore(p: &Program, prop: &'static str, root: &str) -> Result<Outcome, String> {
    let mode_r = prop == "P05";
    let sh = Rc::new(RefCell::new(Sh { prop, mode_r, ..Default::default() }));
    let cx = Cx::new(Box::new(Hk(sh.clone())));
    cx.id_l(IdKey::Fresh(0), "zero".into());
    cx.tabulate.set(true);
    if let Some(b) = std::env::var("BUDGET").ok().and_then(|b| b.parse().ok()) { cx.budget.set(b) }
    let inst = |n: &str| p.find(n).into_iter().next().ok_or(format!("{} is missing from the analysed program", n));
    let next = inst(root)?;
    let body = cx.body(next).ok_or("the iterator has no body")?;
    let ptr_ty = body.body.arg_locals()[0].ty;
    let ret_ty = body.body.ret_local().ty;
    let TyKind::RigidTy(RigidTy::Ref(_, it_ty, _)) = ptr_ty.kind() else { return Err("the iterator is not taken by reference".into()) };
    sh.borrow_mut().discover(&cx, it_ty)?;
    let err = |e: Stop| match e { Stop::Unsup(u) => u, Stop::Fork(_) => "fork".into(), Stop::Dead => "dead".into(), Stop::Panic(p) => p };
    // ---- the iterator as the library makes it
    let new = inst("root_events_new")?;
    let nb = cx.body(new).ok_or("no body")?;
    let args: Vec<Val> = nb.body.arg_locals().iter().map(|l| Val::Top(l.ty, cx.fresh("arg"))).collect();
    let mut starts = vec![];
    for (st, v) in cx.run_fn(new, args, State::new()).map_err(err)? {
        if root.ends_with("root_next") { starts.extend(cx.run_fn(inst("root_into_iter")?, vec![v], st).map_err(err)?) }
        else { let mut st = st; let c = alloc_cell(&cx, &mut st, v); starts.extend(cx.run_fn(inst("root_iter")?, vec![c], st).map_err(err)?) }
    }
    let mut work: Vec<usize> = vec![];
    let mut queued: BTreeSet<usize> = BTreeSet::new();
    for (mut st, v) in starts {
        let c = alloc_cell(&cx, &mut st, v);
        st.ghost_set("it", c.clone());
        let Val::Ptr(pp) = &c else { unreachable!() };
        let mut s = sh.borrow_mut();
        let Some(sp) = s.stack_ptr(&cx, &st) else { return Err("the state stack was not found in a new iterator".into()) };
        match st.read(&cx, sp.root, &sp.path).map_err(err)? { Val::Obj(o) if matches!(&*o, Obj::Vec { base: None, elems, .. } if elems.is_empty()) => {} _ => return Err("a new iterator has a state stack that is not empty".into()) }
        let v = st.read(&cx, pp.root, &pp.path).map_err(err)?;
        let canon = s.canon(&cx, &mut st, it_ty, &v).map_err(err)?;
        let os = vec![if mode_r { r::STREAM } else { P_START }];
        let (n, fresh) = s.node(canon, os, vec![], false, false);
        s.below.entry(H::Node(n)).or_default().insert(H::Bottom);
        if fresh { work.push(n); queued.insert(n); }
    }
    let mut out = Outcome { sh: sh.clone(), edges: vec![], judged: BTreeMap::new(), runs: 0, exits: 0, events: BTreeMap::new(), undecided: BTreeMap::new(), analysed: BTreeSet::new(), steps: 0 };
    let mut readers: BTreeMap<H, BTreeSet<usize>> = BTreeMap::new();
    let verbose = std::env::var("YARY_VERBOSE").is_ok();
    let mut ran: BTreeMap<usize, u32> = BTreeMap::new();
    let mut again: std::collections::VecDeque<usize> = Default::default();
    loop {
        // what is new first; repeated runs when everything else has settled
        let Some(n) = work.pop().or_else(|| again.pop_front()) else { break };
        queued.remove(&n);
        let mask = sh.borrow().nodes[n].mask;
        let mut jobs: Vec<(u32, bool)> = vec![];
        match ran.get(&n) {
            None => jobs.push((mask, true)),
            Some(old) => {
                if sh.borrow().unseen(n).values().any(|v| !v.0.is_empty()) { jobs.push((*old, false)) }
                if mask & !old != 0 { jobs.push((mask & !old, true)) }
            }
        }
        for (mask, fresh) in jobs {
        out.runs += 1;
        if out.runs > 20000 || sh.borrow().nodes.len() > 4000 { return Err("too many parser configurations".into()) }
        { let mut s = sh.borrow_mut(); s.running = n; s.only = if fresh { BTreeMap::new() } else { s.unseen(n) }; }
        ran.entry(n).and_modify(|m| *m |= mask).or_insert(mask);
        let mut st = State::new();
        let (canon, os, pend, dry) = { let s = sh.borrow(); let x = &s.nodes[n]; let (mut c, mut p) = (x.canon.clone(), x.pend.clone()); peeked(&mut c, mask); if let Some(m) = p.last_mut() { if *m == 0 { *m = mask } } (c, x.os.clone(), p, x.dry) };
        let peek = { fn f(c: &Canon) -> Option<(u32, bool)> { match c { Canon::Peek(_, p) => *p, Canon::Agg(_, v) | Canon::Var(_, _, v) => v.iter().find_map(f), Canon::Ref(_, x) => f(x), _ => None } } f(&canon) };
        {
            let mut s = sh.borrow_mut();
            s.deps.clear();
            let d = s.below.get(&H::Node(n)).cloned().unwrap_or_default();
            if std::env::var("YARY_VERBOSE").map_or(false, |v| v.as_str() >= "2") { eprintln!("#{} {} {:?} below {:?}", n, label(&canon), os, d) }
            s.node_label = format!("[{}] at {}", label(&canon), os.last().map(|o| if mode_r { state_name(*o) } else { POS[*o as usize].to_string() }).unwrap_or("?".into()));
            let v = s.build(&cx, &mut st, &canon).map_err(err)?;
            let c = alloc_cell(&cx, &mut st, v);
            if let Val::Ptr(p) = &c { settle_heap(&cx, &mut st, p, 0) }
            st.ghost_set("it", c);
            let linked = peek.is_some() && !pend.is_empty();
            let cfg = Cfg { os, linked, h: H::Node(n), cur: peek.is_some(), lazy: peek.map_or(false, |p| p.1), fetched: false, touched: false, eaten: false, pend, ref_err: false, over: false, drive_err: false, dry, anchors: 0, tags: 0, aliases: 0, scalars: 0, tagdirs: 0, verdirs: 0, dir: 0, eof: false, exposed: 0, fresh, hit: false, taglook: 0, def: [0, 0], alien: false, lost: false, copy: 0, spin: 0 };
            s.put(&mut st, cfg);
        }
        let label0 = sh.borrow().node_label.clone();
        let ptr = st.ghost_get("it");
        let mut ins: Vec<State> = if mode_r { let v = sh.borrow_mut().advance(&cx, st); v.map_err(err)? } else { vec![st] };
        let mut exits: Vec<(State, Val)> = vec![];
        let mut fuel = 2000;
        while let Some(s) = ins.pop() {
            fuel -= 1;
            if fuel == 0 { return Err("an event request does not settle".into()) }
            match cx.run_fn(next, vec![ptr.clone()], s) {
                Ok(v) => exits.extend(v),
                Err(Stop::Fork(a)) => ins.extend(a),
                Err(Stop::Dead) | Err(Stop::Panic(_)) => {}
                Err(Stop::Unsup(u)) => { out.undecided.insert(format!("run:{}", u), format!("{} from {}", u, label0)); }
            }
        }
        let mut fuel = 200_000;
        while let Some((st, v)) = exits.pop() {
            fuel -= 1;
            if fuel == 0 { return Err("too many outcomes".into()) }
            match finish(&cx, &sh, &mut out, n, st.clone(), &v, ret_ty, it_ty, &label0) {
                Ok(Some(new)) => for m in new { if queued.insert(m) { work.push(m) } },
                Ok(None) => {}
                Err(Stop::Fork(a)) => exits.extend(a.into_iter().map(|s| (s, v.clone()))),
                Err(Stop::Dead) => {}
                Err(e) => { let u = err(e); out.undecided.insert(format!("exit:{}", u), format!("{} from {}", u, label0)); }
            }
        }
        // whoever looked below something is run again when more turns up there
        let deps = sh.borrow().deps.clone();
        for d in deps { readers.entry(d).or_default().insert(n); }
        let grown: Vec<H> = std::mem::take(&mut sh.borrow_mut().grown);
        for h in grown { for m in readers.get(&h).into_iter().flatten() { if queued.insert(*m) { again.push_back(*m) } } }
        if cx.steps.get() > cx.budget.get() { return Err("the analysis budget is spent".into()) }
        if verbose { eprintln!("node {}/{} {} elems {} ids {} steps {}", n, sh.borrow().nodes.len(), label0, sh.borrow().elems.len(), cx.ids.borrow().len(), cx.steps.get()) }
        }
    }
    if verbose {
        let mut fs: Vec<_> = cx.fnstats.borrow().iter().map(|(k, v)| (v.1, k.clone(), v.0, v.2)).collect();
        fs.sort(); fs.reverse();
        for f in fs.iter().take(25) { eprintln!("  {:>9} steps {:>6} calls  max {:>3} rets  {}", f.0, f.2, f.3, f.1) }
    }
    for u in cx.unsup.borrow().keys() { if u.starts_with("loop ") { out.undecided.insert(format!("lost:{}", u), format!("{}: paths were not followed to the end", u)); } }
    for (u, k) in cx.unsup.borrow().iter() { if verbose { eprintln!("UNSUP {} x{}", u, k) } }
    out.analysed = cx.analysed.borrow().clone();
    out.steps = cx.steps.get();
    Ok(out)
}

/// Judge one way a call to next can end; returns the configurations to look at next.
fn finish(cx: &Cx, shr: &Rc<RefCell<Sh>>, out: &mut Outcome, n: usize, mut st: State, v: &Val, ret: Ty, it_ty: Ty, from: &str) -> R<Option<Vec<usize>>> {
    let mut sh = shr.borrow_mut();
    let sh = &mut *sh;
    let mut c = sh.cfg(&st);
    // everything that can fork comes first, so that it is not counted twice
    let some = var_of(cx, &st, v)?;
    let mut ev = None;
    let mut failed = false;
    if some == 1 {
        let res = field(cx, v, 1, 0);
        let rt = ty_args(ret)[0];
        failed = var_of(cx, &st, &res)? == 1;
        if !failed {
            let x = field(cx, &res, 0, 0);
            let et = ty_args(rt)[0];
            ev = Some(sh.event(cx, &st, et, &x)?);
        }
    }
    let Val::Ptr(ip) = st.ghost_get("it") else { return Err(Stop::Unsup("the iterator was lost".into())) };
    let itv = st.read(cx, ip.root, &ip.path)?;
    let canon = sh.canon(cx, &mut st, it_ty, &itv)?;
    let peek = { fn f(c: &Canon) -> Option<Option<(u32, bool)>> { match c { Canon::Peek(_, p) => Some(*p), Canon::Agg(_, v) | Canon::Var(_, _, v) => v.iter().find_map(f), Canon::Ref(_, x) => f(x), _ => None } } f(&canon) };
    let Some(peek) = peek else { return Err(Stop::Unsup("the lookahead slot was lost".into())) };
    if peek.is_none() { sh.consume(cx, &mut st, &mut c)?; }
    let curmask = if c.cur { sh.mask(cx, &st) } else { 0 };
    if c.linked { let m = sh.mask(cx, &st); if let Some(x) = c.pend.last_mut() { *x = m } }
    // the grammar positions the outcome needs
    let refstep = if sh.mode_r && ev.is_some() && !c.os.is_empty() && !c.ref_err { Some(sh.ref_step(cx, &st, &c)?) } else { None };
    let inconclusive = !st.taint.is_empty();
    let what = match &ev { Some(e) => EVENTS.get(e.ev as usize).copied().unwrap_or("?").to_string(), None if failed => "an error".into(), None => "None".into() };
    if (sh.mode_r && !c.ref_err && ev.is_some() || !sh.mode_r && ev.is_some()) && c.os.is_empty() && c.h != H::Bottom {
        sh.put(&mut st, c.clone());
        let v = sh.expose(cx, &st, &c)?;
        return Err(if v.is_empty() { Stop::Dead } else { Stop::Fork(v) });
    }
    // a repeated run only adds what it finds below newly found stack entries
    if !c.fresh { return Ok(None) }
    let tokens = || -> String { let mut s = vec![]; if c.eaten { s.push("after consuming tokens".to_string()) } if c.cur { s.push(format!("next token {}{}", if c.lazy { "deferred " } else { "" }, names(curmask))) } if s.is_empty() { String::new() } else { format!(" ({})", s.join(", ")) } };
    let place = format!("EventIter::next from {}{}", from, tokens());
    let mut bad = |prop: &'static str, key: String, msg: String, out: &mut Outcome, sh: &mut Sh| {
        if inconclusive { let t = st.taint.iter().next().cloned().unwrap_or_default(); out.undecided.insert(format!("{}:{}", prop, t), format!("{}: {} ({})", place, msg, t)); }
        else { if verbose3() { eprintln!("BAD dom {:?} facts {:?} tape {:?}", st.dom, st.facts, st.tape); eprintln!("BAD {} {} val {} ghosts {:?}", key, msg, show(cx, v), st.ghost.iter().filter(|g| ["tag","alias","scalar","anchor"].contains(&&*g.0.to_string())).map(|(k, v)| format!("{}={}", k, show(cx, v))).collect::<Vec<_>>()) } sh.find(prop, key, format!("{}: {}", place, msg)) }
    };
    macro_rules! judge { ($p:expr, $ok:expr, $key:expr, $msg:expr) => {{ *out.judged.entry($p).or_default() += 1; if !$ok { bad($p, $key, $msg, out, sh); } }} }
    out.exits += 1;
    if std::env::var("YARY_VERBOSE").map_or(false, |v| v == "3") { eprintln!("   exit {} -> {} os {:?} cur {} mask {} taint {:?} val {}", what, label(&canon), c.os, c.cur, names(sh.mask(cx, &st)), st.taint, show(cx, v)) }
    *out.events.entry(what.clone()).or_default() += 1;
    let short = from.to_string();

    if sh.mode_r {
        judge!("P05", !c.over, format!("lookahead:{}", short), "tokens are taken without any event or error".to_string());
        if c.over { return Ok(None) }
        if failed {
            let empty = c.eof || c.dry && !c.cur && !c.fetched;
            let done = c.os == vec![r::DONE] && c.pend.is_empty();
            let ok = c.drive_err || c.ref_err || empty && !done || c.hit || c.taglook == 2;
            let t = c.pend.first().copied().or(if c.cur { Some(curmask) } else { None }).map(names).unwrap_or("none".into());
            if !ok && verbose3() { eprintln!("REJ {} c={:?} val {}", place, c, show(cx, v)) }
            judge!("P05", ok, format!("rejects:{}:{}", c.os.last().map(|o| state_name(*o)).unwrap_or_default(), t), format!("a valid token sequence is rejected; the productions are at '{}', the next token is {}", c.os.last().map(|o| state_name(*o)).unwrap_or_default(), t));
            return Ok(None);
        }
        let Some(e) = &ev else {
            let done = c.os == vec![r::DONE] && c.pend.is_empty();
            judge!("P05", done && !c.touched, format!("none:{}", c.os.last().map(|o| state_name(*o)).unwrap_or_default()), format!("the iteration ends although the productions are at '{}'", c.os.last().map(|o| state_name(*o)).unwrap_or_default()));
            if !done { return Ok(None) }
            return succ(cx, sh, out, n, st, canon, c, peek.is_some());
        };
        let before = c.os.last().map(|o| state_name(*o)).unwrap_or("nothing".into());
        let tok = c.pend.first().map(|t| names(*t)).unwrap_or("none".into());
        if c.ref_err { judge!("P05", false, format!("accepts:{}:{}:{}", before, tok, what), format!("{} is reported although the productions have no {} at '{}'", what, tok, before)); return Ok(None) }
        judge!("P05", true, String::new(), String::new());
        let (s, eat, os) = refstep.unwrap_or((Step::Error, false, vec![]));
        let got = RefEv { ev: e.ev, implicit: e.implicit.map_or(2, |i| i as u8), empty: if e.ev == e::SCALAR { (c.scalars == 0) as u8 } else { 2 } };
        let directive = |o: &Vec<u8>| matches!(o.last(), Some(&r::DOC_DIR) | Some(&r::DOC_DIR_V));
        match s {
            Step::Emit(w) => {
                judge!("P05", w == got, format!("event:{}:{}:{}:{}", before, tok, w.show(), got.show()), format!("{} is reported, the productions give {} at '{}' with token {}", got.show(), w.show(), before, tok));
                if w != got { return Ok(None) }
            }
            _ => { let p = if directive(&c.os) { "P05" } else { "P05" }; judge!(p, false, format!("early:{}:{}:{}", before, tok, what), format!("{} is reported while the productions are at '{}' with token {}", what, before, tok)); return Ok(None) }
        }
        c.os = os;
        if eat { c.pend.remove(0); }
        return succ(cx, sh, out, n, st, canon, c, peek.is_some());
    }

    // ---- the event grammar
    if failed {
        // a tag may only be refused for a handle it has
        if c.taglook == 2 { judge!("P17", handle_size(cx, &st, &st.ghost_get("tag")) == Some(true), "verbatim-rejected".to_string(), "a tag without a handle (verbatim) is rejected as undeclared".to_string()); }
        return Ok(None)
    }
    let Some(e) = &ev else {
        let done = c.os == vec![P_END];
        judge!("P03", done, format!("none:{}", short), format!("the iteration ends before the stream end was reported, at a position {}", c.os.last().map(|o| POS[*o as usize]).unwrap_or("?")));
        judge!("P03", !c.touched, format!("touch:{}", short), "a finished iterator still asks for tokens".to_string());
        if !done { return Ok(None) }
        return succ(cx, sh, out, n, st, canon, c, peek.is_some());
    };
    let at = c.os.last().copied();
    let pos = at.map(|o| POS[o as usize]).unwrap_or("below the document");
    if at == Some(P_END) { judge!("P03", false, format!("after:{}:{}", what, short), format!("{} is reported after the stream end", what)); return Ok(None) }
    let mut os = c.os.clone();
    let ok = accept(&mut os, e.ev);
    judge!("P01", ok, format!("grammar:{}:{}:{}", what, pos, short), format!("{} is reported {}", what, pos));
    // node kinds
    if let (Some(k), Some(w)) = (&e.kind, at.and_then(kind_at)) { judge!("P02", k == w, format!("kind:{}:{}:{}:{}", what, k, w, short), format!("{} is labelled {} {}, where {} is due", what, k, pos, w)); }
    // node properties
    {
        let is_node = matches!(e.ev, e::SCALAR | e::SEQ_START | e::MAP_START);
        let empty_suffix_bang = |v: &Val, st: &State| -> bool { let _ = (v, st); true };
        let anchor = e.anchor.clone().flatten();
        let tag = e.tag.clone().flatten();
        judge!("P04", c.anchors <= 1 && c.tags <= 1 && c.scalars <= 1 && c.aliases <= 1, format!("repeat:{}", short), "a node takes more than one anchor, tag, scalar or alias token".to_string());
        match &anchor {
            Some(a) => judge!("P04", c.anchors == 1 && same(cx, &st, a, &st.ghost_get("anchor"), 0), format!("anchor:{}:{}", what, short), format!("{} carries an anchor that is not the one before it", what)),
            None => judge!("P04", c.anchors == 0, format!("anchor-lost:{}:{}", what, short), format!("{} does not carry the anchor before it", what)),
        }
        match &tag {
            Some(Val::Undef) => {}
            Some(t) => judge!("P04", c.tags == 1 && { let g = st.ghost_get("tag"); same(cx, &st, &field(cx, t, 0, 0), &g, 0) && same(cx, &st, &field(cx, t, 0, 1), &g, 1) }, format!("tag:{}:{}", what, short), format!("{} carries a tag that is not the one before it", what)),
            None => if c.tags > 0 { let g = st.ghost_get("tag"); let nr = e.ev == e::SCALAR && non_resolvable(cx, &st, &g) && empty_suffix_bang(&g, &st); judge!("P04", nr, format!("tag-lost:{}:{}", what, short), format!("{} does not carry the tag before it", what)) } else { judge!("P04", true, String::new(), String::new()) },
        }
        if !is_node { judge!("P04", c.anchors == 0 && c.tags == 0, format!("props-lost:{}:{}", what, short), format!("an anchor or tag is taken for {}", what)); }
        match e.ev {
            e::ALIAS => judge!("P04", c.aliases == 1 && e.alias.as_ref().map_or(false, |a| same(cx, &st, a, &st.ghost_get("alias"), 0)), format!("alias:{}", short), "an alias event does not carry the name of the alias".to_string()),
            _ => judge!("P04", c.aliases == 0, format!("alias-lost:{}:{}", what, short), format!("an alias is consumed for {}", what)),
        }
        if e.ev == e::SCALAR {
            let x = e.scalar.clone().unwrap_or(Val::Undef);
            if c.scalars == 1 {
                let g = match st.ghost_get("scalar") { Val::Agg(a) => a.to_vec(), _ => vec![] };
                judge!("P04", !g.is_empty() && g.iter().all(|y| contains(cx, &st, &x, y, 0)), format!("scalar:{}", short), "a scalar event does not carry the contents of its token".to_string());
            } else { judge!("P04", c.scalars == 0 && holds_empty(cx, &st, &x, 0), format!("empty-scalar:{}", short), "a scalar without a token is not empty".to_string()); }
        } else { judge!("P04", c.scalars == 0, format!("scalar-lost:{}:{}", what, short), format!("a scalar is consumed for {}", what)); }
        // directives
        if tag.is_some() { judge!("P17", c.taglook == 1 || handle_size(cx, &st, &st.ghost_get("tag")) == Some(false), format!("tag-unchecked:{}:{}", what, short), format!("{} carries a tag whose handle was not found among the document's directives", what)); }
    }
    {
        let active = active_map(cx, &st, &ip);
        judge!("P17", !c.hit, format!("duplicate-tag:{}", short), "a second declaration of a tag handle is accepted".to_string());
        judge!("P17", c.verdirs <= 1, format!("duplicate-version:{}", short), "a second YAML directive is accepted".to_string());
        let empty = id_empty(cx);
        if e.ev == e::DOC_START {
            if let Some((m, ver)) = &e.dirs {
                let whole = map_base(cx, m) == Some((empty, 0)) && complete(&c) && !c.alien && !c.lost;
                judge!("P17", whole, format!("directives:{}", short), format!("the tags reported for the document are not the defaults overlaid with its own directives{}", if c.alien { ": something else is stored" } else if c.lost { ": a directive is dropped" } else if !complete(&c) { ": a default is missing" } else { ": they do not start out empty" }));
                let vok = if c.verdirs == 1 { let g = match st.ghost_get("ver") { Val::Agg(a) => a.to_vec(), _ => vec![] }; g.len() == ver.len() && g.iter().zip(ver).all(|(a, b)| content_eq(cx, &st, a, b)) } else { c.verdirs > 1 || ver.len() == 2 && ver.iter().zip([1, 2]).all(|(v, w)| matches!(cx.expand(v), Val::Int(l) if st.norm(cx, &l).is_const() == Some(w))) };
                judge!("P17", vok, format!("version:{}", short), "the version reported for the document is neither its own nor the default".to_string());
            } else { judge!("P17", false, format!("directives-missing:{}", short), "no directives are reported".to_string()); }
            let kept = match active { Some((b, 0)) => { let k = cx.ids.borrow()[b as usize].key.clone(); k == IdKey::Conv(empty, "mapped") || k == IdKey::Conv(empty, "copying") && c.copy == 2 || b == empty && c.copy == 2 } _ => false };
            judge!("P17", kept, format!("active:{}", short), "the handles that tags are checked against do not become those of the new document".to_string());
        } else {
            judge!("P17", active == Some((id_active(cx), 0)) && c.tagdirs == 0 && c.verdirs == 0, format!("active-changed:{}:{}", what, short), "the active directives change inside a document".to_string());
        }
    }
    if !ok { return Ok(None) }
    c.os = os;
    succ(cx, sh, out, n, st, canon, c, peek.is_some())
}

fn verbose3() -> bool { std::env::var("YARY_VERBOSE").map_or(false, |v| v == "4") }
/// The i-th part of a token's payload.
fn same(cx: &Cx, st: &State, a: &Val, g: &Val, i: usize) -> bool { match g { Val::Agg(v) => v.get(i).map_or(false, |x| content_eq(cx, st, a, x)), _ => false } }
/// A tag token known to be a lone `!`.
/// Is the handle of a tag known to be nonempty, or known to be empty?
fn handle_size(cx: &Cx, st: &State, g: &Val) -> Option<bool> {
    let Val::Agg(a) = g else { return None };
    let mut s = st.clone();
    let h = crate::ai::models::text_of(cx, &mut s, a.first()?).ok()?;
    if s.prove(cx, &h.len().addk(-1)) { Some(true) } else if s.prove_eq0(cx, &h.len()) { Some(false) } else { None }
}
fn non_resolvable(cx: &Cx, st: &State, g: &Val) -> bool {
    let Val::Agg(a) = g else { return false };
    if a.len() < 2 { return false }
    let mut s = st.clone();
    let (Ok(h), Ok(x)) = (crate::ai::models::text_of(cx, &mut s, &a[0]), crate::ai::models::text_of(cx, &mut s, &a[1])) else { return false };
    if !s.prove_eq0(cx, &x.len()) || !s.prove_eq0(cx, &h.len().addk(-1)) { return false }
    match s.byte_at(cx, h.buf, &h.s) { Val::Int(l) => s.norm(cx, &l).is_const() == Some(b'!' as i128), _ => false }
}
/// The content is known to be the empty text.
fn holds_empty(cx: &Cx, st: &State, v: &Val, d: u32) -> bool {
    if const_text(cx, st, v).map_or(false, |t| t.is_empty()) { return true }
    if d > 5 { return false }
    match v { Val::Var(_, f) | Val::Agg(f) => f.iter().any(|x| holds_empty(cx, st, x, d + 1)), _ => false }
}
/// The parser's own map of handles.
fn active_map(cx: &Cx, st: &State, p: &Ptr) -> Option<(Id, usize)> {
    fn go(cx: &Cx, st: &State, v: &Val, d: u32) -> Option<(Id, usize)> {
        if d > 8 { return None }
        match v {
            Val::Obj(_) => map_base(cx, v),
            Val::Agg(a) | Val::Var(_, a) => a.iter().find_map(|x| go(cx, st, x, d + 1)),
            Val::Ptr(q) => go(cx, st, &st.read(cx, q.root, &q.path).ok()?, d + 1),
            Val::Top(t, _) if std_kind_of_ty(*t) == StdKind::Map => map_base(cx, &cx.expand(v)),
            _ => None,
        }
    }
    go(cx, st, &st.read(cx, p.root, &p.path).ok()?, 0)
}

/// The configurations a call leaves the parser in.
fn succ(cx: &Cx, sh: &mut Sh, out: &mut Outcome, n: usize, st: State, canon: Canon, c: Cfg, _peeked: bool) -> R<Option<Vec<usize>>> {
    let Some(p) = sh.stack_ptr(cx, &st) else { return Err(Stop::Unsup("the state stack was not found".into())) };
    let v = st.read(cx, p.root, &p.path)?;
    let Val::Obj(o) = &v else { return Err(Stop::Unsup("state stack".into())) };
    let Obj::Vec { elems, base, ty } = &**o else { return Err(Stop::Unsup("state stack".into())) };
    let et = *ty_args(*ty).first().ok_or(Stop::Unsup("state stack".into()))?;
    match base { None if c.h == H::Bottom => {} Some((b, _)) if *b == id_stack(cx) => {} None if elems.is_empty() => return Err(Stop::Unsup("the state stack is emptied".into())), _ => return Err(Stop::Unsup("the state stack is rearranged".into())) }
    if base.is_none() && c.h != H::Bottom { return Err(Stop::Unsup("the state stack is replaced".into())) }
    let mut cs = vec![];
    for e in elems { let mut s2 = st.clone(); cs.push(sh.canon(cx, &mut s2, et, e)?) }
    let mut os = c.os.clone();
    let k = cs.len();
    let mut parts: Vec<Vec<u8>> = vec![vec![]; k];
    let own = if k == 0 { std::mem::take(&mut os) } else { let x = os.pop(); x.into_iter().collect() };
    for i in (1..k).rev() { if let Some(x) = os.pop() { parts[i] = vec![x] } }
    if k > 0 { parts[0] = os }
    if own.len() > 8 || parts.iter().any(|p| p.len() > 8) {
        let l = sh.node_label.clone();
        sh.find("P01", format!("depth:{}", l), format!("EventIter::next from {}: collections are opened that the state stack does not remember", l));
        return Ok(None);
    }
    let delta = k as i32 - c.exposed as i32;
    // what lies below the lowest known element
    let mut under: Option<H> = if c.h == H::Bottom { None } else { Some(c.h) };
    let mut on: Option<H> = if c.h == H::Bottom { Some(H::Bottom) } else { None };
    for i in 0..k {
        let e = H::Elem(sh.elem(cs[i].clone(), parts[i].clone()));
        if let Some(u) = under { sh.subset(u, e) }
        if let Some(x) = on { sh.include(e, &[x].into_iter().collect()) }
        under = None;
        on = Some(e);
    }
    let dry = c.dry;
    let (m, fresh) = sh.node(canon, own, c.pend.clone(), c.linked, dry);
    if let Some(u) = under { sh.subset(u, H::Node(m)) }
    if let Some(x) = on { sh.include(H::Node(m), &[x].into_iter().collect()) }
    if !out.edges.iter().any(|e| e.from == n && e.to == m && e.eaten == c.eaten && e.delta == delta) { out.edges.push(Edge { from: n, to: m, eaten: c.eaten, delta }) }
    Ok(if fresh { Some(vec![m]) } else { None })
}

// ---- the checks
fn cycles(o: &Outcome) -> Option<Vec<usize>> {
    // a run of calls that comes back to the same configuration with nothing consumed and nothing popped
    let n = o.sh.borrow().nodes.len();
    let es: Vec<(usize, usize, i64)> = o.edges.iter().filter(|e| !e.eaten).map(|e| (e.from, e.to, e.delta as i64 * (n as i64 + 1) + 1)).collect();
    // the finished iterator stays as it is
    let done = |i: usize| o.sh.borrow().nodes[i].os == vec![P_END];
    let es: Vec<_> = es.into_iter().filter(|e| !(done(e.0) && e.0 == e.1)).collect();
    let mut d = vec![0i64; n];
    let mut pred = vec![usize::MAX; n];
    let mut last = None;
    for _ in 0..=n { last = None; for (a, b, w) in &es { if d[*a] + w > d[*b] { d[*b] = d[*a] + w; pred[*b] = *a; last = Some(*b) } } if last.is_none() { break } }
    let mut x = last?;
    for _ in 0..n { if pred[x] != usize::MAX { x = pred[x] } }
    let mut path = vec![x];
    let mut y = pred[x];
    while y != x && y != usize::MAX && path.len() <= n { path.push(y); y = pred[y] }
    path.reverse();
    Some(path)
}

pub fn check(p: &Program, prop: &'static str, thorough: bool) -> Report {
    let rule = match prop {
        "P01" => "abstract interpretation of EventIter::next over its MIR from every reachable parser configuration (parser state, lookahead token, stack contents as a saturated pushdown relation), every token kind possible at every read; each yielded event must be allowed by the documented event grammar at the position the stack stands for",
        "P02" => "abstract interpretation of EventIter::next from every reachable parser configuration; the NodeKind of every node event equals the one the grammar position dictates",
        "P03" => "abstract interpretation of EventIter::next from every reachable parser configuration; no loop comes round without reading a token, no cycle of configurations yields events without consuming a token or shrinking the stack, None comes only after StreamEnd and then forever, without touching the reader",
        "P04" => "abstract interpretation of EventIter::next from every reachable parser configuration with symbolic token contents; the contents of every anchor, tag, alias and scalar token consumed by a call are those of the event it yields",
        "P05" => "simulation: abstract interpretation of EventIter::next in lockstep with the reference token productions over every token history (pushdown saturation of the pair of stacks); outcome, event, implicitness and omission agree at every call",
        _ => "abstract interpretation of EventIter::next with symbolic directive contents and a typestate of the directive maps (declared, default present, looked up, overwritten); judged at every event",
    };
    let mut r = Report::new(prop, rule);
    let mut roots = vec!["root_next"];
    if thorough || true { roots.push("root_next_ref") }
    for root in roots {
        match explore(p, prop, root) {
            Err(e) => { r.undecided(format!("explore:{}", root), e); }
            Ok(o) => {
                let s = o.sh.borrow();
                for ((q, k), m) in &s.finds { if *q == prop { r.find(k.clone(), m.clone()) } }
                let judged = o.judged.get(prop).copied().unwrap_or(0);
                r.obligations += judged;
                r.discharged += judged - s.finds.keys().filter(|k| k.0 == prop).count().min(judged as usize) as u64;
                for (k, m) in &o.undecided { if k.starts_with("run:") || k.starts_with("exit:") || k.starts_with(&format!("{}:", prop)) { r.undecided(k.clone(), m.clone()) } }
                if prop == "P03" {
                    r.ob(true, String::new, String::new);
                    if let Some(c) = cycles(&o) {
                        let l: Vec<String> = c.iter().map(|i| label(&s.nodes[*i].canon)).collect();
                        r.find(format!("cycle:{}", l.join(" > ")), format!("EventIter::next yields events forever without consuming a token: {}", l.join(" > ")));
                    }
                }
                r.num("parser configurations", s.nodes.len() as u64);
                r.num("stack symbols", s.elems.len() as u64);
                r.num("calls analysed", o.runs);
                r.num("outcomes judged", o.exits);
                r.num("transitions", o.edges.len() as u64);
                r.num("directive map lookups", s.lookups);
                for f in &o.analysed { if !r.analysed.contains(f) { r.analysed.push(f.clone()) } }
                r.list("events", o.events.iter().map(|(k, v)| format!("{}: {}", k, v)).collect::<Vec<_>>().join(", "));
                floor(&mut r, "parser configurations", s.nodes.len(), 40);
                floor(&mut r, "reads of the token queue", s.fetches as usize, 20);
                floor(&mut r, "kinds of event", o.events.keys().filter(|k| EVENTS.contains(&k.as_str())).count(), 10);
            }
        }
    }
    r
}
