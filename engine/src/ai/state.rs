//! Abstract machine state and the shared context.
use super::lin::*;
use super::value::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::{Cell, RefCell};
use super::fx::Map as HashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum IdKey {
    Fresh(u32),
    Field(Id, u32, u32),
    Deref(Id),
    Disc(Id),
    Len(Id),
    Elem(Id),
    Tail(Id),
    Conv(Id, &'static str),
}

#[derive(Clone, Debug)]
pub struct IdInfo {
    pub key: IdKey,
    pub label: String,
    pub dom: Option<Dom>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BufKind {
    Sym(Id),
    Const(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub struct BufInfo {
    pub kind: BufKind,
    pub end: Lin,
    pub utf8: bool,
}

/// A violated obligation.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Alarm {
    pub kind: String,   // rule
    pub func: String,   // function holding the construct
    pub what: String,   // construct (no line numbers)
    pub loc: String,    // file:line (diagnostic only)
    pub chain: String,  // call chain (diagnostic only)
}

#[derive(Debug)]
pub enum Stop {
    Fork(Vec<State>),
    Panic(String),
    Dead,
    Unsup(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct State {
    pub frames: Vec<Rc<Vec<Val>>>,
    pub heap: Rc<BTreeMap<CellId, Val>>,
    pub dom: Rc<BTreeMap<Id, Dom>>,
    pub facts: Rc<Vec<Lin>>,
    pub tape: Rc<BTreeMap<(BufId, Lin), Id>>,
    pub bnd: Rc<BTreeSet<(BufId, Lin)>>,
    pub ghost: Rc<BTreeMap<&'static str, Val>>,
    pub trace: Rc<Vec<(u32, Val)>>,
    pub taint: Rc<BTreeSet<String>>,
}

#[derive(Clone, Debug)]
pub enum CellInit { Top(Ty, Id), Val(Val) }

pub struct Body1 {
    pub inst: Instance,
    pub name: String,
    pub body: Body,
    pub rpo: Vec<usize>,     // block -> rpo index
    pub order: Vec<usize>,   // rpo order
    pub preds: Vec<Vec<usize>>,
    pub heads: Vec<bool>,
    pub live: Vec<Vec<bool>>, // live-in locals per block
    pub borrowed: Vec<bool>,
}

pub trait Hooks {
    /// Intercept a call. Return None to proceed normally, otherwise the list of (state, result).
    fn call(&self, _cx: &Cx, _st: &mut State, _name: &str, _inst: Instance, _args: &[Val], _ret: Ty) -> Option<R<Vec<(State, Val)>>> { None }
    /// Called when a function returns in a state (before merging).
    fn on_return(&self, _cx: &Cx, _st: &mut State, _name: &str, _ret: &Val) {}
    fn want_return(&self, _name: &str) -> bool { false }
    /// Called when a state arrives at a loop head; false drops the state.
    fn on_head(&self, _cx: &Cx, _st: &mut State, _name: &str, _bb: usize) -> bool { true }
    /// Leave out of a returned value what the property does not look at.
    fn forget(&self, _cx: &Cx, _ty: Ty, v: Val) -> Val { v }
    /// extra skeleton key: states with different keys are never joined
    fn skeleton(&self, _cx: &Cx, _st: &State) -> u64 { 0 }
}
pub struct NoHooks;
impl Hooks for NoHooks {}

pub struct Cx {
    pub ids: RefCell<Vec<IdInfo>>,
    pub idmap: RefCell<HashMap<IdKey, Id>>,
    pub bufs: RefCell<Vec<BufInfo>>,
    pub bufmap: RefCell<HashMap<BufKind, BufId>>,
    pub cells: RefCell<Vec<CellInit>>,
    pub cellmap: RefCell<HashMap<IdKey, CellId>>,
    pub bodies: RefCell<HashMap<Instance, Option<Rc<Body1>>>>,
    pub names: RefCell<HashMap<Instance, Rc<str>>>,
    pub alarms: RefCell<BTreeMap<Alarm, u32>>,
    pub sites: RefCell<BTreeSet<String>>,
    pub oblig: Cell<u64>,
    pub steps: Cell<u64>,
    pub callstack: RefCell<Vec<Rc<str>>>,
    pub unsup: RefCell<BTreeMap<String, u32>>,
    pub analysed: RefCell<BTreeSet<String>>,
    pub hooks: Box<dyn Hooks>,
    pub cows: RefCell<BTreeSet<Id>>,
    /// Symbols that stand for a function of one byte.
    pub tabs: RefCell<HashMap<(Id, Vec<i128>), Id>>,
    pub tabdef: RefCell<HashMap<Id, (Id, Rc<Vec<i128>>)>>,
    pub expanded: RefCell<HashMap<(Ty, Id), Val>>,
    pub fieldcache: RefCell<HashMap<(Ty, u32), Rc<Vec<Ty>>>>,
    pub quiet: Cell<u32>,
    pub debug: bool, pub trace: bool, pub tabulate: Cell<bool>, pub splitbools: Cell<bool>, pub tabints: Cell<bool>,
    pub joins: Cell<u64>,
    pub curloc: RefCell<String>,
    pub constcache: RefCell<HashMap<(rustc_public::mir::alloc::AllocId, Ty), CellId>>,
    pub lim: Cell<usize>,
    pub fnstats: RefCell<BTreeMap<String, (u64, u64, u64)>>,
    pub budget: Cell<u64>,
}

/// What is asked about types over and over; the compiler's own answers are slow.
pub struct TyInfo { pub int: Option<Dom>, pub boolean: bool, pub nv: usize, pub name: Rc<str>, pub std: StdKind, pub u8: bool, pub bytes: bool }
pub fn info(ty: Ty) -> Rc<TyInfo> {
    thread_local! { static T: RefCell<HashMap<Ty, Rc<TyInfo>>> = Default::default(); }
    if let Some(i) = T.with(|t| t.borrow().get(&ty).cloned()) { return i }
    let k = ty.kind();
    let name: Rc<str> = match &k { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string().into(), _ => "".into() };
    let i = Rc::new(TyInfo {
        int: int_dom_of(ty), boolean: matches!(k, TyKind::RigidTy(RigidTy::Bool)),
        nv: match &k { TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => d.num_variants(), _ => 1 },
        std: std_kind(&name), name,
        u8: matches!(k, TyKind::RigidTy(RigidTy::Uint(UintTy::U8))),
        bytes: match &k { TyKind::RigidTy(RigidTy::Str) => true, TyKind::RigidTy(RigidTy::Slice(t)) => matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))), _ => false },
    });
    T.with(|t| t.borrow_mut().insert(ty, i.clone()));
    i
}
pub fn int_dom(ty: Ty) -> Option<Dom> { info(ty).int.clone() }
fn int_dom_of(ty: Ty) -> Option<Dom> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Bool) => Some(Dom::S(Set::upto(2))),
        TyKind::RigidTy(RigidTy::Char) => Some(Dom::R(0, 0x10FFFF)),
        TyKind::RigidTy(RigidTy::Uint(u)) => Some(match u {
            UintTy::U8 => Dom::S(Set::full()),
            UintTy::Usize | UintTy::U64 => Dom::R(0, (1i128 << 64) - 1),
            UintTy::U16 => Dom::R(0, 65535),
            UintTy::U32 => Dom::R(0, (1i128 << 32) - 1),
            UintTy::U128 => Dom::R(0, POS_INF),
        }),
        TyKind::RigidTy(RigidTy::Int(i)) => Some(match i {
            IntTy::I8 => Dom::R(-128, 127),
            IntTy::I16 => Dom::R(-32768, 32767),
            IntTy::I32 => Dom::R(-(1i128 << 31), (1i128 << 31) - 1),
            IntTy::Isize | IntTy::I64 => Dom::R(-(1i128 << 63), (1i128 << 63) - 1),
            IntTy::I128 => Dom::R(NEG_INF, POS_INF),
        }),
        TyKind::RigidTy(RigidTy::Pat(t, _)) => int_dom(t),
        _ => None,
    }
}

pub fn is_u8(ty: Ty) -> bool { info(ty).u8 }
pub fn is_bytes(ty: Ty) -> bool { info(ty).bytes }

impl Cx {
    pub fn new(hooks: Box<dyn Hooks>) -> Cx {
        Cx {
            ids: Default::default(), idmap: Default::default(), bufs: Default::default(), bufmap: Default::default(),
            cells: Default::default(), cellmap: Default::default(), bodies: Default::default(), names: Default::default(),
            alarms: Default::default(), sites: Default::default(), oblig: Cell::new(0), steps: Cell::new(0), callstack: Default::default(),
            unsup: Default::default(), analysed: Default::default(), hooks, cows: Default::default(), tabs: Default::default(), tabdef: Default::default(), expanded: Default::default(), fieldcache: Default::default(), quiet: Cell::new(0),
            tabulate: Cell::new(false), splitbools: Cell::new(false), tabints: Cell::new(false), trace: std::env::var("YARY_AI_TRACE").map_or(false, |v| !v.is_empty()), debug: std::env::var("YARY_AI_DEBUG").is_ok(), joins: Cell::new(0), curloc: Default::default(), constcache: Default::default(),
            lim: Cell::new(16), fnstats: Default::default(), budget: Cell::new(u64::MAX),
        }
    }
    pub fn id(&self, key: IdKey) -> Id { self.id_l(key, String::new()) }
    pub fn id_l(&self, key: IdKey, label: String) -> Id {
        if let Some(i) = self.idmap.borrow().get(&key) { return *i }
        let mut ids = self.ids.borrow_mut();
        let n = ids.len() as Id;
        ids.push(IdInfo { key: key.clone(), label, dom: None });
        self.idmap.borrow_mut().insert(key, n);
        n
    }
    pub fn fresh(&self, label: &str) -> Id {
        let n = self.ids.borrow().len() as u32;
        self.id_l(IdKey::Fresh(n), label.to_string())
    }
    pub fn fresh_dom(&self, label: &str, d: Dom) -> Id {
        let i = self.fresh(label);
        self.ids.borrow_mut()[i as usize].dom = Some(d);
        i
    }
    pub fn set_dom0(&self, i: Id, d: Dom) { let x = &mut self.ids.borrow_mut()[i as usize].dom; if x.is_none() { *x = Some(d) } }
    pub fn dom0(&self, i: Id) -> Dom { self.ids.borrow()[i as usize].dom.clone().unwrap_or(Dom::R(NEG_INF, POS_INF)) }
    pub fn describe(&self, i: Id) -> String {
        let ii = self.ids.borrow()[i as usize].clone();
        match ii.key {
            IdKey::Fresh(_) => format!("{}#{}", ii.label, i),
            IdKey::Field(o, v, f) => format!("{}.{}{}", self.describe(o), if v > 0 { format!("v{}.", v) } else { String::new() }, f),
            IdKey::Deref(o) => format!("*{}", self.describe(o)),
            IdKey::Disc(o) => format!("disc({})", self.describe(o)),
            IdKey::Len(o) => format!("len({})", self.describe(o)),
            IdKey::Elem(o) => format!("elem({})", self.describe(o)),
            IdKey::Tail(o) => format!("tail({})", self.describe(o)),
            IdKey::Conv(o, s) => format!("{}({})", s, self.describe(o)),
        }
    }
    pub fn len_id(&self, o: Id) -> Id {
        let i = self.id(IdKey::Len(o));
        self.set_dom0(i, Dom::R(0, i64::MAX as i128));
        i
    }
    pub fn buf_sym(&self, o: Id, utf8: bool) -> BufId {
        let end = Lin::sym(self.len_id(o));
        self.buf(BufKind::Sym(o), end, utf8)
    }
    pub fn buf(&self, kind: BufKind, end: Lin, utf8: bool) -> BufId {
        if let Some(b) = self.bufmap.borrow().get(&kind) { return *b }
        let mut bufs = self.bufs.borrow_mut();
        let n = bufs.len() as BufId;
        bufs.push(BufInfo { kind: kind.clone(), end, utf8 });
        self.bufmap.borrow_mut().insert(kind, n);
        n
    }
    pub fn const_view(&self, bytes: &[u8]) -> View {
        let n = bytes.len() as i128;
        let b = self.buf(BufKind::Const(Rc::new(bytes.to_vec())), Lin::k(n), std::str::from_utf8(bytes).is_ok());
        View { buf: b, s: Lin::k(0), e: Lin::k(n) }
    }
    pub fn cell_new(&self, init: CellInit) -> CellId {
        let mut c = self.cells.borrow_mut();
        c.push(init);
        (c.len() - 1) as CellId
    }
    pub fn cell_deref(&self, o: Id, ty: Ty) -> CellId {
        let key = IdKey::Deref(o);
        if let Some(c) = self.cellmap.borrow().get(&key) { return *c }
        let id = self.id(key.clone());
        let c = self.cell_new(CellInit::Top(ty, id));
        self.cellmap.borrow_mut().insert(key, c);
        c
    }
    /// Field types of (a variant of) a type.
    pub fn fields(&self, ty: Ty, variant: u32) -> Rc<Vec<Ty>> {
        if let Some(v) = self.fieldcache.borrow().get(&(ty, variant)) { return v.clone() }
        let v = Rc::new(match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                match d.variants().get(variant as usize) { Some(v) => v.fields().iter().map(|f| f.ty_with_args(&a)).collect(), None => vec![] }
            }
            TyKind::RigidTy(RigidTy::Tuple(t)) => t.clone(),
            TyKind::RigidTy(RigidTy::Array(t, n)) => {
                let n = n.eval_target_usize().unwrap_or(0);
                vec![t; n.min(64) as usize]
            }
            TyKind::RigidTy(RigidTy::Closure(_, a)) => {
                match a.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(t)) => t.clone(), _ => vec![] }, _ => vec![] }
            }
            _ => vec![],
        });
        self.fieldcache.borrow_mut().insert((ty, variant), v.clone());
        v
    }
    pub fn num_variants(&self, ty: Ty) -> usize {
        info(ty).nv
    }
    pub fn disc_id(&self, ty: Ty, o: Id) -> Id {
        let i = self.id(IdKey::Disc(o));
        self.set_dom0(i, Dom::S(Set::upto(self.num_variants(ty).min(256))));
        i
    }
    pub fn discr_table(&self, ty: Ty) -> Vec<i128> {
        let mut t = vec![0; 256];
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            if d.kind() == AdtKind::Enum {
                for (i, v) in d.variants().iter().enumerate() { let x = d.discriminant_for_variant(v.idx()); t[i] = super::exec::wrap(x.val as i128, x.ty); }
            }
        }
        t
    }
    /// One-level expansion of an unknown value by type; enums stay unknown.
    pub fn expand(&self, v: &Val) -> Val {
        let Val::Top(ty, o) = v else { return v.clone() };
        let (ty, o) = (*ty, *o);
        if let Some(d) = int_dom(ty) {
            self.set_dom0(o, d);
            if info(ty).boolean { return Val::Bool(Cond::In(o, Set::one(1))) }
            return Val::Int(Lin::sym(o));
        }
        if let Some(v) = self.expanded.borrow().get(&(ty, o)) { return v.clone() }
        let r = self.expand_new(v, ty, o);
        self.expanded.borrow_mut().insert((ty, o), r.clone());
        r
    }
    fn expand_new(&self, v: &Val, ty: Ty, o: Id) -> Val {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => self.expand_ptr(t, o),
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                if d.is_box() { if let Some(GenericArgKind::Type(t)) = a.0.first() { return self.expand_ptr(*t, o) } }
                match info(ty).std {
                    StdKind::Str => {
                        let l = Lin::sym(self.len_id(o));
                        let b = self.buf_sym(o, true);
                        Val::obj(Obj::Str { len: l.clone(), utf8: true, marks: vec![Lin::k(0)], src: Some(View { buf: b, s: Lin::k(0), e: l }), id: o })
                    }
                    StdKind::Vec => {
                        if let Some(GenericArgKind::Type(t)) = a.0.first() {
                            if is_u8(*t) {
                                let l = Lin::sym(self.len_id(o));
                                return Val::obj(Obj::Str { len: l, utf8: false, marks: vec![], src: None, id: o });
                            }
                        }
                        Val::obj(Obj::Vec { ty, base: Some((o, Lin::sym(self.len_id(o)))), elems: vec![] })
                    }
                    StdKind::Map => Val::obj(Obj::Map { ty, base: o, log: vec![] }),
                    StdKind::Heap => Val::obj(Obj::Heap { ty, id: o, len: Lin::sym(self.len_id(o)) }),
                    StdKind::None => match d.kind() {
                        AdtKind::Struct => Val::agg(self.fields(ty, 0).iter().enumerate().map(|(i, t)| Val::Top(*t, self.id(IdKey::Field(o, 0, i as u32)))).collect()),
                        AdtKind::Enum => {
                            if self.num_variants(ty) == 1 { self.expand_var(ty, o, 0) } else { v.clone() }
                        }
                        AdtKind::Union => v.clone(),
                    },
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(_)) | TyKind::RigidTy(RigidTy::Closure(..)) =>
                Val::agg(self.fields(ty, 0).iter().enumerate().map(|(i, t)| Val::Top(*t, self.id(IdKey::Field(o, 0, i as u32)))).collect()),
            TyKind::RigidTy(RigidTy::Array(_, n)) if n.eval_target_usize().unwrap_or(1000) <= 64 =>
                Val::agg(self.fields(ty, 0).iter().enumerate().map(|(i, t)| Val::Top(*t, self.id(IdKey::Field(o, 0, i as u32)))).collect()),
            TyKind::RigidTy(RigidTy::FnDef(..)) => Val::Zst,
            _ => v.clone(),
        }
    }
    pub fn expand_var(&self, ty: Ty, o: Id, variant: u32) -> Val {
        if &*info(ty).name == "std::borrow::Cow" { self.cows.borrow_mut().insert(o); }
        Val::var(variant, self.fields(ty, variant).iter().enumerate().map(|(i, t)| Val::Top(*t, self.id(IdKey::Field(o, variant, i as u32)))).collect())
    }
    pub fn expand_ptr(&self, t: Ty, o: Id) -> Val {
        if is_bytes(t) {
            let utf8 = matches!(t.kind(), TyKind::RigidTy(RigidTy::Str));
            let b = self.buf_sym(o, utf8);
            return Val::View(View { buf: b, s: Lin::k(0), e: Lin::sym(self.len_id(o)) });
        }
        let c = self.cell_deref(o, t);
        Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] })
    }
    pub fn alarm(&self, kind: &str, func: &str, what: &str, loc: &str) {
        if self.quiet.get() > 0 { return }
        let chain = self.callstack.borrow().iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" > ");
        let a = Alarm { kind: kind.into(), func: func.into(), what: what.into(), loc: loc.into(), chain };
        *self.alarms.borrow_mut().entry(a).or_default() += 1;
    }
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum StdKind { Str, Vec, Map, Heap, None }
pub fn std_kind(name: &str) -> StdKind {
    match name {
        "std::string::String" | "alloc::string::String" => StdKind::Str,
        "std::vec::Vec" | "alloc::vec::Vec" => StdKind::Vec,
        "std::collections::HashMap" | "std::collections::hash_map::HashMap" | "std::collections::BTreeMap" | "std::collections::HashSet" | "std::collections::BTreeSet" => StdKind::Map,
        "std::collections::BinaryHeap" | "std::collections::binary_heap::BinaryHeap" => StdKind::Heap,
        _ => StdKind::None,
    }
}

impl State {
    pub fn new() -> State {
        State { frames: vec![], heap: Default::default(), dom: Default::default(), facts: Default::default(), tape: Default::default(), bnd: Default::default(), ghost: Default::default(), trace: Default::default(), taint: Default::default() }
    }

    // ---- domains and facts -------------------------------------------------
    pub fn domain(&self, cx: &Cx, i: Id) -> Dom { match self.dom.get(&i) { Some(d) => d.clone(), None => cx.dom0(i) } }
    pub fn set_dom(&mut self, i: Id, d: Dom) { Rc::make_mut(&mut self.dom).insert(i, d); }
    pub fn set_of(&self, cx: &Cx, i: Id) -> Set {
        match self.domain(cx, i) { Dom::S(s) => s, Dom::R(a, b) => Set::from_fn(|x| (x as i128) >= a && (x as i128) <= b) }
    }
    pub fn norm(&self, cx: &Cx, l: &Lin) -> Lin {
        let mut r = l.clone();
        for (s, _) in &l.t { if let Some(v) = self.domain(cx, *s).single() { r = r.subst(*s, &Lin::k(v)) } }
        r
    }
    pub fn min(&self, cx: &Cx, l: &Lin) -> i128 {
        let mut m = l.k;
        for (s, c) in &l.t {
            let d = self.domain(cx, *s);
            let b = if *c > 0 { d.min() } else { d.max() };
            if b <= NEG_INF || b >= POS_INF { return NEG_INF }
            m += c * b;
        }
        m
    }
    pub fn max(&self, cx: &Cx, l: &Lin) -> i128 {
        let m = self.min(cx, &l.neg());
        if m <= NEG_INF { POS_INF } else { -m }
    }
    /// Facts implied by the byte tape: a byte that was read exists, and in
    /// UTF-8 text the whole character it starts exists.
    fn tape_facts(&self, cx: &Cx, out: &mut Vec<Lin>) {
        for ((b, p), s) in self.tape.iter() {
            let bi = cx.bufs.borrow()[*b as usize].clone();
            let mut w = 1;
            if bi.utf8 {
                if let Dom::S(set) = self.domain(cx, *s) {
                    w = set.iter().map(|c| width(c)).min().unwrap_or(1).max(1);
                }
            }
            out.push(bi.end.sub(p).addk(-(w as i128)));
        }
    }
    pub fn prove(&self, cx: &Cx, l: &Lin) -> bool {
        let l = self.norm(cx, l);
        if self.min(cx, &l) >= 0 { return true }
        if l.t.is_empty() { return false }
        let mut facts: Vec<Lin> = self.facts.iter().cloned().collect();
        self.tape_facts(cx, &mut facts);
        let facts: Vec<Lin> = facts.into_iter().map(|f| self.norm(cx, &f)).filter(|f| !f.t.is_empty()).collect();
        self.prove_d(cx, &l, &facts, 4, &mut 4000)
    }
    fn prove_d(&self, cx: &Cx, l: &Lin, facts: &[Lin], depth: u32, fuel: &mut i32) -> bool {
        if self.min(cx, l) >= 0 { return true }
        if depth == 0 || *fuel <= 0 { return false }
        *fuel -= 1;
        // pick a symbol of l and a fact cancelling it
        for (s, c) in &l.t {
            for f in facts {
                if let Some((_, fc)) = f.t.iter().find(|x| x.0 == *s) {
                    if (*fc > 0) == (*c > 0) && c % fc == 0 {
                        let l2 = l.comb(-(c / fc), f);
                        // avoid growing
                        if l2.t.len() > l.t.len() + 1 || l2.t.len() > 6 { continue }
                        if self.prove_d(cx, &l2, facts, depth - 1, fuel) { return true }
                    }
                }
            }
        }
        false
    }
    pub fn prove_eq0(&self, cx: &Cx, l: &Lin) -> bool {
        let l = self.norm(cx, l);
        if let Some(k) = l.is_const() { return k == 0 }
        self.prove(cx, &l) && self.prove(cx, &l.neg())
    }
    /// Add the fact l >= 0. Returns false if that is contradictory.
    pub fn assume_ge0(&mut self, cx: &Cx, l: &Lin) -> bool {
        let l = self.norm(cx, l);
        if let Some(k) = l.is_const() { return k >= 0 }
        if self.prove(cx, &l.neg().addk(-1)) { return false }
        if self.min(cx, &l) >= 0 { return true }
        // tighten intervals
        for (s, c) in &l.t {
            let rest = Lin { k: l.k, t: l.t.iter().filter(|x| x.0 != *s).cloned().collect() };
            let m = self.max(cx, &rest);
            if m >= POS_INF { continue }
            // c*s >= -m
            let d = self.domain(cx, *s);
            let nd = match d {
                Dom::R(a, b) => if *c > 0 { Dom::R(a.max(div_ceil(-m, *c)), b) } else { Dom::R(a, b.min(div_floor(m, -*c))) },
                Dom::S(ref set) => Dom::S(Set::from_fn(|x| set.has(x) && c * (x as i128) + m >= 0)),
            };
            if nd.empty() { return false }
            if nd != d { self.set_dom(*s, nd) }
        }
        if l.t.len() > 1 && !self.facts.contains(&l) {
            // drop facts implied by the same expression with a weaker constant
            let fs = Rc::make_mut(&mut self.facts);
            let mut weaker = false;
            fs.retain(|f| !(f.t == l.t && f.k >= l.k));
            if fs.iter().any(|f| f.t == l.t && f.k <= l.k) { weaker = true }
            if !weaker { fs.push(l) }
        }
        true
    }
    pub fn assume_in(&mut self, cx: &Cx, i: Id, s: &Set) -> bool {
        match self.domain(cx, i) {
            Dom::S(d) => {
                let n = d.and(s);
                if n.is_empty() { return false }
                if n != d { self.set_dom(i, Dom::S(n)) }
                self.after_byte(cx, i)
            }
            Dom::R(a, b) => {
                let lo = (a.max(0)..=b.min(255)).find(|x| s.has(*x as usize));
                let hi = (a.max(0)..=b.min(255)).rev().find(|x| s.has(*x as usize));
                match (lo, hi) { (Some(l), Some(h)) => { self.set_dom(i, Dom::R(l, h)); true } _ => false }
            }
        }
    }
    /// Consistency of a refined byte with the length of its buffer.
    fn after_byte(&mut self, _cx: &Cx, _i: Id) -> bool { true }

    /// All feasible ways in which `c` has truth value `want`.
    pub fn assume(&self, cx: &Cx, c: &Cond, want: bool) -> Vec<State> {
        match c {
            Cond::K(b) => if *b == want { vec![self.clone()] } else { vec![] },
            Cond::In(i, s) => {
                let s = if want { s.clone() } else { s.not() };
                let mut n = self.clone();
                if n.assume_in(cx, *i, &s) { vec![n] } else { vec![] }
            }
            Cond::Ge0(l) => {
                let l = if want { l.clone() } else { l.neg().addk(-1) };
                let mut n = self.clone();
                if n.assume_ge0(cx, &l) { vec![n] } else { vec![] }
            }
            Cond::Eq0(l) => {
                let l = self.norm(cx, l);
                if want {
                    if let Some((s, k)) = l.as_sym_off().or_else(|| l.neg().as_sym_off()) {
                        if let Dom::S(_) = self.domain(cx, s) {
                            let v = -k;
                            let mut n = self.clone();
                            return if (0..256).contains(&v) && n.assume_in(cx, s, &Set::one(v as usize)) { vec![n] } else { vec![] };
                        }
                    }
                    let mut n = self.clone();
                    if n.assume_ge0(cx, &l) && n.assume_ge0(cx, &l.neg()) { vec![n] } else { vec![] }
                } else {
                    if let Some((s, k)) = l.as_sym_off().or_else(|| l.neg().as_sym_off()) {
                        if let Dom::S(_) = self.domain(cx, s) {
                            let v = -k;
                            let mut n = self.clone();
                            if !(0..256).contains(&v) { return vec![n] }
                            return if n.assume_in(cx, s, &Set::one(v as usize).not()) { vec![n] } else { vec![] };
                        }
                    }
                    let mut r = vec![];
                    for x in [l.addk(-1), l.neg().addk(-1)] {
                        let mut n = self.clone();
                        if n.assume_ge0(cx, &x) { r.push(n) }
                    }
                    r
                }
            }
            Cond::Not(c) => self.assume(cx, c, !want),
            Cond::And(a, b) | Cond::Or(a, b) => {
                let is_and = matches!(c, Cond::And(..));
                if is_and == want {
                    self.assume(cx, a, want).into_iter().flat_map(|s| s.assume(cx, b, want)).collect()
                } else {
                    // (a is want) or (a is !want and b is want)
                    let mut r = self.assume(cx, a, want);
                    for s in self.assume(cx, a, !want) { r.extend(s.assume(cx, b, want)) }
                    r
                }
            }
        }
    }
    /// Decide a condition or fork.
    pub fn decide(&mut self, cx: &Cx, c: &Cond) -> R<bool> {
        if let Cond::K(b) = c { return Ok(*b) }
        let mut t = self.assume(cx, c, true);
        let f = self.assume(cx, c, false);
        match (t.is_empty(), f.is_empty()) {
            (true, true) => Err(Stop::Dead),
            (true, false) => Ok(false),
            (false, true) => Ok(true),
            _ => {
                t.extend(f);
                if t.len() == 2 || true { Err(Stop::Fork(t)) } else { unreachable!() }
            }
        }
    }
    /// Is the condition decided in this state?
    pub fn known(&self, cx: &Cx, c: &Cond) -> Option<bool> {
        match c {
            Cond::K(b) => return Some(*b),
            Cond::In(i, s) => {
                let d = self.set_of(cx, *i);
                if d.subset(s) { return Some(true) }
                if d.and(s).is_empty() { return Some(false) }
                return None;
            }
            Cond::Ge0(l) => {
                if self.prove(cx, l) { return Some(true) }
                if self.prove(cx, &l.neg().addk(-1)) { return Some(false) }
                return None;
            }
            _ => {}
        }
        let t = !self.assume(cx, c, true).is_empty();
        let f = !self.assume(cx, c, false).is_empty();
        match (t, f) { (true, false) => Some(true), (false, true) => Some(false), _ => None }
    }

    // ---- bytes -------------------------------------------------------------
    pub fn add_bnd(&mut self, b: BufId, p: Lin) { if !self.bnd.contains(&(b, p.clone())) { Rc::make_mut(&mut self.bnd).insert((b, p)); } }

    pub fn is_boundary(&self, cx: &Cx, b: BufId, p: &Lin) -> bool {
        let bi = cx.bufs.borrow()[b as usize].clone();
        let p = self.norm(cx, p);
        if let BufKind::Const(v) = &bi.kind {
            return match (p.is_const(), std::str::from_utf8(v)) { (Some(k), Ok(s)) => k >= 0 && s.is_char_boundary(k as usize), _ => false };
        }
        if !bi.utf8 { return false }
        if p.is_const() == Some(0) || p == self.norm(cx, &bi.end) || self.bnd.contains(&(b, p.clone())) { return true }
        let byte = |q: &Lin| self.tape.get(&(b, q.clone())).map(|s| self.set_of(cx, *s));
        if let Some(s) = byte(&p) { if s.and(&Set::range(0x80, 0xBF)).is_empty() { return true } }
        for d in 1..=4i128 {
            if let Some(s) = byte(&p.addk(-d)) {
                if !s.is_empty() && s.iter().all(|c| width(c) == d) { return true }
            }
        }
        // provably equal to a known boundary
        if self.prove_eq0(cx, &bi.end.sub(&p)) { return true }
        for (bb, q) in self.bnd.iter() {
            if *bb == b {
                let dl = p.sub(q);
                if dl.t.len() <= 3 && !dl.t.is_empty() && self.prove_eq0(cx, &dl) { return true }
                // q boundary, byte at q known, p = q + d checked above through tape
            }
        }
        false
    }

    pub fn byte_at(&mut self, cx: &Cx, b: BufId, p: &Lin) -> Val {
        let p = self.norm(cx, p);
        let bi = cx.bufs.borrow()[b as usize].clone();
        if let BufKind::Const(v) = &bi.kind {
            if let Some(k) = p.is_const() { if k >= 0 && (k as usize) < v.len() { return Val::k(v[k as usize] as i128) } }
            let mut s = Set::empty();
            for c in v.iter() { s.add(*c as usize) }
            let i = cx.fresh_dom("cbyte", Dom::S(if s.is_empty() { Set::full() } else { s }));
            return Val::Int(Lin::sym(i));
        }
        if let Some(s) = self.tape.get(&(b, p.clone())) { return Val::Int(Lin::sym(*s)) }
        // provably equal position?
        for ((bb, q), s) in self.tape.iter() {
            if *bb == b {
                let dl = p.sub(q);
                if dl.t.len() >= 1 && dl.t.len() <= 3 && self.prove_eq0(cx, &dl) { return Val::Int(Lin::sym(*s)) }
            }
        }
        let mut set = Set::full();
        if bi.utf8 {
            let lead = Set::range(0, 0x7F).or(&Set::range(0xC2, 0xF4));
            let cont = Set::range(0x80, 0xBF);
            set = lead.or(&cont);
            if self.is_boundary(cx, b, &p) {
                set = lead;
                // enough room for the character?
                let room = bi.end.sub(&p);
                for w in 1..4i128 {
                    if self.prove(cx, &Lin::k(w).sub(&room)) { set = Set::from_fn(|c| set.has(c) && width(c) <= w); break }
                }
            } else {
                for d in 1..=3i128 {
                    let q = p.addk(-d);
                    if let Some(s) = self.tape.get(&(b, q.clone())) {
                        let s = self.set_of(cx, *s);
                        if !s.is_empty() && s.iter().all(|c| width(c) > d) { set = cont.clone(); if d == 1 {
                            // second byte ranges
                            if let Some(one) = s.single() { set = match one { 0xE0 => Set::range(0xA0, 0xBF), 0xED => Set::range(0x80, 0x9F), 0xF0 => Set::range(0x90, 0xBF), 0xF4 => Set::range(0x80, 0x8F), _ => cont.clone() } }
                        } break }
                    }
                }
            }
        }
        let i = cx.fresh_dom("byte", Dom::S(set));
        Rc::make_mut(&mut self.tape).insert((b, p), i);
        Val::Int(Lin::sym(i))
    }

    // ---- memory ------------------------------------------------------------
    pub fn root_val(&self, cx: &Cx, r: Root) -> Val {
        match r {
            Root::Local(d, l) => match self.frames.get(d as usize) { Some(f) => f[l as usize].clone(), None => Val::Undef },
            Root::Cell(c) => match self.heap.get(&c) {
                Some(v) => v.clone(),
                None => match &cx.cells.borrow()[c as usize] { CellInit::Top(t, i) => Val::Top(*t, *i), CellInit::Val(v) => v.clone() },
            },
        }
    }
    pub fn read(&self, cx: &Cx, r: Root, path: &[Pe]) -> R<Val> {
        let mut v = self.root_val(cx, r);
        let mut i = 0;
        while i < path.len() {
            v = match (&v, path[i]) {
                (Val::Agg(a), Pe::F(k)) => match a.get(k as usize) { Some(x) => x.clone(), None => return Err(Stop::Unsup("field index".into())) },
                (Val::Var(w, a), Pe::V(k)) => {
                    if *w != k { return Err(Stop::Dead) }
                    // keep as aggregate of the variant's fields
                    Val::Agg(a.clone())
                }
                (Val::Var(_, a), Pe::F(k)) => match a.get(k as usize) { Some(x) => x.clone(), None => return Err(Stop::Unsup("variant field index".into())) },
                (Val::Top(ty, o), Pe::V(k)) => {
                    if cx.num_variants(*ty) <= 1 && k != 0 { return Err(Stop::Unsup("downcast".into())) }
                    let s = self.set_of(cx, cx.disc_id(*ty, *o));
                    if !s.has(k as usize) { return Err(Stop::Dead) }
                    match cx.expand_var(*ty, *o, k) { Val::Var(_, a) => Val::Agg(a), _ => unreachable!() }
                }
                (Val::Top(..), Pe::F(k)) => {
                    let x = cx.expand(&v);
                    match x {
                        Val::Agg(a) => match a.get(k as usize) { Some(x) => x.clone(), None => return Err(Stop::Unsup("field of top".into())) },
                        Val::Ptr(_) | Val::View(_) => x,
                        Val::Obj(_) => return Err(Stop::Unsup(format!("field of std object"))),
                        Val::Top(ty, o) => {
                            // union or opaque
                            let id = cx.id(IdKey::Field(o, 0, k));
                            let fs = cx.fields(ty, 0);
                            match fs.get(k as usize) { Some(t) => Val::Top(*t, id), None => return Err(Stop::Unsup("field of opaque".into())) }
                        }
                        Val::Var(_, a) => a[k as usize].clone(),
                        _ => return Err(Stop::Unsup("field of scalar".into())),
                    }
                }
                (Val::Ptr(_) | Val::View(_) | Val::BPtr(..), Pe::F(_)) => v.clone(), // Box/Unique/NonNull newtypes
                (Val::Obj(o), Pe::E(k)) => match &**o {
                    Obj::Vec { elems, .. } => match elems.get(k as usize) { Some(x) => x.clone(), None => return Err(Stop::Unsup("vec elem".into())) },
                    _ => return Err(Stop::Unsup("elem".into())),
                },
                (Val::Int(_) | Val::Bool(_) | Val::Tab(..), Pe::F(0)) => v.clone(), // NonZero and the like
                (Val::Undef, _) => return Err(Stop::Unsup("read of undefined".into())),
                (v, p) => return Err(Stop::Unsup(format!("read {:?} of {:?}", p, v))),
            };
            i += 1;
        }
        Ok(v)
    }
    pub fn write(&mut self, cx: &Cx, r: Root, path: &[Pe], val: Val) -> R<()> {
        if path.is_empty() {
            self.set_root(r, val);
            return Ok(());
        }
        let mut root = self.root_val(cx, r);
        // release our reference to avoid copying
        self.write_in(cx, &mut root, path, val)?;
        self.set_root(r, root);
        Ok(())
    }
    fn set_root(&mut self, r: Root, v: Val) {
        match r {
            Root::Local(d, l) => { let f = Rc::make_mut(&mut self.frames[d as usize]); f[l as usize] = v; }
            Root::Cell(c) => { Rc::make_mut(&mut self.heap).insert(c, v); }
        }
    }
    fn write_in(&self, cx: &Cx, v: &mut Val, path: &[Pe], val: Val) -> R<()> {
        if path.is_empty() { *v = val; return Ok(()) }
        if let (Val::Top(ty, o), Pe::V(k)) = (&*v, path[0]) {
            *v = cx.expand_var(*ty, *o, k);
            if let Val::Var(_, a) = v { let a = Rc::make_mut(a); return self.write_fields(cx, a, &path[1..], val, v_dummy()); }
        }
        if let Val::Top(..) = v { let x = cx.expand(v); if let Val::Top(ty, o) = &x {
            // opaque (union): treat as aggregate
            let fs = cx.fields(*ty, 0);
            *v = Val::agg(fs.iter().enumerate().map(|(i, t)| Val::Top(*t, cx.id(IdKey::Field(*o, 0, i as u32)))).collect());
        } else { *v = x } }
        match (v, path[0]) {
            (Val::Agg(a), Pe::F(k)) => {
                let a = Rc::make_mut(a);
                while a.len() <= k as usize { a.push(Val::Undef) }
                self.write_in(cx, &mut a[k as usize], &path[1..], val)
            }
            (Val::Var(w, a), Pe::V(k)) => {
                if *w != k { return Err(Stop::Dead) }
                let a = Rc::make_mut(a);
                self.write_fields(cx, a, &path[1..], val, ())
            }
            (Val::Obj(o), Pe::E(k)) => match Rc::make_mut(o) {
                Obj::Vec { elems, .. } if (k as usize) < elems.len() => self.write_in(cx, &mut elems[k as usize], &path[1..], val),
                _ => Err(Stop::Unsup("write elem".into())),
            },
            (v @ Val::Undef, Pe::F(k)) => {
                let mut a = vec![Val::Undef; k as usize + 1];
                self.write_in(cx, &mut a[k as usize], &path[1..], val)?;
                *v = Val::agg(a);
                Ok(())
            }
            (v, p) => Err(Stop::Unsup(format!("write {:?} into {:?}", p, v))),
        }
    }
    fn write_fields(&self, cx: &Cx, a: &mut Vec<Val>, path: &[Pe], val: Val, _d: ()) -> R<()> {
        match path.first() {
            Some(Pe::F(k)) => {
                while a.len() <= *k as usize { a.push(Val::Undef) }
                self.write_in(cx, &mut a[*k as usize], &path[1..], val)
            }
            None => Err(Stop::Unsup("write whole variant".into())),
            _ => Err(Stop::Unsup("write variant".into())),
        }
    }
    pub fn depth(&self) -> u32 { self.frames.len() as u32 - 1 }
    pub fn set_local(&mut self, l: usize, v: Val) { let d = self.frames.len() - 1; Rc::make_mut(&mut self.frames[d])[l] = v; }

    pub fn ghost_get(&self, k: &'static str) -> Val { self.ghost.get(k).cloned().unwrap_or(Val::Undef) }
    pub fn ghost_set(&mut self, k: &'static str, v: Val) { Rc::make_mut(&mut self.ghost).insert(k, v); }
    pub fn tr(&mut self, tag: u32, v: Val) { Rc::make_mut(&mut self.trace).push((tag, v)); }
}

fn v_dummy() {}

pub fn width(c: usize) -> i128 {
    match c { 0..=0x7F => 1, 0xC2..=0xDF => 2, 0xE0..=0xEF => 3, 0xF0..=0xF4 => 4, _ => 0 }
}
pub fn div_floor(a: i128, b: i128) -> i128 { a.div_euclid(b) }
pub fn div_ceil(a: i128, b: i128) -> i128 { -((-a).div_euclid(b)) }
