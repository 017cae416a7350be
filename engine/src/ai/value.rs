//! Abstract values.
use super::lin::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::rc::Rc;

pub type BufId = u32;
pub type CellId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Root {
    Local(u32, u32),
    Cell(CellId),
}

/// Path element inside a memory cell.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Pe {
    F(u32), // field / array element
    V(u32), // downcast
    E(u32), // element of the known part of a modelled Vec
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ptr {
    pub root: Root,
    pub path: Vec<Pe>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct View {
    pub buf: BufId,
    pub s: Lin,
    pub e: Lin,
}

impl View {
    pub fn len(&self) -> Lin { self.e.sub(&self.s) }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    K(bool),
    In(Id, Set),
    Ge0(Lin),
    Eq0(Lin),
    Not(Rc<Cond>),
    And(Rc<Cond>, Rc<Cond>),
    Or(Rc<Cond>, Rc<Cond>),
}

impl Cond {
    pub fn not(self) -> Cond {
        match self {
            Cond::K(b) => Cond::K(!b),
            Cond::In(i, s) => Cond::In(i, s.not()),
            Cond::Ge0(l) => Cond::Ge0(l.neg().addk(-1)),
            Cond::Not(c) => (*c).clone(),
            c => Cond::Not(Rc::new(c)),
        }
    }
    pub fn and(self, o: Cond) -> Cond {
        match (self, o) {
            (Cond::K(false), _) | (_, Cond::K(false)) => Cond::K(false),
            (Cond::K(true), c) | (c, Cond::K(true)) => c,
            (Cond::In(a, s), Cond::In(b, t)) if a == b => Cond::In(a, s.and(&t)),
            (a, b) => Cond::And(Rc::new(a), Rc::new(b)),
        }
    }
    pub fn or(self, o: Cond) -> Cond {
        match (self, o) {
            (Cond::K(true), _) | (_, Cond::K(true)) => Cond::K(true),
            (Cond::K(false), c) | (c, Cond::K(false)) => c,
            (Cond::In(a, s), Cond::In(b, t)) if a == b => Cond::In(a, s.or(&t)),
            (a, b) => Cond::Or(Rc::new(a), Rc::new(b)),
        }
    }
}

/// Modelled standard library objects.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Obj {
    /// Vec<T> (T not u8): unknown prefix (identity, length) and known suffix.
    Vec { ty: Ty, base: Option<(Id, Lin)>, elems: Vec<Val> },
    /// String / Vec<u8>.
    Str { len: Lin, utf8: bool, marks: Vec<Lin>, src: Option<View>, id: Id },
    /// HashMap: opaque base and the log of modifications since.
    Map { ty: Ty, base: Id, log: Vec<(u8, Val, Val)> },
    /// BinaryHeap / any queue of tokens: length only; contents are ghost events.
    Heap { ty: Ty, id: Id, len: Lin },
    /// Iterator over the bytes of a view (kind 0: &u8, 1: u8), or chars (2), char_indices (3), enumerate of 0/1 (4/5, with base)
    Iter { kind: u8, view: View, base: Lin },
    /// Any other opaque object with an identity and captured values.
    Other { tag: &'static str, ty: Ty, vals: Vec<Val> },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Undef,
    Top(Ty, Id),
    Int(Lin),
    Tab(Id, Rc<Vec<i128>>),
    Bool(Cond),
    Agg(Rc<Vec<Val>>),
    Var(u32, Rc<Vec<Val>>),
    Ptr(Ptr),
    View(View),
    BPtr(BufId, Lin),
    Fn(Instance),
    Zst,
    Obj(Rc<Obj>),
}

impl Val {
    pub fn k(k: i128) -> Val { Val::Int(Lin::k(k)) }
    pub fn b(b: bool) -> Val { Val::Bool(Cond::K(b)) }
    pub fn agg(v: Vec<Val>) -> Val { Val::Agg(Rc::new(v)) }
    pub fn var(i: u32, v: Vec<Val>) -> Val { Val::Var(i, Rc::new(v)) }
    pub fn obj(o: Obj) -> Val { Val::Obj(Rc::new(o)) }
    pub fn unit() -> Val { Val::agg(vec![]) }
    pub fn none() -> Val { Val::var(0, vec![]) }
    pub fn some(v: Val) -> Val { Val::var(1, vec![v]) }
    pub fn ok(v: Val) -> Val { Val::var(0, vec![v]) }
    pub fn err(v: Val) -> Val { Val::var(1, vec![v]) }
}
