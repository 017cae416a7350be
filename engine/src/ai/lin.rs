//! Linear expressions over symbols, and finite / interval value domains.
use std::fmt;

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(Id, i128)>,
}

impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (s, c) in &self.t {
            if *c == 1 { write!(f, "{}s{}", if first { "" } else { "+" }, s)?; }
            else if *c == -1 { write!(f, "-s{}", s)?; }
            else { write!(f, "{}{}*s{}", if first || *c < 0 { "" } else { "+" }, c, s)?; }
            first = false;
        }
        if first { write!(f, "{}", self.k) }
        else if self.k > 0 { write!(f, "+{}", self.k) }
        else if self.k < 0 { write!(f, "{}", self.k) }
        else { Ok(()) }
    }
}

impl Lin {
    pub fn k(k: i128) -> Lin { Lin { k, t: vec![] } }
    pub fn sym(s: Id) -> Lin { Lin { k: 0, t: vec![(s, 1)] } }
    pub fn is_const(&self) -> Option<i128> { if self.t.is_empty() { Some(self.k) } else { None } }
    pub fn as_sym(&self) -> Option<Id> { if self.k == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None } }
    pub fn as_sym_off(&self) -> Option<(Id, i128)> { if self.t.len() == 1 && self.t[0].1 == 1 { Some((self.t[0].0, self.k)) } else { None } }
    pub fn addk(&self, k: i128) -> Lin { Lin { k: self.k + k, t: self.t.clone() } }
    pub fn scale(&self, c: i128) -> Lin {
        if c == 0 { return Lin::k(0) }
        Lin { k: self.k * c, t: self.t.iter().map(|(s, x)| (*s, x * c)).collect() }
    }
    pub fn neg(&self) -> Lin { self.scale(-1) }
    pub fn comb(&self, c: i128, o: &Lin) -> Lin {
        // self + c*o
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, c * o.t[j].1)); j += 1; }
            else {
                let v = self.t[i].1 + c * o.t[j].1;
                if v != 0 { t.push((self.t[i].0, v)); }
                i += 1; j += 1;
            }
        }
        Lin { k: self.k + c * o.k, t }
    }
    pub fn add(&self, o: &Lin) -> Lin { self.comb(1, o) }
    pub fn sub(&self, o: &Lin) -> Lin { self.comb(-1, o) }
    pub fn subst(&self, s: Id, e: &Lin) -> Lin {
        match self.t.iter().find(|x| x.0 == s) {
            None => self.clone(),
            Some(&(_, c)) => {
                let mut r = self.clone();
                r.t.retain(|x| x.0 != s);
                r.comb(c, e)
            }
        }
    }
    /// Simultaneous renaming / substitution.
    pub fn map(&self, f: &mut dyn FnMut(Id) -> Option<Lin>) -> Lin {
        let mut r = Lin::k(self.k);
        for (s, c) in &self.t {
            match f(*s) { Some(l) => r = r.comb(*c, &l), None => r = r.comb(*c, &Lin::sym(*s)) }
        }
        r
    }
}

pub const NEG_INF: i128 = -(1i128 << 100);
pub const POS_INF: i128 = 1i128 << 100;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Set(pub [u64; 4]);

impl fmt::Debug for Set {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{{")?;
        let mut i = 0;
        let mut first = true;
        while i < 256 {
            if self.has(i) {
                let mut j = i;
                while j + 1 < 256 && self.has(j + 1) { j += 1 }
                if !first { write!(f, ",")? }
                first = false;
                let sh = |c: usize| if (0x21..0x7f).contains(&c) { format!("'{}'", c as u8 as char) } else { format!("{:#x}", c) };
                if j == i { write!(f, "{}", sh(i))? } else { write!(f, "{}-{}", sh(i), sh(j))? }
                i = j;
            }
            i += 1;
        }
        write!(f, "}}")
    }
}

impl Set {
    pub fn empty() -> Set { Set([0; 4]) }
    pub fn full() -> Set { Set([!0; 4]) }
    pub fn one(i: usize) -> Set { let mut s = Set::empty(); s.add(i); s }
    pub fn range(a: usize, b: usize) -> Set { let mut s = Set::empty(); for i in a..=b { s.add(i) } s }
    pub fn upto(n: usize) -> Set { if n == 0 { Set::empty() } else { Set::range(0, n - 1) } }
    pub fn from_fn(f: impl Fn(usize) -> bool) -> Set { let mut s = Set::empty(); for i in 0..256 { if f(i) { s.add(i) } } s }
    pub fn add(&mut self, i: usize) { self.0[i >> 6] |= 1 << (i & 63) }
    pub fn has(&self, i: usize) -> bool { i < 256 && self.0[i >> 6] >> (i & 63) & 1 == 1 }
    pub fn and(&self, o: &Set) -> Set { Set([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) }
    pub fn or(&self, o: &Set) -> Set { Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) }
    pub fn not(&self) -> Set { Set([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) }
    pub fn is_empty(&self) -> bool { self.0 == [0; 4] }
    pub fn subset(&self, o: &Set) -> bool { self.and(&o.not()).is_empty() }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ { (0..256).filter(move |i| self.has(*i)) }
    pub fn count(&self) -> u32 { self.0.iter().map(|x| x.count_ones()).sum() }
    pub fn min(&self) -> Option<usize> { self.iter().next() }
    pub fn max(&self) -> Option<usize> { (0..256).rev().find(|i| self.has(*i)) }
    pub fn single(&self) -> Option<usize> { if self.count() == 1 { self.min() } else { None } }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Dom {
    S(Set),
    R(i128, i128),
}

impl fmt::Debug for Dom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Dom::S(s) => write!(f, "{:?}", s),
            Dom::R(a, b) => {
                if *a <= NEG_INF { write!(f, "[-inf,")? } else { write!(f, "[{},", a)? }
                if *b >= POS_INF { write!(f, "inf]") } else { write!(f, "{}]", b) }
            }
        }
    }
}

impl Dom {
    pub fn min(&self) -> i128 { match self { Dom::S(s) => s.min().map(|x| x as i128).unwrap_or(0), Dom::R(a, _) => *a } }
    pub fn max(&self) -> i128 { match self { Dom::S(s) => s.max().map(|x| x as i128).unwrap_or(0), Dom::R(_, b) => *b } }
    pub fn empty(&self) -> bool { match self { Dom::S(s) => s.is_empty(), Dom::R(a, b) => a > b } }
    pub fn single(&self) -> Option<i128> { match self { Dom::S(s) => s.single().map(|x| x as i128), Dom::R(a, b) => if a == b { Some(*a) } else { None } } }
    pub fn subset(&self, o: &Dom) -> bool {
        match (self, o) {
            (Dom::S(a), Dom::S(b)) => a.subset(b),
            _ => self.empty() || (self.min() >= o.min() && self.max() <= o.max() && !matches!(o, Dom::S(_))),
        }
    }
    pub fn union(&self, o: &Dom) -> Dom {
        match (self, o) {
            (Dom::S(a), Dom::S(b)) => Dom::S(a.or(b)),
            _ => Dom::R(self.min().min(o.min()), self.max().max(o.max())),
        }
    }
}
