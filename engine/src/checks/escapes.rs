//! P18: escape sequences decode to the characters YAML assigns them.
use super::floor;
use crate::ai::*;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// What the hooks note about the output buffer and encoded characters.
#[derive(Default)]
struct Notes { scratch: Option<CellId>, chars: BTreeMap<BufId, Lin> }
struct H(Rc<RefCell<Notes>>);

fn root_cell(cx: &Cx, v: &Val) -> Option<CellId> { match cx.expand(v) { Val::Ptr(Ptr { root: Root::Cell(c), path }) if path.is_empty() => Some(c), _ => None } }

impl Hooks for H {
    fn call(&self, cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        if name.starts_with("yary::") || name.starts_with("<yary::") || args.is_empty() { return None }
        let last = name.rsplit("::").next().unwrap_or("");
        if name.contains("<impl char>::") && last == "encode_utf8" {
            let l = match cx.expand(&args[0]) { Val::Int(l) => l, x => match crate::ai::to_lin(cx, st, &x) { Ok(l) => l, Err(e) => return Some(Err(e)) } };
            let r = crate::ai::models::call(cx, st, name, inst, args, ret);
            if let Some(Ok(v)) = &r { for (_, v) in v { if let Val::View(w) = v { self.0.borrow_mut().chars.insert(w.buf, l.clone()); } } }
            // keeps the symbols of the value alive
            st.tr(3, Val::Int(l));
            let r = r.map(|r| r.map(|v| v.into_iter().map(|(mut s, v)| { s.tr(3, st.trace.last().unwrap().1.clone()); (s, v) }).collect()));
            return r;
        }
        let to = root_cell(cx, &args[0]);
        if to.is_none() || to != self.0.borrow().scratch { return None }
        match last {
            "len" | "capacity" | "reserve" | "is_empty" | "as_slice" | "deref" | "deref_mut" | "as_ptr" | "as_mut_ptr" => None,
            "push" => {
                // a byte of an encoded character is kept as such
                let l = match cx.expand(&args[1]) { Val::Int(l) => l.as_sym(), _ => None };
                let of = l.and_then(|i| { let n = self.0.borrow(); st.tape.iter().find(|((b, _), s)| **s == i && n.chars.contains_key(b)).map(|((b, p), _)| View { buf: *b, s: p.clone(), e: p.addk(1) }) });
                match of { Some(w) => st.tr(2, Val::View(w)), None => st.tr(1, args[1].clone()) }
                Some(Ok(vec![(st.clone(), Val::unit())]))
            }
            "extend" => {
                let w = match cx.expand(&args[1]) { Val::Obj(o) => match &*o { Obj::Iter { kind: 0 | 1, view, .. } => Ok(view.clone()), _ => Err(Stop::Unsup("output extended by an iterator".into())) }, _ => crate::ai::models::as_view(cx, st, &args[1]) };
                match w { Ok(w) => { st.tr(2, Val::View(w)); Some(Ok(vec![(st.clone(), Val::unit())])) } Err(e) => Some(Err(e)) }
            }
            "extend_from_slice" => match crate::ai::models::as_view(cx, st, &args[1]) {
                Ok(w) => { st.tr(2, Val::View(w)); Some(Ok(vec![(st.clone(), Val::unit())])) }
                Err(e) => Some(Err(e)),
            },
            _ => { *cx.unsup.borrow_mut().entry(format!("output written through {}", name)).or_default() += 1; None }
        }
    }
    fn on_head(&self, _cx: &Cx, st: &mut State, _name: &str, _bb: usize) -> bool {
        let n = match st.ghost_get("visits") { Val::Int(l) => l.k, _ => 0 };
        st.ghost_set("visits", Val::k(n + 1));
        n < 60
    }
    fn skeleton(&self, _cx: &Cx, st: &State) -> u64 {
        let n = match st.ghost_get("visits") { Val::Int(l) => l.k as u64, _ => 0 };
        n * 64 + st.trace.len() as u64
    }
}

/// One written byte or character.
#[derive(Clone, Debug)]
enum Out { Byte(Lin), Char(Lin), Unknown }

struct Run { cx: Cx, notes: Rc<RefCell<Notes>>, buf: BufId, rets: Vec<(State, Val)> }

fn is_str_ref(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, t, _)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Str))) }
fn is_bytes_ref(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, t, rustc_public::mir::Mutability::Mut)) if &*info(t).name == "std::vec::Vec" && match t.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => matches!(a.0.first(), Some(GenericArgKind::Type(t)) if is_u8(*t)), _ => false }) }
fn decoder(i: Instance) -> bool {
    let Some(b) = i.body() else { return false };
    let a = b.arg_locals();
    let ret = b.locals()[0].ty;
    let ok = match ret.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => d.name().to_string().ends_with("Result") && matches!(a.0.first(), Some(GenericArgKind::Type(t)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)))), _ => false };
    ok && a.iter().filter(|l| is_str_ref(l.ty)).count() == 1 && a.iter().filter(|l| is_bytes_ref(l.ty)).count() == 1
        && a.iter().all(|l| is_str_ref(l.ty) || is_bytes_ref(l.ty) || matches!(l.ty.kind(), TyKind::RigidTy(RigidTy::Bool)) || info(l.ty).name.ends_with("Flags"))
}

/// Run a decoder over unknown text whose first bytes are in the given sets; `exact`: the text has no other bytes.
fn run(f: Instance, first: &[Set], exact: bool) -> Result<Run, String> {
    let notes: Rc<RefCell<Notes>> = Default::default();
    let cx = Cx::new(Box::new(H(notes.clone())));
    cx.id_l(IdKey::Fresh(0), "zero".into());
    cx.budget.set(2_000_000);
    cx.lim.set(64);
    cx.tabints.set(true);
    let mut st = State::new();
    let t = cx.fresh("text");
    let buf = cx.buf_sym(t, true);
    let len = Lin::sym(cx.len_id(t));
    let n = first.len() as i128;
    st.add_bnd(buf, Lin::k(0));
    // keep what is known of the first bytes
    st.ghost_set("pin", Val::agg([0, 8].map(|k| Val::View(View { buf, s: Lin::k(k), e: len.clone() })).to_vec()));
    let mut ok = st.assume_ge0(&cx, &len.addk(-n)) && (!exact || st.assume_ge0(&cx, &len.neg().addk(n))) && st.assume_ge0(&cx, &Lin::k(1 << 60).sub(&len));
    for (k, c) in first.iter().enumerate() {
        let v = st.byte_at(&cx, buf, &Lin::k(k as i128));
        if let Val::Int(l) = v { if let Some(i) = l.as_sym() { ok &= st.assume_in(&cx, i, c) } }
    }
    // keep what is learned about the digits
    let mut pins = vec![];
    for (k, c) in first.iter().enumerate() {
        if !c.subset(&hexset()) { continue }
        if let Val::Int(l) = st.byte_at(&cx, buf, &Lin::k(k as i128)) {
            if let Some(i) = st.norm(&cx, &l).as_sym() { pins.push(Val::Int(digit(&cx, &st, i))) }
        }
    }
    st.ghost_set("digits", Val::agg(pins));
    if !ok { return Ok(Run { cx, notes, buf, rets: vec![] }) }
    let b = f.body().unwrap();
    let scratch = cx.cell_new(CellInit::Val(Val::Undef));
    notes.borrow_mut().scratch = Some(scratch);
    let args: Vec<Val> = b.arg_locals().iter().enumerate().map(|(k, l)| {
        if is_str_ref(l.ty) { Val::View(View { buf, s: Lin::k(0), e: len.clone() }) }
        else if is_bytes_ref(l.ty) {
            let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = l.ty.kind() else { unreachable!() };
            std::rc::Rc::make_mut(&mut st.heap).insert(scratch, Val::Top(t, cx.fresh("scratch")));
            Val::Ptr(Ptr { root: Root::Cell(scratch), path: vec![] })
        } else { Val::Top(l.ty, cx.fresh(&format!("arg{}", k))) }
    }).collect();
    match cx.run_fn(f, args, st) {
        Ok(rets) => {
            let u: Vec<String> = cx.unsup.borrow().keys().cloned().collect();
            if !u.is_empty() { return Err(u.join(", ")) }
            Ok(Run { cx, notes, buf, rets })
        }
        Err(Stop::Dead) => Ok(Run { cx, notes, buf, rets: vec![] }),
        Err(Stop::Panic(_)) => Ok(Run { cx, notes, buf, rets: vec![] }),
        Err(Stop::Unsup(u)) => Err(u),
        Err(Stop::Fork(_)) => Err("fork".into()),
    }
}

impl Run {
    fn outs(&self, st: &State) -> Vec<Out> {
        let mut o = vec![];
        let mut part: Option<(BufId, Lin)> = None;
        for (k, v) in st.trace.iter() {
            if *k != 2 && *k != 3 { part = None }
            match (k, v) {
                (1, Val::Int(l)) => o.push(Out::Byte(l.clone())),
                (1, v) => { let mut s = st.clone(); o.push(match crate::ai::to_lin(&self.cx, &mut s, v) { Ok(l) => Out::Byte(l), Err(_) => Out::Unknown }) }
                (2, Val::View(w)) => {
                    if let Some(c) = self.notes.borrow().chars.get(&w.buf) {
                        let end = self.cx.bufs.borrow()[w.buf as usize].end.clone();
                        let s = st.norm(&self.cx, &w.s);
                        // a part that continues the one before
                        let from = match part.take() { Some((b, e)) if b == w.buf && st.prove_eq0(&self.cx, &s.sub(&e)) => { o.pop(); true } _ => s.is_const() == Some(0) };
                        if from && st.prove_eq0(&self.cx, &w.e.sub(&end)) { o.push(Out::Char(c.clone())) }
                        else { o.push(Out::Unknown); if from { part = Some((w.buf, w.e.clone())) } }
                        continue;
                    }
                    match st.norm(&self.cx, &w.len()).is_const() {
                        Some(n) if n <= 16 => {
                            let mut s = st.clone();
                            for i in 0..n { match s.byte_at(&self.cx, w.buf, &w.s.addk(i)) { Val::Int(l) => o.push(Out::Byte(l)), _ => o.push(Out::Unknown) } }
                        }
                        _ => o.push(Out::Unknown),
                    }
                }
                _ => {}
            }
        }
        o
    }
    /// The byte at a position, as its symbol and possible values.
    fn byte(&self, st: &mut State, k: i128) -> Result<u8, (Id, Set)> {
        match st.byte_at(&self.cx, self.buf, &Lin::k(k)) {
            Val::Int(l) => { let l = st.norm(&self.cx, &l); match l.is_const() { Some(c) => Ok(c as u8), None => { let i = l.t[0].0; let d = st.set_of(&self.cx, i); match d.single() { Some(c) => Ok(c as u8), None => Err((i, d)) } } } }
            _ => unreachable!(),
        }
    }
    /// Does `l` equal the sum of weight * hex value over the given byte positions, for all values the bytes can have?
    fn is_digits(&self, st: &State, l: &Lin, digits: &[(i128, i128)]) -> bool {
        let mut st = st.clone();
        let mut rest = l.k;
        // what is known of the value says something about its digits
        let within = |st: &State, i: Id, d: Set| -> Set { let mut d = d; for (s, c) in &l.t { let _ = c; if let Some((j, t)) = self.cx.tabdef.borrow().get(s) { if *j == i { let m = st.domain(&self.cx, *s); d = Set::from_fn(|x| d.has(x) && t[x] >= m.min() && t[x] <= m.max()) } } } d };
        let mut by: BTreeMap<Id, Vec<(i128, Rc<Vec<i128>>)>> = BTreeMap::new();
        let ident: Rc<Vec<i128>> = Rc::new((0..256).collect());
        for (s, c) in &l.t {
            let (i, t) = self.cx.tabdef.borrow().get(s).cloned().unwrap_or((*s, ident.clone()));
            by.entry(i).or_default().push((*c, t));
        }
        for (pos, w) in digits {
            match self.byte(&mut st, *pos) {
                Ok(c) => { let Some(h) = hex(c as usize) else { return false }; rest -= w * h }
                Err((i, d)) => {
                    let d = within(&st, i, d);
                    let ts = by.remove(&i).unwrap_or_default();
                    let mut diff = None;
                    for x in d.iter() {
                        let Some(h) = hex(x) else { return false };
                        let got: i128 = ts.iter().map(|(c, t)| c * t[x]).sum();
                        let e = got - w * h;
                        if *diff.get_or_insert(e) != e { return false }
                    }
                    rest += diff.unwrap_or(0);
                }
            }
        }
        // leftovers must be constants
        for (i, ts) in by {
            let d = st.set_of(&self.cx, i);
            match d.single() { Some(x) => rest += ts.iter().map(|(c, t)| c * t[x]).sum::<i128>(), None => return false }
        }
        rest == 0
    }
}
fn hex(x: usize) -> Option<i128> { if x < 128 { (x as u8 as char).to_digit(16).map(|d| d as i128) } else { None } }
fn hexset() -> Set { Set::from_fn(|x| hex(x).is_some()) }

/// The escapes of one character: YAML 1.2, section 5.7.
fn table(c: u8) -> Option<&'static str> {
    Some(match c {
        b'0' => "\0", b'a' => "\x07", b'b' => "\x08", b't' | b'\t' => "\t", b'n' => "\n", b'v' => "\x0B", b'f' => "\x0C", b'r' => "\r", b'e' => "\x1B",
        b' ' => " ", b'"' => "\"", b'/' => "/", b'\\' => "\\", b'N' => "\u{85}", b'_' => "\u{A0}", b'L' => "\u{2028}", b'P' => "\u{2029}", _ => return None,
    })
}
fn digits(c: u8) -> i128 { match c { b'x' => 2, b'u' => 4, b'U' => 8, _ => 0 } }
fn cname(c: u8) -> String { if (0x21..0x7f).contains(&c) { format!("\\{}", c as char) } else { format!("\\0x{:02x}", c) } }

/// What an outcome says: Ok(n), Err(Extend) or another error.
enum Got { Ok(Lin), Extend, Err, Unknown }
fn got(cx: &Cx, st: &State, v: &Val, extend: Option<u32>, err: Ty) -> Got {
    match v {
        Val::Var(0, a) => match cx.expand(&a[0]) { Val::Int(l) => Got::Ok(st.norm(cx, &l)), _ => Got::Unknown },
        Val::Var(1, a) => {
            let k = match &a[0] { Val::Var(k, _) => Some(*k), Val::Top(t, o) if *t == err => st.set_of(cx, cx.disc_id(*t, *o)).single().map(|x| x as u32), _ => None };
            match k { Some(k) if Some(k) == extend => Got::Extend, Some(_) => Got::Err, None => Got::Unknown }
        }
        _ => Got::Unknown,
    }
}

pub fn check(p: &Program) -> Report {
    let mut r = Report::new("P18", "abstract interpretation of the two escape decoders over unknown text: for each of the 256 bytes that can follow a backslash, and for every string of digits, every return is compared with YAML's escape table (bytes written, length consumed, error), the value of a hexadecimal escape being tracked as a linear function of its digits");
    let all: Vec<Instance> = p.insts.iter().filter(|i| { let n = &p.names[i]; n.starts_with("yary::") && decoder(**i) }).cloned().collect();
    let pick = |name: &str, probe: &[u8], byte: i128| -> Option<Instance> {
        let by_name = all.iter().find(|i| p.names[i].ends_with(name)).cloned();
        by_name.or_else(|| all.iter().find(|i| run(**i, &probe.iter().map(|b| Set::one(*b as usize)).collect::<Vec<_>>(), true).map_or(false, |r| r.rets.iter().any(|(s, v)| matches!(v, Val::Var(0, _)) && matches!(&r.outs(s)[..], [Out::Byte(l)] if l.is_const() == Some(byte)))) ).cloned())
    };
    let flow = pick("::flow_unescape", b"\\n", 10);
    let tag = pick("::tag_uri_unescape", b"%41", 0x41);
    floor(&mut r, "decoder of backslash escapes", flow.is_some() as usize, 1);
    floor(&mut r, "decoder of percent escapes", tag.is_some() as usize, 1);
    let (Some(flow), Some(tag)) = (flow, tag) else { return r };
    for i in [flow, tag] { r.analysed.push(p.names[&i].clone()) }

    let err = match flow.body().unwrap().locals()[0].ty.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.get(1) { Some(GenericArgKind::Type(t)) => *t, _ => return r }, _ => return r };
    let extend = match err.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().iter().position(|v| { let n = v.name().to_string(); n == "Extend" || n.ends_with("::Extend") }).map(|x| x as u32), _ => None };
    if extend.is_none() { r.undecided("extend", "the error that asks for more input was not found"); return r }

    let mut c = Ck { r, extend, err, returns: 0, runs: 0 };
    let one = |b: u8| Set::one(b as usize);
    let hexes = |n: i128| vec![hexset(); n as usize];
    let cat = |v: &[&[Set]]| v.concat();
    // ---- backslash escapes
    for b in 0..256usize {
        let key = cname(b as u8);
        let first = [one(b'\\'), Set::one(b)];
        let nd = digits(b as u8);
        if let Some(t) = table(b as u8) { c.case(flow, &first, false, &key, "", Want::Bytes(t.as_bytes())) }
        else if nd > 0 {
            c.case(flow, &cat(&[&first, &hexes(nd)]), false, &key, &format!(" followed by {} hex digits", nd), Want::Digits(nd));
            for i in 0..nd {
                c.case(flow, &cat(&[&first, &hexes(i), &[hexset().not()]]), false, &key, &format!(" followed by {} hex digits and something else", i), Want::Error);
                c.case(flow, &cat(&[&first, &hexes(i)]), true, &key, &format!(" followed by {} hex digits and the end", i), Want::Error);
            }
        } else { c.case(flow, &first, false, &key, "", Want::Error) }
    }
    c.case(flow, &[one(b'\\')], true, "\\", " at the end", Want::Error);
    // ---- percent escapes
    let pct = one(b'%');
    let dig = |s: &str| Set::from_fn(|x| x < 128 && s.contains((x as u8 as char).to_ascii_lowercase()));
    let octet = |a: &str, b: &str| vec![pct.clone(), dig(a), dig(b)];
    let all = "0123456789abcdef";
    let cont = octet("89ab", all);
    for (k, lead) in [(1, octet("01234567", all)), (2, octet("cd", all)), (3, octet("e", all)), (4, octet("f", "01234567"))] {
        let good = |n: usize| { let mut v = lead.clone(); for _ in 1..n { v.extend(cont.clone()) } v };
        let key = format!("%:{}", k);
        c.case(tag, &good(k), false, &key, &format!(" sequence of {} octets", k), Want::Octets(k as i128));
        for i in 0..k {
            let before = if i == 0 { vec![] } else { good(i) };
            let text = format!(" sequence of {} octets, octet {}", k, i + 1);
            c.case(tag, &cat(&[&before, &[pct.not()]]), false, &key, &format!("{} not beginning with %", text), Want::Error);
            c.case(tag, &cat(&[&before, &[pct.clone(), hexset().not()]]), false, &key, &format!("{} with a bad first digit", text), Want::Error);
            c.case(tag, &cat(&[&before, &[pct.clone(), hexset(), hexset().not()]]), false, &key, &format!("{} with a bad second digit", text), Want::Error);
            if i > 0 { c.case(tag, &cat(&[&before, &[pct.clone(), dig("01234567cdef"), hexset()]]), false, &key, &format!("{} not a continuation", text), Want::Error) }
            c.case(tag, &before, true, &key, &format!("{} missing", text), Want::Error);
            c.case(tag, &cat(&[&before, &[pct.clone()]]), true, &key, &format!("{} cut off after %", text), Want::Error);
            c.case(tag, &cat(&[&before, &[pct.clone(), hexset()]]), true, &key, &format!("{} cut off after one digit", text), Want::Error);
        }
    }
    for (what, lead) in [("a continuation octet", cont.clone()), ("an octet above F7", octet("f", "89abcdef"))] {
        c.case(tag, &lead, false, "%:lead", &format!(" sequence beginning with {}", what), Want::Error);
    }
    let mut r = c.r;
    r.num("cases of the input", c.runs);
    r.num("returns compared", c.returns);
    r
}

enum Want<'a> {
    /// Exactly these bytes, and the two of the escape consumed.
    Bytes(&'a [u8]),
    /// The character the n digits name, or an error where they name none.
    Digits(i128),
    /// n octets of two digits each.
    Octets(i128),
    /// An error; more input may be asked for.
    Error,
}

struct Ck { r: Report, extend: Option<u32>, err: Ty, returns: u64, runs: u64 }
impl Ck {
    fn case(&mut self, f: Instance, first: &[Set], exact: bool, key: &str, what: &str, want: Want) {
        let r = &mut self.r;
        let name = if key.starts_with('%') { format!("a percent escape,{}", what) } else { format!("{}{}", key, what) };
        let run = match run(f, first, exact) { Ok(x) => x, Err(u) => { r.undecided(format!("run:{}", key), format!("{}: {}", name, u)); return } };
        let cx = &run.cx;
        self.runs += 1;
        for (a, _) in cx.alarms.borrow().iter() {
            if a.kind == "panic" { r.ob(false, || format!("panic:{}:{}", key, a.what), || format!("decoding {} can panic: {} in {}", name, a.what, a.func)); }
            else { r.undecided(format!("inconclusive:{}", key), format!("{}: {} in {}", name, a.what, a.func)) }
        }
        let mut decoded = false;
        for (st, v) in &run.rets {
            self.returns += 1;
            let outs = run.outs(st);
            let got = got(cx, st, v, self.extend, self.err);
            if let Got::Unknown = got { r.undecided(format!("result:{}", key), format!("{}: the result {} could not be understood", name, show(cx, v))); continue }
            if let Got::Extend = got { r.ob(matches!(want, Want::Error), || format!("extend:{}", key), || format!("{} asks for more input", name)); continue }
            match (&want, got) {
                (Want::Error, Got::Ok(_)) => { r.ob(false, || format!("accepts:{}", key), || format!("{} is decoded, not rejected", name)); }
                (Want::Error, _) => { r.ob(true, || String::new(), || String::new()); }
                (Want::Bytes(t), Got::Ok(n)) => {
                    decoded = true;
                    let have: Option<Vec<u8>> = outs.iter().map(|o| match o { Out::Byte(l) => st.norm(cx, l).is_const().map(|k| vec![k as u8]), Out::Char(l) => st.norm(cx, l).is_const().and_then(|k| char::from_u32(k as u32)).map(|c| c.to_string().into_bytes()), _ => None }).collect::<Option<Vec<Vec<u8>>>>().map(|v| v.concat());
                    r.ob(have.as_deref() == Some(*t), || format!("value:{}", key), || format!("{} is decoded to {}, not to {:02x?}", name, have.map_or("something unknown".into(), |h| format!("{:02x?}", h)), t));
                    r.ob(n.is_const() == Some(2), || format!("length:{}", key), || format!("{} is said to be {:?} bytes long", name, n));
                }
                (Want::Digits(nd), Got::Ok(n)) => {
                    decoded = true;
                    let all: Vec<(i128, i128)> = (0..*nd).map(|i| (2 + i, 16i128.pow((nd - 1 - i) as u32))).collect();
                    let value = match &outs[..] { [Out::Char(l)] => Some(l.clone()), [Out::Byte(l)] if st.prove(cx, &st.norm(cx, &Lin::k(0x7F).sub(l))) => Some(l.clone()), _ => None };
                    let ok = value.as_ref().map_or(false, |l| run.is_digits(st, l, &all));
                    r.ob(ok, || format!("value:{}", key), || format!("{} does not write the character its digits name (writes {})", name, desc(cx, &outs)));
                    r.ob(n.is_const() == Some(2 + nd), || format!("length:{}", key), || format!("{} is said to be {:?} bytes long", name, n));
                }
                (Want::Digits(nd), _) => { let bad = no_character(&run, st, *nd); r.ob(bad, || format!("rejects:{}", key), || format!("{} naming a character is rejected", name)); }
                (Want::Octets(k), Got::Ok(n)) => {
                    decoded = true;
                    r.ob(n.is_const() == Some(3 * k), || format!("length:{}", key), || format!("{} is said to be {:?} bytes long", name, n));
                    let ok = outs.len() as i128 == *k && outs.iter().enumerate().all(|(i, o)| match o { Out::Byte(l) => run.is_digits(st, l, &[(3 * i as i128 + 1, 16), (3 * i as i128 + 2, 1)]), _ => false });
                    r.ob(ok, || format!("value:{}", key), || format!("{} is not decoded to the values of its digits ({})", name, desc(cx, &outs)));
                }
                (_, _) => { r.ob(false, || format!("rejects:{}", key), || format!("{} is rejected", name)); }
            }
        }
        if !matches!(want, Want::Error) { r.ob(decoded, || format!("never:{}", key), || format!("{} is never decoded", name)); }
    }
}

/// The value of a hex digit.
fn digit(cx: &Cx, st: &State, i: Id) -> Lin {
    let d = st.set_of(cx, i);
    let t: Vec<i128> = (0..256).map(|x| hex(x).filter(|_| d.has(x)).unwrap_or(0)).collect();
    crate::ai::tab_lin(cx, i, &d, &t)
}
/// Every value the digits can have here is a surrogate or lies beyond U+10FFFF.
fn no_character(run: &Run, st: &State, nd: i128) -> bool {
    let mut s = st.clone();
    // the digits' value as bounds from the facts on their tables
    let mut v = Lin::k(0);
    for i in 0..nd {
        let w = 16i128.pow((nd - 1 - i) as u32);
        match run.byte(&mut s, 2 + i) {
            Ok(c) => v = v.addk(w * hex(c as usize).unwrap_or(0)),
            Err((id, d)) => {
                let _ = d;
                v = v.comb(w, &digit(&run.cx, &s, id))
            }
        }
    }
    let v = s.norm(&run.cx, &v);
    s.prove(&run.cx, &v.addk(-0x110000)) || (s.prove(&run.cx, &v.addk(-0xD800)) && s.prove(&run.cx, &Lin::k(0xDFFF).sub(&v)))
}

fn desc(cx: &Cx, o: &[Out]) -> String {
    o.iter().map(|o| { let (k, l) = match o { Out::Byte(l) => ("byte", l), Out::Char(l) => ("character", l), Out::Unknown => return "unknown".to_string() }; format!("{} {:?} with {}", k, l, l.t.iter().map(|(s, _)| format!("s{} = {}", s, cx.describe(*s))).collect::<Vec<_>>().join(", ")) }).collect::<Vec<_>>().join("; ")
}
