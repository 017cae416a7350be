//! Models of the standard library functions the crate uses.
use super::exec::*;
use super::lin::*;
use super::state::*;
use super::value::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

type Out = Option<R<Vec<(State, Val)>>>;

pub fn new_str(cx: &Cx, utf8: bool) -> Val {
    Val::obj(Obj::Str { len: Lin::k(0), utf8: true, marks: vec![Lin::k(0)], src: None, id: cx.fresh(if utf8 { "string" } else { "bytes" }) })
}

fn ty_arg(inst: Instance, n: usize) -> Option<Ty> {
    inst.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).nth(n)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rng { From, To, Full, Range, Incl, ToIncl, Idx }
fn rng(inst: Instance, name: &str) -> Option<Rng> {
    let mut cands: Vec<String> = vec![];
    for a in &inst.args().0 { if let GenericArgKind::Type(t) = a { cands.push(format!("{}", t)) } }
    cands.push(name.to_string());
    for c in cands {
        if c.contains("RangeFrom<") { return Some(Rng::From) }
        if c.contains("RangeToInclusive<") { return Some(Rng::ToIncl) }
        if c.contains("RangeTo<") { return Some(Rng::To) }
        if c.contains("RangeInclusive<") { return Some(Rng::Incl) }
        if c.contains("RangeFull") { return Some(Rng::Full) }
        if c.contains("ops::Range<") { return Some(Rng::Range) }
        if c == "usize" || c.contains("Index<usize>") || c.contains("IndexMut<usize>") { return Some(Rng::Idx) }
    }
    None
}

/// Bounds (from, to) of a range value relative to a sequence of length `len`.
fn bounds(cx: &Cx, st: &mut State, k: Rng, v: &Val, len: &Lin) -> R<(Lin, Lin)> {
    let f = |v: &Val, i: usize| -> R<Val> { match cx.expand(v) { Val::Agg(a) => a.get(i).cloned().ok_or(Stop::Unsup("range".into())), _ => Err(Stop::Unsup("range".into())) } };
    Ok(match k {
        Rng::From => (to_lin(cx, st, &f(v, 0)?)?, len.clone()),
        Rng::To => (Lin::k(0), to_lin(cx, st, &f(v, 0)?)?),
        Rng::Full => (Lin::k(0), len.clone()),
        Rng::Range => { let a = to_lin(cx, st, &f(v, 0)?)?; let b = to_lin(cx, st, &f(v, 1)?)?; (a, b) }
        Rng::Incl => { let a = to_lin(cx, st, &f(v, 0)?)?; let b = to_lin(cx, st, &f(v, 1)?)?; (a, b.addk(1)) }
        Rng::ToIncl => (Lin::k(0), to_lin(cx, st, &f(v, 0)?)?.addk(1)),
        Rng::Idx => return Err(Stop::Unsup("range".into())),
    })
}

pub fn oblige(cx: &Cx, st: &mut State, c: &Cond, what: &str) -> R<()> {
    cx.oblig.set(cx.oblig.get() + 1);
    let fname = cx.own_func();
    cx.sites.borrow_mut().insert(format!("{}|{}", fname, what));
    if st.known(cx, c) == Some(true) { return Ok(()) }
    let bad = st.assume(cx, c, false);
    if !bad.is_empty() {
        raise(cx, &bad[0], &fname, what, &format!("{:?}", c));
    }
    let mut ok = st.assume(cx, c, true);
    match ok.len() {
        0 => Err(Stop::Dead),
        1 => { *st = ok.pop().unwrap(); Ok(()) }
        _ => Err(Stop::Fork(ok)),
    }
}
pub fn raise(cx: &Cx, st: &State, fname: &str, what: &str, detail: &str) {
    let kind = if st.taint.is_empty() { "panic" } else { "inconclusive" };
    cx.alarm(kind, fname, what, &cx.here());
    if cx.debug { eprintln!("ALARM {} {} {} @{} {}\n{}", kind, fname, what, cx.here(), detail, dump(cx, st)) }
}

/// View of a string / byte-slice valued argument.
pub fn as_view(cx: &Cx, st: &mut State, v: &Val) -> R<View> {
    match cx.expand(v) {
        Val::View(w) => Ok(w),
        Val::Ptr(p) => {
            let x = st.read(cx, p.root, &p.path)?;
            // an unknown fixed-size array
            if let Val::Top(t, o) = &x {
                if let TyKind::RigidTy(RigidTy::Array(e, n)) = t.kind() {
                    if is_u8(e) {
                        let n = n.eval_target_usize().unwrap_or(0) as i128;
                        let b = cx.buf(BufKind::Sym(*o), Lin::k(n), false);
                        return Ok(View { buf: b, s: Lin::k(0), e: Lin::k(n) });
                    }
                }
            }
            match cx.expand(&x) {
                Val::Obj(o) => match &*o {
                    Obj::Str { len, utf8, src, id, .. } => {
                        if let Some(w) = src { return Ok(w.clone()) }
                        let b = cx.buf(BufKind::Sym(*id), len.clone(), *utf8);
                        Ok(View { buf: b, s: Lin::k(0), e: len.clone() })
                    }
                    _ => Err(Stop::Unsup("view of object".into())),
                },
                Val::Agg(a) => {
                    let mut bytes = vec![];
                    for x in a.iter() { match to_lin(cx, st, x)?.is_const() { Some(k) if (0..256).contains(&k) => bytes.push(k as u8), _ => {
                        let id = cx.fresh("array");
                        let n = a.len() as i128;
                        let b = cx.buf(BufKind::Sym(id), Lin::k(n), false);
                        return Ok(View { buf: b, s: Lin::k(0), e: Lin::k(n) });
                    } } }
                    Ok(cx.const_view(&bytes))
                }
                Val::View(w) => Ok(w),
                Val::Ptr(q) => as_view(cx, st, &Val::Ptr(q)),
                o => Err(Stop::Unsup(format!("view of {:?}", o))),
            }
        }
        o => Err(Stop::Unsup(format!("not a slice: {:?}", o))),
    }
}
fn get_ptr(cx: &Cx, v: &Val) -> R<Ptr> { match cx.expand(v) { Val::Ptr(p) => Ok(p), Val::Agg(a) if a.len() == 1 => get_ptr(cx, &a[0]), o => Err(Stop::Unsup(format!("not a pointer: {:?}", o))) } }
fn deref(cx: &Cx, st: &mut State, v: &Val) -> R<Val> {
    match cx.expand(v) {
        Val::Ptr(p) => st.read(cx, p.root, &p.path),
        Val::BPtr(b, p) => Ok(st.byte_at(cx, b, &p)),
        o => Err(Stop::Unsup(format!("deref of {:?}", o))),
    }
}
fn get_obj(cx: &Cx, st: &mut State, v: &Val) -> R<(Ptr, Obj)> {
    let p = get_ptr(cx, v)?;
    let x = st.read(cx, p.root, &p.path)?;
    match cx.expand(&x) {
        Val::Obj(o) => Ok((p, (*o).clone())),
        Val::Ptr(_) => get_obj(cx, st, &x),
        o => Err(Stop::Unsup(format!("not an object: {:?}", o))),
    }
}
fn set(cx: &Cx, st: &mut State, p: &Ptr, v: Val) -> R<()> { st.write(cx, p.root, &p.path, v) }
pub fn alloc_cell(cx: &Cx, st: &mut State, v: Val) -> Val {
    let c = cx.cell_new(CellInit::Val(Val::Undef));
    Rc::make_mut(&mut st.heap).insert(c, v);
    Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] })
}
pub fn fresh_bool(cx: &Cx, l: &str) -> Val { Val::Bool(Cond::In(cx.fresh_dom(l, Dom::S(Set::upto(2))), Set::one(1))) }

/// Make sure the last element of a modelled vector is known; false when empty.
pub fn expose_last(cx: &Cx, st: &mut State, p: &Ptr, o: &Obj) -> R<bool> {
    let Obj::Vec { ty, base, elems } = o else { return Err(Stop::Unsup("not a vec".into())) };
    if !elems.is_empty() { return Ok(true) }
    let Some((b, len)) = base else { return Ok(false) };
    if !st.decide(cx, &lin_cond_ge(len.addk(-1)))? { return Ok(false) }
    let et = match ty.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return Err(Stop::Unsup("vec type".into())) }, _ => return Err(Stop::Unsup("vec type".into())) };
    let el = Val::Top(et, cx.id(IdKey::Elem(*b)));
    let nb = cx.id(IdKey::Tail(*b));
    let n = Obj::Vec { ty: *ty, base: Some((nb, len.addk(-1))), elems: vec![el] };
    set(cx, st, p, Val::obj(n))?;
    Ok(true)
}

/// Check a slice [from, to) of a view.
fn slice(cx: &Cx, st: &mut State, w: &View, from: Lin, to: Lin, is_str: bool) -> R<View> {
    let len = w.len();
    oblige(cx, st, &lin_cond_ge(to.sub(&from)), "slice start after its end")?;
    oblige(cx, st, &lin_cond_ge(len.sub(&to)), "slice out of bounds")?;
    oblige(cx, st, &lin_cond_ge(from.clone()), "slice out of bounds")?;
    let (s, e) = (st.norm(cx, &w.s.add(&from)), st.norm(cx, &w.s.add(&to)));
    if is_str {
        for p in [&s, &e] {
            cx.oblig.set(cx.oblig.get() + 1);
            if *p == w.s || *p == w.e { continue }
            if !st.is_boundary(cx, w.buf, p) {
                let f = cx.own_func();
                raise(cx, st, &f, "slice not on a character boundary", &format!("{:?} of {:?}", p, w));
            }
        }
        st.add_bnd(w.buf, s.clone());
        st.add_bnd(w.buf, e.clone());
    }
    Ok(View { buf: w.buf, s, e })
}

fn str_append(cx: &Cx, st: &mut State, p: &Ptr, o: Obj, add: &Lin, ok: bool) -> R<()> {
    let Obj::Str { len, utf8, mut marks, .. } = o else { return Err(Stop::Unsup("not a string".into())) };
    let n = st.norm(cx, &len.add(add));
    let utf8 = utf8 && ok;
    if utf8 { if !marks.contains(&len) { marks.push(len) } if !marks.contains(&n) { marks.push(n.clone()) } if marks.len() > 6 { let k = marks.len() - 6; marks.drain(..k); } }
    set(cx, st, p, Val::obj(Obj::Str { len: n, utf8, marks, src: None, id: cx.fresh("str") }))
}

fn view_eq(cx: &Cx, st: &mut State, a: &View, b: &View) -> R<Val> {
    if a == b { return Ok(Val::b(true)) }
    let (ca, cb) = { let bufs = cx.bufs.borrow(); (matches!(bufs[a.buf as usize].kind, BufKind::Const(_)), matches!(bufs[b.buf as usize].kind, BufKind::Const(_))) };
    let (w, k) = if cb { (a, b) } else if ca { (b, a) } else {
        if a.buf == b.buf && st.prove_eq0(cx, &a.s.sub(&b.s)) && st.prove_eq0(cx, &a.e.sub(&b.e)) { return Ok(Val::b(true)) }
        return Ok(fresh_bool(cx, "streq"));
    };
    let Some(n) = st.norm(cx, &k.len()).is_const() else { return Ok(fresh_bool(cx, "streq")) };
    if !st.decide(cx, &lin_cond_eq(w.len().addk(-n)))? { return Ok(Val::b(false)) }
    prefix_eq(cx, st, w, k, n)
}
fn prefix_eq(cx: &Cx, st: &mut State, w: &View, k: &View, n: i128) -> R<Val> {
    for i in 0..n {
        let x = st.byte_at(cx, w.buf, &w.s.addk(i));
        let y = st.byte_at(cx, k.buf, &k.s.addk(i));
        let c = compare(cx, st, BinOp::Eq, &x, &y)?;
        if !st.decide(cx, &c)? { return Ok(Val::b(false)) }
    }
    Ok(Val::b(true))
}

/// Width and code point of the character at a position known to be a boundary with at least one byte left.
fn char_at(cx: &Cx, st: &mut State, b: BufId, p: &Lin) -> R<(i128, Val)> {
    st.add_bnd(b, p.clone());
    let x = st.byte_at(cx, b, p);
    let l = to_lin(cx, st, &x)?;
    if let Some(k) = l.is_const() {
        if k < 0x80 { return Ok((1, Val::k(k))) }
        let w = width(k as usize).max(1);
        return Ok((w, Val::Int(Lin::sym(cx.fresh_dom("char", Dom::R(0x80, 0x10FFFF))))));
    }
    if let Some(i) = l.as_sym() {
        for (w, lo, hi) in [(1, 0, 0x7F), (2, 0xC2, 0xDF), (3, 0xE0, 0xEF), (4, 0xF0, 0xF4)] {
            let s = Set::range(lo, hi);
            if st.set_of(cx, i).and(&s).is_empty() { continue }
            if st.decide(cx, &Cond::In(i, s))? {
                if w == 1 { return Ok((1, Val::Int(l))) }
                let (a, z) = match w { 2 => (0x80, 0x7FF), 3 => (0x800, 0xFFFF), _ => (0x10000, 0x10FFFF) };
                return Ok((w, Val::Int(Lin::sym(cx.fresh_dom("char", Dom::R(a, z))))));
            }
        }
    }
    Err(Stop::Dead)
}
fn char_width(cx: &Cx, st: &mut State, c: &Lin) -> R<i128> {
    if st.decide(cx, &lin_cond_ge(Lin::k(0x7F).sub(c)))? { return Ok(1) }
    if st.decide(cx, &lin_cond_ge(Lin::k(0x7FF).sub(c)))? { return Ok(2) }
    if st.decide(cx, &lin_cond_ge(Lin::k(0xFFFF).sub(c)))? { return Ok(3) }
    Ok(4)
}

pub fn iter_next(cx: &Cx, st: &mut State, p: &Ptr, kind: u8, view: View, base: Lin) -> R<Val> {
    if !st.decide(cx, &lin_cond_ge(view.len().addk(-1)))? { return Ok(Val::none()) }
    let (w, v) = match kind {
        0 => (1, Val::BPtr(view.buf, view.s.clone())),
        1 => (1, st.byte_at(cx, view.buf, &view.s)),
        2 | 3 => { let (w, c) = char_at(cx, st, view.buf, &view.s)?; (w, c) }
        _ => return Err(Stop::Unsup("iterator kind".into())),
    };
    let v = if kind == 3 { Val::agg(vec![Val::Int(view.s.sub(&base)), v]) } else { v };
    let nv = View { buf: view.buf, s: st.norm(cx, &view.s.addk(w)), e: view.e };
    set(cx, st, p, Val::obj(Obj::Iter { kind, view: nv, base }))?;
    Ok(Val::some(v))
}

pub fn is_panic(name: &str) -> bool {
    name.starts_with("core::panicking::") || name.starts_with("std::panicking::") || name == "std::rt::panic_fmt" || name.starts_with("std::rt::begin_panic") || name == "core::panic::panic_fmt"
        || name.ends_with("::expect_failed") || name.ends_with("option::unwrap_failed") || name.ends_with("result::unwrap_failed")
        || name.ends_with("slice_error_fail") || name.ends_with("_index_fail") || name.contains("slice_index_order_fail") || name.contains("_index_len_fail")
        || name.ends_with("unreachable_display") || name.contains("panic_cold_") || name.ends_with("assert_failed") || name.ends_with("raw_vec::capacity_overflow") || name.ends_with("::panic_const")
}

/// The function a value of a function or closure type stands for.
pub fn callable(t: Ty) -> Option<Instance> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
        TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnMut).ok(),
        _ => None,
    }
}
/// Apply a closure to each of the values in turn.
fn for_each(cx: &Cx, st: &State, f: Instance, clos: &Val, items: &[Val]) -> R<Vec<(State, Val)>> {
    let mut s = st.clone();
    let c = alloc_cell(cx, &mut s, clos.clone());
    s.ghost_set("for_each", c.clone());
    let ret = cx.body(f).map(|b| b.body.locals()[0].ty).ok_or_else(|| Stop::Unsup("for_each body".into()))?;
    let is_fn = matches!(clos, Val::Fn(_)) || cx.body(f).map_or(false, |b| b.body.arg_locals().len() == 1);
    let mut work = vec![(s, 0usize)];
    let mut out = vec![];
    let mut fuel = 4000;
    while let Some((s, i)) = work.pop() {
        fuel -= 1;
        if fuel == 0 { return Err(Stop::Unsup("for_each".into())) }
        if i == items.len() { let mut s = s; Rc::make_mut(&mut s.ghost).remove("for_each"); out.push((s, Val::unit())); continue }
        let a = if is_fn { vec![items[i].clone()] } else { vec![c.clone(), items[i].clone()] };
        match cx.call(s, f, a, ret) {
            Ok(v) => work.extend(v.into_iter().map(|(s, _)| (s, i + 1))),
            Err(Stop::Fork(v)) => work.extend(v.into_iter().map(|s| (s, i))),
            Err(Stop::Dead) | Err(Stop::Panic(_)) => {}
            Err(e) => return Err(e),
        }
    }
    if out.is_empty() { Err(Stop::Dead) } else { Ok(out) }
}
/// The text of a string-like value or a reference to one, wherever it lives.
/// The text of an unknown Cow<str> is one text, whichever variant it turns out to be.
pub fn cow_text(cx: &Cx, v: &Val) -> Option<View> {
    let is_cow = |t: Ty| &*info(t).name == "std::borrow::Cow" && match t.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().any(|x| matches!(x, GenericArgKind::Type(t) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Str)))), _ => false };
    let o = match v {
        Val::Top(t, o) if is_cow(*t) => *o,
        Val::Var(k, f) if f.len() == 1 => {
            let Val::Top(t, i) = &f[0] else { return None };
            let key = cx.ids.borrow()[*i as usize].key.clone();
            let IdKey::Field(o, kk, 0) = key else { return None };
            if kk != *k || !cx.cows.borrow().contains(&o) { return None }
            let _ = t;
            o
        }
        _ => return None,
    };
    cx.cows.borrow_mut().insert(o);
    let c = cx.id(IdKey::Conv(o, "text"));
    let b = cx.buf_sym(c, true);
    Some(View { buf: b, s: Lin::k(0), e: Lin::sym(cx.len_id(c)) })
}
pub fn text_of(cx: &Cx, st: &mut State, v: &Val) -> R<View> {
    let mut v = v.clone();
    for _ in 0..4 {
        if let Some(w) = cow_text(cx, &v) { return Ok(w) }
        let e = cx.expand(&v);
        match &e {
            Val::Ptr(p) => {
                let x = st.read(cx, p.root, &p.path)?;
                let cow = match &x { Val::Var(_, f) => f.len() == 1, Val::Top(t, _) => matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.name().to_string().ends_with("borrow::Cow")), _ => false };
                if cow { v = x; continue }
                if let Val::Ptr(_) | Val::View(_) = cx.expand(&x) { v = x; continue }
                return as_view(cx, st, &e);
            }
            Val::View(w) => return Ok(w.clone()),
            Val::Var(_, f) if f.len() == 1 => v = f[0].clone(),
            Val::Top(t, o) if cx.num_variants(*t) > 1 => {
                let k = crate::checks::parser::var_of(cx, st, &v)?;
                match cx.expand_var(*t, *o, k) { Val::Var(_, f) if f.len() == 1 => v = f[0].clone(), _ => return Err(Stop::Unsup("text".into())) }
            }
            Val::Obj(o) => match &**o {
                Obj::Str { src: Some(w), .. } => return Ok(w.clone()),
                Obj::Str { len, utf8, id, .. } => { let b = cx.buf(BufKind::Sym(*id), len.clone(), *utf8); return Ok(View { buf: b, s: Lin::k(0), e: len.clone() }) }
                _ => return Err(Stop::Unsup("text of object".into())),
            },
            o => return Err(Stop::Unsup(format!("text of {:?}", o))),
        }
    }
    Err(Stop::Unsup("text".into()))
}

pub fn call(cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> Out {
    if name.ends_with("::for_each") && args.len() == 2 {
        if let Val::Obj(o) = cx.expand(&args[0]) { if let Obj::Other { tag: "arrayiter", vals, .. } = &*o {
            let f = match &args[1] { Val::Fn(i) => Some(*i), _ => inst.args().0.iter().rev().find_map(|a| if let GenericArgKind::Type(t) = a { callable(*t) } else { None }) };
            if let Some(f) = f { return Some(for_each(cx, st, f, &args[1], vals)) }
        } }
    }
    match call_(cx, st, name, inst, args, ret) {
        Ok(None) => None,
        Ok(Some(v)) => Some(Ok(vec![(st.clone(), v)])),
        Err(Stop::Unsup(u)) if u == "multi" => unreachable!(),
        Err(e) => Some(Err(e)),
    }
}

/// `None`: not modelled.
fn call_(cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> R<Option<Val>> {
    if name.starts_with("yary::") || name.starts_with("<yary::") { return Ok(None) }
    if is_panic(name) {
        cx.oblig.set(cx.oblig.get() + 1);
        let f = cx.own_func();
        let what = if name.contains("expect_failed") { "expect on None".to_string() }
            else if name.contains("option::unwrap_failed") { "unwrap on None".into() }
            else if name.contains("result::unwrap_failed") { "unwrap on Err".into() }
            else if name.contains("slice") || name.contains("_fail") { "slice index".into() }
            else { "explicit panic (assert, unreachable or panic)".into() };
        cx.sites.borrow_mut().insert(format!("{}|{}", f, what));
        raise(cx, st, &f, &what, name);
        return Err(Stop::Panic(what));
    }
    if name.starts_with("<std::boxed::Box<") && name.ends_with(" as std::ops::Drop>::drop") { return Ok(Some(Val::unit())) }
    if name.ends_with("::precondition_check") { return Ok(Some(Val::unit())) }
    if name.contains("fmt::rt::") || name.contains("fmt::Arguments") || name.contains("::fmt::Formatter") { return Ok(Some(Val::Top(ret, cx.fresh("fmt")))) }
    let last = name.rsplit("::").next().unwrap_or("");
    macro_rules! a { ($i:expr) => { &args[$i] } }
    macro_rules! lin { ($i:expr) => { to_lin(cx, st, &args[$i])? } }
    macro_rules! view { ($i:expr) => { as_view(cx, st, &args[$i])? } }

    // ---- strings and byte slices
    let on_str = name.starts_with("core::str::<impl str>::") || name.starts_with("std::str::<impl str>::") || name.starts_with("alloc::str::<impl str>::");
    let on_bytes = name.starts_with("core::slice::<impl [u8]>::") || name.starts_with("alloc::slice::<impl [u8]>::") || (name.starts_with("std::slice::<impl [u8]>::"));
    let on_generic_slice = (name.starts_with("core::slice::<impl [") || name.starts_with("std::slice::<impl [") || name.starts_with("alloc::slice::<impl [")) && !on_bytes;
    if on_str || on_bytes {
        match last {
            "as_bytes" | "as_str" | "as_slice" | "borrow" | "as_bytes_mut" => return Ok(Some(Val::View(view!(0)))),
            "len" => { let w = view!(0); return Ok(Some(Val::Int(st.norm(cx, &w.len())))) }
            "is_empty" => { let w = view!(0); return Ok(Some(Val::Bool(lin_cond_eq(st.norm(cx, &w.len()))))) }
            "split_at" | "split_at_mut" => {
                let w = view!(0);
                let n = lin!(1);
                let l = slice(cx, st, &w, Lin::k(0), n.clone(), on_str)?;
                return Ok(Some(Val::agg(vec![Val::View(l.clone()), Val::View(View { buf: w.buf, s: l.e, e: w.e })])));
            }
            "get" | "get_mut" => {
                let w = view!(0);
                let k = rng(inst, name).ok_or(Stop::Unsup("get".into()))?;
                if k == Rng::Idx {
                    let i = lin!(1);
                    if !st.decide(cx, &lin_cond_ge(w.len().sub(&i).addk(-1)))? { return Ok(Some(Val::none())) }
                    return Ok(Some(Val::some(Val::BPtr(w.buf, st.norm(cx, &w.s.add(&i))))));
                }
                let (f, t) = bounds(cx, st, k, a!(1), &w.len())?;
                if !st.decide(cx, &lin_cond_ge(t.sub(&f)))? { return Ok(Some(Val::none())) }
                if !st.decide(cx, &lin_cond_ge(w.len().sub(&t)))? { return Ok(Some(Val::none())) }
                let (s, e) = (st.norm(cx, &w.s.add(&f)), st.norm(cx, &w.s.add(&t)));
                if on_str {
                    for p in [&s, &e] {
                        if *p == w.s || *p == w.e || st.is_boundary(cx, w.buf, p) { continue }
                        let b = cx.fresh_dom("isbnd", Dom::S(Set::upto(2)));
                        if !st_choose(cx, st, b, |s| s.add_bnd(w.buf, p.clone()))? { return Ok(Some(Val::none())) }
                    }
                }
                return Ok(Some(Val::some(Val::View(View { buf: w.buf, s, e }))));
            }
            "is_char_boundary" => {
                let w = view!(0);
                let n = lin!(1);
                let p = st.norm(cx, &w.s.add(&n));
                if st.is_boundary(cx, w.buf, &p) { return Ok(Some(Val::b(true))) }
                let b = cx.fresh_dom("isbnd", Dom::S(Set::upto(2)));
                return Ok(Some(Val::b(st_choose(cx, st, b, |s| s.add_bnd(w.buf, p.clone()))?)));
            }
            "first" | "first_mut" => {
                let w = view!(0);
                if !st.decide(cx, &lin_cond_ge(w.len().addk(-1)))? { return Ok(Some(Val::none())) }
                return Ok(Some(Val::some(Val::BPtr(w.buf, w.s))));
            }
            "last" | "last_mut" => {
                let w = view!(0);
                if !st.decide(cx, &lin_cond_ge(w.len().addk(-1)))? { return Ok(Some(Val::none())) }
                return Ok(Some(Val::some(Val::BPtr(w.buf, w.e.addk(-1)))));
            }
            "split_first" => {
                let w = view!(0);
                if !st.decide(cx, &lin_cond_ge(w.len().addk(-1)))? { return Ok(Some(Val::none())) }
                return Ok(Some(Val::some(Val::agg(vec![Val::BPtr(w.buf, w.s.clone()), Val::View(View { buf: w.buf, s: w.s.addk(1), e: w.e })]))));
            }
            "starts_with" if on_bytes || matches!(cx.expand(a!(1)), Val::View(_) | Val::Ptr(_)) => {
                let (w, k) = (view!(0), view!(1));
                let Some(n) = st.norm(cx, &k.len()).is_const() else { return Ok(Some(fresh_bool(cx, "starts_with"))) };
                if !st.decide(cx, &lin_cond_ge(w.len().addk(-n)))? { return Ok(Some(Val::b(false))) }
                return prefix_eq(cx, st, &w, &k, n).map(Some);
            }
            "starts_with" | "ends_with" | "contains" | "is_ascii" | "eq_ignore_ascii_case" => { return Ok(Some(fresh_bool(cx, "strtest"))) }
            "bytes" => { let w = view!(0); return Ok(Some(Val::obj(Obj::Iter { kind: 1, base: w.s.clone(), view: w }))) }
            "chars" => { let w = view!(0); return Ok(Some(Val::obj(Obj::Iter { kind: 2, base: w.s.clone(), view: w }))) }
            "char_indices" => { let w = view!(0); return Ok(Some(Val::obj(Obj::Iter { kind: 3, base: w.s.clone(), view: w }))) }
            "iter" => { let w = view!(0); return Ok(Some(Val::obj(Obj::Iter { kind: 0, base: w.s.clone(), view: w }))) }
            "to_vec" | "to_owned" | "to_string" | "into_vec" => return own(cx, st, a!(0), on_str).map(Some),
            "as_ptr" => { let w = view!(0); return Ok(Some(Val::BPtr(w.buf, w.s))) }
            _ => return Ok(None),
        }
    }
    if name.contains("ops::Index<") || name.contains("ops::IndexMut<") {
        let is_str = name.contains(" for str>") || name.contains("String as");
        if is_str || name.contains(" for [u8]>") || name.contains("Vec<u8> as") || name.contains(" for [u8;") {
            let w = view!(0);
            let k = rng(inst, name).ok_or(Stop::Unsup("index".into()))?;
            if k == Rng::Idx {
                let i = lin!(1);
                oblige(cx, st, &lin_cond_ge(w.len().sub(&i).addk(-1)), "index out of bounds")?;
                return Ok(Some(Val::BPtr(w.buf, w.s.add(&i))));
            }
            let (f, t) = bounds(cx, st, k, a!(1), &w.len())?;
            return Ok(Some(Val::View(slice(cx, st, &w, f, t, is_str)?)));
        }
        if name.contains("Vec<") || on_generic_slice || name.contains("for [") {
            let (p, o) = get_obj(cx, st, a!(0))?;
            if let Obj::Vec { ty, base, elems } = &o {
                if rng(inst, name) == Some(Rng::Idx) {
                    let i = lin!(1);
                    let len = vec_len(base, elems);
                    oblige(cx, st, &lin_cond_ge(len.sub(&i).addk(-1)), "index out of bounds")?;
                    return vec_elem(cx, st, &p, *ty, base, elems, &i).map(Some);
                }
            }
        }
        return Ok(None);
    }
    if name.contains("PartialEq") && (last == "eq" || last == "ne") {
        let one = |st: &mut State, v: &Val| -> R<Option<View>> {
            if let Ok(w) = as_view(cx, st, v) { return Ok(Some(w)) }
            match text_of(cx, st, v) { Ok(w) => Ok(Some(w)), Err(Stop::Unsup(_)) => Ok(None), Err(e) => Err(e) }
        };
        let tys: Vec<String> = inst.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(format!("{}", t)) } else { None }).collect();
        let _ = tys;
        if name.contains("for str>") || name.contains("for std::borrow::Cow<'_, str>>") || name.contains("for [u8") || name.contains("str as ") || name.contains("String as") || name.contains("[u8] as") || name.contains("for std::string::String") || name.contains("array::equality") || name.contains("slice::cmp") || name.contains("impl std::cmp::PartialEq<[") || name.contains("Vec<u8> as") {
            if let (Some(x), Some(y)) = (one(st, &args[0])?, one(st, &args[1])?) {
                let v = view_eq(cx, st, &x, &y)?;
                return Ok(Some(if last == "ne" { match v { Val::Bool(c) => Val::Bool(c.not()), v => v } } else { v }));
            }
        }
        if name.contains("ops::Range<") || name.contains("std::io::") { return Ok(Some(fresh_bool(cx, "eq"))) }
        return Ok(None);
    }
    if on_generic_slice || name.starts_with("std::vec::Vec::") || name.starts_with("alloc::vec::Vec::") {
        if let Some(v) = vec_op(cx, st, name, last, inst, args, ret)? { return Ok(Some(v)) }
        return Ok(None);
    }
    if name.starts_with("<std::vec::Vec<") {
        match last {
            "deref" | "deref_mut" | "as_ref" | "borrow" | "as_mut" => {
                let (p, o) = get_obj(cx, st, a!(0))?;
                if let Obj::Str { .. } = o { return Ok(Some(Val::View(view!(0)))) }
                return Ok(Some(Val::Ptr(p)));
            }
            "default" => return Ok(Some(empty_vec(cx, ret))),
            "clone" => { let v = deref(cx, st, a!(0))?; return Ok(Some(reclone(cx, cx.expand(&v)))) }
            "drop" => return Ok(Some(Val::unit())),
            _ => return Ok(None),
        }
    }
    if name.starts_with("<std::borrow::Cow") && matches!(last, "deref" | "as_ref" | "borrow") && matches!(ret.kind(), TyKind::RigidTy(RigidTy::Ref(_, t, _)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Str))) {
        match text_of(cx, st, &args[0]) { Ok(w) => return Ok(Some(Val::View(w))), Err(Stop::Unsup(_)) => {} Err(e) => return Err(e) }
    }
    if name == "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow" { return Ok(Some(Val::View(view!(0)))) }
    if name.starts_with("<std::string::String as") {
        match last {
            "deref" | "deref_mut" | "as_ref" | "borrow" => return Ok(Some(Val::View(view!(0)))),
            "clone" => { let w = deref(cx, st, a!(0))?; return Ok(Some(reclone(cx, cx.expand(&w)))) }
            "default" => return Ok(Some(new_str(cx, true))),
            "from" | "from_str" if matches!(cx.expand(a!(0)), Val::View(_)) => return own(cx, st, a!(0), true).map(Some),
            _ => return Ok(None),
        }
    }
    if name.ends_with("ToOwned for str>::to_owned") || name.ends_with("From<&str> for std::string::String>::from") || name.ends_with("<str as std::borrow::ToOwned>::to_owned") || name.ends_with("ToOwned for [T]>::to_owned") || name.ends_with("ToOwned for [u8]>::to_owned") || name == "<str as std::string::ToString>::to_string" || name.ends_with("ToString for str>::to_string") || name.ends_with("SpecToString for str>::spec_to_string") {
        return own(cx, st, a!(0), !name.contains("[")).map(Some);
    }
    if name.starts_with("std::string::String::") || name.starts_with("alloc::string::String::") {
        match last {
            "new" | "with_capacity" => return Ok(Some(new_str(cx, true))),
            "from_utf8" => {
                let v = cx.expand(a!(0));
                if let Val::Obj(o) = &v { if let Obj::Str { len, utf8, marks, src, .. } = &**o {
                    if *utf8 { return Ok(Some(Val::ok(v.clone()))) }
                    let b = cx.fresh_dom("utf8", Dom::S(Set::upto(2)));
                    if st_choose(cx, st, b, |_| {})? {
                        return Ok(Some(Val::ok(Val::obj(Obj::Str { len: len.clone(), utf8: true, marks: marks.clone(), src: src.clone(), id: cx.fresh("string") }))));
                    }
                    return Ok(Some(Val::err(err_payload(cx, ret))));
                } }
                return Err(Stop::Unsup("from_utf8".into()));
            }
            "as_bytes" | "as_str" | "as_mut_str" => return Ok(Some(Val::View(view!(0)))),
            "len" => { let w = view!(0); return Ok(Some(Val::Int(st.norm(cx, &w.len())))) }
            "is_empty" => { let w = view!(0); return Ok(Some(Val::Bool(lin_cond_eq(st.norm(cx, &w.len()))))) }
            "into_bytes" => return Ok(Some(args[0].clone())),
            "from_utf8_unchecked" => return Ok(Some(args[0].clone())),
            "push_str" => {
                let (p, o) = get_obj(cx, st, a!(0))?;
                let w = view!(1);
                str_append(cx, st, &p, o, &w.len(), true)?;
                return Ok(Some(Val::unit()));
            }
            "push" => {
                let (p, o) = get_obj(cx, st, a!(0))?;
                let c = lin!(1);
                let w = char_width(cx, st, &c)?;
                str_append(cx, st, &p, o, &Lin::k(w), true)?;
                return Ok(Some(Val::unit()));
            }
            "reserve" | "shrink_to_fit" => return Ok(Some(Val::unit())),
            "clear" => { let p = get_ptr(cx, a!(0))?; set(cx, st, &p, new_str(cx, true))?; return Ok(Some(Val::unit())) }
            "truncate" => { return vec_op(cx, st, name, last, inst, args, ret) }
            _ => return Ok(None),
        }
    }
    match name {
        "std::str::from_utf8" | "core::str::from_utf8" | "core::str::converts::from_utf8" | "std::str::from_utf8_unchecked" | "core::str::converts::from_utf8_unchecked" => {
            let w = view!(0);
            let (utf8, kind) = { let b = &cx.bufs.borrow()[w.buf as usize]; (b.utf8, b.kind.clone()) };
            if (utf8 && st.is_boundary(cx, w.buf, &w.s) && st.is_boundary(cx, w.buf, &w.e)) || matches!(kind, BufKind::Const(_)) {
                return Ok(Some(if name.ends_with("unchecked") { Val::View(w) } else { Val::ok(Val::View(w)) }));
            }
            if name.ends_with("unchecked") {
                let nb = cx.buf(BufKind::Sym(cx.fresh("utf8buf")), w.len(), true);
                return Ok(Some(Val::View(View { buf: nb, s: Lin::k(0), e: w.len() })));
            }
            let b = cx.fresh_dom("utf8", Dom::S(Set::upto(2)));
            if st_choose(cx, st, b, |_| {})? {
                if utf8 { st.add_bnd(w.buf, w.s.clone()); st.add_bnd(w.buf, w.e.clone()); return Ok(Some(Val::ok(Val::View(w)))) }
                let id = match kind { BufKind::Sym(o) => cx.id(IdKey::Conv(o, "utf8")), _ => cx.fresh("utf8buf") };
                let whole = w.s.is_const() == Some(0);
                let id = if whole { id } else { cx.fresh("utf8buf") };
                let nb = cx.buf(BufKind::Sym(id), w.len(), true);
                return Ok(Some(Val::ok(Val::View(View { buf: nb, s: Lin::k(0), e: w.len() }))));
            }
            return Ok(Some(Val::err(err_payload(cx, ret))));
        }
        "std::mem::replace" | "core::mem::replace" => {
            let p = get_ptr(cx, a!(0))?;
            let old = st.read(cx, p.root, &p.path)?;
            set(cx, st, &p, args[1].clone())?;
            return Ok(Some(old));
        }
        "std::mem::swap" | "core::mem::swap" => {
            let (p, q) = (get_ptr(cx, a!(0))?, get_ptr(cx, a!(1))?);
            let (x, y) = (st.read(cx, p.root, &p.path)?, st.read(cx, q.root, &q.path)?);
            set(cx, st, &p, y)?;
            set(cx, st, &q, x)?;
            return Ok(Some(Val::unit()));
        }
        "std::mem::drop" | "core::mem::drop" | "std::mem::forget" | "core::mem::forget" => return Ok(Some(Val::unit())),
        "std::ptr::read" | "core::ptr::read" => return deref(cx, st, a!(0)).map(Some),
        "std::ptr::write" | "core::ptr::write" => { let p = get_ptr(cx, a!(0))?; set(cx, st, &p, args[1].clone())?; return Ok(Some(Val::unit())) }
        "std::ptr::drop_in_place" | "core::ptr::drop_in_place" | "std::ptr::drop_glue" => return Ok(Some(Val::unit())),
        "std::intrinsics::discriminant_value" | "core::intrinsics::discriminant_value" => {
            let p = get_ptr(cx, a!(0))?;
            let v = st.read(cx, p.root, &p.path)?;
            let ty = ty_arg(inst, 0).ok_or(Stop::Unsup("disc".into()))?;
            return discriminant(cx, st, &v, ty).map(Some);
        }
        "std::intrinsics::cold_path" | "core::intrinsics::cold_path" => return Ok(Some(Val::unit())),
        "std::intrinsics::likely" | "std::intrinsics::unlikely" | "core::intrinsics::likely" | "core::intrinsics::unlikely" => return Ok(Some(args[0].clone())),
        "std::intrinsics::unreachable" | "core::intrinsics::unreachable" | "std::hint::unreachable_unchecked" | "core::hint::unreachable_unchecked" => return Err(Stop::Dead),
        "std::intrinsics::assume" | "core::intrinsics::assume" | "std::hint::assert_unchecked" | "core::hint::assert_unchecked" => {
            let c = to_cond(cx, st, a!(0))?;
            let mut r = st.assume(cx, &c, true);
            if r.is_empty() { return Err(Stop::Dead) }
            if r.len() == 1 { *st = r.pop().unwrap() }
            return Ok(Some(Val::unit()));
        }
        "std::hint::black_box" | "core::hint::black_box" | "std::convert::identity" | "core::convert::identity" => return Ok(Some(args[0].clone())),
        "atoi::atoi" => {
            let b = cx.fresh_dom("atoi", Dom::S(Set::upto(2)));
            if !st_choose(cx, st, b, |_| {})? { return Ok(Some(Val::none())) }
            let t = ty_arg(inst, 0).ok_or(Stop::Unsup("atoi".into()))?;
            return Ok(Some(Val::some(Val::Top(t, cx.fresh("atoi")))));
        }
        "std::boxed::Box::new" | "alloc::boxed::Box::new" | "std::boxed::Box::pin" => return Ok(Some(alloc_cell(cx, st, args[0].clone()))),
        "<std::hash::RandomState as std::default::Default>::default" | "std::hash::RandomState::new" => return Ok(Some(Val::Zst)),
        _ => {}
    }
    if name.starts_with("std::cell::UnsafeCell::") || name.starts_with("core::cell::UnsafeCell::") {
        match last {
            "get" | "get_mut" | "raw_get" => { let mut p = get_ptr(cx, a!(0))?; p.path.push(Pe::F(0)); return Ok(Some(Val::Ptr(p))) }
            _ => return Ok(None),
        }
    }
    if name.starts_with("std::num::NonZero::") || name.starts_with("core::num::NonZero::") || name.contains("num::nonzero::NonZero::") {
        match last {
            "new" => {
                let l = lin!(0);
                if st.decide(cx, &lin_cond_eq(l.clone()))? { return Ok(Some(Val::none())) }
                return Ok(Some(Val::some(Val::Int(l))));
            }
            "new_unchecked" | "get" => return Ok(Some(cx.expand(a!(0)))),
            _ => return Ok(None),
        }
    }
    // ---- integers
    if name.starts_with("core::num::<impl ") || name.starts_with("std::num::<impl ") {
        let ity = ret;
        match last {
            "checked_add" | "checked_sub" | "checked_mul" => {
                let op = match last { "checked_add" => BinOp::Add, "checked_sub" => BinOp::Sub, _ => BinOp::Mul };
                let t = match ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return Ok(None) }, _ => return Ok(None) };
                let (v, ov) = checked(cx, st, op, a!(0), a!(1), t)?;
                if st.decide(cx, &ov)? { return Ok(Some(Val::none())) }
                return Ok(Some(Val::some(v)));
            }
            "saturating_sub" => {
                let (x, y) = (lin!(0), lin!(1));
                if st.decide(cx, &lin_cond_ge(x.sub(&y)))? { return Ok(Some(Val::Int(x.sub(&y)))) }
                let d = int_dom(ity).map(|d| d.min()).unwrap_or(0);
                return Ok(Some(Val::k(d)));
            }
            "saturating_add" | "wrapping_add" | "overflowing_add" if last != "overflowing_add" => {
                return binop(cx, st, BinOp::Add, a!(0), a!(1), ity).map(Some);
            }
            "wrapping_sub" => return binop(cx, st, BinOp::Sub, a!(0), a!(1), ity).map(Some),
            "wrapping_mul" => return binop(cx, st, BinOp::Mul, a!(0), a!(1), ity).map(Some),
            "next_power_of_two" => { let l = lin!(0); let mn = st.min(cx, &l).max(1); return Ok(Some(Val::Int(Lin::sym(cx.fresh_dom("pow2", Dom::R(mn, POS_INF)))))) }
            "leading_ones" | "leading_zeros" if name.contains("<impl u8>") => {
                let l = lin!(0);
                for k in 0..8i128 {
                    let c = if last == "leading_ones" { Lin::k(255 - (1 << (7 - k))).sub(&l) } else { l.addk(-(1 << (7 - k))) };
                    if st.decide(cx, &lin_cond_ge(c))? { return Ok(Some(Val::k(k))) }
                }
                return Ok(Some(Val::k(8)));
            }
            "abs_diff" => {
                let (x, y) = (lin!(0), lin!(1));
                if st.decide(cx, &lin_cond_ge(x.sub(&y)))? { return Ok(Some(Val::Int(x.sub(&y)))) }
                return Ok(Some(Val::Int(y.sub(&x))));
            }
            _ => return Ok(None),
        }
    }
    if name.starts_with("std::cmp::impls::<impl std::cmp::") || name.starts_with("core::cmp::impls::<impl core::cmp::") {
        if name.contains("Ord for ") && (last == "min" || last == "max") {
            let (x, y) = (lin!(0), lin!(1));
            let c = st.decide(cx, &lin_cond_ge(y.sub(&x)))?;
            return Ok(Some(Val::Int(if c == (last == "min") { x } else { y })));
        }
        return Ok(None);
    }
    if name == "std::cmp::min" || name == "std::cmp::max" || name == "core::cmp::min" || name == "core::cmp::max" {
        if let (Ok(x), Ok(y)) = (to_lin(cx, st, a!(0)), to_lin(cx, st, a!(1))) {
            let c = st.decide(cx, &lin_cond_ge(y.sub(&x)))?;
            return Ok(Some(Val::Int(if c == (last == "min") { x } else { y })));
        }
        return Ok(None);
    }
    // ---- characters
    if name == "std::char::from_u32" || name == "core::char::from_u32" || name.ends_with("char::convert::from_u32") || name.ends_with("<impl char>::from_u32") {
        let l = match cx.expand(a!(0)) { Val::Int(l) => l, _ => lin!(0) };
        if !st.decide(cx, &lin_cond_ge(Lin::k(0x10FFFF).sub(&l)))? { return Ok(Some(Val::none())) }
        if st.decide(cx, &lin_cond_ge(Lin::k(0xD7FF).sub(&l)))? { return Ok(Some(Val::some(Val::Int(l)))) }
        if st.decide(cx, &lin_cond_ge(Lin::k(0xDFFF).sub(&l)))? { return Ok(Some(Val::none())) }
        return Ok(Some(Val::some(Val::Int(l))));
    }
    if name.contains("<impl char>::") {
        match last {
            "to_digit" => if let Some(r) = lin!(1).is_const() {
                let l = lin!(0);
                let hex = |x: usize| (x as u8 as char).to_digit(r.clamp(2, 36) as u32);
                if !st.decide(cx, &lin_cond_ge(Lin::k(0x7F).sub(&l)))? { return Ok(Some(Val::none())) }
                if let Some(k) = l.is_const() { return Ok(Some(match hex(k as usize) { Some(d) => Val::some(Val::k(d as i128)), None => Val::none() })) }
                if let Some(i) = l.as_sym() {
                    if let Dom::S(_) = st.domain(cx, i) {
                        if !st.decide(cx, &Cond::In(i, Set::from_fn(|x| x < 128 && hex(x).is_some())))? { return Ok(Some(Val::none())) }
                        let t: Vec<i128> = (0..256).map(|x| if x < 128 { hex(x).unwrap_or(0) as i128 } else { 0 }).collect();
                        return Ok(Some(Val::some(Val::Tab(i, Rc::new(t)))));
                    }
                }
                return Ok(None);
            },
            "len_utf8" => { let l = lin!(0); return Ok(Some(Val::k(char_width(cx, st, &l)?))) }
            "encode_utf8" => {
                let l = lin!(0);
                let w = char_width(cx, st, &l)?;
                if let Ok(v) = as_view(cx, st, a!(1)) { oblige(cx, st, &lin_cond_ge(v.len().addk(-w)), "encode_utf8 buffer too small")?; }
                let id = cx.fresh("utf8char");
                let b = cx.buf(BufKind::Sym(id), Lin::k(w), true);
                return Ok(Some(Val::View(View { buf: b, s: Lin::k(0), e: Lin::k(w) })));
            }
            _ => return Ok(None),
        }
    }
    // ---- ranges
    if name.contains("Iterator for std::ops::Range<") && last == "next" || (name.starts_with("<std::ops::Range<") && last == "next") {
        let p = get_ptr(cx, a!(0))?;
        let v = st.read(cx, p.root, &p.path)?;
        if let Val::Agg(x) = cx.expand(&v) {
            let (s, e) = (to_lin(cx, st, &x[0])?, to_lin(cx, st, &x[1])?);
            if !st.decide(cx, &lin_cond_ge(e.sub(&s).addk(-1)))? { return Ok(Some(Val::none())) }
            set(cx, st, &p, Val::agg(vec![Val::Int(s.addk(1)), Val::Int(e)]))?;
            return Ok(Some(Val::some(Val::Int(s))));
        }
        return Err(Stop::Unsup("range next".into()));
    }
    // ---- iterators
    if last == "into_iter" && args.len() == 1 {
        if let Val::Obj(o) = cx.expand(a!(0)) { if let Obj::Iter { .. } = &*o { return Ok(Some(args[0].clone())) } }
        if name.contains("for &[u8]") || name.contains("for &'a [T]") { if let Ok(w) = as_view(cx, st, a!(0)) { return Ok(Some(Val::obj(Obj::Iter { kind: 0, base: w.s.clone(), view: w }))) } }
    }
    if last == "next" && args.len() == 1 {
        if let Val::Ptr(_) = cx.expand(a!(0)) {
            if let Ok((p, o)) = get_obj(cx, st, a!(0)) {
                match o {
                    Obj::Iter { kind, view, base } => return iter_next(cx, st, &p, kind, view, base).map(Some),
                    Obj::Other { tag: "arrayiter", ty, vals } => {
                        if vals.is_empty() { return Ok(Some(Val::none())) }
                        set(cx, st, &p, Val::obj(Obj::Other { tag: "arrayiter", ty, vals: vals[1..].to_vec() }))?;
                        return Ok(Some(Val::some(vals[0].clone())));
                    }
                    Obj::Other { tag: "mapiter", .. } => {
                        // unknown number of unknown entries
                        let b = cx.fresh_dom("mapnext", Dom::S(Set::upto(2)));
                        if st_choose(cx, st, b, |_| {})? {
                            let t = match ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return Ok(None) }, _ => return Ok(None) };
                            return Ok(Some(Val::some(Val::Top(t, cx.fresh("entry")))));
                        }
                        return Ok(Some(Val::none()));
                    }
                    _ => {}
                }
            }
        }
    }
    if (last == "copied" || last == "cloned") && name.contains("Iterator") && args.len() == 1 {
        if let Val::Obj(o) = cx.expand(a!(0)) { if let Obj::Iter { kind: 0, view, base } = &*o { return Ok(Some(Val::obj(Obj::Iter { kind: 1, view: view.clone(), base: base.clone() }))) } }
    }
    // ---- maps
    if let Some(v) = map_op(cx, st, name, inst, last, args, ret)? { return Ok(Some(v)) }
    // ---- heap
    if name.contains("collections::BinaryHeap") || name.contains("binary_heap::BinaryHeap") {
        match last {
            "new" | "default" | "with_capacity" => return Ok(Some(Val::obj(Obj::Heap { ty: ret, id: cx.fresh("heap"), len: Lin::k(0) }))),
            "len" | "is_empty" => {
                let (_, o) = get_obj(cx, st, a!(0))?;
                if let Obj::Heap { len, .. } = o { let l = st.norm(cx, &len); return Ok(Some(if last == "len" { Val::Int(l) } else { Val::Bool(lin_cond_eq(l)) })) }
            }
            "push" => {
                let (p, o) = get_obj(cx, st, a!(0))?;
                if let Obj::Heap { ty, len, .. } = o { set(cx, st, &p, Val::obj(Obj::Heap { ty, id: cx.fresh("heap"), len: len.addk(1) }))?; return Ok(Some(Val::unit())) }
            }
            "pop" => {
                let (p, o) = get_obj(cx, st, a!(0))?;
                if let Obj::Heap { ty, len, .. } = o {
                    if !st.decide(cx, &lin_cond_ge(len.addk(-1)))? { return Ok(Some(Val::none())) }
                    set(cx, st, &p, Val::obj(Obj::Heap { ty, id: cx.fresh("heap"), len: len.addk(-1) }))?;
                    let t = match ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return Ok(None) }, _ => return Ok(None) };
                    return Ok(Some(Val::some(Val::Top(t, cx.fresh("popped")))));
                }
            }
            _ => {}
        }
        return Ok(None);
    }
    // ---- io
    if name.ends_with("io::Read>::read") || name.ends_with("std::io::Read::read") {
        let w = view!(1);
        let b = cx.fresh_dom("readok", Dom::S(Set::upto(2)));
        if !st_choose(cx, st, b, |_| {})? { return Ok(Some(Val::err(err_payload(cx, ret)))) }
        let n = Lin::sym(cx.fresh_dom("nread", Dom::R(0, i64::MAX as i128)));
        if !st.assume_ge0(cx, &w.len().sub(&n)) { return Err(Stop::Dead) }
        return Ok(Some(Val::ok(Val::Int(n))));
    }
    if !name.contains("yary::") && (name.contains("std::io::Error") || name.contains("io::error::")) {
        if matches!(last, "new" | "other" | "from" | "kind" | "into") { return Ok(Some(Val::Top(ret, cx.fresh("ioerr")))) }
    }
    if name.contains("Utf8Error::") && !name.contains("yary::") { return Ok(Some(Val::Top(ret, cx.fresh("utf8err")))) }
    if name.ends_with("ToString>::to_string") && args.len() == 1 && !name.contains("yary::") {
        // text made from text is the same text
        let mut n = st.clone();
        match text_of(cx, &mut n, a!(0)) {
            Ok(w) => { *st = n; let len = w.len(); return Ok(Some(Val::obj(Obj::Str { len, utf8: true, marks: vec![], src: Some(w), id: cx.fresh("text") }))) }
            Err(Stop::Fork(a)) => return Err(Stop::Fork(a)),
            _ => {}
        }
    }
    if name == "std::fmt::format" || name == "alloc::fmt::format" || name.ends_with("ToString>::to_string") {
        let l = cx.fresh_dom("fmtlen", Dom::R(0, i64::MAX as i128));
        return Ok(Some(Val::obj(Obj::Str { len: Lin::sym(l), utf8: true, marks: vec![], src: None, id: cx.fresh("fmt") })));
    }
    Ok(None)
}

/// A free choice: forks until the choice symbol is decided in the state.
pub fn st_choose(cx: &Cx, st: &mut State, b: Id, f: impl Fn(&mut State)) -> R<bool> {
    // the call is re-run on every alternative and would draw a new symbol, so
    // the decision is remembered under the call's site in the ghost state
    let _ = b;
    if let Some(Val::Bool(Cond::K(v))) = st.ghost.get("choice").cloned() {
        Rc::make_mut(&mut st.ghost).remove("choice");
        if v { f(st) }
        return Ok(v);
    }
    let mut x = st.clone();
    let mut y = st.clone();
    x.ghost_set("choice", Val::b(true));
    y.ghost_set("choice", Val::b(false));
    let _ = cx;
    Err(Stop::Fork(vec![x, y]))
}

pub fn err_payload(cx: &Cx, ret: Ty) -> Val {
    match ret.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).nth(1) { Some(t) => Val::Top(t, cx.fresh("err")), None => Val::Undef },
        _ => Val::Undef,
    }
}

fn own(cx: &Cx, st: &mut State, v: &Val, _utf8: bool) -> R<Val> {
    let w = as_view(cx, st, v)?;
    let utf8 = cx.bufs.borrow()[w.buf as usize].utf8 && st.is_boundary(cx, w.buf, &w.s) && st.is_boundary(cx, w.buf, &w.e);
    Ok(Val::obj(Obj::Str { len: st.norm(cx, &w.len()), utf8, marks: vec![], src: Some(w), id: cx.fresh("owned") }))
}
fn reclone(cx: &Cx, v: Val) -> Val {
    match &v {
        Val::Obj(o) => match &**o {
            Obj::Str { len, utf8, marks, src, id } => Val::obj(Obj::Str { len: len.clone(), utf8: *utf8, marks: marks.clone(), src: src.clone(), id: { let _ = cx; *id } }),
            _ => v.clone(),
        },
        _ => v,
    }
}
pub fn empty_vec(cx: &Cx, ty: Ty) -> Val {
    if let TyKind::RigidTy(RigidTy::Adt(_, a)) = ty.kind() { if let Some(GenericArgKind::Type(t)) = a.0.first() { if is_u8(*t) { return new_str(cx, false) } } }
    Val::obj(Obj::Vec { ty, base: None, elems: vec![] })
}
fn elem_ty(ty: Ty) -> R<Ty> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() { Some(GenericArgKind::Type(t)) => Ok(*t), _ => Err(Stop::Unsup("vec type".into())) }, _ => Err(Stop::Unsup("vec type".into())) }
}
fn vec_elem(cx: &Cx, st: &mut State, p: &Ptr, ty: Ty, base: &Option<(Id, Lin)>, elems: &[Val], i: &Lin) -> R<Val> {
    let b = base.as_ref().map(|x| x.1.clone()).unwrap_or(Lin::k(0));
    let at = |k: usize| { let mut q = p.clone(); q.path.push(Pe::E(k as u32)); Val::Ptr(q) };
    if elems.is_empty() && base.is_some() && st.prove_eq0(cx, &b.sub(i).addk(-1)) {
        // the last one
        let o = Obj::Vec { ty, base: base.clone(), elems: vec![] };
        if expose_last(cx, st, p, &o)? { return Ok(at(0)) }
    }
    if !elems.is_empty() && st.decide(cx, &lin_cond_ge(i.sub(&b)))? {
        for k in 0..elems.len() { if k + 1 == elems.len() || st.decide(cx, &lin_cond_eq(i.sub(&b).addk(-(k as i128))))? { return Ok(at(k)) } }
    }
    Ok(alloc_cell(cx, st, Val::Top(elem_ty(ty)?, cx.fresh("elem"))))
}

fn vec_op(cx: &Cx, st: &mut State, name: &str, last: &str, inst: Instance, args: &[Val], ret: Ty) -> R<Option<Val>> {
    match last {
        "new" | "with_capacity" => return Ok(Some(empty_vec(cx, ret))),
        _ => {}
    }
    if args.is_empty() { return Ok(None) }
    if !matches!(last, "push" | "pop" | "len" | "is_empty" | "clear" | "truncate" | "last" | "last_mut" | "first" | "first_mut" | "extend_from_slice" | "as_slice" | "as_mut_slice" | "reserve" | "get" | "get_mut" | "iter" | "capacity" | "append" | "append_elements" | "push_mut" | "shrink_to_fit" | "insert" | "resize" | "into_boxed_slice" | "split_off") { return Ok(None) }
    let (p, o) = match get_obj(cx, st, &args[0]) {
        Ok(x) => x,
        Err(e) => {
            // slices of arrays
            if let Val::Ptr(p) = cx.expand(&args[0]) {
                if let Ok(v) = st.read(cx, p.root, &p.path) { if let Val::Agg(a) = cx.expand(&v) {
                    match last {
                        "len" => return Ok(Some(Val::k(a.len() as i128))),
                        "is_empty" => return Ok(Some(Val::b(a.is_empty()))),
                        "first" | "last" => {
                            if a.is_empty() { return Ok(Some(Val::none())) }
                            let mut q = p.clone();
                            q.path.push(Pe::F(if last == "first" { 0 } else { a.len() as u32 - 1 }));
                            return Ok(Some(Val::some(Val::Ptr(q))));
                        }
                        _ => {}
                    }
                } }
            }
            return Err(e);
        }
    };
    match &o {
        Obj::Str { len, utf8, marks, .. } => {
            match last {
                "push" => {
                    let b = cx.expand(&args[1]);
                    let ascii = match &b {
                        Val::Int(l) => { let l = st.norm(cx, l); st.min(cx, &l) >= 0 && (st.max(cx, &l) < 0x80) }
                        Val::Tab(i, t) => st.set_of(cx, *i).iter().all(|x| t[x] < 0x80),
                        _ => false,
                    };
                    str_append(cx, st, &p, o.clone(), &Lin::k(1), ascii)?;
                    Ok(Some(Val::unit()))
                }
                "extend_from_slice" => {
                    let w = as_view(cx, st, &args[1])?;
                    let ok = cx.bufs.borrow()[w.buf as usize].utf8 && st.is_boundary(cx, w.buf, &w.s) && st.is_boundary(cx, w.buf, &w.e);
                    let ok = ok || st.prove_eq0(cx, &w.len());
                    str_append(cx, st, &p, o.clone(), &w.len(), ok)?;
                    Ok(Some(Val::unit()))
                }
                "truncate" => {
                    let n = to_lin(cx, st, &args[1])?;
                    if !st.decide(cx, &lin_cond_ge(len.sub(&n)))? { return Ok(Some(Val::unit())) }
                    let at = marks.iter().any(|m| st.prove_eq0(cx, &m.sub(&n))) || st.prove_eq0(cx, &n) || st.prove_eq0(cx, &n.sub(len));
                    if name.contains("String") && !at { raise(cx, st, &cx.own_func(), "truncate not on a character boundary", "") }
                    let nm: Vec<Lin> = marks.iter().filter(|m| st.prove(cx, &n.sub(m))).cloned().collect();
                    set(cx, st, &p, Val::obj(Obj::Str { len: n, utf8: *utf8 && at, marks: nm, src: None, id: cx.fresh("str") }))?;
                    Ok(Some(Val::unit()))
                }
                "len" => Ok(Some(Val::Int(st.norm(cx, len)))),
                "is_empty" => Ok(Some(Val::Bool(lin_cond_eq(st.norm(cx, len))))),
                "clear" => { set(cx, st, &p, new_str(cx, false))?; Ok(Some(Val::unit())) }
                "pop" => {
                    if !st.decide(cx, &lin_cond_ge(len.addk(-1)))? { return Ok(Some(Val::none())) }
                    let n = len.addk(-1);
                    let at = marks.iter().any(|m| st.prove_eq0(cx, &m.sub(&n)));
                    let nm: Vec<Lin> = marks.iter().filter(|m| st.prove(cx, &n.sub(m))).cloned().collect();
                    set(cx, st, &p, Val::obj(Obj::Str { len: n, utf8: *utf8 && at, marks: nm, src: None, id: cx.fresh("str") }))?;
                    Ok(Some(Val::some(Val::Int(Lin::sym(cx.fresh_dom("byte", Dom::S(Set::full())))))))
                }
                "split_off" => {
                    let n = to_lin(cx, st, &args[1])?;
                    if !st.decide(cx, &lin_cond_ge(len.sub(&n)))? { raise(cx, st, &cx.own_func(), "split_off beyond the end", ""); return Err(Stop::Dead) }
                    let at = marks.iter().any(|m| st.prove_eq0(cx, &m.sub(&n))) || st.prove_eq0(cx, &n) || st.prove_eq0(cx, &n.sub(len));
                    if name.contains("String") && !at { raise(cx, st, &cx.own_func(), "split_off not on a character boundary", "") }
                    let rest = Val::obj(Obj::Str { len: len.sub(&n), utf8: *utf8 && at, marks: vec![], src: None, id: cx.fresh("str") });
                    set(cx, st, &p, Val::obj(Obj::Str { len: n, utf8: *utf8 && at, marks: vec![], src: None, id: cx.fresh("str") }))?;
                    Ok(Some(rest))
                }
                "append" => {
                    let (q, o2) = get_obj(cx, st, &args[1])?;
                    let Obj::Str { len: l2, utf8: u2, .. } = o2 else { return Ok(None) };
                    str_append(cx, st, &p, o.clone(), &l2, u2)?;
                    set(cx, st, &q, Val::obj(Obj::Str { len: Lin::k(0), utf8: u2, marks: vec![Lin::k(0)], src: None, id: cx.fresh("str") }))?;
                    Ok(Some(Val::unit()))
                }
                "as_slice" | "as_mut_slice" => { let w = as_view(cx, st, &args[0])?; Ok(Some(Val::View(w))) }
                "iter" => { let w = as_view(cx, st, &args[0])?; Ok(Some(Val::obj(Obj::Iter { kind: 0, base: w.s.clone(), view: w }))) }
                "reserve" | "shrink_to_fit" => Ok(Some(Val::unit())),
                _ => Ok(None),
            }
        }
        Obj::Vec { ty, base, elems } => match last {
            "push" => {
                let mut e = elems.clone();
                e.push(args[1].clone());
                set(cx, st, &p, Val::obj(Obj::Vec { ty: *ty, base: base.clone(), elems: e }))?;
                Ok(Some(Val::unit()))
            }
            "pop" => {
                if !expose_last(cx, st, &p, &o)? { return Ok(Some(Val::none())) }
                let (_, o) = get_obj(cx, st, &args[0])?;
                let Obj::Vec { ty, base, mut elems } = o else { return Ok(None) };
                let v = elems.pop().unwrap();
                set(cx, st, &p, Val::obj(Obj::Vec { ty, base, elems }))?;
                Ok(Some(Val::some(v)))
            }
            "last" | "last_mut" => {
                if !expose_last(cx, st, &p, &o)? { return Ok(Some(Val::none())) }
                let (_, o) = get_obj(cx, st, &args[0])?;
                let Obj::Vec { elems, .. } = o else { return Ok(None) };
                let mut q = p.clone();
                q.path.push(Pe::E(elems.len() as u32 - 1));
                Ok(Some(Val::some(Val::Ptr(q))))
            }
            "first" | "first_mut" => {
                if !st.decide(cx, &lin_cond_ge(vec_len(base, elems).addk(-1)))? { return Ok(Some(Val::none())) }
                vec_elem(cx, st, &p, *ty, base, elems, &Lin::k(0)).map(|v| Some(Val::some(v)))
            }
            "len" => Ok(Some(Val::Int(st.norm(cx, &vec_len(base, elems))))),
            "is_empty" => Ok(Some(Val::Bool(lin_cond_eq(st.norm(cx, &vec_len(base, elems)))))),
            "clear" => { set(cx, st, &p, Val::obj(Obj::Vec { ty: *ty, base: None, elems: vec![] }))?; Ok(Some(Val::unit())) }
            "as_slice" | "as_mut_slice" => Ok(Some(Val::Ptr(p))),
            "reserve" | "shrink_to_fit" => Ok(Some(Val::unit())),
            "get" | "get_mut" if rng(inst, name) == Some(Rng::Idx) => {
                let i = to_lin(cx, st, &args[1])?;
                if !st.decide(cx, &lin_cond_ge(vec_len(base, elems).sub(&i).addk(-1)))? { return Ok(Some(Val::none())) }
                vec_elem(cx, st, &p, *ty, base, elems, &i).map(|v| Some(Val::some(v)))
            }
            _ => Ok(None),
        },
        _ => Ok(None),
    }
}

pub fn empty_map(cx: &Cx, ty: Ty) -> Val { Val::obj(Obj::Map { ty, base: cx.id_l(IdKey::Conv(0, "emptymap"), "emptymap".into()), log: vec![] }) }

fn map_op(cx: &Cx, st: &mut State, name: &str, inst: Instance, last: &str, args: &[Val], ret: Ty) -> R<Option<Val>> {
    let is_map = name.contains("collections::HashMap") || name.contains("collections::BTreeMap") || name.contains("hash_map::") || name.contains("collections::HashSet") || name.contains("collections::BTreeSet");
    if is_map {
        match last {
            "new" | "default" | "with_capacity" | "with_hasher" => if std_kind_of(ret) == StdKind::Map { return Ok(Some(empty_map(cx, ret))) },
            "clone" => { let v = deref(cx, st, &args[0])?; return Ok(Some(cx.expand(&v))) }
            "get" | "get_mut" | "contains_key" | "contains" | "remove" => {
                let (p, o) = get_obj(cx, st, &args[0])?;
                if let Obj::Map { ty, base, mut log } = o {
                    let k = match cx.expand(&args[1]) { Val::Ptr(q) => st.read(cx, q.root, &q.path)?, v => v };
                    if last == "remove" {
                        log.push((3, k, Val::Undef));
                        set(cx, st, &p, Val::obj(Obj::Map { ty, base, log }))?;
                        return Ok(Some(Val::Top(ret, cx.fresh("removed"))));
                    }
                    if last.starts_with("contains") { return Ok(Some(fresh_bool(cx, "contains"))) }
                    if !st_choose(cx, st, 0, |_| {})? { return Ok(Some(Val::none())) }
                    let t = elem_ty(ret)?; // Option<&V>
                    return Ok(Some(Val::some(Val::Top(t, cx.fresh("mapval")))));
                }
            }
            "insert" => {
                let (p, o) = get_obj(cx, st, &args[0])?;
                if let Obj::Map { ty, base, mut log } = o {
                    let fresh = st_choose(cx, st, 0, |_| {})?;
                    log.push((if fresh { 1 } else { 2 }, args[1].clone(), args.get(2).cloned().unwrap_or(Val::Undef)));
                    set(cx, st, &p, Val::obj(Obj::Map { ty, base, log }))?;
                    if let TyKind::RigidTy(RigidTy::Bool) = ret.kind() { return Ok(Some(Val::b(fresh))) }
                    if fresh { return Ok(Some(Val::none())) }
                    return Ok(Some(Val::some(Val::Top(elem_ty(ret)?, cx.fresh("displaced")))));
                }
            }
            "entry" => return Ok(Some(Val::obj(Obj::Other { tag: "mapentry", ty: ret, vals: vec![args[0].clone(), args[1].clone()] }))),
            "or_insert" | "or_insert_with" | "or_default" => {
                if let Val::Obj(e) = cx.expand(&args[0]) { if let Obj::Other { tag: "mapentry", vals, .. } = &*e {
                    let (p, o) = get_obj(cx, st, &vals[0])?;
                    if let Obj::Map { ty, base, mut log } = o {
                        log.push((4, vals[1].clone(), args.get(1).cloned().unwrap_or(Val::Undef)));
                        set(cx, st, &p, Val::obj(Obj::Map { ty, base, log }))?;
                        return Ok(Some(Val::Top(ret, cx.fresh("orinsert"))));
                    }
                } }
            }
            "iter" | "keys" | "values" | "into_iter" | "drain" => {
                let v = match cx.expand(&args[0]) { Val::Ptr(q) => st.read(cx, q.root, &q.path)?, v => v };
                let v = cx.expand(&v);
                if let Val::Obj(o) = &v { if let Obj::Map { .. } = &**o { return Ok(Some(Val::obj(Obj::Other { tag: "mapiter", ty: ret, vals: vec![v.clone()] }))) } if let Obj::Other { .. } = &**o { return Ok(Some(v.clone())) } }
            }
            "len" => return Ok(Some(Val::Int(Lin::sym(cx.fresh_dom("maplen", Dom::R(0, i64::MAX as i128)))))),
            "is_empty" => return Ok(Some(fresh_bool(cx, "mapempty"))),
            "clear" => { let (p, o) = get_obj(cx, st, &args[0])?; if let Obj::Map { ty, .. } = o { set(cx, st, &p, empty_map(cx, ty))?; return Ok(Some(Val::unit())) } }
            "extend" => {
                let (p, o) = get_obj(cx, st, &args[0])?;
                if let Obj::Map { ty, base, mut log } = o {
                    log.push((5, args[1].clone(), Val::Undef));
                    set(cx, st, &p, Val::obj(Obj::Map { ty, base, log }))?;
                    return Ok(Some(Val::unit()));
                }
            }
            "from" | "from_iter" => {
                if let Val::Agg(a) = cx.expand(&args[0]) { return Ok(Some(map_from(cx, st, ret, &a)?)) }
            }
            _ => {}
        }
    }
    // lazily mapped map iterators
    if last == "map" && args.len() == 2 {
        if let Val::Obj(o) = cx.expand(&args[0]) { if let Obj::Other { tag: "mapiter", vals, .. } = &*o {
            let fty = inst.args().0.iter().rev().find_map(|a| if let GenericArgKind::Type(t) = a { Some(Val::Top(*t, 0)) } else { None }).unwrap_or(Val::Undef);
            return Ok(Some(Val::obj(Obj::Other { tag: "mapmap", ty: ret, vals: vec![vals[0].clone(), args[1].clone(), fty] })));
        } }
    }
    if last == "into_iter" && name.contains("array") {
        if let Val::Agg(a) = cx.expand(&args[0]) { return Ok(Some(Val::obj(Obj::Other { tag: "arrayiter", ty: ret, vals: a.to_vec() }))) }
    }
    if (last == "collect" || last == "from_iter") && std_kind_of(ret) == StdKind::Map {
        if let Val::Obj(o) = cx.expand(&args[0]) {
            match &*o {
                Obj::Other { tag: "mapmap", vals, .. } => {
                    if let Val::Obj(m) = &vals[0] { if let Obj::Map { base, log, .. } = &**m {
                        return Ok(Some(Val::obj(Obj::Map { ty: ret, base: cx.id(IdKey::Conv(*base, "mapped")), log: log.clone() })));
                    } }
                }
                Obj::Other { tag: "mapiter", vals, .. } => return Ok(Some(vals[0].clone())),
                Obj::Other { tag: "arrayiter", vals, .. } => return Ok(Some(map_from(cx, st, ret, vals)?)),
                _ => {}
            }
        }
    }
    Ok(None)
}
fn map_from(cx: &Cx, _st: &mut State, ty: Ty, items: &[Val]) -> R<Val> {
    let mut log = vec![];
    for i in items {
        match cx.expand(i) { Val::Agg(kv) if kv.len() == 2 => log.push((1u8, kv[0].clone(), kv[1].clone())), _ => return Err(Stop::Unsup("map items".into())) }
    }
    Ok(Val::obj(Obj::Map { ty, base: cx.id_l(IdKey::Conv(0, "emptymap"), "emptymap".into()), log }))
}
pub fn std_kind_of(t: Ty) -> StdKind { info(t).std }
